package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

var shapes = [][]lib.Pt{lib.Bay, lib.Arch, lib.Zig(5), lib.Hook, lib.Ess}

// constraints is the geometries the lines share.
func constraints() []geometry.IGeometry {
	return []geometry.IGeometry{
		geometry.CreatePoint("p", []float64{6, 7}, ""),
		lib.Line("l", []lib.Pt{{9, 4}, {9, 14}}),
		lib.Tri.At(4, 3).Geom(),
	}
}

type run struct {
	ds    []*constdp.ConstDP
	lines [][]lib.Pt
	whole []int // how often each line was scored as a whole
}

func forest(id *iter.Igen, o *opts.Opts, lines [][]lib.Pt) *run {
	r := &run{lines: lines, whole: make([]int, len(lines))}
	var cs []geometry.IGeometry
	if o.GeomRelation {
		cs = constraints()
	}
	for i, ps := range lines {
		i, n := i, len(ps)
		score := func(c geom.Coords) (int, float64) {
			if c.Len() == n {
				r.whole[i]++
			}
			sym.Jitter()
			return lib.Score(c)
		}
		r.ds = append(r.ds, constdp.NewConstDP(id.Next(), lib.Line(sym.Str(i), ps), cs, o, score))
	}
	return r
}

// single is what each line simplifies to on its own, and how often the whole
// line is scored for that.
func single(o *opts.Opts, lines [][]lib.Pt, junctions [][]int) (r [][]int, whole []int) {
	for i, ps := range lines {
		id := iter.NewIgen()
		f := forest(id, o, [][]lib.Pt{ps})
		f.ds[0].Simplify(id, junctions[i])
		r = append(r, lib.Kept(f.ds[0]))
		whole = append(whole, f.whole[0])
	}
	return
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pick(n, from int) ([][]lib.Pt, [][]int) {
	var lines [][]lib.Pt
	var junctions [][]int
	for i := 0; i < n; i++ {
		k := (i + from) % len(shapes)
		lines = append(lines, lib.Shift(shapes[k], 0, float64(i/len(shapes))))
		var j []int
		if i%3 == 1 {
			j = []int{2}
		}
		junctions = append(junctions, j)
	}
	return lines, junctions
}

func options() *opts.Opts {
	o := &opts.Opts{Threshold: sym.Grid("t", 2, 7), MinDist: 1, NonPlanarDisplacement: 1}
	if sym.ConcBool(sym.Bool("relations")) {
		o.GeomRelation, o.DistRelation, o.DirRelation = true, true, true
	}
	return o
}

// schedules is the default schedule with a watch for data races, or all
// schedules near it.
func schedules(delays int) {
	if delays == 0 || sym.Choose("races", 2) == 1 {
		sym.Races()
	} else {
		sym.Schedules(delays)
	}
}

func instances(n, from, delays int) {
	lines, junctions := pick(n, from)
	o := options()
	want, whole := single(o, lines, junctions)
	id := iter.NewIgen()
	f := forest(id, o, lines)
	m := map[int][]int{}
	for i := range f.ds {
		if junctions[i] != nil {
			m[f.ds[i].Id()] = junctions[i]
		}
	}
	schedules(delays)
	constdp.SimplifyInstances(id, f.ds, m)
	sym.SchedulesOff()
	for i, d := range f.ds {
		sym.Assert(f.whole[i] == whole[i], "each line is simplified exactly once")
		sym.Assert(equal(lib.Kept(d), want[i]), "each line is simplified to the result it has on its own")
	}
	sym.Reach("end")
}

// HInstances: a few lines, the schedules near the default one.
func HInstances() {
	instances(1+sym.Choose("n", sym.Param(2, 3)), sym.Choose("from", sym.Param(1, 2)), sym.Param(1, 2))
}

// HMany: as many lines as fill every channel, and more.
func HMany() {
	ns := []int{7, 8, 9, 25, 16, 17, 40, 0}
	instances(ns[sym.Choose("n", sym.Param(4, 8))], 0, sym.Param(0, 1))
}

// HLong: lines of many bends, all of which are kept or few, and more lines
// than workers.
func HLong() {
	n := []int{17, 9, 33}[sym.Choose("n", sym.Param(2, 3))]
	var lines [][]lib.Pt
	var junctions [][]int
	for i := 0; i < n; i++ {
		ps := lib.Shift(lib.Zig(13), 0, float64(20*i))
		if i%4 == 3 {
			ps = lib.Shift(lib.Arch, 0, float64(20*i))
		}
		lines = append(lines, ps)
		junctions = append(junctions, nil)
	}
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 8), MinDist: 1, NonPlanarDisplacement: 1}
	want, whole := single(o, lines, junctions)
	id := iter.NewIgen()
	f := forest(id, o, lines)
	schedules(sym.Param(0, 1))
	constdp.SimplifyInstances(id, f.ds, map[int][]int{})
	sym.SchedulesOff()
	for i, d := range f.ds {
		sym.Assert(f.whole[i] == whole[i], "each line is simplified exactly once")
		sym.Assert(equal(lib.Kept(d), want[i]), "each line is simplified to the result it has on its own")
	}
	sym.Reach("end")
}

// checks runs the validity checks on n stretches, of which those in bad touch
// a constraint that their segments do not.
func checks(n int, bad []bool, y0 float64, delays int) {
	var ps []lib.Pt
	for i := 0; i <= 2*n; i++ {
		ps = append(ps, lib.Pt{X: float64(3 * i), Y: float64(8 * (i % 2))})
	}
	var cs []geometry.IGeometry
	for i, b := range bad {
		// on the bump or under it, or out of reach
		y := 8.0
		if i == n-1 {
			y = y0
		}
		if !b {
			y += 20
		}
		cs = append(cs, geometry.CreatePoint("c", []float64{float64(6*i + 3), y}, ""))
	}
	o := &opts.Opts{GeomRelation: true, DirRelation: true, MinDist: 1}
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), cs, o, lib.Score)
	var hulls []node.Node
	for i := 0; i < n; i++ {
		s := lib.Stretch(ps, 2*i, 2*i+2)
		s.Id, s.Instance = id.Next(), d
		hulls = append(hulls, s)
	}
	db := hdb.NewHdb()
	db.Load(hulls)
	schedules(delays)
	got := constdp.ZZCheck(hulls, db)
	sym.SchedulesOff()
	cnt := 0
	for i := range hulls {
		_, in := got[&hulls[i]]
		sym.Assert(in == bad[i], "exactly the invalid stretches are reported")
		cnt += sym.B2I(in)
	}
	sym.Assert(len(got) == cnt, "nothing else is reported")
	sym.Reach("end")
}

// HChecks: few stretches, any of them invalid, the schedules near the default.
func HChecks() {
	n := 1 + sym.Choose("n", sym.Param(3, 4))
	bad := make([]bool, n)
	for i := range bad {
		bad[i] = sym.ConcBool(sym.Bool("bad"))
	}
	checks(n, bad, sym.Grid("y", 1, 8), sym.Param(1, 2))
}

// HChunks: any number of stretches, however they divide among the workers.
func HChunks() {
	n := sym.Choose("n", sym.Param(28, 60))
	bad := make([]bool, n)
	switch sym.Choose("pattern", 3) {
	case 0:
		for i := range bad {
			bad[i] = true
		}
	case 1:
		if n > 0 {
			bad[n-1] = true
		}
	case 2:
		for i := range bad {
			bad[i] = i%3 != 1
		}
	}
	checks(n, bad, float64(4+4*sym.Choose("y", 2)), 0)
}

// HClass: a feature class comes out the same under the schedules near the
// default one.
func HClass() {
	lines := [][]lib.Pt{lib.Bay, lib.Shift(lib.Arch, 2, -3)}
	o := &opts.Opts{Threshold: 7, MinDist: 1, NonPlanarDisplacement: 1, AvoidNewSelfIntersects: true, PlanarSelf: true, GeomRelation: true}
	id := iter.NewIgen()
	a := forest(id, o, lines)
	constdp.SimplifyFeatureClass(id, a.ds, o)
	b := forest(id, o, lines)
	schedules(sym.Param(1, 2))
	constdp.SimplifyFeatureClass(id, b.ds, o)
	sym.SchedulesOff()
	for i := range a.ds {
		sym.Assert(equal(lib.Kept(a.ds[i]), lib.Kept(b.ds[i])), "a feature class is simplified alike under every schedule")
	}
	sym.Reach("end")
}
