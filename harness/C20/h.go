package main

import (
	"encoding/base64"
	"encoding/json"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"strings"
)

func ztext(ps []lib.Pt, times []float64) string {
	var s []string
	for i, p := range ps {
		s = append(s, "["+sym.Num(p.X)+","+sym.Num(p.Y)+","+sym.Num(times[i%len(times)]+float64(9*(i/len(times))))+"]")
	}
	return `{"type":"LineString","coordinates":[` + strings.Join(s, ",") + `]}`
}

// zlines tell the options apart, each by what it does to one of them.
var zlines = [][]lib.Pt{
	lib.Shift(lib.Touch, 0, 0),
	lib.Shift(lib.Loop, 100, 0),
	lib.Shift(lib.Spiral, 200, 0),
	lib.Shift(lib.Wave, 300, 0),
	lib.Shift(lib.Bay, 400, 0),
	{{421, 1}, {424, 3}, {417, 1}, {420, -6}, {423, -6.5}},
	{{300, 12}, {306, 11}, {308, 1}, {310, 11}, {320, 12}},
}

var ztimes = []float64{0, 1, 1.5, 4, 6, 6.5, 8}

var zcons = `{"type":"Point","coordinates":[303.25,5.125]}
{"type":"LineString","coordinates":[[102,4],[103.5,5.25]]}
{"type":"Point","coordinates":[409.25,4.75]}
{"type":"MultiPoint","coordinates":[[206.5,-0.75],[7.25,9.5]]}`

// zsetup is one configuration: what the file says, and what it should mean.
type zsetup struct {
	o     opts.Opts
	class bool
	sed   bool
	cons  bool
	only  int // which lines, if not all
}

var zkeys = []string{"planar_self", "non_planar_self", "avoid_new_self_intersects", "geometric_relation", "distance_relation", "homotopy_relation", "is_feature_class"}

// zexpect is what the simplifier makes of the input under the options meant.
func zexpect(in, cons string, s zsetup) [][]geom.Point {
	f := offset.MaxOffset
	if s.sed {
		f = offset.MaxSEDOffset
	}
	plns := geometry.ReadInputPolylines(in)
	var cs []geometry.IGeometry
	if s.cons {
		cs = geometry.ReadInputConstraints(cons)
	}
	id := iter.NewIgen()
	var ds []*constdp.ConstDP
	for _, p := range plns {
		ds = append(ds, constdp.NewConstDP(id.Next(), p, cs, &s.o, f))
	}
	if s.class {
		constdp.SimplifyFeatureClass(id, ds, &s.o)
	} else {
		constdp.SimplifyInstances(id, ds, map[int][]int{})
	}
	var r [][]geom.Point
	for _, d := range ds {
		ks := lib.Kept(d)
		sym.Observe("kept", ks...)
		var l []geom.Point
		for _, k := range ks {
			l = append(l, *d.Polyline.Pt(k))
		}
		r = append(r, l)
	}
	return r
}

// zcheck runs the program on a configuration text and compares.
func zcheck(text string, s zsetup, b64 bool, pad string) {
	in, out, cons := sym.Path("in.json"), sym.Path("out.json"), sym.Path("cons.json")
	var ls []string
	for i, l := range zlines {
		if s.only&(1<<uint(i)) == 0 && s.only != 0 {
			continue
		}
		ls = append(ls, ztext(l, ztimes))
	}
	sym.WriteFile(in, strings.Join(ls, "\n"))
	sym.WriteFile(cons, zcons)
	c := `{"input":"` + pad + in + pad + `","output":"` + pad + out + `"`
	if s.cons {
		c += `,"constraints":"` + cons + pad + `"`
	}
	c += text + "}"
	want := zexpect(in, cons, s)
	if b64 {
		sym.Args("-b", base64.StdEncoding.EncodeToString([]byte(c)))
	} else {
		cfg := sym.Path("cfg.json")
		sym.WriteFile(cfg, "\n  "+c+"  \n")
		sym.Args("-f", cfg)
	}
	main()
	got, ok := sym.ReadFile(out)
	sym.Assert(ok, "the output is where it was asked for")
	lines := strings.Split(got, "\n")
	sym.Assert(len(lines) == len(want), "one result for each line")
	for i, l := range lines {
		var o struct {
			Geometry struct{ Coordinates [][]float64 }
		}
		sym.Assert(json.Unmarshal([]byte(l), &o) == nil, "the output is JSON")
		g := o.Geometry.Coordinates
		sym.Assert(len(g) == len(want[i]), "a line is simplified as the options say")
		for k := range g {
			sym.Assert(sym.And(sym.FEq(g[k][0], want[i][k][0]), sym.FEq(g[k][1], want[i][k][1])), "the vertices kept are those the options say")
		}
	}
	sym.Reach("end")
}

func zswitches(s *zsetup, on []bool, explicit bool) string {
	s.o.PlanarSelf, s.o.NonPlanarSelf, s.o.AvoidNewSelfIntersects = on[0], on[1], on[2]
	s.o.GeomRelation, s.o.DistRelation, s.o.DirRelation, s.class = on[3], on[4], on[5], on[6]
	t := ""
	for i, k := range zkeys {
		if on[i] {
			t += `,"` + k + `":true`
		} else if explicit {
			t += `,"` + k + `":false`
		}
	}
	return t
}

var ztypes = []string{"DP", "SED", " dp ", "\\tsEd\\n"}

// HSwitches: switches on and off, in every combination (thorough) or none,
// all, one on, one off (quick).
func HSwitches() {
	sym.SameTies()
	on := make([]bool, 7)
	if sym.Param(0, 1) == 1 {
		m := sym.ConcInt(sym.Choose("mask", 128))
		for i := range on {
			on[i] = m>>uint(i)&1 == 1
		}
	} else {
		one, but := sym.ConcInt(sym.Choose("one", 8)), sym.ConcInt(sym.Choose("flip", 2)) == 1
		for i := range on {
			on[i] = (i == one) != but
		}
	}
	s := zsetup{cons: true}
	s.o = opts.Opts{Threshold: 6.28125, MinDist: 1.53125, NonPlanarDisplacement: 2.0625}
	t := `,"simplification_type":"DP","threshold":6.28125`
	switch sym.ConcInt(sym.Choose("zero", 3)) {
	case 0:
		t += `,"minimum_distance":1.53125,"non_planar_displacement":2.0625`
	case 1:
		s.o.MinDist = 0
		t += `,"minimum_distance":0,"non_planar_displacement":2.0625`
	case 2:
		s.o.NonPlanarDisplacement = 0
		t += `,"minimum_distance":1.53125`
	}
	r := sym.ConcInt(sym.Choose("route", 2))
	t = zswitches(&s, on, r == 1) + t
	zcheck(t, s, r == 1, "")
}

// HNumbers: any threshold, distance or displacement.
func HNumbers() {
	sym.SameTies()
	s := zsetup{cons: true}
	n := []float64{6.28125, 1.53125, 2.0625}
	k := sym.ConcInt(sym.Choose("which", 3))
	switch k {
	case 0:
		n[0] = sym.GridDen("threshold", 0, sym.Param(24, 64), 2)
	case 1:
		n[1] = sym.GridDen("distance", 0, 16, 2)
	case 2:
		n[2] = sym.GridDen("displacement", 0, 40, 2)
	}
	s.o.Threshold, s.o.MinDist, s.o.NonPlanarDisplacement = n[0], n[1], n[2]
	t := zswitches(&s, []bool{false, false, k == 2, false, k == 1, false, k == 2}, false)
	t += `,"non_planar_displacement":` + sym.Num(n[2]) + `,"threshold":` + sym.Num(n[0]) + `,"minimum_distance":` + sym.Num(n[1]) + `,"simplification_type":"dp"`
	zcheck(t, s, false, " ")
}

// HKind: the simplification type, with and without constraints.
func HKind() {
	sym.SameTies()
	k := sym.ConcInt(sym.Choose("type", 4))
	s := zsetup{sed: k%2 == 1, cons: sym.Choose("cons", 2) == 1}
	s.o = opts.Opts{Threshold: 4.28125, MinDist: 3.53125, DistRelation: true, GeomRelation: true}
	t := zswitches(&s, []bool{false, false, false, true, true, false, false}, true)
	t += `,"simplification_type":"` + ztypes[k] + `","threshold":4.28125,"minimum_distance":3.53125,"unknown":"x"`
	zcheck(t, s, sym.Choose("route", 2) == 1, []string{"", "  "}[sym.Choose("pad", 2)])
}

// HLeftOut: numbers left out are zero.
func HLeftOut() {
	sym.SameTies()
	s := zsetup{cons: true}
	on := []bool{true, true, true, false, true, false, true}
	t := zswitches(&s, on, false) + `,"simplification_type":"SED"`
	s.sed = true
	switch sym.ConcInt(sym.Choose("given", 4)) {
	case 1:
		s.o.Threshold = 9.28125
		t += `,"threshold":9.28125`
	case 2:
		s.o.MinDist = 2.53125
		t += `,"minimum_distance":2.53125`
	case 3:
		s.o.NonPlanarDisplacement = 2.53125
		s.o.Threshold = 9.28125
		t += `,"non_planar_displacement":2.53125,"threshold":9.28125`
	}
	zcheck(t, s, true, "")
}

// HFew: one or two lines only.
func HFew() {
	sym.SameTies()
	s := zsetup{cons: sym.Choose("cons", 2) == 1}
	s.only = []int{1, 48, 32, 72, 17}[sym.ConcInt(sym.Choose("lines", 5))]
	s.o = opts.Opts{Threshold: 6.28125, MinDist: 1.53125, NonPlanarDisplacement: 2.0625}
	t := `,"simplification_type":"DP","threshold":6.28125,"minimum_distance":1.53125,"non_planar_displacement":2.0625`
	on := []bool{false, false, true, false, false, false, false}
	on[0] = sym.Choose("planar", 2) == 1
	on[6] = sym.Choose("class", 2) == 1
	zcheck(zswitches(&s, on, false)+t, s, sym.Choose("route", 2) == 1, "")
}
