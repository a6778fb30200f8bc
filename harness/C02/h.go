package h

import (
	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

// expect is Douglas-Peucker by recursion: the vertices kept between i and j.
func expect(o *lib.Oracle, i, j int, thr float64, out *[]int) {
	if j-i < 2 || o.At(i, j) <= thr {
		*out = append(*out, j)
		return
	}
	k := o.Pick(i, j)
	expect(o, i, k, thr, out)
	expect(o, k, j, thr, out)
}

func tiles(hs []node.Node, n int) {
	at := 0
	for i := range hs {
		h := &hs[i]
		sym.Assert(h.Range.I == at && h.Range.J > at, "stretches tile the line in order")
		at = h.Range.J
		c := h.Coordinates()
		sym.Assert(c.Len() == h.Range.J-h.Range.I+1, "a stretch carries exactly its vertices")
		for k := 0; k < c.Len(); k++ {
			sym.Assert(c.Pt(k)[2] == float64(h.Range.I+k), "a stretch carries its own vertices")
		}
	}
	sym.Assert(at == n-1, "the stretches reach the last vertex")
}

func run(sq bool, n int) {
	check(sq, n, lib.NewOracle("o", n, 3), sym.Grid("t", 0, 3))
}

func check(sq bool, n int, or *lib.Oracle, thr float64) {
	id := iter.NewIgen()
	op := &opts.Opts{Threshold: thr}
	var d *dp.DouglasPeucker
	if sq {
		d = dp.New(id.Next(), lib.Line("0", lib.Zig(n)), op, or.Fn, or.SqFn)
	} else {
		d = dp.New(id.Next(), lib.Line("0", lib.Zig(n)), op, or.Fn)
	}
	d.Simplify(id)
	tiles(d.Hulls, n)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		sym.Assert(sym.FLe(or.At(r.I, r.J), thr), "every stretch scores at most the threshold")
	}
	got := d.Simple()
	want := []int{0}
	expect(or, 0, n-1, thr, &want)
	sym.Observe("kept", got...)
	sym.Assert(len(got) == len(want), "keeps as many vertices as recursive Douglas-Peucker")
	for i := range got {
		sym.Assert(got[i] == want[i], "keeps the vertices recursive Douglas-Peucker keeps")
	}
	sym.Reach("end")
}

// HPlain: scores compared with the threshold.
func HPlain() { run(false, sym.Param(6, 7)) }

// HSquare: squared scores compared with the squared threshold.
func HSquare() { run(true, sym.Param(5, 7)) }

// HFraction: scores and thresholds below one.
func HFraction() {
	n := sym.Param(4, 6)
	check(sym.Choose("squared", 2) == 1, n, lib.NewOracle("o", n, 3).Scale(4), sym.GridDen("t", 0, 3, 4))
}
