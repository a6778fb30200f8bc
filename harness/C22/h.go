package h

import (
	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

// same: two stretches are the same in every part.
func same(a, b node.Node) bool {
	return a.Id == b.Id && a.Range == b.Range && a.Geom == b.Geom && a.MBR == b.MBR && a.Polyline == b.Polyline
}

type model struct {
	q *node.Queue
	m []node.Node
}

func (s *model) check() {
	sym.Assert(s.q.Size() == len(s.m), "the size is the number of stretches held")
	if len(s.m) > 0 {
		sym.Assert(same(s.q.First(), s.m[0]), "the first stretch")
		sym.Assert(same(s.q.Last(), s.m[len(s.m)-1]), "the last stretch")
	}
}

func (s *model) pop() {
	if len(s.m) > 0 {
		sym.Assert(same(s.q.Pop(), s.m[len(s.m)-1]), "pop takes the last stretch")
		s.m = s.m[:len(s.m)-1]
	}
}

func (s *model) popLeft() {
	if len(s.m) > 0 {
		sym.Assert(same(s.q.PopLeft(), s.m[0]), "pop on the left takes the first stretch")
		s.m = s.m[1:]
	}
}

func (s *model) push(n node.Node) {
	s.q.Append(n)
	s.m = append(append([]node.Node{}, s.m...), n)
}

func (s *model) pushLeft(n node.Node) {
	s.q.AppendLeft(n)
	s.m = append([]node.Node{n}, s.m...)
}

func (s *model) clear() {
	s.q.Clear()
	s.m = nil
}

// HHistory: any sequence of operations from an empty queue.
func HHistory() {
	steps := sym.Param(5, 7)
	id := iter.NewIgen()
	s := &model{q: node.NewQueue()}
	ps := lib.Wave
	for t := 0; t < steps; t++ {
		r := rng.Range(t, t+3)
		n := node.CreateNode(id, lib.Line("0", ps).SubCoordinates(r), r, common.Geometry, nil)
		switch sym.ConcInt(sym.Int("op", 0, 4)) {
		case 0:
			s.push(n)
		case 1:
			s.pushLeft(n)
		case 2:
			s.pop()
		case 3:
			s.popLeft()
		case 4:
			s.clear()
		}
		s.check()
	}
	for len(s.m) > 0 {
		s.popLeft()
		s.check()
	}
	sym.Reach("end")
}

// HTwin: the same stretch again and again.
func HTwin() {
	id := iter.NewIgen()
	s := &model{q: node.NewQueue()}
	var two []node.Node
	for t := 0; t < 2; t++ {
		r := rng.Range(t, t+3)
		two = append(two, node.CreateNode(id, lib.Line("0", lib.Wave).SubCoordinates(r), r, common.Geometry, nil))
	}
	for t := 0; t < sym.Param(6, 8); t++ {
		switch sym.ConcInt(sym.Int("op", 0, 3)) {
		case 0:
			s.push(two[0])
		case 1:
			s.pushLeft(two[0])
		case 2:
			s.push(two[1])
		case 3:
			s.popLeft()
		}
		s.check()
	}
	for len(s.m) > 0 {
		s.pop()
		s.check()
	}
	sym.Reach("end")
}

// HBulk: a longer queue, grown and drained at either end, several times over,
// so that the storage under it wraps and grows.
func HBulk() {
	id := iter.NewIgen()
	s := &model{q: node.NewQueue()}
	ps := lib.Wave
	for k := 0; k < sym.Param(2, 3); k++ {
		n := []int{3, 10, 17, 130}[sym.Choose("n", 4)]
		left := sym.ConcBool(sym.Bool("left"))
		d := sym.Choose("d", 3)
		for t := 0; t < n; t++ {
			r := rng.Range(t%9, t%9+3)
			h := node.CreateNode(id, lib.Line("0", ps).SubCoordinates(r), r, common.Geometry, nil)
			if left {
				s.pushLeft(h)
			} else {
				s.push(h)
			}
		}
		s.check()
		for t := 0; t < n*d/2; t++ {
			if left {
				s.pop()
			} else {
				s.popLeft()
			}
		}
		s.check()
	}
	for len(s.m) > 0 {
		s.pop()
		s.check()
	}
	sym.Reach("end")
}
