package h

import (
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/mbr"
)

// box i of a fixed scatter of boxes: points, thin and wide ones, with
// overlaps and shared edges.
func box(i int) mbr.MBR {
	x, y := float64((i*7)%23), float64((i*11+i*i)%19)
	return mbr.CreateMBR(x, y, x+float64((i*5)%4), y+float64((i*3)%5))
}

func item(id int, b mbr.MBR) node.Node { return node.Node{Id: id, MBR: b} }

// same asserts that got holds exactly the identities in want.
func same(got []*node.Node, want map[int]bool, why string) {
	seen := map[int]bool{}
	for _, n := range got {
		sym.Assert(n != nil && want[n.Id], why+": nothing that was not stored")
		sym.Assert(!seen[n.Id], why+": nothing twice")
		seen[n.Id] = true
	}
	sym.Assert(len(seen) == len(want), why+": nothing missing")
}

func meets(q, b mbr.MBR) bool {
	return sym.And(q.MinX <= b.MaxX, b.MinX <= q.MaxX, q.MinY <= b.MaxY, b.MinY <= q.MaxY)
}

// found asserts that a search returns exactly the boxes that meet q.
func found(db *hdb.Hdb, boxes map[int]mbr.MBR, n int, q mbr.MBR, why string) {
	got := db.Search(q)
	cnt := make([]int, n)
	for _, g := range got {
		_, ok := boxes[g.Id]
		sym.Assert(ok, why+": a search returns only what is stored")
		cnt[g.Id]++
	}
	for id := 0; id < n; id++ {
		b, ok := boxes[id]
		if !ok {
			continue
		}
		sym.Assert(cnt[id] <= 1, why+": a search returns nothing twice")
		sym.Assert(sym.Iff(cnt[id] == 1, meets(q, b)), why+": a search returns exactly the boxes that meet the query")
	}
	sym.Observe(why, len(got))
}

// small is a free query point or thin box.
func query() mbr.MBR {
	x, y := sym.Grid("qx", -1, 27), sym.Grid("qy", -1, 24)
	w, h := 0.0, 0.0
	if sym.Choose("shape", 2) == 1 {
		w, h = 6, 9
	}
	return mbr.MBR{MinX: x, MinY: y, MaxX: x + w, MaxY: y + h}
}

func newDB(kind int) *hdb.Hdb {
	if kind == 0 {
		return hdb.NewHdb(4)
	}
	return hdb.NewHdb()
}

// HHistories: any history of loads and removals, then listing everything,
// and a search around every box.
func HHistories() {
	db := newDB(0)
	boxes := map[int]mbr.MBR{}
	live := []int{}
	next := 0
	steps := sym.Param(4, 6)
	sizes := []int{1, 3, 6}
	for s := 0; s < steps; s++ {
		op := sym.Choose("op", sym.Param(6, 7))
		if op == 6 {
			// something that is not stored, where other boxes are
			n := item(-1, box(0))
			db.Remove(&n)
			continue
		}
		if op < 3 {
			var load []node.Node
			for k := 0; k < sizes[op]; k++ {
				load = append(load, item(next, box(next)))
				boxes[next] = box(next)
				live = append(live, next)
				next++
			}
			db.Load(load)
		} else if len(live) > 0 {
			// remove the first, the last or the middle box, or a third of all
			at := 0
			if op == 4 {
				at = len(live) - 1
			} else if op == 5 {
				at = len(live) / 2
			}
			id := live[at]
			n := item(id, boxes[id])
			db.Remove(&n)
			live = append(live[:at], live[at+1:]...)
			delete(boxes, id)
		}
		want := map[int]bool{}
		for _, id := range live {
			want[id] = true
		}
		same(db.All(), want, "all")
	}
	for i := 0; i < next; i++ {
		found(db, boxes, next, box(i), "history")
	}
	found(db, boxes, next, mbr.MBR{MinX: -1, MinY: -1, MaxX: 99, MaxY: 99}, "everywhere")
	sym.Reach("end")
}

// HQuery: a loaded database of any of several sizes, some boxes removed
// again, and any query.
func HQuery() {
	sizes := []int{0, 5, 11, 22, 1, 2, 3, 4, 7, 9, 17, 33}
	n := sizes[sym.Choose("n", sym.Param(3, len(sizes)))]
	db := newDB(sym.Choose("cap", 2))
	boxes := map[int]mbr.MBR{}
	one := sym.Choose("how", 3)
	var load []node.Node
	for i := 0; i < n; i++ {
		boxes[i] = box(i)
		load = append(load, item(i, box(i)))
	}
	switch one {
	case 0:
		db.Load(load)
	case 1:
		for i := range load {
			db.Load(load[i : i+1])
		}
	case 2:
		db.Load(load[:n/2]).Load(load[n/2:])
		for i := 0; i < n; i += 3 {
			db.Remove(&load[i])
			delete(boxes, i)
		}
	}
	found(db, boxes, n, query(), "query")
	sym.Reach("end")
}

// HFreeBoxes: two boxes anywhere among fixed ones, stored one way or the other.
func HFreeBoxes() {
	n := sym.Param(9, 14)
	db := newDB(0)
	boxes := map[int]mbr.MBR{}
	load := make([]node.Node, n)
	for i := 0; i < n; i++ {
		b := box(i)
		if i == n/2 || (i == n-1 && sym.Param(0, 1) == 1) {
			x, y := sym.Grid("x", 0, 24), sym.Grid("y", 0, 20)
			b = mbr.MBR{MinX: x, MinY: y, MaxX: x + 2, MaxY: y + 1}
		}
		boxes[i] = b
		load[i] = item(i, b)
	}
	switch sym.Choose("how", 3) {
	case 0:
		db.Load(load)
	case 1:
		for i := range load {
			db.Load(load[i : i+1])
		}
	case 2:
		db.Load(load[:5])
		db.Load(load[5:])
		db.Remove(&load[2])
		delete(boxes, 2)
	}
	want := map[int]bool{}
	for i := 0; i < n; i++ {
		if _, ok := boxes[i]; ok {
			want[i] = true
		}
	}
	same(db.All(), want, "all")
	b := boxes[n/2]
	found(db, boxes, n, b, "around")
	db.Remove(&load[n/2])
	delete(boxes, n/2)
	delete(want, n/2)
	same(db.All(), want, "after removal")
	found(db, boxes, n, mbr.MBR{MinX: 3, MinY: 3, MaxX: 14, MaxY: 12}, "after removal")
	sym.Reach("end")
}

// HMany: a large database.
func HMany() {
	n := 640
	long := sym.Choose("long", 2) == 1
	db := newDB(1)
	boxes := map[int]mbr.MBR{}
	load := make([]node.Node, n)
	for i := 0; i < n; i++ {
		x, y := float64((i*37)%211), float64((i*53)%197)
		boxes[i] = mbr.CreateMBR(x, y, x+float64(i%3), y+float64(i%4))
		if long && i%2 == 0 {
			boxes[i] = mbr.CreateMBR(x, y, x+150, y)
		} else if long {
			boxes[i] = mbr.CreateMBR(x, y, x, y+150)
		}
		load[i] = item(i, boxes[i])
	}
	db.Load(load)
	if sym.Choose("thin", 2) == 1 {
		for i := 0; i < n; i++ {
			if i%5 != 0 {
				db.Remove(&load[i])
				delete(boxes, i)
			}
		}
	}
	want := map[int]bool{}
	for i := 0; i < n; i++ {
		if _, ok := boxes[i]; ok {
			want[i] = true
		}
	}
	same(db.All(), want, "all")
	x := sym.Grid("qx", 100, 103)
	found(db, boxes, n, mbr.MBR{MinX: x, MinY: 60, MaxX: x + 9, MaxY: 70}, "many")
	found(db, boxes, n, mbr.MBR{MinX: x - 83, MinY: 20, MaxX: x + 72, MaxY: 150}, "wide")
	sym.Reach("end")
}

// pile i of boxes all about one place: nested, equal and crossing ones.
func pile(i int) mbr.MBR {
	w, h := float64(2+(i*7)%5), float64(2+(i*5)%7)
	if i%4 == 3 {
		w, h = 4, 4
	}
	return mbr.CreateMBR(20-w, 20-h, 20+w, 20+h)
}

// HPile: boxes that overlap so much that one has to be looked for in many
// places; removal of any of them, and of one that is not stored.
func HPile() {
	n := sym.Param(13, 24)
	db := newDB(0)
	boxes := map[int]mbr.MBR{}
	want := map[int]bool{}
	load := make([]node.Node, n)
	for i := 0; i < n; i++ {
		boxes[i], want[i] = pile(i), true
		load[i] = item(i, pile(i))
	}
	switch sym.Choose("how", 3) {
	case 0:
		db.Load(load)
	case 1:
		for i := range load {
			db.Load(load[i : i+1])
		}
	case 2:
		db.Load(load[:n/2]).Load(load[n/2:])
	}
	a := sym.ConcInt(sym.Int("a", -1, n))
	g := item(a, pile((a+n)%n))
	db.Remove(&g)
	db.Remove(&g) // a second time: nothing happens
	delete(boxes, a)
	delete(want, a)
	same(db.All(), want, "first")
	b := (a + 5 + n) % n
	h := item(b, pile(b))
	db.Remove(&h)
	delete(boxes, b)
	delete(want, b)
	same(db.All(), want, "second")
	x := sym.Grid("qx", 12, 28)
	found(db, boxes, n, mbr.MBR{MinX: x, MinY: 17, MaxX: x + 1, MaxY: 18}, "pile")
	sym.Reach("end")
}

// HDrain: boxes many of which are equal, taken out one after the other, in
// several orders, until none is left, and put back again.
func HDrain() {
	n := sym.Param(14, 22)
	db := newDB(0)
	kind := sym.Choose("kind", 3)
	x := sym.Grid("x", 4, 9)
	boxes := map[int]mbr.MBR{}
	want := map[int]bool{}
	load := make([]node.Node, n)
	for i := 0; i < n; i++ {
		b := mbr.CreateMBR(4, 4, 8, 8)
		if kind == 1 {
			b = mbr.CreateMBR(float64(i%2*9), 4, float64(i%2*9+4), 8)
		} else if kind == 2 {
			b = pile(i / 3)
		}
		if i == 5 {
			b = mbr.MBR{MinX: x, MinY: 4, MaxX: x + 1, MaxY: 8}
		}
		boxes[i], want[i] = b, true
		load[i] = item(i, b)
	}
	if sym.Choose("how", 2) == 0 {
		db.Load(load)
	} else {
		for i := range load {
			db.Load(load[i : i+1])
		}
	}
	step := []int{1, n - 1, 5, 3}[sym.Choose("step", sym.Param(3, 4))]
	for k := 0; k < n; k++ {
		i := (2 + k*step) % n
		g := item(i, boxes[i])
		db.Remove(&g)
		delete(boxes, i)
		delete(want, i)
		same(db.All(), want, "drained")
		if k%4 == 3 {
			found(db, boxes, n, mbr.MBR{MinX: 7, MinY: 7, MaxX: 9, MaxY: 9}, "drained")
		}
	}
	sym.Assert(db.IsEmpty(), "nothing is left")
	db.Load(load[:3])
	same(db.All(), map[int]bool{0: true, 1: true, 2: true}, "again")
	sym.Reach("end")
}
