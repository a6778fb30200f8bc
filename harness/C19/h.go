package h

import (
	"encoding/json"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"strings"
)

const (
	point = iota
	multiPoint
	line
	multiLine
	polygon
	multiPolygon
)

var names = []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}

// obj is one geometry of a file; parts[p][r] is ring (or only) list r of part p.
type obj struct {
	kind  int
	parts [][][]geom.Point
	dims  int
	props string
}

func pos(p geom.Point, dims int) string {
	t := sym.Num(p[0]) + ", " + sym.Num(p[1])
	if dims > 2 {
		t += "," + sym.Num(p[2])
	}
	return "[" + t + "]"
}

func list(ps []geom.Point, dims int) string {
	var s []string
	for _, p := range ps {
		s = append(s, pos(p, dims))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (o obj) geometry() string {
	var s []string
	for _, part := range o.parts {
		var rs []string
		for _, r := range part {
			rs = append(rs, list(r, o.dims))
		}
		switch o.kind {
		case point, multiPoint:
			s = append(s, pos(part[0][0], o.dims))
		case line, multiLine:
			s = append(s, rs[0])
		default:
			s = append(s, "["+strings.Join(rs, ",")+"]")
		}
	}
	c := s[0]
	if o.kind == multiPoint || o.kind == multiLine || o.kind == multiPolygon {
		c = "[" + strings.Join(s, ",") + "]"
	}
	return `{"type":"` + names[o.kind] + `","coordinates":` + c + `}`
}

func (o obj) feature() string {
	t := `{"type":"Feature","geometry":` + o.geometry()
	if o.props != "" {
		t += `,"properties":` + o.props
	}
	return t + `}`
}

func ring(x, y, s float64, n int) []geom.Point {
	r := []geom.Point{{x, y, 1}, {x + s, y, 2}, {x + s, y + s, 0}, {x, y + s, 5}}[:n]
	return append(append([]geom.Point{}, r...), r[0])
}

// made is an object of a kind at a place.
func made(kind int, x, y float64, dims int) obj {
	o := obj{kind: kind, dims: dims, props: `{"name":"` + names[kind] + `","x":[1,{"y":null}],"s":"a; b,c|d\t\"e\" \u00e9 \n{f}[g]"}`}
	add := func(rs ...[]geom.Point) { o.parts = append(o.parts, rs) }
	switch kind {
	case point:
		add([]geom.Point{{x, y, 4}})
	case multiPoint:
		add([]geom.Point{{x, y, 0}})
		add([]geom.Point{{3, 4, 7}})
		add([]geom.Point{{y, x, 2}})
	case line:
		add([]geom.Point{{x, y, 0}, {4, 9, 1}, {5, x, 3}})
	case multiLine:
		add([]geom.Point{{1, 1, 0}, {x, y, 1}})
		add([]geom.Point{{7, y, 6}, {4, 9, 1}, {5, 8, 3}, {1, 1, 0}})
		add([]geom.Point{{x, 2, 6}, {4, 2, 1}})
	case polygon:
		add(ring(x, y, 20, 4), ring(x+1, y+1, 3, 4), ring(x+5, y+6, 4, 3))
	case multiPolygon:
		add(ring(x, y, 20, 4), ring(x+2, y+1, 3, 3))
		add(ring(50, y, 6, 3), ring(51, y+1, 2, 3))
	}
	return o
}

func points(cs geom.Coords, want []geom.Point, dims int) bool {
	got := cs.Points()
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i := range got {
		z := want[i][2]
		if dims < 3 {
			z = 0
		}
		ok = sym.And(ok, sym.FEq(got[i][0], want[i][0]), sym.FEq(got[i][1], want[i][1]), sym.FEq(got[i][2], z))
	}
	return ok
}

func meta(got, want string) bool {
	if want == "" {
		want = "null"
	}
	var a, b interface{}
	if json.Unmarshal([]byte(got), &a) != nil {
		return false
	}
	json.Unmarshal([]byte(want), &b)
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// checkLines reads the file as lines, checkAll as constraints.
func checkLines(path string, os []obj) {
	got := geometry.ReadInputPolylines(path)
	sym.Observe("lines", len(got))
	k := 0
	for _, o := range os {
		if o.kind != line && o.kind != multiLine {
			continue
		}
		for _, part := range o.parts {
			sym.Assert(k < len(got), "every line is read")
			sym.Assert(points(got[k].Coordinates, part[0], o.dims), "a line is read in its place with its coordinates")
			sym.Assert(meta(got[k].Meta, o.props), "a line is read with its properties")
			k++
		}
	}
	sym.Assert(k == len(got), "nothing else is read")
}

func checkAll(path string, os []obj) {
	got := geometry.ReadInputConstraints(path)
	sym.Observe("constraints", len(got))
	k := 0
	for _, o := range os {
		for _, part := range o.parts {
			sym.Assert(k < len(got), "every constraint is read")
			switch g := got[k].Geometry().(type) {
			case geom.Point:
				sym.Assert(o.kind == point || o.kind == multiPoint, "a point is read as a point")
				p := part[0][0]
				z := p[2]
				if o.dims < 3 {
					z = 0
				}
				sym.Assert(sym.And(sym.FEq(g[0], p[0]), sym.FEq(g[1], p[1]), sym.FEq(g[2], z)), "a point is read in its place")
			case *geom.LineString:
				sym.Assert(o.kind == line || o.kind == multiLine, "a line is read as a line")
				sym.Assert(points(g.Coordinates, part[0], o.dims), "a constraint line is read with its coordinates")
			case *geom.Polygon:
				sym.Assert(o.kind == polygon || o.kind == multiPolygon, "a polygon is read as a polygon")
				rs := g.AsLinearRings()
				sym.Assert(len(rs) == len(part), "a polygon is read with its holes")
				for i := range rs {
					sym.Assert(points(rs[i].Coordinates, part[i], o.dims), "a ring is read with its coordinates")
				}
			default:
				sym.Assert(false, "a constraint is a point, line or polygon")
			}
			k++
		}
	}
	sym.Assert(k == len(got), "nothing else is read as a constraint")
	sym.Reach("end")
}

func check(text string, os []obj) {
	path := sym.Path("in.json")
	sym.WriteFile(path, text)
	checkLines(path, os)
	checkAll(path, os)
}

// HOne: one geometry of any kind, in any wrapping, anywhere.
func HOne() {
	o := made(sym.Choose("kind", 6), sym.GridDen("x", -9, 9, 2), sym.Grid("y", -5, 5), 2+sym.Choose("dims", 2))
	var text string
	switch sym.Choose("as", 6) {
	case 0:
		text = o.geometry()
		o.props = ""
	case 1:
		text = o.feature()
	case 2:
		text = `{"features":[` + o.feature() + `],"type":"FeatureCollection"}`
	case 3:
		o.props = "null"
		text = "\n  " + o.feature() + "\r\n"
	case 4:
		o.props = ""
		text = o.feature() + "\n\n"
	case 5:
		text = `{"id":7,"bbox":[0,0,9,9],"properties":` + o.props + `,"geometry":` + o.geometry() + `,"type":"Feature"}`
	}
	check(text, []obj{o})
}

// HFile: several lines of text, of any kinds and wrappings.
func HFile() {
	n := sym.Param(3, 4)
	var ts []string
	var os []obj
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", sym.Param(4, 6))
		if i%2 == 1 {
			k = 5 - k
		}
		o := made(k, sym.Grid("x", -9, 9), float64(100*i), 2+i%2)
		switch sym.Choose("as", sym.Param(2, 3)) {
		case 0:
			ts = append(ts, o.feature())
			os = append(os, o)
		case 1:
			p := made((k+3)%6, float64(i), 7, 2)
			q := made((k+2)%6, float64(-i), 8, 2)
			ts = append(ts, `{"type":"FeatureCollection","features":[`+p.feature()+","+o.feature()+","+q.feature()+`]}`)
			os = append(os, p, o, q)
		case 2:
			ts = append(ts, o.geometry())
			o.props = ""
			os = append(os, o)
		}
	}
	check(strings.Join(ts, []string{"\n", "\r\n \n"}[sym.Choose("sep", 2)])+[]string{"", "\n"}[sym.Choose("tail", 2)], os)
}

// HMany: many geometries, and many parts in one.
func HMany() {
	n := sym.Param(14, 120)
	var ts []string
	var os []obj
	for i := 0; i < n; i++ {
		o := made((i*5+i/6)%6, sym.Grid("x", -9, 9), float64(i), 2)
		if i == 5 {
			o = obj{kind: multiLine, dims: 2, props: "{}"}
			for j := 0; j < n; j++ {
				o.parts = append(o.parts, [][]geom.Point{{{float64(j), 1, 0}, {2, sym.Grid("p", 0, 9), 0}}})
			}
		}
		ts = append(ts, o.feature())
		os = append(os, o)
	}
	if sym.Choose("as", 2) == 0 {
		check(strings.Join(ts, "\n"), os)
	} else {
		check(`{"type":"FeatureCollection","features":[`+strings.Join(ts, ",")+`]}`, os)
	}
}

// HNone: files and collections without geometries, features without one.
func HNone() {
	a, b := made(line, sym.Grid("x", -9, 9), 3, 2), made(polygon, 1, 2, 3)
	none := `{"type":"Feature","geometry":null,"properties":{"a":1}}`
	empty := `{"type":"FeatureCollection","features":[]}`
	switch sym.Choose("file", 6) {
	case 0:
		check("", nil)
	case 1:
		check(" \n\n", nil)
	case 2:
		check(empty, nil)
	case 3:
		check(empty+"\n"+a.feature()+"\n"+empty+"\n"+b.feature(), []obj{a, b})
	case 4:
		check(a.feature()+"\n"+none+"\n"+b.feature(), []obj{a, b})
	case 5:
		check(`{"type":"FeatureCollection","features":[`+none+","+a.feature()+","+b.feature()+`]}`, []obj{a, b})
	}
}
