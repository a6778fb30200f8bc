package main

import (
	"encoding/json"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"strings"
)

// zfeat is an input feature: its parts, and the text of its properties.
type zfeat struct {
	multi, bare bool
	parts       [][]geom.Point
	props       string
}

func ztext(part []geom.Point, three bool) string {
	var s []string
	for _, p := range part {
		t := sym.Num(p[0]) + "," + sym.Num(p[1])
		if three {
			t += "," + sym.Num(p[2])
		}
		s = append(s, "["+t+"]")
	}
	return "[" + strings.Join(s, ",") + "]"
}

func (f zfeat) text() string {
	three := len(f.parts) == 0 || f.parts[0][0][2] != -7
	var s []string
	for _, p := range f.parts {
		s = append(s, ztext(p, three))
	}
	g := `{"type":"MultiLineString","coordinates":[` + strings.Join(s, ",") + `]}`
	if len(f.parts) == 0 {
		g = `{"type":"Point","coordinates":[3,4]}`
	} else if !f.multi {
		g = `{"type":"LineString","coordinates":` + s[0] + `}`
	}
	if f.bare {
		return g
	}
	t := `{"type":"Feature","geometry":` + g
	if f.props != "" {
		t += `,"properties":` + f.props
	}
	return t + `}`
}

// ztwo drops the third ordinates of a part.
func ztwo(p []geom.Point) []geom.Point {
	for i := range p {
		p[i][2] = -7
	}
	return p
}

type zout struct {
	Type       string
	Properties map[string]interface{}
	Geometry   struct {
		Type        string
		Coordinates json.RawMessage
	}
}

// zkept is what simplification on its own keeps of a part.
func zkept(part []geom.Point, thr float64) []int {
	id := iter.NewIgen()
	pln := geometry.CreatePolyline("0", geom.Coordinates(part), "")
	d := constdp.NewConstDP(id.Next(), pln, nil, &opts.Opts{Threshold: thr}, lib.Score)
	d.Simplify(id)
	return lib.Kept(d)
}

func zpart(part []geom.Point, got [][]float64, thr float64) {
	ks := zkept(part, thr)
	sym.Observe("kept", ks...)
	two := part[0][2] == -7
	flat := true
	if !two {
		for _, k := range ks {
			flat = sym.And(flat, sym.FEq(part[k][2], 0))
		}
	}
	sym.Assert(len(got) == len(ks), "a part is written with the vertices its simplification keeps")
	for i, k := range ks {
		sym.Assert(len(got[i]) == 2 || len(got[i]) == 3, "a vertex has two ordinates or three")
		sym.Assert(sym.Iff(flat, len(got[i]) == 2), "there is a third ordinate exactly if it is not zero throughout")
		sym.Assert(sym.And(sym.FEq(got[i][0], part[k][0]), sym.FEq(got[i][1], part[k][1])), "vertices are those of the input, in order")
		if len(got[i]) == 3 {
			sym.Assert(sym.FEq(got[i][2], part[k][2]), "the third ordinate is that of the input")
		}
	}
}

func zeq(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// zrun writes the input (text is the file, fs what it holds), runs the
// program and compares the output.
func zrun(text string, fs []zfeat, thr float64, class bool) {
	in, out, cfg := sym.Path("in.json"), sym.Path("out.json"), sym.Path("cfg.json")
	sym.WriteFile(in, text)
	c := `{"input":"` + in + `","output":"` + out + `","simplification_type":"DP","threshold":` + sym.Num(thr)
	if class {
		c += `,"is_feature_class":true`
	}
	sym.WriteFile(cfg, c+"}")
	sym.Args("-f", cfg)
	main()
	got, ok := sym.ReadFile(out)
	sym.Assert(ok, "an output is written")
	var lines []string
	if got != "" {
		lines = strings.Split(got, "\n")
	}
	k := 0
	for _, f := range fs {
		if len(f.parts) == 0 {
			continue
		}
		sym.Assert(k < len(lines), "every feature that has lines is in the output")
		var o zout
		sym.Assert(json.Unmarshal([]byte(lines[k]), &o) == nil, "every line of output is a JSON document")
		k++
		sym.Assert(o.Type == "Feature", "every line of output is a feature")
		want := map[string]interface{}{}
		if f.props != "" && f.props != "null" && !f.bare {
			json.Unmarshal([]byte(f.props), &want)
		}
		sym.Assert(o.Properties != nil && zeq(o.Properties, want), "a feature has the properties of its input")
		if len(f.parts) == 1 {
			sym.Assert(o.Geometry.Type == "LineString", "one part is a LineString")
			var cs [][]float64
			sym.Assert(json.Unmarshal(o.Geometry.Coordinates, &cs) == nil, "coordinates of a LineString")
			zpart(f.parts[0], cs, thr)
		} else {
			sym.Assert(o.Geometry.Type == "MultiLineString", "several parts are a MultiLineString")
			var cs [][][]float64
			sym.Assert(json.Unmarshal(o.Geometry.Coordinates, &cs) == nil && len(cs) == len(f.parts), "one line for each part")
			for i := range cs {
				zpart(f.parts[i], cs[i], thr)
			}
		}
	}
	sym.Assert(k == len(lines), "nothing else is in the output")
	sym.Reach("end")
}

func zline(x, y float64, n int) []geom.Point {
	up := []float64{0, 3.125, 4.5, 1.25, -2.375, 0.75, 2}
	along := []float64{0, 0.125, 0.5, 0.25, 0.375}
	var r []geom.Point
	for i := 0; i < n; i++ {
		r = append(r, geom.Point{x + float64(2*i) + along[(i+int(x))%5], y + up[(i+int(x))%7], 0})
	}
	return r
}

var zprops = []string{`{"name":"a \"quoted\" \u00e9 <&>\n line","n":1.5,"deep":{"l":[1,null,true]}}`, `{"other":0,"s":"a; b,c|d\te"}`, "null", ""}

func zmake(k, at int) zfeat {
	x, y := float64(3*at), float64(40*at)
	switch k {
	case 0:
		return zfeat{parts: [][]geom.Point{zline(x, y, 5)}, props: zprops[at%4]}
	case 1:
		return zfeat{multi: true, parts: [][]geom.Point{zline(x, y, 4), zline(x+1, y-15, 3), zline(x+2, y-9, 2)}, props: zprops[(at+1)%4]}
	case 2:
		return zfeat{props: `{"p":1}`}
	case 3:
		return zfeat{bare: true, parts: [][]geom.Point{ztwo(zline(x, y, 4))}}
	case 4:
		return zfeat{bare: true, multi: true, parts: [][]geom.Point{zline(x, y, 3), zline(x+4, y-15, 5)}}
	}
	return zfeat{multi: true, parts: [][]geom.Point{zline(x, y, 6)}, props: zprops[at%4]}
}

// HRun: up to three features of any kinds, any threshold.
func HRun() {
	n := sym.Param(3, 4)
	var fs []zfeat
	var ts []string
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", sym.Param(4, 6))
		if k == 3 && i == 0 {
			k = 5
		}
		fs = append(fs, zmake(k, i))
		ts = append(ts, fs[i].text())
	}
	sep := []string{"\n", "\n \n\n"}[sym.Choose("sep", sym.Param(1, 2))]
	zrun(strings.Join(ts, sep), fs, sym.Grid("t", 0, 5), sym.Choose("class", sym.Param(1, 2)) == 1)
}

// HHeights: third ordinates.
func HHeights() {
	a, b := zline(0, 0, 4), zline(1, 20, 4)
	a[sym.Choose("i", 4)][2] = sym.Grid("z", -1, 2)
	b[sym.Choose("j", sym.Param(2, 4))][2] = sym.Grid("w", -1, 2)
	b[3][2] = sym.GridDen("q", 0, 2, 2)
	f := zfeat{multi: true, parts: [][]geom.Point{a, b}, props: `{"a":1}`}
	g := zfeat{parts: [][]geom.Point{zline(3, 9, 3)}}
	g.parts[0][1][2] = sym.Grid("v", 0, 1)
	zrun(f.text()+"\n"+g.text(), []zfeat{f, g}, sym.Grid("t", 0, 4), false)
}

// HPlace: any coordinates.
func HPlace() {
	a := []geom.Point{{sym.Grid("x", -3, 3), sym.Grid("y", -3, 3), 0}, {4, 1, 0}, {sym.GridDen("u", 10, 12, 2), -1, 0}}
	f := zfeat{parts: [][]geom.Point{a}, props: `{"a":1}`}
	zrun(f.text()+"\n", []zfeat{f}, []float64{1.0 / 64, 100}[sym.Choose("t", 2)], sym.Choose("class", 2) == 1)
}

// HCollection: features of a collection, before and after others.
func HCollection() {
	fs := []zfeat{zmake(0, 0), zmake(sym.Choose("k", 3), 1), zmake(1, 2), zmake(5, 3)}
	i := sym.Choose("from", 3)
	var ts, in []string
	for k, f := range fs {
		switch {
		case k == i || k == i+1:
			in = append(in, f.text())
			if k == i+1 {
				ts = append(ts, `{"type":"FeatureCollection","features":[`+strings.Join(in, ",")+`]}`)
			}
		default:
			ts = append(ts, f.text())
		}
	}
	zrun(strings.Join(ts, "\n"), fs, sym.Grid("t", 0, 5), false)
}

// HMany: more than ten features and parts, with gaps.
func HMany() {
	var fs []zfeat
	var ts []string
	n := sym.Param(20, 32)
	sym.MapOrders(sym.Param(1, 2))
	ph := sym.ConcInt(sym.Choose("phase", sym.Param(1, 3)))
	for i := 0; i < n; i++ {
		k := []int{0, 2, 3}[(i+ph)%3]
		f := zmake(k, i)
		if i == 3 && k == 0 {
			f.parts[0] = zline(float64(3*i), float64(40*i), 15)
		}
		if i == 11 {
			f = zfeat{multi: true, props: `{"big":1}`}
			for j := 0; j < 12; j++ {
				f.parts = append(f.parts, zline(float64(5*j), float64(-30*j), 3))
			}
		}
		fs = append(fs, f)
		ts = append(ts, f.text())
	}
	zrun(strings.Join(ts, "\n")+"\n", fs, 0.75390625+float64(sym.ConcInt(sym.Choose("t", sym.Param(2, 5)))), sym.Choose("class", 2) == 1)
}

// HHundred: more than a hundred features.
func HHundred() {
	var fs []zfeat
	var ts []string
	at := sym.Choose("multi", 3)
	for i := 0; i < 104; i++ {
		f := zfeat{parts: [][]geom.Point{zline(float64(i), float64(2*i), 3)}, props: `{"n":` + sym.Num(float64(i)) + `}`}
		if i%50 == at {
			f.multi = true
			f.parts = append(f.parts, zline(float64(i+1), -9, 4))
		}
		fs = append(fs, f)
		ts = append(ts, f.text())
	}
	zrun(strings.Join(ts, "\n"), fs, sym.Grid("t", 1, 2), sym.Choose("class", 2) == 1)
}
