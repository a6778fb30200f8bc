package main

// encoding/json, the scratch file system, flags, base64 and regexp, on
// concrete text.  A symbolic float written to a text (by sym.Num or
// json.Marshal) appears there as a literal that stands for it, which turns
// back into the value when the text is parsed; other symbolic values reaching
// a text are enumerated.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

var anyT = canon(types.NewInterfaceType(nil, nil))
var anySliceT = canon(types.NewSlice(anyT))
var strAnyMapT = canon(types.NewMap(types.Typ[types.String], anyT))

type jsonErr struct{ msg string }

func jfail(f string, a ...interface{}) { panic(jsonErr{fmt.Sprintf(f, a...)}) }

type jfield struct {
	name      string
	idx       int
	omitempty bool
}

func jfields(st *types.Struct) []jfield {
	var r []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			unsup("json of an embedded field")
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		x := jfield{f.Name(), i, false}
		if parts[0] != "" {
			x.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				x.omitempty = true
			default:
				unsup("json tag option %s", o)
			}
		}
		r = append(r, x)
	}
	return r
}

// concF is the concrete value of a float, enumerating symbolic ones.
func (p *path) concF(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case *SymF:
		n, d := p.cint(p.concretize(x.num)), p.cint(p.concretize(x.den))
		f := float64(n) / float64(d)
		if x.sqrt {
			f = math.Sqrt(f)
		}
		return f
	}
	unsup("float %T", v)
	return 0
}

// numText is the text of a float, numOf its inverse.
func (p *path) numText(v Value) (string, bool) {
	x, ok := v.(*SymF)
	if !ok {
		return "", false
	}
	for i, y := range p.tnums {
		if y == x {
			return fmt.Sprintf("9.0000%de-77", 1000+i), true
		}
	}
	p.tnums = append(p.tnums, x)
	return fmt.Sprintf("9.0000%de-77", 999+len(p.tnums)), true
}

func (p *path) numOf(raw []byte) (Value, bool) {
	s := string(raw)
	if !strings.HasPrefix(s, "9.0000") || !strings.HasSuffix(s, "e-77") {
		return nil, false
	}
	i, err := strconv.Atoi(s[6 : len(s)-4])
	if err != nil || i < 1000 || i-1000 >= len(p.tnums) {
		return nil, false
	}
	return p.tnums[i-1000], true
}

func (t *thread) jsonOut(sb *bytes.Buffer, v Value, ty types.Type) {
	p := t.p
	if s := ty.String(); s == "encoding/json.RawMessage" || s == "encoding/json/jsontext.Value" {
		if !v.(Slice).isN {
			sb.WriteString("null")
			return
		}
		b := t.bytesOf(v)
		if !json.Valid(b) {
			jfail("invalid raw message")
		}
		sb.Write(b)
		return
	}
	if m := p.w.ex.prog.methodByName(ty, "MarshalJSON"); m != nil {
		if _, isI := ty.Underlying().(*types.Interface); !isI {
			r := t.call(getFn(m), []Value{v}, nil).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				jfail("%v", t.hostVal(e))
			}
			for _, b := range p.sliceVals(r[0]) {
				sb.WriteByte(byte(p.cint(b)))
			}
			return
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if s, ok := p.numText(v); ok {
			sb.WriteString(s)
			return
		}
		var h interface{}
		switch {
		case u.Info()&types.IsString != 0:
			h = v.(string)
		case u.Info()&types.IsBoolean != 0:
			h = p.concretizeB(v)
		case u.Info()&types.IsInteger != 0:
			h = p.cint(v)
		case u.Info()&types.IsFloat != 0:
			h = p.concF(v)
		default:
			unsup("json of %v", ty)
		}
		b, err := json.Marshal(h)
		if err != nil {
			jfail("%v", err)
		}
		sb.Write(b)
	case *types.Pointer:
		c, _ := v.(*Cell)
		if c == nil {
			sb.WriteString("null")
			return
		}
		t.jsonOut(sb, p.load(c), canon(u.Elem()))
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			sb.WriteString("null")
			return
		}
		t.jsonOut(sb, i.v, i.t)
	case *types.Slice:
		s := v.(Slice)
		if !s.isN {
			sb.WriteString("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			unsup("json of bytes")
		}
		sb.WriteByte('[')
		for i, e := range p.sliceVals(s) {
			if i > 0 {
				sb.WriteByte(',')
			}
			t.jsonOut(sb, e, canon(u.Elem()))
		}
		sb.WriteByte(']')
	case *types.Array:
		a := v.(Agg)
		sb.WriteByte('[')
		for i := range a {
			if i > 0 {
				sb.WriteByte(',')
			}
			t.jsonOut(sb, a[i].v, canon(u.Elem()))
		}
		sb.WriteByte(']')
	case *types.Map:
		m, _ := v.(*Map)
		if m == nil {
			sb.WriteString("null")
			return
		}
		type kv struct {
			k string
			v Value
		}
		var l []kv
		for _, e := range m.ent {
			if !e.dead {
				l = append(l, kv{fmt.Sprint(t.hostVal(e.k)), e.v})
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		sb.WriteByte('{')
		for i, e := range l {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(e.k)
			sb.Write(b)
			sb.WriteByte(':')
			t.jsonOut(sb, e.v, canon(u.Elem()))
		}
		sb.WriteByte('}')
	case *types.Struct:
		a := v.(Agg)
		sb.WriteByte('{')
		first := true
		for _, f := range jfields(u) {
			if f.omitempty && t.jsonEmpty(a[f.idx].v) {
				continue
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			b, _ := json.Marshal(f.name)
			sb.Write(b)
			sb.WriteByte(':')
			t.jsonOut(sb, a[f.idx].v, canon(u.Field(f.idx).Type()))
		}
		sb.WriteByte('}')
	default:
		unsup("json of %v", ty)
	}
}

func (t *thread) jsonEmpty(v Value) bool {
	p := t.p
	switch x := v.(type) {
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case Slice:
		return len(x.a) == 0
	case *Map:
		return x == nil || x.n == 0
	case *Cell:
		return x == nil
	case Iface:
		return x.t == nil
	case *Term:
		if x.isBool {
			return !p.concretizeB(x)
		}
		return p.cint(x) == 0
	case *SymF:
		return p.concF(x) == 0
	}
	return false
}

func (p *path) concretizeB(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.branch(x)
	}
	unsup("bool %T", v)
	return false
}

func (p *path) newMap(mt types.Type) *Map {
	m := &Map{idx: map[string]int{}, kt: mt, ep: p.epoch}
	m.cell = p.newCell(nil)
	return m
}

func (t *thread) jsonAny(raw json.RawMessage) Value {
	p := t.p
	raw = bytes.TrimSpace(raw)
	switch {
	case len(raw) == 0:
		jfail("unexpected end of JSON input")
	case raw[0] == '{':
		m := p.newMap(strAnyMapT)
		ks, vs := jobject(raw)
		for i := range ks {
			p.mapSet(m, ks[i], t.jsonAny(vs[i]))
		}
		return Iface{strAnyMapT, m}
	case raw[0] == '[':
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			jfail("%v", err)
		}
		vals := make([]Value, len(l))
		for i := range l {
			vals[i] = t.jsonAny(l[i])
		}
		return Iface{anySliceT, p.mkSlice(vals)}
	}
	if v, ok := p.numOf(raw); ok {
		return Iface{canon(types.Typ[types.Float64]), v}
	}
	var h interface{}
	if err := json.Unmarshal(raw, &h); err != nil {
		jfail("%v", err)
	}
	switch x := h.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{canon(types.Typ[types.Bool]), x}
	case float64:
		return Iface{canon(types.Typ[types.Float64]), x}
	case string:
		return Iface{canon(types.Typ[types.String]), x}
	}
	unsup("json value %T", h)
	return nil
}

// jobject splits an object into its members, in order.
func jobject(raw json.RawMessage) (ks []string, vs []json.RawMessage) {
	d := json.NewDecoder(bytes.NewReader(raw))
	if _, err := d.Token(); err != nil {
		jfail("%v", err)
	}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			jfail("%v", err)
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			jfail("%v", err)
		}
		ks, vs = append(ks, k.(string)), append(vs, v)
	}
	return
}

func (t *thread) jsonIn(raw json.RawMessage, ty types.Type, old Value) Value {
	p := t.p
	raw = bytes.TrimSpace(raw)
	null := string(raw) == "null"
	if s := ty.String(); s == "encoding/json.RawMessage" || s == "encoding/json/jsontext.Value" {
		return t.mkBytes(raw)
	}
	pt := canon(types.NewPointer(ty))
	if _, isP := ty.Underlying().(*types.Pointer); !isP {
		if m := p.w.ex.prog.methodByName(pt, "UnmarshalJSON"); m != nil && !null {
			c := p.newCell(copyVal(old))
			bs := make([]Value, len(raw))
			for i := range raw {
				bs[i] = int64(raw[i])
			}
			e := t.call(getFn(m), []Value{c, p.mkSlice(bs)}, nil).(Iface)
			if e.t != nil {
				jfail("%v", t.hostVal(e))
			}
			return p.load(c)
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if null {
			return old
		}
		var err error
		var r Value
		switch {
		case u.Info()&types.IsString != 0:
			var s string
			err = json.Unmarshal(raw, &s)
			r = s
		case u.Info()&types.IsBoolean != 0:
			var s bool
			err = json.Unmarshal(raw, &s)
			r = s
		case u.Info()&types.IsInteger != 0:
			var s int64
			err = json.Unmarshal(raw, &s)
			r = s
		case u.Info()&types.IsFloat != 0:
			if v, ok := p.numOf(raw); ok {
				return v
			}
			var s float64
			err = json.Unmarshal(raw, &s)
			r = s
		default:
			unsup("json into %v", ty)
		}
		if err != nil {
			jfail("%v", err)
		}
		return r
	case *types.Pointer:
		if null {
			return (*Cell)(nil)
		}
		c, _ := old.(*Cell)
		if c == nil {
			c = p.newCell(zero(u.Elem()))
		}
		p.setCell(c, t.jsonIn(raw, canon(u.Elem()), p.load(c)))
		return c
	case *types.Interface:
		if null {
			return Iface{}
		}
		if u.NumMethods() > 0 {
			jfail("cannot unmarshal into %v", ty)
		}
		return t.jsonAny(raw)
	case *types.Slice:
		if null {
			return Slice{}
		}
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			jfail("%v", err)
		}
		vals := make([]Value, len(l))
		for i := range l {
			vals[i] = t.jsonIn(l[i], canon(u.Elem()), zero(u.Elem()))
		}
		return p.mkSlice(vals)
	case *types.Map:
		if null {
			return (*Map)(nil)
		}
		if len(raw) == 0 || raw[0] != '{' {
			jfail("cannot unmarshal into map")
		}
		m, _ := old.(*Map)
		if m == nil {
			m = p.newMap(canon(u))
		}
		ks, vs := jobject(raw)
		for i := range ks {
			p.mapSet(m, ks[i], t.jsonIn(vs[i], canon(u.Elem()), zero(u.Elem())))
		}
		return m
	case *types.Struct:
		if null {
			return old
		}
		if len(raw) == 0 || raw[0] != '{' {
			jfail("cannot unmarshal into %v", ty)
		}
		a := copyVal(old).(Agg)
		ks, vs := jobject(raw)
		fs := jfields(u)
		for i, k := range ks {
			at := -1
			for x, f := range fs {
				if f.name == k {
					at = x
					break
				}
			}
			for x, f := range fs {
				if at < 0 && strings.EqualFold(f.name, k) {
					at = x
				}
			}
			if at >= 0 {
				ix := fs[at].idx
				a[ix].v = t.jsonIn(vs[i], canon(u.Field(ix).Type()), a[ix].v)
			}
		}
		return a
	}
	unsup("json into %v", ty)
	return nil
}

func (t *thread) bytesOf(v Value) []byte {
	var r []byte
	for _, b := range t.p.sliceVals(v) {
		r = append(r, byte(t.p.cint(b)))
	}
	return r
}

func (t *thread) mkBytes(b []byte) Value {
	vs := make([]Value, len(b))
	for i := range b {
		vs[i] = int64(b[i])
	}
	return t.p.mkSlice(vs)
}

func (t *thread) catchJSON(fn func()) (e Value) {
	defer func() {
		if x := recover(); x != nil {
			if j, ok := x.(jsonErr); ok {
				e = t.p.mkError(j.msg)
				return
			}
			panic(x)
		}
	}()
	fn()
	return Iface{}
}

func jsonIntrinsics() {
	reg := func(n string, fn func(t *thread, a []Value) Value) {
		intrinsics[n] = func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			t.p.noSpec(n)
			return fn(t, a), true
		}
	}
	reg("encoding/json.Marshal", func(t *thread, a []Value) Value {
		var sb bytes.Buffer
		e := t.catchJSON(func() { t.jsonOut(&sb, a[0], anyT) })
		if e.(Iface).t != nil {
			return Tuple{Slice{}, e}
		}
		return Tuple{t.mkBytes(sb.Bytes()), Iface{}}
	})
	reg("encoding/json.Unmarshal", func(t *thread, a []Value) Value {
		b := t.bytesOf(a[0])
		if !json.Valid(b) {
			var x interface{}
			return t.p.mkError(json.Unmarshal(b, &x).Error())
		}
		i := a[1].(Iface)
		return t.catchJSON(func() {
			pt, ok := i.t.Underlying().(*types.Pointer)
			if !ok {
				jfail("not a pointer")
			}
			c := i.v.(*Cell)
			t.p.setCell(c, t.jsonIn(b, canon(pt.Elem()), t.p.load(c)))
		})
	})
	reg("encoding/json.Valid", func(t *thread, a []Value) Value { return json.Valid(t.bytesOf(a[0])) })
	reg("regexp.MustCompile", func(t *thread, a []Value) Value {
		return t.p.newCell(regexp.MustCompile(a[0].(string)))
	})
	re := func(v Value) *regexp.Regexp {
		r, ok := v.(*Cell).v.(*regexp.Regexp)
		if !ok {
			unsup("regexp value")
		}
		return r
	}
	strs := func(t *thread, l []string) Value {
		if l == nil {
			return Slice{}
		}
		vs := make([]Value, len(l))
		for i := range l {
			vs[i] = l[i]
		}
		return t.p.mkSlice(vs)
	}
	reg("(*regexp.Regexp).FindAllString", func(t *thread, a []Value) Value {
		return strs(t, re(a[0]).FindAllString(a[1].(string), int(t.p.cint(a[2]))))
	})
	reg("(*regexp.Regexp).FindString", func(t *thread, a []Value) Value { return re(a[0]).FindString(a[1].(string)) })
	reg("(*regexp.Regexp).FindStringSubmatch", func(t *thread, a []Value) Value {
		return strs(t, re(a[0]).FindStringSubmatch(a[1].(string)))
	})
	reg("(*regexp.Regexp).MatchString", func(t *thread, a []Value) Value { return re(a[0]).MatchString(a[1].(string)) })
	reg("(*encoding/base64.Encoding).EncodeToString", func(t *thread, a []Value) Value {
		return base64.StdEncoding.EncodeToString(t.bytesOf(a[1]))
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(t *thread, a []Value) Value {
		b, err := base64.StdEncoding.DecodeString(a[1].(string))
		if err != nil {
			return Tuple{t.mkBytes(b), t.p.mkError(err.Error())}
		}
		return Tuple{t.mkBytes(b), Iface{}}
	})
	const fu = "github.com/intdxdt/fileutil."
	reg(fu+"IsFile", func(t *thread, a []Value) Value { _, ok := t.p.vfs[a[0].(string)]; return ok })
	reg(fu+"ReadAllOfFile", func(t *thread, a []Value) Value {
		s, ok := t.p.vfs[a[0].(string)]
		if !ok {
			return Tuple{"", t.p.mkError("open " + a[0].(string) + ": no such file or directory")}
		}
		return Tuple{s, Iface{}}
	})
	reg(fu+"SaveText", func(t *thread, a []Value) Value {
		if a[0].(string) == "" {
			return t.p.mkError("open : no such file or directory")
		}
		t.p.writeFile(a[0].(string), a[1].(string))
		return Iface{}
	})
	reg("flag.StringVar", func(t *thread, a []Value) Value {
		t.p.setCell(a[0].(*Cell), a[2])
		if t.p.flags == nil {
			t.p.flags = map[string]*Cell{}
		}
		t.p.flags[a[1].(string)] = a[0].(*Cell)
		return nil
	})
	reg("flag.Parse", func(t *thread, a []Value) Value {
		as := t.p.args
		for len(as) > 0 && strings.HasPrefix(as[0], "-") {
			n := strings.TrimLeft(as[0], "-")
			as = as[1:]
			v := ""
			if k := strings.IndexByte(n, '='); k >= 0 {
				n, v = n[:k], n[k+1:]
			} else if len(as) > 0 {
				v, as = as[0], as[1:]
			}
			c := t.p.flags[n]
			if c == nil {
				unsup("flag %s", n)
			}
			t.p.setCell(c, v)
		}
		return nil
	})
	reg("flag.PrintDefaults", func(t *thread, a []Value) Value { return nil })
	reg("(time.Time).Sub", func(t *thread, a []Value) Value { return int64(time.Millisecond) })
	reg("time.Since", func(t *thread, a []Value) Value { return int64(time.Millisecond) })
	reg("(time.Duration).Seconds", func(t *thread, a []Value) Value { return float64(t.p.cint(a[0])) / 1e9 })

	// sym's file and argument API
	reg(symPkg+"Path", func(t *thread, a []Value) Value { return "/scratch/" + a[0].(string) })
	reg(symPkg+"WriteFile", func(t *thread, a []Value) Value {
		t.p.writeFile(a[0].(string), a[1].(string))
		return nil
	})
	reg(symPkg+"ReadFile", func(t *thread, a []Value) Value {
		s, ok := t.p.vfs[a[0].(string)]
		return Tuple{s, ok}
	})
	reg(symPkg+"Args", func(t *thread, a []Value) Value {
		t.p.args, t.p.flags = nil, nil
		for _, s := range t.p.sliceVals(a[0]) {
			t.p.args = append(t.p.args, s.(string))
		}
		return nil
	})
	reg(symPkg+"Num", func(t *thread, a []Value) Value {
		if s, ok := t.p.numText(a[0]); ok {
			return s
		}
		return strconv.FormatFloat(a[0].(float64), 'g', -1, 64)
	})
	reg(symPkg+"Str", func(t *thread, a []Value) Value { return strconv.FormatInt(t.p.cint(a[0]), 10) })
}

func (p *path) writeFile(n, s string) {
	if p.vfs == nil {
		p.vfs = map[string]string{}
	}
	p.vfs[n] = s
}
