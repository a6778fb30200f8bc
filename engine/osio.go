package main

// Files, streams of JSON and the errors about them, over the path's own
// scratch file system.

import (
	"bytes"
	"encoding/json"
	"io"
	"os"
	"strings"
)

// stdInits are the standard packages whose variables are set up on each path;
// those of others stay unset.
var stdInits = map[string]bool{"io": true, "bytes": true, "strings": true, "bufio": true, "unicode/utf8": true}

func (t *thread) initStd() {
	for _, n := range []string{"unicode/utf8", "io", "bytes", "strings", "bufio"} {
		if pk := t.p.w.ex.prog.pkg(n); pk != nil && pk.Func("init") != nil {
			t.call(getFn(pk.Func("init")), nil, nil)
		}
	}
}

// vfile is an open file: where it stands for reading, and whether it can be
// written.
type vfile struct {
	name string
	pos  int
}

// jstream is a json.Decoder or json.Encoder.
type jstream struct {
	text   string
	pos    int
	w      Iface
	prefix string
	indent string
}

func (p *path) ioEOF() Value {
	pk := p.w.ex.prog.pkg("io")
	if pk == nil || pk.Var("EOF") == nil {
		unsup("io.EOF")
	}
	return p.load(p.global(pk.Var("EOF")))
}

func (p *path) openFile(name string) Value {
	ty := p.w.ex.prog.typ("os", "File")
	if ty == nil {
		unsup("os.File")
	}
	c := p.newCell(zero(ty))
	if p.files == nil {
		p.files = map[*Cell]*vfile{}
	}
	p.files[c] = &vfile{name: name}
	return c
}

func (p *path) fileOf(v Value) *vfile {
	c, _ := v.(*Cell)
	if c == nil {
		p.panicRT("invalid memory address or nil pointer dereference")
	}
	f := p.files[c]
	if f == nil {
		unsup("a file that was not opened")
	}
	return f
}

func (p *path) noFile(name string) Value {
	return p.mkError("open " + name + ": no such file or directory")
}

// writeTo writes s to an io.Writer.
func (t *thread) writeTo(w Iface, s string) Value {
	if w.t == nil {
		t.p.panicRT("invalid memory address or nil pointer dereference")
	}
	fn := t.p.w.ex.prog.methodByName(w.t, "Write")
	if fn == nil {
		unsup("Write of %v", w.t)
	}
	b := Slice{isN: true, a: make([]Cell, len(s))}
	for i := range b.a {
		b.a[i].v = int64(s[i])
	}
	return t.call(getFn(fn), []Value{w.v, b}, nil)
}

func osIntrinsics() {
	reg := func(n string, fn func(t *thread, a []Value) Value) {
		intrinsics[n] = func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			t.p.noSpec(n)
			return fn(t, a), true
		}
	}
	for _, n := range []string{"os.ReadFile", "io/ioutil.ReadFile"} {
		reg(n, func(t *thread, a []Value) Value {
			s, ok := t.p.vfs[a[0].(string)]
			if !ok {
				return Tuple{Slice{}, t.p.noFile(a[0].(string))}
			}
			return Tuple{t.mkBytes([]byte(s)), Iface{}}
		})
	}
	for _, n := range []string{"os.WriteFile", "io/ioutil.WriteFile"} {
		reg(n, func(t *thread, a []Value) Value {
			if a[0].(string) == "" {
				return t.p.noFile("")
			}
			t.p.writeFile(a[0].(string), string(t.bytesOf(a[1])))
			return Iface{}
		})
	}
	open := func(t *thread, name string, flag int) Value {
		_, ok := t.p.vfs[name]
		if name == "" || !ok && flag&os.O_CREATE == 0 {
			return Tuple{(*Cell)(nil), t.p.noFile(name)}
		}
		if !ok || flag&os.O_TRUNC != 0 {
			t.p.writeFile(name, "")
		} else if flag&(os.O_WRONLY|os.O_RDWR) != 0 && flag&os.O_APPEND == 0 {
			unsup("a file written over")
		}
		return Tuple{t.p.openFile(name), Iface{}}
	}
	reg("os.Open", func(t *thread, a []Value) Value { return open(t, a[0].(string), os.O_RDONLY) })
	reg("os.Create", func(t *thread, a []Value) Value {
		return open(t, a[0].(string), os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	})
	reg("os.OpenFile", func(t *thread, a []Value) Value { return open(t, a[0].(string), int(t.p.cint(a[1]))) })
	reg("os.IsNotExist", func(t *thread, a []Value) Value { return a[0].(Iface).t != nil })
	reg("(*os.File).Close", func(t *thread, a []Value) Value { t.p.fileOf(a[0]); return Iface{} })
	reg("(*os.File).Sync", func(t *thread, a []Value) Value { t.p.fileOf(a[0]); return Iface{} })
	reg("(*os.File).Name", func(t *thread, a []Value) Value { return t.p.fileOf(a[0]).name })
	reg("(*os.File).Read", func(t *thread, a []Value) Value {
		f, b := t.p.fileOf(a[0]), a[1].(Slice)
		s := t.p.vfs[f.name][f.pos:]
		if len(b.a) == 0 {
			return Tuple{int64(0), Iface{}}
		}
		if s == "" {
			return Tuple{int64(0), t.p.ioEOF()}
		}
		n := 0
		for n < len(b.a) && n < len(s) {
			t.p.setCell(&b.a[n], int64(s[n]))
			n++
		}
		f.pos += n
		return Tuple{int64(n), Iface{}}
	})
	reg("(*os.File).Write", func(t *thread, a []Value) Value {
		f, b := t.p.fileOf(a[0]), t.bytesOf(a[1])
		t.p.writeFile(f.name, t.p.vfs[f.name]+string(b))
		return Tuple{int64(len(b)), Iface{}}
	})
	reg("(*os.File).WriteString", func(t *thread, a []Value) Value {
		f, s := t.p.fileOf(a[0]), a[1].(string)
		t.p.writeFile(f.name, t.p.vfs[f.name]+s)
		return Tuple{int64(len(s)), Iface{}}
	})
	stream := func(v Value) *jstream {
		c, _ := v.(*Cell)
		if c == nil {
			unsup("json stream")
		}
		j, ok := c.v.(*jstream)
		if !ok {
			unsup("json stream")
		}
		return j
	}
	reg("encoding/json.NewDecoder", func(t *thread, a []Value) Value {
		pk := t.p.w.ex.prog.pkg("io")
		if pk == nil || pk.Func("ReadAll") == nil {
			unsup("io.ReadAll")
		}
		r := t.call(getFn(pk.Func("ReadAll")), []Value{a[0]}, nil).(Tuple)
		if r[1].(Iface).t != nil {
			unsup("a reader that fails")
		}
		return t.p.newCell(&jstream{text: string(t.bytesOf(r[0]))})
	})
	reg("(*encoding/json.Decoder).More", func(t *thread, a []Value) Value {
		j := stream(a[0])
		s := strings.TrimLeft(j.text[j.pos:], " \t\r\n")
		return s != "" && s[0] != ']' && s[0] != '}'
	})
	reg("(*encoding/json.Decoder).Decode", func(t *thread, a []Value) Value {
		j := stream(a[0])
		d := json.NewDecoder(strings.NewReader(j.text[j.pos:]))
		var raw json.RawMessage
		if e := d.Decode(&raw); e == io.EOF {
			return t.p.ioEOF()
		} else if e != nil {
			return t.p.mkError(e.Error())
		}
		j.pos += int(d.InputOffset())
		r, _ := intrinsics["encoding/json.Unmarshal"](t, nil, []Value{t.mkBytes(raw), a[1]})
		return r
	})
	reg("encoding/json.NewEncoder", func(t *thread, a []Value) Value {
		return t.p.newCell(&jstream{w: a[0].(Iface)})
	})
	reg("(*encoding/json.Encoder).SetIndent", func(t *thread, a []Value) Value {
		j := stream(a[0])
		j.prefix, j.indent = a[1].(string), a[2].(string)
		return nil
	})
	indent := func(raw []byte, prefix, indent string) []byte {
		var b bytes.Buffer
		json.Indent(&b, raw, prefix, indent)
		return b.Bytes()
	}
	reg("(*encoding/json.Encoder).Encode", func(t *thread, a []Value) Value {
		j := stream(a[0])
		var sb bytes.Buffer
		if e := t.catchJSON(func() { t.jsonOut(&sb, a[1], anyT) }); e.(Iface).t != nil {
			return e
		}
		b := sb.Bytes()
		if j.prefix != "" || j.indent != "" {
			b = indent(b, j.prefix, j.indent)
		}
		return t.writeTo(j.w, string(b)+"\n").(Tuple)[1]
	})
	reg("encoding/json.MarshalIndent", func(t *thread, a []Value) Value {
		var sb bytes.Buffer
		if e := t.catchJSON(func() { t.jsonOut(&sb, a[0], anyT) }); e.(Iface).t != nil {
			return Tuple{Slice{}, e}
		}
		return Tuple{t.mkBytes(indent(sb.Bytes(), a[1].(string), a[2].(string))), Iface{}}
	})
	reg("errors.Is", func(t *thread, a []Value) Value {
		pk := t.p.w.ex.prog.pkg("errors")
		if a[1].(Iface).t == nil || pk == nil {
			unsup("errors.Is")
		}
		for e := a[0].(Iface); e.t != nil; {
			if t.p.truth(t.p.eqv(e, a[1])) {
				return true
			}
			if t.p.w.ex.prog.methodByName(e.t, "Is") != nil {
				unsup("errors.Is")
			}
			e = t.call(getFn(pk.Func("Unwrap")), []Value{e}, nil).(Iface)
		}
		return false
	})
}
