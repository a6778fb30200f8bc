package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type intrinsic func(t *thread, f *fnInfo, args []Value) (Value, bool)

var intrinsics map[string]intrinsic

const symPkg = "github.com/TopoSimplify/plugin/zzverif/sym."

func lookupIntrinsic(name string) intrinsic {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	// instantiated generics: strip type arguments
	if i := strings.IndexByte(name, '['); i > 0 {
		if in, ok := intrinsics[name[:i]]; ok {
			return in
		}
	}
	return nil
}

func fnum(v Value) (float64, bool) { f, ok := v.(float64); return f, ok }

// pure lifts a host function over concrete basic arguments.
func pure(fn interface{}) intrinsic {
	rv := reflect.ValueOf(fn)
	rt := rv.Type()
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		p := t.p
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			pt := rt.In(i)
			v := reflect.New(pt).Elem()
			switch pt.Kind() {
			case reflect.String:
				s, ok := a.(string)
				if !ok {
					return nil, false
				}
				v.SetString(s)
			case reflect.Float64:
				x, ok := a.(float64)
				if !ok {
					return nil, false
				}
				v.SetFloat(x)
			case reflect.Int, reflect.Int64, reflect.Int32:
				if _, ok := a.(*Term); ok {
					a = p.conc(a)
				}
				v.SetInt(a.(int64))
			case reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32:
				if _, ok := a.(*Term); ok {
					a = p.conc(a)
				}
				v.SetUint(uint64(a.(int64)))
			case reflect.Bool:
				b, ok := a.(bool)
				if !ok {
					return nil, false
				}
				v.SetBool(b)
			case reflect.Slice:
				s := a.(Slice)
				for k := range s.a {
					e := reflect.New(pt.Elem()).Elem()
					switch pt.Elem().Kind() {
					case reflect.String:
						e.SetString(s.a[k].v.(string))
					case reflect.Uint8:
						e.SetUint(uint64(p.cint(s.a[k].v)))
					case reflect.Int:
						e.SetInt(p.cint(s.a[k].v))
					default:
						return nil, false
					}
					v = reflect.Append(v, e)
				}
			default:
				return nil, false
			}
			in[i] = v
		}
		var out []reflect.Value
		if rt.IsVariadic() {
			out = rv.CallSlice(in)
		} else {
			out = rv.Call(in)
		}
		var res []Value
		for _, o := range out {
			res = append(res, p.fromHost(o))
		}
		switch len(res) {
		case 0:
			return nil, true
		case 1:
			return res[0], true
		}
		return Tuple(res), true
	}
}

func (p *path) fromHost(o reflect.Value) Value {
	switch o.Kind() {
	case reflect.String:
		return o.String()
	case reflect.Float64:
		return o.Float()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return o.Int()
	case reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32:
		return int64(o.Uint())
	case reflect.Bool:
		return o.Bool()
	case reflect.Slice:
		if o.IsNil() {
			return Slice{}
		}
		var vals []Value
		for i := 0; i < o.Len(); i++ {
			vals = append(vals, p.fromHost(o.Index(i)))
		}
		return p.mkSlice(vals)
	case reflect.Interface:
		if o.IsNil() {
			return Iface{}
		}
		if e, ok := o.Interface().(error); ok {
			return p.mkError(e.Error())
		}
	}
	unsup("host value %v", o.Kind())
	return nil
}

func (p *path) mkError(msg string) Value {
	pk := p.w.ex.prog.pkg("errors")
	if pk == nil {
		unsup("errors package")
	}
	ty := pk.Type("errorString").Type()
	c := p.newCell(Agg{{v: msg}})
	if p.spec > 0 {
		stamp(c.v, p.epoch)
	}
	return Iface{canon(types.NewPointer(ty)), c}
}

func fl1(fn func(float64) float64, symb func(p *path, s *SymF) Value) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		if x, ok := args[0].(float64); ok {
			return fn(x), true
		}
		if d, ok := args[0].(*SymDiff); ok && strings.HasSuffix(f.name, "Abs") {
			return &SymDiff{d.a, d.b, true}, true
		}
		if symb == nil {
			unsup("%s of a symbolic float", f.name)
		}
		if _, ok := args[0].(*SymF); !ok {
			unsup("%s of a difference of square roots", f.name)
		}
		return symb(t.p, args[0].(*SymF)), true
	}
}

// fround: floor, ceiling, truncation and rounding half away from zero, where
// the value is an exact fraction with a constant denominator.
func (p *path) fround(s *SymF, how byte) Value {
	if s.sqrt || !s.den.isConst() || s.lvl > 1 {
		unsup("rounding of an inexact symbolic float")
	}
	tc, d := p.tc, s.den.c
	floor := func(n *Term, d int64) *Term {
		k := int64(0)
		if n.lo < 0 {
			k = (-n.lo + d - 1) / d
		}
		return tc.Sub(tc.DivC(tc.Add(n, tc.Int(k*d)), d), tc.Int(k))
	}
	up := func(n *Term, d int64) *Term { return tc.Neg(floor(tc.Neg(n), d)) }
	var r *Term
	neg := tc.Lt(s.num, tc.Int(0))
	switch how {
	case 'f':
		r = floor(s.num, d)
	case 'c':
		r = up(s.num, d)
	case 't':
		r = tc.Ite(neg, up(s.num, d), floor(s.num, d))
	case 'r':
		n := tc.Mul(s.num, tc.Int(2))
		r = tc.Ite(neg, up(tc.Sub(n, tc.Int(d)), 2*d), floor(tc.Add(n, tc.Int(d)), 2*d))
	}
	return p.simpF(&SymF{num: r, den: p.one()})
}

func anySym(vs ...Value) bool {
	for _, v := range vs {
		switch v.(type) {
		case *SymF, *SymDiff:
			return true
		}
	}
	return false
}

// onlySym: use the summary only when an argument is symbolic; otherwise the
// real body runs.
func onlySym(fn func(p *path, a []Value) Value) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		if !anySym(args...) {
			return nil, false
		}
		return fn(t.p, args), true
	}
}

func (p *path) F(v Value) *SymF { return p.toSymF(v) }

func (p *path) addv(a, b Value) Value { return p.fopv(a, b, '+') }
func (p *path) subv(a, b Value) Value { return p.fopv(a, b, '-') }
func (p *path) mulv(a, b Value) Value { return p.fopv(a, b, '*') }

func (p *path) fopv(a, b Value, op byte) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		switch op {
		case '+':
			return x + y
		case '-':
			return x - y
		case '*':
			return x * y
		}
	}
	switch op {
	case '+':
		return p.fadd(p.F(a), p.F(b), false)
	case '-':
		return p.fadd(p.F(a), p.F(b), true)
	}
	return p.fmul(p.F(a), p.F(b))
}

func symHypot(p *path, a []Value) Value {
	s := p.addv(p.mulv(a[0], a[0]), p.mulv(a[1], a[1]))
	r := p.fsqrt(p.F(s)).(*SymF)
	r.lvl = 2
	return r
}

func atoiTuple(p *path, v Value, err error) Value {
	if err != nil {
		return Tuple{v, p.mkError(err.Error())}
	}
	return Tuple{v, Iface{}}
}

const imath = "github.com/intdxdt/math."
const igeom = "github.com/intdxdt/geom."

func init() {
	noop := func(t *thread, f *fnInfo, args []Value) (Value, bool) { return nil, true }
	absI := fl1(math.Abs, func(p *path, s *SymF) Value { return p.fabs(s) })
	sqrtI := fl1(math.Sqrt, func(p *path, s *SymF) Value { return p.fsqrt(s) })
	isnan := func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		if x, ok := args[0].(float64); ok {
			return x != x, true
		}
		return false, true
	}
	isinf := func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		if x, ok := args[0].(float64); ok {
			return math.IsInf(x, int(args[1].(int64))), true
		}
		return false, true
	}
	mm := func(min bool) intrinsic {
		return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			return t.minmax(min, args[0], args[1]), true
		}
	}
	mmSym := func(min bool) intrinsic {
		return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			if !anySym(args...) {
				return nil, false
			}
			return t.minmax(min, args[0], args[1]), true
		}
	}
	intrinsics = map[string]intrinsic{
		"math.Abs":   absI,
		"math.Sqrt":  sqrtI,
		"math.sqrt":  sqrtI,
		"math.IsNaN": isnan,
		"math.IsInf": isinf,
		"math.NaN":   pure(math.NaN),
		"math.Inf":   pure(math.Inf),
		"math.Min":   mm(true),
		"math.Max":   mm(false),
		"math.Ceil":  fl1(math.Ceil, func(p *path, s *SymF) Value { return p.fround(s, 'c') }),
		"math.Floor": fl1(math.Floor, func(p *path, s *SymF) Value { return p.fround(s, 'f') }),
		"math.Trunc": fl1(math.Trunc, func(p *path, s *SymF) Value { return p.fround(s, 't') }),
		"math.Round": fl1(math.Round, func(p *path, s *SymF) Value { return p.fround(s, 'r') }),
		"math.Log":   fl1(math.Log, nil),
		"math.Log2":  fl1(math.Log2, nil),
		"math.Log10": fl1(math.Log10, nil),
		"math.Exp":   fl1(math.Exp, nil),
		"math.Cos":   fl1(math.Cos, nil),
		"math.Sin":   fl1(math.Sin, nil),
		"math.Pow": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			if !anySym(args...) {
				return math.Pow(args[0].(float64), args[1].(float64)), true
			}
			switch e, _ := args[1].(float64); e {
			case 1:
				return args[0], true
			case 2:
				return t.p.mulv(args[0], args[0]), true
			case 0.5:
				return sqrtI(t, f, args[:1])
			}
			unsup("math.Pow of a symbolic float")
			return nil, false
		},
		"math.Pow10": pure(math.Pow10),
		"math.Mod":   pure(math.Mod),
		"math.Atan2": pure(math.Atan2),
		"math.Copysign": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			if !anySym(args...) {
				return math.Copysign(args[0].(float64), args[1].(float64)), true
			}
			a, _ := absI(t, f, args[:1])
			lt, _, _ := t.p.fcmp(args[1], 0.0)
			if t.p.truth(t.p.bv(lt)) {
				return t.p.subv(0.0, a), true
			}
			return a, true
		},
		"math.Signbit": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			if x, ok := args[0].(float64); ok {
				return math.Signbit(x), true
			}
			lt, _, _ := t.p.fcmp(args[0], 0.0)
			return t.p.bv(lt), true
		},
		"math.Remainder":       pure(math.Remainder),
		"math.Tan":             fl1(math.Tan, nil),
		"math.Asin":            fl1(math.Asin, nil),
		"math.Acos":            fl1(math.Acos, nil),
		"math.Atan":            fl1(math.Atan, nil),
		"math.Cbrt":            fl1(math.Cbrt, nil),
		"math.Float64bits":     pure(func(f float64) int64 { return int64(math.Float64bits(f)) }),
		"math.Float64frombits": pure(func(f int64) float64 { return math.Float64frombits(uint64(f)) }),
		"math.Hypot": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			if anySym(args...) {
				return symHypot(t.p, args), true
			}
			return math.Hypot(args[0].(float64), args[1].(float64)), true
		},
		imath + "Abs":                   absI,
		imath + "Sqrt":                  sqrtI,
		imath + "IsNaN":                 isnan,
		imath + "IsInf":                 isinf,
		imath + "NaN":                   pure(math.NaN),
		imath + "Inf":                   pure(math.Inf),
		imath + "MinF64":                mmSym(true),
		imath + "MaxF64":                mmSym(false),
		imath + "Hypot":                 onlySym(symHypot),
		imath + "Hypot2":                onlySym(func(p *path, a []Value) Value { return p.addv(p.mulv(a[0], a[0]), p.mulv(a[1], a[1])) }),
		igeom + "hypot":                 onlySym(symHypot),
		igeom + "minf64":                mmSym(true),
		igeom + "maxf64":                mmSym(false),
		"github.com/intdxdt/mbr.minf64": mmSym(true),
		"github.com/intdxdt/mbr.maxf64": mmSym(false),
		imath + "FloatEqual": onlySym(func(p *path, a []Value) Value {
			return p.floatEq(a[0], a[1])
		}),
		imath + "SignOfDet2": onlySym(func(p *path, a []Value) Value {
			d := p.subv(p.mulv(a[0], a[3]), p.mulv(a[1], a[2]))
			return p.signOf(d)
		}),
		imath + "Cos":   fl1(math.Cos, nil),
		imath + "Sin":   fl1(math.Sin, nil),
		imath + "Atan2": pure(math.Atan2),

		"strings.TrimSpace":   pure(strings.TrimSpace),
		"strings.Trim":        pure(strings.Trim),
		"strings.Split":       pure(strings.Split),
		"strings.SplitN":      pure(strings.SplitN),
		"strings.Join":        pure(strings.Join),
		"strings.Repeat":      pure(strings.Repeat),
		"strings.ToLower":     pure(strings.ToLower),
		"strings.ToUpper":     pure(strings.ToUpper),
		"strings.Index":       pure(strings.Index),
		"strings.LastIndex":   pure(strings.LastIndex),
		"strings.IndexByte":   pure(strings.IndexByte),
		"strings.HasPrefix":   pure(strings.HasPrefix),
		"strings.HasSuffix":   pure(strings.HasSuffix),
		"strings.Contains":    pure(strings.Contains),
		"strings.Replace":     pure(strings.Replace),
		"strings.ReplaceAll":  pure(strings.ReplaceAll),
		"strings.Fields":      pure(strings.Fields),
		"strings.EqualFold":   pure(strings.EqualFold),
		"strings.TrimLeft":    pure(strings.TrimLeft),
		"strings.TrimRight":   pure(strings.TrimRight),
		"strings.TrimPrefix":  pure(strings.TrimPrefix),
		"strings.TrimSuffix":  pure(strings.TrimSuffix),
		"bytes.Equal":         pure(func(a, b []byte) bool { return string(a) == string(b) }),
		"unicode.IsSpace":     pure(unicode.IsSpace),
		"unicode.IsLetter":    pure(unicode.IsLetter),
		"unicode.IsDigit":     pure(unicode.IsDigit),
		"strconv.Itoa":        pure(strconv.Itoa),
		"strconv.FormatInt":   pure(strconv.FormatInt),
		"strconv.FormatFloat": formatFloat,
		"strconv.FormatBool":  pure(strconv.FormatBool),
		"strconv.Quote":       pure(strconv.Quote),
		"strconv.Atoi": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			i, err := strconv.Atoi(args[0].(string))
			return atoiTuple(t.p, int64(i), err), true
		},
		"strconv.ParseFloat": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			if v, ok := t.p.numOf([]byte(args[0].(string))); ok {
				return Tuple{v, Iface{}}, true
			}
			i, err := strconv.ParseFloat(args[0].(string), int(args[1].(int64)))
			return atoiTuple(t.p, i, err), true
		},
		"strconv.ParseInt": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			i, err := strconv.ParseInt(args[0].(string), int(args[1].(int64)), int(args[2].(int64)))
			return atoiTuple(t.p, i, err), true
		},
		"internal/bytealg.IndexByteString":     pure(strings.IndexByte),
		"internal/bytealg.LastIndexByteString": pure(strings.LastIndexByte),
		"internal/bytealg.IndexString":         pure(strings.Index),
		"internal/bytealg.CountString":         pure(func(s string, c byte) int { return strings.Count(s, string([]byte{c})) }),
		"internal/bytealg.IndexByte":           pure(bytes.IndexByte),
		"internal/bytealg.LastIndexByte":       pure(bytes.LastIndexByte),
		"internal/bytealg.Index":               pure(bytes.Index),
		"internal/bytealg.Equal":               pure(bytes.Equal),
		"internal/bytealg.Compare":             pure(bytes.Compare),
		"internal/bytealg.CompareString":       pure(strings.Compare),
		"internal/bytealg.Count":               pure(func(b []byte, c byte) int { return bytes.Count(b, []byte{c}) }),
		"internal/stringslite.Index":           pure(strings.Index),
		"internal/stringslite.IndexByte":       pure(strings.IndexByte),
		"internal/stringslite.HasPrefix":       pure(strings.HasPrefix),
		"internal/stringslite.HasSuffix":       pure(strings.HasSuffix),
		"internal/stringslite.TrimPrefix":      pure(strings.TrimPrefix),
		"internal/stringslite.TrimSuffix":      pure(strings.TrimSuffix),
		"internal/stringslite.Clone":           pure(strings.Clone),
		"internal/stringslite.Cut": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			a, b, ok := strings.Cut(args[0].(string), args[1].(string))
			return Tuple{a, b, ok}, true
		},
		"strings.Clone":          pure(strings.Clone),
		"strings.Count":          pure(strings.Count),
		"strings.ContainsAny":    pure(strings.ContainsAny),
		"strings.ContainsRune":   pure(strings.ContainsRune),
		"strings.IndexAny":       pure(strings.IndexAny),
		"strings.IndexRune":      pure(strings.IndexRune),
		"strings.Compare":        pure(strings.Compare),
		"strings.Title":          pure(strings.Title),
		"unicode.ToUpper":        pure(unicode.ToUpper),
		"unicode.ToLower":        pure(unicode.ToLower),
		"unicode.IsUpper":        pure(unicode.IsUpper),
		"unicode.IsLower":        pure(unicode.IsLower),
		"unicode.IsPunct":        pure(unicode.IsPunct),
		"(*strings.Builder).Len": func(t *thread, f *fnInfo, a []Value) (Value, bool) { return int64(len(t.sbGet(a[0]))), true },
		"(*strings.Builder).Cap": func(t *thread, f *fnInfo, a []Value) (Value, bool) { return int64(len(t.sbGet(a[0]))), true },
		"(*strings.Builder).String": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			return t.sbGet(a[0]), true
		},
		"(*strings.Builder).Reset": func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.sbSet(a[0], ""); return nil, true },
		"(*strings.Builder).Grow": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			if t.p.cint(a[1]) < 0 {
				panic(progPanic{msg: "strings.Builder.Grow: negative count"})
			}
			return nil, true
		},
		"(*strings.Builder).WriteString": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			s := a[1].(string)
			t.sbSet(a[0], t.sbGet(a[0])+s)
			return Tuple{int64(len(s)), Iface{}}, true
		},
		"(*strings.Builder).WriteByte": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			t.sbSet(a[0], t.sbGet(a[0])+string([]byte{byte(t.p.cint(a[1]))}))
			return Iface{}, true
		},
		"(*strings.Builder).WriteRune": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			s := string(rune(t.p.cint(a[1])))
			t.sbSet(a[0], t.sbGet(a[0])+s)
			return Tuple{int64(len(s)), Iface{}}, true
		},
		"(*strings.Builder).Write": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			var b []byte
			for _, v := range t.p.sliceVals(a[1]) {
				b = append(b, byte(t.p.cint(v)))
			}
			t.sbSet(a[0], t.sbGet(a[0])+string(b))
			return Tuple{int64(len(b)), Iface{}}, true
		},

		"fmt.Println":  noopN(2),
		"fmt.Printf":   noopN(2),
		"fmt.Print":    noopN(2),
		"fmt.Fprintln": fprint(func(t *thread, a []Value) string { return fmt.Sprintln(t.hostArgs(a[0])...) }),
		"fmt.Fprint":   fprint(func(t *thread, a []Value) string { return fmt.Sprint(t.hostArgs(a[0])...) }),
		"fmt.Fprintf":  fprint(func(t *thread, a []Value) string { return fmt.Sprintf(a[0].(string), t.hostArgs(a[1])...) }),
		"log.Println":  noop,
		"log.Printf":   noop,
		"log.Print":    noop,
		"log.Fatalln":  fatal,
		"log.Fatalf":   fatal,
		"log.Fatal":    fatal,
		"os.Exit":      fatal,
		"fmt.Sprintf": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			return t.p.fmtd(fmt.Sprintf(args[0].(string), t.hostArgs(args[1])...)), true
		},
		"fmt.Sprint": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			return t.p.fmtd(fmt.Sprint(t.hostArgs(args[0])...)), true
		},
		"fmt.Sprintln": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			return t.p.fmtd(fmt.Sprintln(t.hostArgs(args[0])...)), true
		},
		"fmt.Errorf": func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			s := fmt.Sprintf(strings.ReplaceAll(args[0].(string), "%w", "%v"), t.hostArgs(args[1])...)
			t.p.badFmt = false
			if strings.Contains(args[0].(string), "%w") {
				if e, ok := t.wrapError(s, args[1]); ok {
					return e, true
				}
				unsup("fmt.Errorf")
			}
			return t.p.mkError(s), true
		},

		"(*sync.Mutex).Lock":      func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.lock(a[0]); return nil, true },
		"(*sync.Mutex).Unlock":    func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.unlock(a[0]); return nil, true },
		"(*sync.Mutex).TryLock":   func(t *thread, f *fnInfo, a []Value) (Value, bool) { return t.tryLock(a[0]), true },
		"(*sync.RWMutex).Lock":    func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.lock(a[0]); return nil, true },
		"(*sync.RWMutex).Unlock":  func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.unlock(a[0]); return nil, true },
		"(*sync.RWMutex).RLock":   func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.rlock(a[0]); return nil, true },
		"(*sync.RWMutex).RUnlock": func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.runlock(a[0]); return nil, true },
		"(*sync.WaitGroup).Add":   func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.wgAdd(a[0], t.p.cint(a[1])); return nil, true },
		"(*sync.WaitGroup).Done":  func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.wgAdd(a[0], -1); return nil, true },
		"(*sync.WaitGroup).Wait":  func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.wgWait(a[0]); return nil, true },
		"(*sync.WaitGroup).Go": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			t.wgAdd(a[0], 1)
			wg, fn := a[0], a[1].(*Closure)
			t.p.spawn(t, &Closure{host: func(t *thread, _ []Value) Value {
				t.invoke(fn, nil)
				t.wgAdd(wg, -1)
				return nil
			}}, nil)
			return nil, true
		},
		"(*sync.Once).Do": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			s := t.p.syncOf(a[0])
			t.yield()
			for s.locked {
				s.waitq = append(s.waitq, t)
				t.block()
			}
			if !s.onceEnd {
				s.locked = true
				t.invoke(a[1].(*Closure), nil)
				s.onceEnd = true
				s.locked = false
				if r := t.release(); r != nil {
					s.vc.join(r)
				}
				t.p.wakeAll(s)
			}
			t.acquire(s.vc)
			return nil, true
		},
		"runtime.Gosched":    func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.yield(); return nil, true },
		"runtime.NumCPU":     pure(func() int { return 8 }),
		"runtime.GOMAXPROCS": pure(func(int) int { return 8 }),
		"runtime.GC":         noop,
		"time.Now": func(t *thread, f *fnInfo, a []Value) (Value, bool) {
			return zero(f.fn.Signature.Results().At(0).Type()), true
		},
		"time.Sleep": func(t *thread, f *fnInfo, a []Value) (Value, bool) { t.yield(); return nil, true },

		"sort.Slice":       sortSlice("pdqsort_func"),
		"sort.SliceStable": sortSlice("stable_func"),

		"github.com/intdxdt/robust.Orientation2D": orient2D,
		igeom + "DistanceToPoint":                 ptDist(true),
		igeom + "SquareDistanceToPoint":           ptDist(false),
		igeom + "SegSegDistance":                  segDist(true),
		igeom + "SquareSegSegDistance":            segDist(false),
		igeom + "SegSegIntersects":                segInter,
	}
	for _, a := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		a := a
		intrinsics["(*sync/atomic."+a+").Load"] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			t.yield()
			return t.atomicCell(args[0]).v, true
		}
		intrinsics["(*sync/atomic."+a+").Store"] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			t.atomicCell(args[0]).v = args[1]
			t.yield()
			return nil, true
		}
		intrinsics["(*sync/atomic."+a+").Add"] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			c := t.atomicCell(args[0])
			v := t.p.iv(t.p.tc.Add(t.p.it(c.v), t.p.it(args[1])))
			c.v = v
			t.yield()
			return v, true
		}
		intrinsics["(*sync/atomic."+a+").CompareAndSwap"] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			c := t.atomicCell(args[0])
			ok := t.p.truth(t.p.eqv(c.v, args[1]))
			if ok {
				c.v = args[2]
			}
			t.yield()
			return ok, true
		}
		intrinsics["(*sync/atomic."+a+").Swap"] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			c := t.atomicCell(args[0])
			v := c.v
			c.v = args[1]
			t.yield()
			return v, true
		}
		if a == "Bool" {
			continue
		}
		intrinsics["sync/atomic.Swap"+a] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			c := t.atomicPtr(args[0])
			v := c.v
			c.v = args[1]
			t.yield()
			return v, true
		}
		intrinsics["sync/atomic.Add"+a] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			c := t.atomicPtr(args[0])
			v := t.p.iv(t.p.tc.Add(t.p.it(c.v), t.p.it(args[1])))
			c.v = v
			t.yield()
			return v, true
		}
		intrinsics["sync/atomic.Load"+a] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			t.yield()
			return t.atomicPtr(args[0]).v, true
		}
		intrinsics["sync/atomic.Store"+a] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			t.atomicPtr(args[0]).v = args[1]
			t.yield()
			return nil, true
		}
		intrinsics["sync/atomic.CompareAndSwap"+a] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			c := t.atomicPtr(args[0])
			ok := t.p.truth(t.p.eqv(c.v, args[1]))
			if ok {
				c.v = args[2]
			}
			t.yield()
			return ok, true
		}
	}
	symIntrinsics()
	geomIntrinsics()
	jsonIntrinsics()
	osIntrinsics()
}

func (t *thread) atomicPtr(v Value) *Cell {
	if t.p.spec > 0 {
		panic(specAbort{"atomic"})
	}
	c := v.(*Cell)
	if c == nil {
		t.p.panicRT("invalid memory address or nil pointer dereference")
	}
	s := t.p.syncOf(v)
	t.acquire(s.vc)
	if r := t.release(); r != nil {
		s.vc.join(r)
	}
	return c
}

// A strings.Builder holds its text, as a string, in the buf field.
func (t *thread) sbCell(v Value) *Cell {
	c := v.(*Cell)
	if c == nil {
		t.p.panicRT("invalid memory address or nil pointer dereference")
	}
	a := c.v.(Agg)
	return &a[len(a)-1]
}

func (t *thread) sbGet(v Value) string {
	s, _ := t.p.load(t.sbCell(v)).(string)
	return s
}

func (t *thread) sbSet(v Value, s string) { t.p.setCell(t.sbCell(v), s) }

// atomicCell: the value cell inside atomic.Int64 etc. (last field).
func (t *thread) atomicCell(v Value) *Cell {
	c := t.atomicPtr(v)
	a := c.v.(Agg)
	return &a[len(a)-1]
}

func (t *thread) tryLock(v Value) Value {
	s := t.p.syncOf(v)
	t.yield()
	if s.locked || s.readers > 0 {
		return false
	}
	s.locked = true
	t.acquire(s.vc)
	return true
}

// fprint: text for a writer held in memory is written, other writers (the
// standard streams) swallow it.
func fprint(text func(t *thread, a []Value) string) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		w := args[0].(Iface)
		if c, ok := w.v.(*Cell); ok && t.p.files[c] != nil {
			s := t.p.fmtd(text(t, args[1:]))
			t.writeTo(w, s)
			return Tuple{int64(len(s)), Iface{}}, true
		}
		if w.t == nil || strings.HasSuffix(w.t.String(), "os.File") {
			return Tuple{int64(0), Iface{}}, true
		}
		fn := t.p.w.ex.prog.methodByName(w.t, "Write")
		if fn == nil {
			return Tuple{int64(0), Iface{}}, true
		}
		s := t.p.fmtd(text(t, args[1:]))
		b := Slice{isN: true, a: make([]Cell, len(s))}
		for i := range b.a {
			b.a[i].v = int64(s[i])
		}
		return t.call(getFn(fn), []Value{w.v, b}, nil), true
	}
}

func noopN(n int) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		return Tuple{int64(0), Iface{}}, true
	}
}

func fatal(t *thread, f *fnInfo, args []Value) (Value, bool) {
	if t.p.spec > 0 {
		panic(specAbort{"exit"})
	}
	panic(progPanic{msg: "program exit via " + f.name})
}

// hostArgs converts a []interface{} for fmt.
func (t *thread) hostArgs(v Value) []interface{} {
	var r []interface{}
	for _, e := range t.p.sliceVals(v) {
		r = append(r, t.hostVal(e))
	}
	return r
}

func (t *thread) hostVal(v Value) interface{} {
	p := t.p
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		for _, m := range []string{"Error", "String"} {
			if fn := p.w.ex.prog.methodByName(x.t, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isStringT(fn.Signature.Results().At(0).Type()) {
				if s, ok := t.call(getFn(fn), []Value{x.v}, nil).(string); ok {
					return s
				}
			}
		}
		return t.hostVal(x.v)
	case int64, bool, float64, string:
		return x
	case *Term:
		return p.concretize(x)
	case *SymF:
		s, _ := p.numText(x)
		return &symNum{s, p}
	case Slice:
		var r []interface{}
		for _, e := range p.sliceVals(x) {
			r = append(r, t.hostVal(e))
		}
		return r
	case Agg:
		var r []interface{}
		for i := range x {
			r = append(r, t.hostVal(x[i].v))
		}
		return r
	}
	return fmt.Sprintf("<%T>", v)
}

func formatFloat(t *thread, f *fnInfo, args []Value) (Value, bool) {
	if x, ok := args[0].(float64); ok {
		return strconv.FormatFloat(x, byte(t.p.cint(args[1])), int(t.p.cint(args[2])), int(t.p.cint(args[3]))), true
	}
	s, ok := t.p.numText(args[0])
	if !ok || t.p.cint(args[2]) != -1 {
		unsup("strconv.FormatFloat of a symbolic float")
	}
	return s, true
}

// wrapError is the error that fmt.Errorf makes of a text with one %w.
func (t *thread) wrapError(s string, args Value) (Value, bool) {
	pk := t.p.w.ex.prog.pkg("fmt")
	if pk == nil || pk.Type("wrapError") == nil {
		return nil, false
	}
	for _, v := range t.p.sliceVals(args) {
		e := v.(Iface)
		if e.t != nil && t.p.w.ex.prog.methodByName(e.t, "Error") != nil {
			c := t.p.newCell(Agg{{v: s}, {v: e}})
			if t.p.spec > 0 {
				stamp(c.v, t.p.epoch)
			}
			return Iface{canon(types.NewPointer(pk.Type("wrapError").Type())), c}, true
		}
	}
	return nil, false
}

// symNum prints a symbolic float as the literal that stands for it.
type symNum struct {
	lit string
	p   *path
}

func (s *symNum) Format(st fmt.State, verb rune) {
	_, w := st.Width()
	if pr, ok := st.Precision(); w || ok && pr >= 0 || verb != 'v' && verb != 'g' && verb != 'f' {
		s.p.badFmt = true
	} else if verb == 'f' {
		s.p.badFmt = true
	}
	st.Write([]byte(s.lit))
}

func (p *path) fmtd(s string) string {
	if p.badFmt {
		p.badFmt = false
		unsup("formatting of a symbolic float")
	}
	return s
}

func sortSlice(impl string) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		p := t.p
		x := args[0].(Iface)
		s := x.v.(Slice)
		pk := p.w.ex.prog.pkg("sort")
		if pk == nil || pk.Func(impl) == nil {
			unsup("sort.%s", impl)
		}
		swap := &Closure{host: func(t *thread, a []Value) Value {
			i, j := t.p.cint(a[0]), t.p.cint(a[1])
			vi, vj := t.p.load(&s.a[i]), t.p.load(&s.a[j])
			t.p.setCell(&s.a[i], vj)
			t.p.setCell(&s.a[j], vi)
			return nil
		}}
		ls := Agg{{v: args[1]}, {v: swap}}
		n := int64(len(s.a))
		fi := getFn(pk.Func(impl))
		if impl == "stable_func" {
			t.call(fi, []Value{ls, n}, nil)
		} else {
			lim := int64(0)
			for k := n; k > 0; k >>= 1 {
				lim++
			}
			t.call(fi, []Value{ls, int64(0), n, lim}, nil)
		}
		return nil, true
	}
}

var _ = sort.Ints

// ------------------------------------------------------------ the sym package

func (p *path) noSpec(what string) {
	if p.spec > 0 {
		panic(specAbort{what})
	}
}

// fixedInput: concrete execution of one assignment (debugging the encoder).
func (p *path) fixedInput(name string) (int64, bool) {
	if p.cfg.inputs == nil {
		return 0, false
	}
	k := fmt.Sprintf("in:%s#%d", name, p.fixed[name])
	p.fixed[name]++
	return p.cfg.inputs[k], true
}

func symIntrinsics() {
	reg := func(name string, fn func(t *thread, p *path, a []Value) Value) {
		intrinsics[symPkg+name] = func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			return fn(t, t.p, args), true
		}
	}
	reg("Int", func(t *thread, p *path, a []Value) Value {
		p.noSpec("input")
		lo, hi := p.cint(a[1]), p.cint(a[2])
		if v, ok := p.fixedInput(a[0].(string)); ok {
			return v
		}
		if lo == hi {
			v := p.newVar("in:"+a[0].(string), false, lo, hi)
			p.inputs = append(p.inputs, v)
			return lo
		}
		v := p.newVar("in:"+a[0].(string), false, lo, hi)
		p.inputs = append(p.inputs, v)
		return v
	})
	reg("Bool", func(t *thread, p *path, a []Value) Value {
		p.noSpec("input")
		if v, ok := p.fixedInput(a[0].(string)); ok {
			return v == 1
		}
		v := p.newVar("in:"+a[0].(string), true, 0, 1)
		p.inputs = append(p.inputs, v)
		return v
	})
	reg("Grid", func(t *thread, p *path, a []Value) Value {
		p.noSpec("input")
		lo, hi := p.cint(a[1]), p.cint(a[2])
		if v, ok := p.fixedInput(a[0].(string)); ok {
			return float64(v)
		}
		v := p.newVar("in:"+a[0].(string), false, lo, hi)
		p.inputs = append(p.inputs, v)
		if lo == hi {
			return float64(lo)
		}
		return &SymF{num: v, den: p.one()}
	})
	reg("GridDen", func(t *thread, p *path, a []Value) Value {
		p.noSpec("input")
		lo, hi, den := p.cint(a[1]), p.cint(a[2]), p.cint(a[3])
		if v, ok := p.fixedInput(a[0].(string)); ok {
			return float64(v) / float64(den)
		}
		v := p.newVar("in:"+a[0].(string), false, lo, hi)
		p.inputs = append(p.inputs, v)
		if lo == hi {
			return float64(lo) / float64(den)
		}
		return &SymF{num: v, den: p.tc.Int(den)}
	})
	reg("Choose", func(t *thread, p *path, a []Value) Value {
		p.noSpec("input")
		n := p.cint(a[1])
		if v, ok := p.fixedInput(a[0].(string)); ok {
			return v
		}
		v := p.newVar("in:"+a[0].(string), false, 0, n-1)
		p.inputs = append(p.inputs, v)
		if n == 1 {
			return int64(0)
		}
		return p.concretize(v)
	})
	reg("Param", func(t *thread, p *path, a []Value) Value {
		if p.cfg.thorough {
			return a[1]
		}
		return a[0]
	})
	reg("Symbolic", func(t *thread, p *path, a []Value) Value { return true })
	reg("Assume", func(t *thread, p *path, a []Value) Value { p.assume(a[0]); return nil })
	reg("Assert", func(t *thread, p *path, a []Value) Value { p.assertT(a[0], a[1].(string)); return nil })
	reg("Reach", func(t *thread, p *path, a []Value) Value {
		p.noSpec("reach")
		p.reached[a[0].(string)] = true
		return nil
	})
	reg("Observe", func(t *thread, p *path, a []Value) Value {
		p.noSpec("observe")
		vals := p.sliceVals(a[1])
		p.obs = append(p.obs, obs{a[0].(string), vals})
		return nil
	})
	reg("ObserveBool", func(t *thread, p *path, a []Value) Value {
		p.noSpec("observe")
		vals := p.sliceVals(a[1])
		for i, v := range vals {
			if tm, ok := v.(*Term); ok {
				vals[i] = p.iv(p.tc.Ite(tm, p.tc.Int(1), p.tc.Int(0)))
			} else if v.(bool) {
				vals[i] = int64(1)
			} else {
				vals[i] = int64(0)
			}
		}
		p.obs = append(p.obs, obs{a[0].(string), vals})
		return nil
	})
	reg("And", func(t *thread, p *path, a []Value) Value {
		r := p.tc.tru
		for _, v := range p.sliceVals(a[0]) {
			r = p.tc.And(r, p.bt(v))
		}
		return p.bv(r)
	})
	reg("Or", func(t *thread, p *path, a []Value) Value {
		r := p.tc.fls
		for _, v := range p.sliceVals(a[0]) {
			r = p.tc.Or(r, p.bt(v))
		}
		return p.bv(r)
	})
	reg("Not", func(t *thread, p *path, a []Value) Value { return p.bv(p.tc.Not(p.bt(a[0]))) })
	reg("Implies", func(t *thread, p *path, a []Value) Value {
		return p.bv(p.tc.Or(p.tc.Not(p.bt(a[0])), p.bt(a[1])))
	})
	reg("Iff", func(t *thread, p *path, a []Value) Value { return p.bv(p.tc.Eq(p.bt(a[0]), p.bt(a[1]))) })
	reg("IteInt", func(t *thread, p *path, a []Value) Value {
		return p.iv(p.tc.Ite(p.bt(a[0]), p.it(a[1]), p.it(a[2])))
	})
	reg("IteF", func(t *thread, p *path, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		v, ok := p.fite(a[0].(*Term), a[1], a[2])
		if !ok {
			unsup("IteF")
		}
		return v
	})
	reg("B2I", func(t *thread, p *path, a []Value) Value {
		return p.iv(p.tc.Ite(p.bt(a[0]), p.tc.Int(1), p.tc.Int(0)))
	})
	reg("ConcInt", func(t *thread, p *path, a []Value) Value { return p.conc(a[0]) })
	reg("ConcBool", func(t *thread, p *path, a []Value) Value { return p.truth(a[0]) })
	// exact real comparisons (tolerance-free in the engine, epsilon natively)
	reg("FLe", func(t *thread, p *path, a []Value) Value {
		l, e, _ := p.fexact(a[0], a[1])
		return p.bv(p.tc.Or(l, e))
	})
	reg("FLt", func(t *thread, p *path, a []Value) Value {
		l, _, _ := p.fexact(a[0], a[1])
		return p.bv(l)
	})
	reg("FEq", func(t *thread, p *path, a []Value) Value {
		_, e, _ := p.fexact(a[0], a[1])
		return p.bv(e)
	})
	reg("NoMerge", func(t *thread, p *path, a []Value) Value {
		if a[0].(bool) {
			p.noMerge++
		} else {
			p.noMerge--
		}
		return nil
	})
	reg("Schedules", func(t *thread, p *path, a []Value) Value {
		p.explore = true
		p.preempt = int(p.cint(a[0]))
		return nil
	})
	reg("Jitter", func(t *thread, p *path, a []Value) Value { return nil })
	reg("SchedulesOff", func(t *thread, p *path, a []Value) Value {
		p.explore = false
		return nil
	})
	reg("Races", func(t *thread, p *path, a []Value) Value {
		p.race = &raceState{cells: map[*Cell]*cellAcc{}, found: map[string]bool{}}
		for _, o := range p.threads {
			if o.vc == nil {
				o.vc = vclock{o.id: 1}
			}
		}
		return nil
	})
	reg("SameTies", func(t *thread, p *path, a []Value) Value {
		p.tieVal = true
		return nil
	})
	reg("MapOrders", func(t *thread, p *path, a []Value) Value {
		p.mapLeft = int(a[0].(int64))
		p.mapSym = p.mapSym || p.mapLeft > 0
		return nil
	})
	reg("Panics", func(t *thread, p *path, a []Value) (r Value) {
		p.noSpec("panics")
		depth := t.depth
		r = false
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(progPanic); ok {
					t.depth = depth
					r = true
					return
				}
				panic(e)
			}
		}()
		t.invoke(a[0].(*Closure), nil)
		return
	})
	reg("SegInter", func(t *thread, p *path, a []Value) Value {
		return p.bv(p.segIntersects(xyPair(a, 0), xyPair(a, 2), xyPair(a, 4), xyPair(a, 6)))
	})
	reg("Cross", func(t *thread, p *path, a []Value) Value {
		return p.cross(xyPair(a, 0), xyPair(a, 2), xyPair(a, 4))
	})
	reg("PtSegDist2", func(t *thread, p *path, a []Value) Value {
		return p.ptSegSq(xyPair(a, 2), xyPair(a, 4), xyPair(a, 0))
	})
	reg("SegSegDist2", func(t *thread, p *path, a []Value) Value {
		return p.segSegSq(xyPair(a, 0), xyPair(a, 2), xyPair(a, 4), xyPair(a, 6))
	})
}

func xyPair(a []Value, i int) [2]Value { return [2]Value{a[i], a[i+1]} }

func (p *path) fexact(a, b Value) (lt, eq, gt *Term) {
	s := p.noTies
	p.noTies = true
	defer func() { p.noTies = s }()
	fa, ok1 := a.(float64)
	fb, ok2 := b.(float64)
	if ok1 && ok2 {
		// both concrete: compare with the tolerance the native package uses
		d := fa - fb
		tol := 1e-9 * math.Max(1, math.Max(math.Abs(fa), math.Abs(fb)))
		if fa == fb || math.Abs(d) <= tol {
			return p.tc.fls, p.tc.tru, p.tc.fls
		}
		return p.tc.Bool(fa < fb), p.tc.fls, p.tc.Bool(fa > fb)
	}
	return p.fcmp(a, b)
}

func (p *path) floatEq(a, b Value) Value {
	if fa, ok := a.(float64); ok && (math.IsInf(fa, 0) || math.IsNaN(fa) || math.Abs(fa) > 1<<40) {
		return false
	}
	if fb, ok := b.(float64); ok && (math.IsInf(fb, 0) || math.IsNaN(fb) || math.Abs(fb) > 1<<40) {
		return false
	}
	_, e, _ := p.fexact(a, b)
	return p.bv(e)
}

// signOf: -1, 0, 1 of a float value as an int value.
func (p *path) signOf(v Value) Value {
	if f, ok := v.(float64); ok {
		switch {
		case f < 0:
			return int64(-1)
		case f > 0:
			return int64(1)
		}
		return int64(0)
	}
	s := v.(*SymF)
	z := p.tc.Int(0)
	return p.iv(p.tc.Ite(p.tc.Lt(s.num, z), p.tc.Int(-1), p.tc.Ite(p.tc.Eq(s.num, z), z, p.tc.Int(1))))
}
