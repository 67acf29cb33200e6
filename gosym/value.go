package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KInvalid  Kind = iota
	KInt           // u (truncated to w bits); w==0: bool
	KSym           // p *Term
	KFloat         // u = Float64bits
	KStr           // p string
	KSymStr        // p []Value, immutable bytes
	KSlice         // p *Slice or nil
	KPtr           // p *Ptr or nil
	KAgg           // p *Agg
	KMap           // p *Map or nil
	KIface         // p *Iface or nil
	KFunc          // p *Func or nil
	KTuple         // p []Value
	KNative        // p anything
	KSymFloat      // p *Term: a float64 with the value of this signed 64-bit term, below 2^53
)

type Value struct {
	k Kind
	w uint8
	u uint64
	p any
}

// Obj identifies an allocation; seq orders allocations in time.
type Obj struct {
	seq   uint64
	label string
}

type Ptr struct {
	cell *Value
	obj  *Obj
	arr  *Arr // when pointing at an element of arr
	idx  int
}

type Agg struct{ f []Value }

type Arr struct {
	obj Obj
	e   []Value
}

type Slice struct {
	arr *Arr
	off int
	len int
	cap int
}

type ment struct {
	k, v Value
	dead bool
}

type Map struct {
	obj  Obj
	ents []*ment
	idx  map[string]int
	nsym int
	n    int
}

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, args []Value) Value
	bi     *ssa.Builtin
}

func vInt(w uint8, u uint64) Value { return Value{k: KInt, w: w, u: u & mask(w)} }
func vI64(i int) Value             { return Value{k: KInt, w: 64, u: uint64(int64(i))} }
func vBool(b bool) Value {
	if b {
		return Value{k: KInt, w: 0, u: 1}
	}
	return Value{k: KInt, w: 0, u: 0}
}
func vStr(s string) Value     { return Value{k: KStr, p: s} }
func vFloat(f float64) Value  { return Value{k: KFloat, w: 64, u: math.Float64bits(f)} }
func vTuple(v ...Value) Value { return Value{k: KTuple, p: v} }
func vTerm(t *Term) Value {
	if t.op == OConst {
		return Value{k: KInt, w: t.w, u: t.k}
	}
	return Value{k: KSym, w: t.w, p: t}
}

func (v Value) term(m *TermMgr) *Term {
	switch v.k {
	case KInt:
		return m.Const(v.w, v.u)
	case KSym:
		return v.p.(*Term)
	}
	panic(unsupported(fmt.Sprintf("term of kind %d", v.k)))
}

func (v Value) float() float64 { return math.Float64frombits(v.u) }

func vSymFloat(t *Term) Value {
	if t.op == OConst {
		return vFloat(float64(int64(t.k)))
	}
	return Value{k: KSymFloat, w: 64, p: t}
}

// floatInt is the term with the value of the float x, if x is an integer below 2^53.
func (in *Interp) floatInt(x Value) (*Term, bool) {
	if x.k == KSymFloat {
		return x.p.(*Term), true
	}
	f := x.float()
	if f != math.Trunc(f) || math.Abs(f) >= 1<<53 || f == 0 && math.Signbit(f) {
		return nil, false
	}
	return in.tm.Const(64, uint64(int64(f))), true
}

// concFloat makes x a concrete float.
func (in *Interp) concFloat(x Value) Value {
	if x.k == KSymFloat {
		return vFloat(float64(int64(in.concInt(vTerm(x.p.(*Term))))))
	}
	return x
}

// floatCmp compares floats at least one of which is symbolic.
func (in *Interp) floatCmp(tok token.Token, x, y Value) Value {
	m := in.tm
	if x.k != KSymFloat {
		x, y = y, x
		switch tok {
		case token.LSS:
			tok = token.GTR
		case token.GTR:
			tok = token.LSS
		case token.LEQ:
			tok = token.GEQ
		case token.GEQ:
			tok = token.LEQ
		}
	}
	t := x.p.(*Term)
	var lo, hi *Term // floor and ceiling of y
	if y.k == KSymFloat {
		lo = y.p.(*Term)
		hi = lo
	} else {
		f := y.float()
		switch {
		case math.IsNaN(f):
			return vBool(tok == token.NEQ)
		case f >= 1<<60:
			f = 1 << 60
		case f <= -(1 << 60):
			f = -(1 << 60)
		}
		lo = m.Const(64, uint64(int64(math.Floor(f))))
		hi = m.Const(64, uint64(int64(math.Ceil(f))))
	}
	switch tok {
	case token.EQL:
		return vTerm(m.And(m.Eq(t, lo), m.Eq(t, hi)))
	case token.NEQ:
		return vTerm(m.Not(m.And(m.Eq(t, lo), m.Eq(t, hi))))
	case token.LSS:
		return vTerm(m.Cmp(OSlt, t, hi))
	case token.LEQ:
		return vTerm(m.Cmp(OSle, t, lo))
	case token.GTR:
		return vTerm(m.Cmp(OSlt, lo, t))
	case token.GEQ:
		return vTerm(m.Cmp(OSle, hi, t))
	}
	panic(unsupported("float comparison"))
}

func (v Value) isNil() bool { return v.p == nil }

// strLen returns the length of a string value.
func (v Value) strLen() int {
	switch v.k {
	case KStr:
		return len(v.p.(string))
	case KSymStr:
		return len(v.p.([]Value))
	}
	panic(unsupported("strLen"))
}

func (v Value) strAt(i int) Value {
	if v.k == KStr {
		return Value{k: KInt, w: 8, u: uint64(v.p.(string)[i])}
	}
	return v.p.([]Value)[i]
}

func (v Value) strBytes() []Value {
	if v.k == KSymStr {
		return v.p.([]Value)
	}
	s := v.p.(string)
	r := make([]Value, len(s))
	for i := range r {
		r[i] = Value{k: KInt, w: 8, u: uint64(s[i])}
	}
	return r
}

func (v Value) strSlice(lo, hi int) Value {
	if v.k == KStr {
		return vStr(v.p.(string)[lo:hi])
	}
	return mkStr(v.p.([]Value)[lo:hi])
}

// mkStr makes a string value of bytes, concrete if all of them are.
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].k != KInt {
			return Value{k: KSymStr, p: b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].u))
	}
	return vStr(sb.String())
}

func strConcat(a, b Value) Value {
	if a.k == KStr && b.k == KStr {
		return vStr(a.p.(string) + b.p.(string))
	}
	if a.strLen() == 0 {
		return b
	}
	if b.strLen() == 0 {
		return a
	}
	x := make([]Value, 0, a.strLen()+b.strLen())
	x = append(x, a.strBytes()...)
	x = append(x, b.strBytes()...)
	return Value{k: KSymStr, p: x}
}

// intWidth returns the width and signedness of an integer type.
func intWidth(b *types.Basic) (w uint8, signed, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zeroValue(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			return Value{k: KInt, w: w}
		}
		switch t.Kind() {
		case types.Float32, types.Float64, types.UntypedFloat:
			return vFloat(0)
		case types.String, types.UntypedString:
			return vStr("")
		case types.UnsafePointer:
			return Value{k: KPtr}
		case types.UntypedNil:
			return Value{k: KPtr}
		}
	case *types.Pointer:
		return Value{k: KPtr}
	case *types.Slice:
		return Value{k: KSlice}
	case *types.Map:
		return Value{k: KMap}
	case *types.Signature:
		return Value{k: KFunc}
	case *types.Interface:
		return Value{k: KIface}
	case *types.Chan:
		return Value{k: KNative}
	case *types.Struct:
		f := make([]Value, t.NumFields())
		for i := range f {
			f[i] = zeroValue(t.Field(i).Type())
		}
		return Value{k: KAgg, p: &Agg{f}}
	case *types.Array:
		f := make([]Value, t.Len())
		if t.Len() > 0 {
			z := zeroValue(t.Elem())
			for i := range f {
				if i == 0 {
					f[i] = z
				} else {
					f[i] = copyVal(z)
				}
			}
		}
		return Value{k: KAgg, p: &Agg{f}}
	case *types.Tuple:
		f := make([]Value, t.Len())
		for i := range f {
			f[i] = zeroValue(t.At(i).Type())
		}
		return Value{k: KTuple, p: f}
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal copies aggregates deeply; everything else is immutable or a reference.
func copyVal(v Value) Value {
	if v.k != KAgg {
		return v
	}
	a := v.p.(*Agg)
	f := make([]Value, len(a.f))
	for i := range f {
		if a.f[i].k == KAgg {
			f[i] = copyVal(a.f[i])
		} else {
			f[i] = a.f[i]
		}
	}
	return Value{k: KAgg, p: &Agg{f}}
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

// eqVal returns the (possibly symbolic) truth of a == b.
func (in *Interp) eqVal(a, b Value) Value {
	m := in.tm
	switch {
	case a.k == KInt && b.k == KInt:
		return vBool(a.u == b.u)
	case (a.k == KInt || a.k == KSym) && (b.k == KInt || b.k == KSym):
		return vTerm(m.Eq(a.term(m), b.term(m)))
	case a.k == KFloat && b.k == KFloat:
		return vBool(a.float() == b.float())
	case a.k == KSymFloat || b.k == KSymFloat:
		return in.floatCmp(token.EQL, a, b)
	case a.k == KStr && b.k == KStr:
		return vBool(a.p.(string) == b.p.(string))
	case (a.k == KStr || a.k == KSymStr) && (b.k == KStr || b.k == KSymStr):
		if a.strLen() != b.strLen() {
			return vBool(false)
		}
		t := m.tTrue
		n := a.strLen()
		for i := 0; i < n; i++ {
			x, y := a.strAt(i), b.strAt(i)
			if x.k == KInt && y.k == KInt {
				if x.u != y.u {
					return vBool(false)
				}
				continue
			}
			t = m.And(t, m.Eq(x.term(m), y.term(m)))
			if t.isFalse() {
				return vBool(false)
			}
		}
		return vTerm(t)
	case a.k == KAgg && b.k == KAgg:
		x, y := a.p.(*Agg), b.p.(*Agg)
		t := m.tTrue
		for i := range x.f {
			e := in.eqVal(x.f[i], y.f[i])
			t = m.And(t, e.term(m))
			if t.isFalse() {
				break
			}
		}
		return vTerm(t)
	case a.k == KPtr && b.k == KPtr:
		if a.p == nil || b.p == nil {
			return vBool(a.p == nil && b.p == nil)
		}
		return vBool(a.p.(*Ptr).cell == b.p.(*Ptr).cell)
	case a.k == KSlice && b.k == KSlice, a.k == KMap && b.k == KMap, a.k == KFunc && b.k == KFunc:
		if a.p == nil || b.p == nil {
			return vBool(a.p == nil && b.p == nil)
		}
		if a.k == KMap {
			return vBool(a.p == b.p)
		}
		panic(unsupported("comparing uncomparable values"))
	case a.k == KIface && b.k == KIface:
		if a.p == nil || b.p == nil {
			return vBool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if !types.Identical(x.t, y.t) {
			return vBool(false)
		}
		return in.eqVal(x.v, y.v)
	case a.k == KIface:
		if a.p == nil {
			return vBool(false)
		}
		return in.eqVal(a.p.(*Iface).v, b)
	case b.k == KIface:
		return in.eqVal(b, a)
	case a.k == KPtr && a.p == nil:
		return vBool(b.p == nil)
	case b.k == KPtr && b.p == nil:
		return vBool(a.p == nil)
	case a.k == KNative && b.k == KNative:
		return vBool(a.p == b.p)
	}
	panic(unsupported(fmt.Sprintf("eq of kinds %d, %d", a.k, b.k)))
}

// mergeVal returns the value that is a when c holds and b otherwise, if it can be expressed.
func (in *Interp) mergeVal(c *Term, a, b Value) (Value, bool) {
	m := in.tm
	isInt := func(v Value) bool { return v.k == KInt || v.k == KSym }
	isStr := func(v Value) bool { return v.k == KStr || v.k == KSymStr }
	switch {
	case isInt(a) && isInt(b):
		if a.k == KInt && b.k == KInt && a.u == b.u {
			return a, true
		}
		return vTerm(m.Ite(c, a.term(m), b.term(m))), true
	case isStr(a) && isStr(b):
		if a.strLen() != b.strLen() {
			return Value{}, false
		}
		if a.k == KStr && b.k == KStr && a.p.(string) == b.p.(string) {
			return a, true
		}
		x, y := a.strBytes(), b.strBytes()
		r := make([]Value, len(x))
		for i := range r {
			r[i], _ = in.mergeVal(c, x[i], y[i])
		}
		return mkStr(r), true
	case a.k == KFloat && b.k == KFloat:
		return a, a.u == b.u
	case a.k == KSymFloat && b.k == KSymFloat, a.k == KSymFloat && b.k == KFloat, a.k == KFloat && b.k == KSymFloat:
		x, ok := in.floatInt(a)
		y, ok2 := in.floatInt(b)
		if !ok || !ok2 {
			return Value{}, false
		}
		return vSymFloat(m.Ite(c, x, y)), true
	case a.k == KTuple && b.k == KTuple:
		x, y := a.p.([]Value), b.p.([]Value)
		r := make([]Value, len(x))
		for i := range r {
			var ok bool
			if r[i], ok = in.mergeVal(c, x[i], y[i]); !ok {
				return Value{}, false
			}
		}
		return Value{k: KTuple, p: r}, true
	case a.k == KAgg && b.k == KAgg:
		x, y := a.p.(*Agg), b.p.(*Agg)
		if len(x.f) != len(y.f) {
			return Value{}, false
		}
		r := make([]Value, len(x.f))
		for i := range r {
			var ok bool
			if r[i], ok = in.mergeVal(c, x.f[i], y.f[i]); !ok {
				return Value{}, false
			}
		}
		return Value{k: KAgg, p: &Agg{r}}, true
	case a.k == KPtr && b.k == KPtr:
		if a.p == nil && b.p == nil {
			return a, true
		}
		if a.p != nil && b.p != nil && a.p.(*Ptr).cell == b.p.(*Ptr).cell {
			return a, true
		}
		return Value{}, false
	case a.k == KSlice && b.k == KSlice:
		if a.p == nil && b.p == nil {
			return a, true
		}
		if a.p != nil && b.p != nil && *a.p.(*Slice) == *b.p.(*Slice) {
			return a, true
		}
		return Value{}, false
	case a.k == KMap && b.k == KMap:
		return a, a.p == b.p
	case a.k == KIface && b.k == KIface:
		if a.p == nil && b.p == nil {
			return a, true
		}
		if a.p == nil || b.p == nil {
			return Value{}, false
		}
		if a.p == b.p {
			return a, true
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if !types.Identical(x.t, y.t) {
			return Value{}, false
		}
		v, ok := in.mergeVal(c, x.v, y.v)
		if !ok {
			return Value{}, false
		}
		return Value{k: KIface, p: &Iface{x.t, v}}, true
	case a.k == KFunc && b.k == KFunc:
		return a, a.p == b.p
	case a.k == KInvalid && b.k == KInvalid:
		return a, true
	}
	return Value{}, false
}

// keyStr renders a concrete map key; ok is false when it has symbolic parts.
func keyStr(v Value) (string, bool) {
	switch v.k {
	case KInt:
		return string([]byte{byte(v.u), byte(v.u >> 8), byte(v.u >> 16), byte(v.u >> 24), byte(v.u >> 32), byte(v.u >> 40), byte(v.u >> 48), byte(v.u >> 56)}), true
	case KStr:
		return v.p.(string), true
	case KAgg:
		var sb strings.Builder
		for _, x := range v.p.(*Agg).f {
			s, ok := keyStr(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:", len(s))
			sb.WriteString(s)
		}
		return sb.String(), true
	case KFloat:
		return fmt.Sprint(v.float()), true
	case KIface:
		if v.p == nil {
			return "nil", true
		}
		i := v.p.(*Iface)
		s, ok := keyStr(i.v)
		return i.t.String() + "\x00" + s, ok
	case KPtr:
		if v.p == nil {
			return "nil", true
		}
		return fmt.Sprintf("%p", v.p.(*Ptr).cell), true
	case KSym, KSymStr:
		return "", false
	}
	panic(unsupported(fmt.Sprintf("map key of kind %d", v.k)))
}

func (v Value) String() string {
	switch v.k {
	case KInt:
		if v.w == 0 {
			return fmt.Sprint(v.u == 1)
		}
		return fmt.Sprint(sx(v.u, v.w))
	case KSym:
		return v.p.(*Term).String()
	case KSymFloat:
		return "float " + v.p.(*Term).String()
	case KFloat:
		return fmt.Sprint(v.float())
	case KStr:
		return fmt.Sprintf("%q", v.p.(string))
	case KSymStr:
		s := "sym\""
		for _, b := range v.p.([]Value) {
			if b.k == KInt {
				s += string(rune(b.u))
			} else {
				s += "<" + b.String() + ">"
			}
		}
		return s + "\""
	case KSlice:
		if v.p == nil {
			return "nil[]"
		}
		s := v.p.(*Slice)
		r := "["
		for i := 0; i < s.len; i++ {
			if i > 0 {
				r += " "
			}
			r += s.arr.e[s.off+i].String()
		}
		return r + "]"
	case KAgg:
		r := "{"
		for i, x := range v.p.(*Agg).f {
			if i > 0 {
				r += " "
			}
			r += x.String()
		}
		return r + "}"
	case KTuple:
		r := "("
		for i, x := range v.p.([]Value) {
			if i > 0 {
				r += ", "
			}
			r += x.String()
		}
		return r + ")"
	case KIface:
		if v.p == nil {
			return "nil"
		}
		return fmt.Sprintf("iface(%s,%s)", v.p.(*Iface).t, v.p.(*Iface).v)
	case KPtr:
		if v.p == nil {
			return "nilptr"
		}
		return "&" + fmt.Sprintf("%p", v.p.(*Ptr).cell)
	case KFunc:
		if v.p == nil {
			return "nilfunc"
		}
		if f := v.p.(*Func); f.fn != nil {
			return f.fn.String()
		}
		return "native"
	}
	return fmt.Sprintf("kind%d", v.k)
}
