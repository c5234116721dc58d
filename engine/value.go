package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// value is one of:
//
//	*Term            integers, booleans, uintptr
//	float64          floats
//	complex128
//	*Str             strings
//	*value           pointers (nil pointer: (*value)(nil))
//	[]value          slices (nil slice: nil []value)
//	structure, array aggregates (by value; copied on load/store)
//	*Map, *Chan
//	iface            interfaces (t==nil: nil interface)
//	*ssa.Function, *ssa.Builtin, *closure, *HostFn   functions; funcNil{}
//	tuple            multiple results
//	*unsafePtr       unsafe.Pointer
//	*hostObj         opaque host object behind a pointer type
type value interface{}

type structure []value
type array []value
type tuple []value

type Str struct {
	s string
	b []*Term // non-nil: symbolic content
}

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type HostFn struct {
	name string
	f    func(fr *frame, args []value) value
}

type funcNil struct{}

type dataPtr struct{ s []value } // unsafe.SliceData / StringData

type mapEntry struct {
	k, v    value
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	live    int
	symKeys int // live entries with symbolic keys
}

type iterMap struct {
	m      *Map
	keys   []*mapEntry
	pos    int
	perm   bool
	interp *Interp
}

type iterStr struct {
	s   *Str
	pos int
}

func mkStr(s string) *Str { return &Str{s: s} }

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) at(tc *termCtx, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return tc.Const(8, uint64(s.s[i]))
}

func (s *Str) bytes(tc *termCtx) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = tc.Const(8, uint64(s.s[i]))
	}
	return r
}

// strOf builds a string from byte terms, concrete when possible.
func strOf(b []*Term) *Str {
	for _, x := range b {
		if !x.isConst() {
			c := make([]*Term, len(b))
			copy(c, b)
			return &Str{b: c}
		}
	}
	c := make([]byte, len(b))
	for i, x := range b {
		c[i] = byte(x.c)
	}
	return &Str{s: string(c)}
}

func (s *Str) slice(lo, hi int) *Str {
	if s.b != nil {
		return strOf(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func (tc *termCtx) strEq(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return tc.False
	}
	if a.b == nil && b.b == nil {
		return tc.Bool(a.s == b.s)
	}
	return tc.EqBytes(a.bytes(tc), b.bytes(tc))
}

func strCat(tc *termCtx, a, b *Str) *Str {
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	x := append(append([]*Term{}, a.bytes(tc)...), b.bytes(tc)...)
	return &Str{b: x}
}

// ---- types ----

func intInfo(t types.Type) (w uint32, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (ip *Interp) zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if t.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
		if w, _, ok := intInfo(t); ok {
			if w == 0 {
				return ip.tc.False
			}
			return ip.tc.Const(w, 0)
		}
		if t.Info()&types.IsString != 0 {
			return emptyStr
		}
		if t.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if t.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(array, n)
		if n > 0 {
			z := ip.zero(t.Elem())
			a[0] = z
			switch z.(type) {
			case structure, array:
				for i := 1; i < n; i++ {
					a[i] = ip.zero(t.Elem())
				}
			default:
				for i := 1; i < n; i++ {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = ip.zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return funcNil{}
	case *types.Tuple:
		if t.Len() == 1 {
			return ip.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = ip.zero(t.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %v", t))
}

var emptyStr = &Str{}

func (ip *Interp) constValue(c *ssa.Const) value {
	if c.Value == nil {
		return ip.zero(c.Type())
	}
	t := c.Type().Underlying()
	if w, signed, ok := intInfo(t); ok {
		if w == 0 {
			return ip.tc.Bool(constant.BoolVal(c.Value))
		}
		if signed {
			return ip.tc.Const(w, uint64(c.Int64()))
		}
		return ip.tc.Const(w, c.Uint64())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return mkStr(constant.StringVal(c.Value))
			}
			return mkStr(string(rune(c.Int64())))
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	// type parameter-typed constants etc.
	panic(fmt.Sprintf("constValue: %v : %v", c, c.Type()))
}

// copyVal copies aggregates.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case array:
		r := make(array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case structure, array:
				for i, x := range v {
					r[i] = copyVal(x)
				}
			default:
				copy(r, v)
			}
		}
		return r
	}
	return v
}

// storeVal stores v at p, keeping addresses of sub-elements of p stable.
func storeVal(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*p).(structure); ok && len(dst) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case structure, array:
					storeVal(&dst[i], v[i])
				default:
					dst[i] = v[i]
				}
			}
			return
		}
		*p = copyVal(v)
		return
	case array:
		if dst, ok := (*p).(array); ok && len(dst) == len(v) {
			if len(v) > 0 {
				switch v[0].(type) {
				case structure, array:
					for i := range v {
						storeVal(&dst[i], v[i])
					}
				default:
					copy(dst, v)
				}
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// ---- equality ----

// eq returns the term for x == y at static type t.
func (ip *Interp) eq(t types.Type, x, y value) *Term {
	tc := ip.tc
	switch x := x.(type) {
	case *Term:
		return tc.Eq(x, y.(*Term))
	case *Str:
		return tc.strEq(x, y.(*Str))
	case float64:
		return tc.Bool(x == y.(float64))
	case complex128:
		return tc.Bool(x == y.(complex128))
	case *value:
		if y, ok := y.(*value); ok {
			return tc.Bool(x == y)
		}
		return tc.False
	case *Chan:
		return tc.Bool(x == y.(*Chan))
	case *Map:
		return tc.Bool(x == y.(*Map))
	case []value:
		// only comparable with nil
		ys, _ := y.([]value)
		return tc.Bool((x == nil) == (ys == nil) && (x == nil || ys == nil))
	case structure:
		st := t.Underlying().(*types.Struct)
		ys := y.(structure)
		r := tc.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tc.And(r, ip.eq(st.Field(i).Type(), x[i], ys[i]))
			if r == tc.False {
				return r
			}
		}
		return r
	case array:
		ya := y.(array)
		et := t.Underlying().(*types.Array).Elem()
		if len(x) > 0 {
			if t0, ok := x[0].(*Term); ok && t0.w == 8 {
				return tc.EqBytes(termsOf(x), termsOf(ya))
			}
		}
		r := tc.True
		for i := range x {
			r = tc.And(r, ip.eq(et, x[i], ya[i]))
			if r == tc.False {
				return r
			}
		}
		return r
	case iface:
		yi, ok := y.(iface)
		if !ok {
			return tc.False
		}
		if x.t == nil || yi.t == nil {
			return tc.Bool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return tc.False
		}
		if !types.Comparable(x.t) {
			ip.goPanicRT("runtime error: comparing uncomparable type " + x.t.String())
		}
		return ip.eq(x.t, x.v, yi.v)
	case funcNil:
		_, ok := y.(funcNil)
		return tc.Bool(ok)
	case *ssa.Function, *closure, *HostFn, *ssa.Builtin:
		// only comparable with nil
		return tc.Bool(x == y)
	case *dataPtr:
		return tc.Bool(x == y)
	}
	panic(fmt.Sprintf("eq: %T vs %T at %v", x, y, t))
}

func termsOf(a []value) []*Term {
	r := make([]*Term, len(a))
	for i, x := range a {
		r[i] = x.(*Term)
	}
	return r
}

func valuesOf(b []*Term) []value {
	r := make([]value, len(b))
	for i, x := range b {
		r[i] = x
	}
	return r
}

// keyString returns a canonical host key when v is fully concrete.
func keyString(v value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return "", false
		}
		return fmt.Sprintf("i%d", v.c), true
	case *Str:
		if v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case *value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case float64:
		return fmt.Sprintf("f%v", v), true
	case array:
		if len(v) > 0 {
			if t, ok := v[0].(*Term); ok && t.w == 8 {
				b := make([]byte, len(v)+1)
				b[0] = 'b'
				for i, x := range v {
					t := x.(*Term)
					if !t.isConst() {
						return "", false
					}
					b[i+1] = byte(t.c)
				}
				return string(b), true
			}
		}
		r := "a["
		for _, x := range v {
			k, ok := keyString(x)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:", len(k)) + k
		}
		return r, true
	case structure:
		r := "t["
		for _, x := range v {
			k, ok := keyString(x)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:", len(k)) + k
		}
		return r, true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := keyString(v.v)
		return "I" + v.t.String() + "|" + k, ok
	}
	return "", false
}

// symKey builds a canonical string for a key that may contain symbolic
// terms; equal strings mean syntactically equal keys.
func (ip *Interp) mapFind(m *Map, kt types.Type, k value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, conc := keyString(k)
	if conc {
		if e := m.idx[ks]; e != nil {
			// A symbolic key elsewhere in the map cannot be equal to this
			// one: insertion decided that.
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if conc {
			if _, c2 := keyString(e.k); c2 {
				continue
			}
		}
		c := ip.eq(kt, e.k, k)
		if ip.branch(c) {
			return e
		}
	}
	return nil
}

func (ip *Interp) mapSet(m *Map, kt types.Type, k, v value) {
	if e := ip.mapFind(m, kt, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.entries = append(m.entries, e)
	if ks, ok := keyString(k); ok {
		m.idx[ks] = e
	} else {
		m.symKeys++
	}
	m.live++
}

func (ip *Interp) mapDelete(m *Map, kt types.Type, k value) {
	if m == nil {
		return
	}
	e := ip.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.live--
	if ks, ok := keyString(e.k); ok {
		delete(m.idx, ks)
	} else {
		m.symKeys--
	}
	if len(m.entries) > 32 && m.live < len(m.entries)/2 {
		var n []*mapEntry
		for _, x := range m.entries {
			if !x.deleted {
				n = append(n, x)
			}
		}
		m.entries = n
	}
}

func newMap() *Map { return &Map{idx: map[string]*mapEntry{}} }
