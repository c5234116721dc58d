package main

// The reflective walks of go-xdr and encoding/json, as host code over the
// interpreted values.  Every primitive goes through the real (interpreted)
// encoder and decoder methods.

import (
	"go/types"
	"reflect"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

const xdrPath = "github.com/davecgh/go-xdr/xdr2"

func (ip *Interp) xdrMethod(recv, name string) *ssa.Function {
	t := types.NewPointer(ip.prog.ImportedPackage(xdrPath).Type(recv).Type())
	sel := ip.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	return ip.prog.MethodValue(sel)
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isTimeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Time" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

type xdrEnc struct {
	ip  *Interp
	fr  *frame
	enc value
	n   *Term
	err iface
}

func (e *xdrEnc) prim(name string, args ...value) bool {
	ip := e.ip
	f := ip.xdrMethod("Encoder", name)
	r := ip.callFn(e.fr, f, append([]value{e.enc}, args...), nil).(tuple)
	ip.curFrame = e.fr
	e.n = ip.tc.Bin(OpAdd, e.n, r[0].(*Term))
	if i := r[1].(iface); i.t != nil {
		e.err = i
		return false
	}
	return true
}

func (e *xdrEnc) fail(fn string, code int, msg string) bool {
	ip := e.ip
	f := ip.prog.ImportedPackage(xdrPath).Func("marshalError")
	r := ip.callFn(e.fr, f, []value{mkStr(fn), ip.intT(code), mkStr(msg), iface{}, iface{}}, nil)
	t := types.NewPointer(ip.prog.ImportedPackage(xdrPath).Type("MarshalError").Type())
	e.err = iface{t, r}
	return false
}

func (e *xdrEnc) encode(t types.Type, v value) bool {
	ip := e.ip
	tc := ip.tc
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q := v.(*value)
		if q == nil {
			return e.fail("encode", ip.xdrCode("ErrUnsupportedType"), "type 'invalid' is not valid")
		}
		t, v = p.Elem(), *q
	}
	if isTimeType(t) {
		r, _ := ip.method(e.fr, iface{t, v}, "Format", mkStr("2006-01-02T15:04:05.999999999Z07:00"))
		return e.prim("EncodeString", r)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := intInfo(u); ok {
			x := v.(*Term)
			if w == 0 {
				return e.prim("EncodeBool", x)
			}
			switch u.Kind() {
			case types.Int64:
				return e.prim("EncodeHyper", x)
			case types.Uint64:
				return e.prim("EncodeUhyper", x)
			}
			if signed {
				if w > 32 {
					x = tc.Extract(x, 31, 0)
				} else {
					x = tc.Sext(x, 32)
				}
				return e.prim("EncodeInt", x)
			}
			if w > 32 {
				x = tc.Extract(x, 31, 0)
			} else {
				x = tc.Zext(x, 32)
			}
			return e.prim("EncodeUint", x)
		}
		if u.Info()&types.IsString != 0 {
			return e.prim("EncodeString", v)
		}
		switch u.Kind() {
		case types.Float32:
			return e.prim("EncodeFloat", v)
		case types.Float64:
			return e.prim("EncodeDouble", v)
		}
	case *types.Array:
		a := v.(array)
		if isByteType(u.Elem()) {
			return e.prim("EncodeFixedOpaque", []value(a))
		}
		for _, x := range a {
			if !e.encode(u.Elem(), x) {
				return false
			}
		}
		return true
	case *types.Slice:
		s := v.([]value)
		if isByteType(u.Elem()) {
			return e.prim("EncodeOpaque", s)
		}
		if !e.prim("EncodeUint", tc.Const(32, uint64(len(s)))) {
			return false
		}
		for _, x := range s {
			if !e.encode(u.Elem(), x) {
				return false
			}
		}
		return true
	case *types.Struct:
		s := v.(structure)
		for i := range s {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if reflect.StructTag(u.Tag(i)).Get("xdropaque") == "false" {
				ip.unsupported("xdropaque tag")
			}
			if !e.encode(f.Type(), s[i]) {
				return false
			}
		}
		return true
	case *types.Map:
		m := v.(*Map)
		n := 0
		if m != nil {
			n = m.live
		}
		if !e.prim("EncodeUint", tc.Const(32, uint64(n))) {
			return false
		}
		it := ip.mapIter(m)
		for it.pos < len(it.keys) {
			if it.perm && it.pos < len(it.keys)-1 {
				k := ip.choose(len(it.keys)-it.pos, "maporder")
				it.keys[it.pos], it.keys[it.pos+k] = it.keys[it.pos+k], it.keys[it.pos]
			}
			x := it.keys[it.pos]
			it.pos++
			if !e.encode(u.Key(), x.k) || !e.encode(u.Elem(), x.v) {
				return false
			}
		}
		return true
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return e.fail("encodeInterface", ip.xdrCode("ErrNilInterface"), "can't encode nil interface")
		}
		return e.encode(i.t, i.v)
	}
	return e.fail("encode", ip.xdrCode("ErrUnsupportedType"), "unsupported Go type '"+t.String()+"'")
}

type xdrDec struct {
	ip  *Interp
	fr  *frame
	dec value
	max *Term
	n   *Term
	err iface
}

func (d *xdrDec) prim(name string, args ...value) (value, bool) {
	ip := d.ip
	f := ip.xdrMethod("Decoder", name)
	r := ip.callFn(d.fr, f, append([]value{d.dec}, args...), nil).(tuple)
	ip.curFrame = d.fr
	d.n = ip.tc.Bin(OpAdd, d.n, r[1].(*Term))
	if i := r[2].(iface); i.t != nil {
		d.err = i
		return nil, false
	}
	return r[0], true
}

func (d *xdrDec) fail(fn string, code int, msg string) bool {
	ip := d.ip
	f := ip.prog.ImportedPackage(xdrPath).Func("unmarshalError")
	r := ip.callFn(d.fr, f, []value{mkStr(fn), ip.intT(code), mkStr(msg), iface{}, iface{}}, nil)
	t := types.NewPointer(ip.prog.ImportedPackage(xdrPath).Type("UnmarshalError").Type())
	d.err = iface{t, r}
	ip.curFrame = d.fr
	return false
}

func (ip *Interp) xdrCode(name string) int {
	c := ip.prog.ImportedPackage(xdrPath).Members[name].(*ssa.NamedConst)
	return int(c.Value.Int64())
}

func (d *xdrDec) length(et types.Type) (int, bool) {
	ip := d.ip
	tc := ip.tc
	v, ok := d.prim("DecodeUint")
	if !ok {
		return 0, false
	}
	l := tc.Zext(v.(*Term), 64)
	over := tc.Ult(tc.Const(64, 1<<31-1), l)
	if d.max != nil {
		over = tc.Or(over, tc.And(tc.Not(tc.Eq(d.max, tc.Const(64, 0))), tc.Ult(d.max, l)))
	}
	if ip.branch(over) {
		return 0, d.fail("decodeArray", ip.xdrCode("ErrOverflow"), "data exceeds max slice limit")
	}
	ip.checkMem(l, et)
	if left, ok := readerLeft((*d.dec.(*value)).(structure)[0]); ok && !l.isConst() {
		// every element takes at least one byte, so all lengths above
		// what is left fail in the same way
		if ip.branch(tc.Ult(tc.Const(64, uint64(left)), l)) {
			return left + 1, true
		}
	}
	return ip.sizeArg(l, "len"), true
}

func (d *xdrDec) decode(t types.Type, p *value) bool {
	ip := d.ip
	tc := ip.tc
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q := (*p).(*value)
		if q == nil {
			q = new(value)
			*q = ip.zero(pt.Elem())
			*p = q
		}
		t, p = pt.Elem(), q
	}
	if isTimeType(t) {
		s, ok := d.prim("DecodeString")
		if !ok {
			return false
		}
		f := ip.prog.ImportedPackage("time").Func("Parse")
		r := ip.callFn(d.fr, f, []value{mkStr("2006-01-02T15:04:05Z07:00"), s}, nil).(tuple)
		ip.curFrame = d.fr
		if r[1].(iface).t != nil {
			return d.fail("decode", ip.xdrCode("ErrParseTime"), "time")
		}
		storeVal(p, r[0])
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := intInfo(u); ok {
			if w == 0 {
				v, ok := d.prim("DecodeBool")
				if ok {
					*p = v
				}
				return ok
			}
			switch u.Kind() {
			case types.Int64:
				v, ok := d.prim("DecodeHyper")
				if ok {
					*p = v
				}
				return ok
			case types.Uint64:
				v, ok := d.prim("DecodeUhyper")
				if ok {
					*p = v
				}
				return ok
			}
			if signed {
				v, ok := d.prim("DecodeInt")
				if !ok {
					return false
				}
				x := v.(*Term)
				if w < 32 {
					y := tc.Extract(x, w-1, 0)
					if !ip.branch(tc.Eq(tc.Sext(y, 32), x)) {
						return d.fail("decode", ip.xdrCode("ErrOverflow"), "signed integer too large")
					}
					*p = y
				} else {
					*p = tc.Sext(x, w)
				}
				return true
			}
			v, ok := d.prim("DecodeUint")
			if !ok {
				return false
			}
			x := v.(*Term)
			if w < 32 {
				y := tc.Extract(x, w-1, 0)
				if !ip.branch(tc.Eq(tc.Zext(y, 32), x)) {
					return d.fail("decode", ip.xdrCode("ErrOverflow"), "unsigned integer too large")
				}
				*p = y
			} else {
				*p = tc.Zext(x, w)
			}
			return true
		}
		if u.Info()&types.IsString != 0 {
			v, ok := d.prim("DecodeString")
			if ok {
				*p = v
			}
			return ok
		}
		switch u.Kind() {
		case types.Float32, types.Float64:
			n := "DecodeFloat"
			if u.Kind() == types.Float64 {
				n = "DecodeDouble"
			}
			v, ok := d.prim(n)
			if ok {
				*p = v
			}
			return ok
		}
	case *types.Array:
		a := (*p).(array)
		if isByteType(u.Elem()) {
			v, ok := d.prim("DecodeFixedOpaque", tc.Const(32, uint64(len(a))))
			if !ok {
				return false
			}
			copy(a, v.([]value))
			return true
		}
		for i := range a {
			if !d.decode(u.Elem(), &a[i]) {
				return false
			}
		}
		return true
	case *types.Slice:
		n, ok := d.length(u.Elem())
		if !ok {
			return false
		}
		s := (*p).([]value)
		if cap(s) < n {
			s = ip.makeSlice(u.Elem(), n, n)
		} else if len(s) < n {
			s = s[:n]
		}
		*p = s
		if isByteType(u.Elem()) {
			v, ok := d.prim("DecodeFixedOpaque", tc.Const(32, uint64(n)))
			if ok {
				*p = v
			}
			return ok
		}
		for i := 0; i < n; i++ {
			if !d.decode(u.Elem(), &s[i]) {
				return false
			}
		}
		return true
	case *types.Struct:
		s := (*p).(structure)
		for i := range s {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if reflect.StructTag(u.Tag(i)).Get("xdropaque") == "false" {
				ip.unsupported("xdropaque tag")
			}
			if !d.decode(f.Type(), &s[i]) {
				return false
			}
		}
		return true
	case *types.Map:
		v, ok := d.prim("DecodeUint")
		if !ok {
			return false
		}
		m := (*p).(*Map)
		if m == nil {
			m = newMap()
			*p = m
		}
		n := v.(*Term)
		for i := uint64(0); ip.branch(tc.Ult(tc.Const(32, i), n)); i++ {
			ip.tick()
			k, e := new(value), new(value)
			*k, *e = ip.zero(u.Key()), ip.zero(u.Elem())
			if !d.decode(u.Key(), k) || !d.decode(u.Elem(), e) {
				return false
			}
			ip.mapSet(m, u.Key(), *k, *e)
		}
		return true
	case *types.Interface:
		i := (*p).(iface)
		if i.t == nil {
			return d.fail("decodeInterface", ip.xdrCode("ErrNilInterface"), "nil interface")
		}
		if pt, ok := i.t.Underlying().(*types.Pointer); ok {
			return d.decode(pt.Elem(), i.v.(*value))
		}
		return d.fail("decodeInterface", ip.xdrCode("ErrNotSettable"), "unsettable")
	}
	return d.fail("decode", ip.xdrCode("ErrUnsupportedType"), "unsupported Go type")
}

func init() {
	intrinsics["(*"+xdrPath+".Encoder).Encode"] = func(fr *frame, a []value) value {
		ip := fr.ip
		e := &xdrEnc{ip: ip, fr: fr, enc: a[0], n: ip.intT(0)}
		x := a[1].(iface)
		if x.t == nil {
			e.fail("Marshal", ip.xdrCode("ErrNilInterface"), "can't marshal nil interface")
		} else {
			e.encode(x.t, x.v)
		}
		return tuple{e.n, e.err}
	}
	intrinsics["(*"+xdrPath+".Decoder).Decode"] = func(fr *frame, a []value) value {
		ip := fr.ip
		d := &xdrDec{ip: ip, fr: fr, dec: a[0], n: ip.intT(0)}
		st := (*a[0].(*value)).(structure)
		// field order is r, maxReadSize
		d.max = st[1].(*Term)
		x := a[1].(iface)
		if x.t == nil {
			d.fail("Unmarshal", ip.xdrCode("ErrNilInterface"), "can't unmarshal to nil interface")
			return tuple{d.n, d.err}
		}
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok || x.v.(*value) == nil {
			d.fail("Unmarshal", ip.xdrCode("ErrBadArguments"), "can't unmarshal to non-pointer")
			return tuple{d.n, d.err}
		}
		d.decode(pt.Elem(), x.v.(*value))
		return tuple{d.n, d.err}
	}
	_ = strconv.Itoa
}

// preHooks run before the named (interpreted) functions.
var preHooks = map[string]func(ip *Interp, args []value) []value{
	"(*" + xdrPath + ".Decoder).DecodeFixedOpaque": xdrOpaqueSize,
}

// xdrOpaqueSize: every size above what is left in the reader has the same
// effect (all that is left is consumed, and the same error results, apart from
// the number in its text), so one representative stands for all of them.
func xdrOpaqueSize(ip *Interp, args []value) []value {
	size, ok := args[1].(*Term)
	if !ok || size.isConst() {
		return args
	}
	left, ok := readerLeft((*args[0].(*value)).(structure)[0])
	if !ok {
		return args
	}
	tc := ip.tc
	over := tc.And(tc.Slt(tc.Const(32, uint64(left)), size), tc.Sle(size, tc.Const(32, 1<<31-4)))
	if !ip.branch(over) {
		return args
	}
	if m := ip.w.job.memLimit; m > 0 && m < 1<<31 {
		ip.checkMem(tc.Zext(size, 64), types.Typ[types.Uint8])
	}
	return append([]value{args[0], tc.Const(32, uint64(left)+1)}, args[2:]...)
}

// readerLeft is the number of bytes that a reader still holds and that no
// other party can add to.
func readerLeft(v value) (int, bool) {
	r, ok := v.(iface)
	if !ok || r.t == nil {
		return 0, false
	}
	p, ok := r.v.(*value)
	if !ok {
		return 0, false
	}
	st, ok := (*p).(structure)
	if !ok {
		return 0, false
	}
	term := func(v value) (int, bool) {
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			return 0, false
		}
		return int(t.c), true
	}
	switch r.t.String() {
	case "*bytes.Reader", "*bytes.Buffer", "*strings.Reader":
		off, ok := term(st[1])
		b, ok2 := st[0].([]value)
		if !ok || !ok2 {
			if s, ok3 := st[0].(*Str); ok && ok3 {
				return s.Len() - off, s.Len() >= off
			}
			return 0, false
		}
		return len(b) - off, len(b) >= off
	case "*" + modPath + "/zkv/zkzlib.reader":
		if c, ok := term(st[1]); ok && c == 1 {
			return readerLeft(st[0])
		}
		return 0, false
	case "*" + modPath + "/zkv/zktls.Conn":
		in, ok := st[0].(*value)
		if !ok {
			return 0, false
		}
		if st, ok = (*in).(structure); !ok {
			return 0, false
		}
		return connLeft(st)
	case "*" + modPath + "/zkv/zknet.Conn":
		return connLeft(st)
	}
	return 0, false
}

func connLeft(st structure) (int, bool) {
	h, ok := st[0].(*value)
	if !ok {
		return 0, false
	}
	hs := (*h).(structure)
	b, ok := hs[2].([]value)
	c, ok2 := hs[3].(*Term)
	if !ok || !ok2 || !c.isConst() || c.c != 1 {
		return 0, false
	}
	return len(b), true
}
