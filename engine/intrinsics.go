package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(fr *frame, a []value) value

var intrinsics = map[string]intrFn{}

const zk = modPath + "/zkv."

// redirects replaces functions by models written in Go.
var redirects = func() map[string]string {
	m := map[string]string{}
	for k, v := range map[string]string{
		"crypto/sha256.New": "SHA256New", "crypto/sha256.Sum256": "SHA256Sum", "crypto/sha512.New": "SHA512New",
		"(time.Time).Sub": "TimeSub", "regexp.MustCompile": "ReMustCompile", "(*regexp.Regexp).FindStringSubmatch": "ReFindStringSubmatch", "crypto/hmac.New": "HMACNew", "crypto/hmac.Equal": "Equal", "crypto/subtle.ConstantTimeCompare": "ConstantTimeCompare",
		"golang.org/x/crypto/scrypt.Key":                   "ScryptKey",
		"golang.org/x/crypto/nacl/secretbox.Seal":          "SBSeal",
		"golang.org/x/crypto/nacl/secretbox.Open":          "SBOpen",
		"golang.org/x/crypto/curve25519.ScalarBaseMult":    "ScalarBaseMult",
		"golang.org/x/crypto/curve25519.ScalarMult":        "ScalarMult",
		"golang.org/x/crypto/curve25519.X25519":            "X25519",
		"crypto/ed25519.GenerateKey":                       "EdGenerateKey",
		"crypto/ed25519.Sign":                              "EdSign",
		"crypto/ed25519.Verify":                            "EdVerify",
		"flag.Parse":                                       "FlagParse",
		"os/user.Current":                                  "UserCurrent",
		"encoding/base64.NewDecoder":                       "B64NewDecoder",
		"(*" + modPath + "/debug.Debug).log":               "DebugLog",
		"(*" + modPath + "/debug.Debug).Log":               "DebugLogf",
		"github.com/davecgh/go-spew/spew.Sdump":            "Sdump",
		"github.com/companyzero/sntrup4591761.GenerateKey": "SntrupGenerateKey",
		"github.com/companyzero/sntrup4591761.Encapsulate": "SntrupEncapsulate",
		"github.com/companyzero/sntrup4591761.Decapsulate": "SntrupDecapsulate",
	} {
		m[k] = modPath + "/zkv/zkmodel." + v
	}
	return m
}()

func mustConst(fr *frame, v value) uint64 {
	t := v.(*Term)
	if !t.isConst() {
		return fr.ip.concretize(t)
	}
	return t.c
}

func cstr(fr *frame, v value) string {
	s := v.(*Str)
	if s.b != nil {
		fr.ip.unsupported("symbolic string where a constant is needed")
	}
	return s.s
}

// concStr makes a string concrete, splitting the path.
func (ip *Interp) concStr(s *Str) string {
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(ip.concretize(t))
	}
	return string(b)
}

func (ip *Interp) newErr(msg string) iface {
	t := ip.prog.ImportedPackage("errors").Type("errorString").Type()
	p := new(value)
	*p = structure{mkStr(msg)}
	return iface{types.NewPointer(t), p}
}

func (ip *Interp) errOf(s *Str) iface {
	e := ip.newErr("")
	(*e.v.(*value)).(structure)[0] = s
	return e
}

// method calls the named method of x, when it has one.
func (ip *Interp) method(fr *frame, x iface, name string, args ...value) (value, bool) {
	ms := ip.prog.MethodSets.MethodSet(x.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil, false
	}
	f := ip.prog.MethodValue(sel)
	if f == nil {
		return nil, false
	}
	r := ip.call(fr, f, append([]value{x.v}, args...))
	ip.curFrame = fr
	return r, true
}

func (ip *Interp) hasMethod(t types.Type, name string, nparams, nres int) bool {
	sel := ip.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig := sel.Type().(*types.Signature)
	return sig.Params().Len() == nparams && sig.Results().Len() == nres
}

func (ip *Interp) bytesVal(b []*Term) []value { return valuesOf(b) }

func (ip *Interp) intT(n int) *Term { return ip.tc.Const(64, uint64(int64(n))) }

// ---- hex ----

func (ip *Interp) hexDigit(n *Term, upper bool) *Term {
	tc := ip.tc
	// n is 4 bits
	if n.isConst() {
		d := "0123456789abcdef"
		if upper {
			d = "0123456789ABCDEF"
		}
		return tc.Const(8, uint64(d[n.c]))
	}
	z := tc.Zext(n, 8)
	off := uint64('a' - 10)
	if upper {
		off = 'A' - 10
	}
	r := tc.Ite(tc.Ult(n, tc.Const(4, 10)), tc.Bin(OpAdd, z, tc.Const(8, '0')), tc.Bin(OpAdd, z, tc.Const(8, off)))
	r.hex = hexDig{n, upper}
	return r
}

func (ip *Interp) hexOf(b []*Term, upper bool) []*Term {
	tc := ip.tc
	r := make([]*Term, 0, 2*len(b))
	for _, x := range b {
		r = append(r, ip.hexDigit(tc.Extract(x, 7, 4), upper), ip.hexDigit(tc.Extract(x, 3, 0), upper))
	}
	return r
}

// unhex returns the nibble and whether c is a hex digit (deciding by branch).
func (ip *Interp) unhex(c *Term) (*Term, bool) {
	tc := ip.tc
	if d := c.hex; d.n != nil {
		return d.n, true
	}
	if c.isConst() {
		v, err := strconv.ParseUint(string(rune(c.c)), 16, 8)
		if err != nil {
			return nil, false
		}
		return tc.Const(4, v), true
	}
	rng := func(lo, hi byte) *Term {
		return tc.And(tc.Ule(tc.Const(8, uint64(lo)), c), tc.Ule(c, tc.Const(8, uint64(hi))))
	}
	dig, low, up := rng('0', '9'), rng('a', 'f'), rng('A', 'F')
	if !ip.branch(tc.Or(dig, tc.Or(low, up))) {
		return nil, false
	}
	d := tc.Bin(OpSub, c, tc.Const(8, '0'))
	l := tc.Bin(OpSub, c, tc.Const(8, 'a'-10))
	u := tc.Bin(OpSub, c, tc.Const(8, 'A'-10))
	return tc.Extract(tc.Ite(dig, d, tc.Ite(low, l, u)), 3, 0), true
}

// ---- formatting ----

type fmtMode int

const (
	fmtExact fmtMode = iota // symbolic integers split the path
	fmtLoose                // symbolic integers are abbreviated
)

func (ip *Interp) fmtInt(t *Term, signed bool, base int, mode fmtMode) string {
	if !t.isConst() {
		if mode == fmtLoose {
			return "<sym>"
		}
	}
	if lo, hi := rng(t); !t.isConst() && hi-lo >= 300 {
		ip.nformat++ // a text of its own
		return strconv.Itoa(7000000000000000000 + ip.nformat)
	}
	v := ip.concretize(t)
	if signed {
		return strconv.FormatInt(sext64(v, t.w), base)
	}
	return strconv.FormatUint(v, base)
}

func (ip *Interp) fmtVal(fr *frame, verb byte, flags string, t types.Type, v value, mode fmtMode, depth int) *Str {
	tc := ip.tc
	if depth > 4 {
		return mkStr("...")
	}
	if t == nil {
		if verb == 'v' {
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return mkStr(t.String())
	}
	if verb == 'v' && strings.Contains(flags, "#") {
		return mkStr("<" + t.String() + ">")
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		isNilPtr := false
		if p, ok := v.(*value); ok && p == nil {
			isNilPtr = true
		}
		if !isNilPtr {
			for _, m := range []string{"Error", "String"} {
				if ip.hasMethod(t, m, 0, 1) {
					r, ok := ip.method(fr, iface{t, v}, m)
					if s, isS := r.(*Str); ok && isS {
						t, v = types.Typ[types.String], s
						break
					}
				}
			}
		} else if _, ok := t.Underlying().(*types.Pointer); ok {
			return mkStr("<nil>")
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := intInfo(u); ok {
			x := v.(*Term)
			if w == 0 {
				return mkStr(fmt.Sprint(ip.concretize(x) == 1))
			}
			switch verb {
			case 'x', 'X':
				if x.isConst() || mode == fmtExact {
					return mkStr(strings.ToLower(ip.fmtInt(x, signed, 16, mode)))
				}
				return mkStr("<sym>")
			case 'c':
				return ip.runeToStr(tc.Zext(tc.Extract(x, min32(x.w, 32)-1, 0), 32))
			case 'b':
				return mkStr(ip.fmtInt(x, signed, 2, mode))
			case 'o':
				return mkStr(ip.fmtInt(x, signed, 8, mode))
			}
			return mkStr(ip.fmtInt(x, signed, 10, mode))
		}
		if s, ok := v.(*Str); ok {
			switch verb {
			case 'x', 'X':
				return strOf(ip.hexOf(s.bytes(tc), verb == 'X'))
			case 'q':
				if s.b == nil {
					return mkStr(strconv.Quote(s.s))
				}
				return strCat(tc, strCat(tc, mkStr("\""), s), mkStr("\""))
			}
			return s
		}
		if f, ok := v.(float64); ok {
			return mkStr(fmt.Sprint(f))
		}
	case *types.Slice, *types.Array:
		var el []value
		switch v := v.(type) {
		case []value:
			el = v
		case array:
			el = v
		}
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch verb {
			case 'x', 'X':
				return strOf(ip.hexOf(termsOf(el), verb == 'X'))
			case 's':
				return strOf(termsOf(el))
			}
			if mode == fmtLoose {
				return mkStr("<bytes>")
			}
		}
		r := mkStr("[")
		for i, x := range el {
			if i > 0 {
				r = strCat(tc, r, mkStr(" "))
			}
			if i > 20 {
				r = strCat(tc, r, mkStr("..."))
				break
			}
			r = strCat(tc, r, ip.fmtVal(fr, verb, flags, et, x, mode, depth+1))
		}
		return strCat(tc, r, mkStr("]"))
	case *types.Interface:
		i := v.(iface)
		return ip.fmtVal(fr, verb, flags, i.t, i.v, mode, depth)
	case *types.Pointer:
		return mkStr("0xc000000000")
	case *types.Struct:
		return mkStr("{" + t.String() + "}")
	case *types.Map:
		return mkStr("map[...]")
	}
	return mkStr("<" + t.String() + ">")
}

func min32(a, b uint32) uint32 {
	if a < b {
		return a
	}
	return b
}

func (ip *Interp) sprintf(fr *frame, f *Str, args []value, mode fmtMode) (*Str, []iface) {
	tc := ip.tc
	s := f.s
	var sym []*Term // bytes of the format that are not fixed, and are no part of a verb
	if f.b != nil {
		bs := f.bytes(tc)
		sym = make([]*Term, len(bs))
		fixed := make([]byte, len(bs))
		verb := false
		for i, b := range bs {
			switch {
			case b.isConst():
				fixed[i] = byte(b.c)
			case verb:
				fixed[i] = byte(ip.concretize(b))
			case ip.branch(tc.Eq(b, tc.Const(8, '%'))):
				fixed[i] = '%'
			default:
				sym[i] = b
				continue
			}
			if verb {
				verb = strings.IndexByte("+-# 0123456789.*", fixed[i]) >= 0
			} else {
				verb = fixed[i] == '%'
			}
		}
		s = string(fixed)
	}
	var wrapped []iface
	out := emptyStr
	lit := ""
	n := 0
	flush := func() {
		if lit != "" {
			out = strCat(tc, out, mkStr(lit))
			lit = ""
		}
	}
	next := func() (iface, bool) {
		if n >= len(args) {
			return iface{}, false
		}
		n++
		return args[n-1].(iface), true
	}
	for i := 0; i < len(s); i++ {
		if sym != nil && sym[i] != nil {
			flush()
			out = strCat(tc, out, strOf(sym[i:i+1]))
			continue
		}
		if s[i] != '%' {
			lit += s[i : i+1]
			continue
		}
		i++
		flags, width, prec := "", -1, -1
		for i < len(s) && strings.IndexByte("+-# 0", s[i]) >= 0 {
			flags += s[i : i+1]
			i++
		}
		num := func() int {
			if i < len(s) && s[i] == '*' {
				i++
				x, _ := next()
				if t, ok := x.v.(*Term); ok {
					return int(ip.concretize(t))
				}
				return -1
			}
			v, any := 0, false
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				v = v*10 + int(s[i]-'0')
				i++
				any = true
			}
			if !any {
				return -1
			}
			return v
		}
		width = num()
		if i < len(s) && s[i] == '.' {
			i++
			prec = num()
		}
		if i >= len(s) {
			lit += "%!(NOVERB)"
			break
		}
		verb := s[i]
		if verb == '%' {
			lit += "%"
			continue
		}
		x, ok := next()
		if !ok {
			lit += "%!" + string(verb) + "(MISSING)"
			continue
		}
		if verb == 'w' {
			if x.t != nil {
				wrapped = append(wrapped, x)
			}
			verb = 'v'
		}
		if fl, ok := x.v.(float64); ok {
			spec := "%" + flags
			if width >= 0 {
				spec += strconv.Itoa(width)
			}
			if prec >= 0 {
				spec += "." + strconv.Itoa(prec)
			}
			lit += fmt.Sprintf(spec+string(verb), fl)
			continue
		}
		r := ip.fmtVal(fr, verb, flags, x.t, x.v, mode, 0)
		if prec >= 0 && (verb == 's') && r.Len() > prec {
			r = r.slice(0, prec)
		}
		if w := width - r.Len(); w > 0 {
			pad := " "
			if strings.Contains(flags, "0") && !strings.Contains(flags, "-") && verb != 's' && verb != 'v' {
				pad = "0"
			}
			p := mkStr(strings.Repeat(pad, w))
			if strings.Contains(flags, "-") {
				r = strCat(tc, r, p)
			} else {
				r = strCat(tc, p, r)
			}
		}
		flush()
		out = strCat(tc, out, r)
	}
	if n < len(args) {
		lit += "%!(EXTRA)"
	}
	flush()
	return out, wrapped
}

func (ip *Interp) sprint(fr *frame, args []value, ln bool, mode fmtMode) *Str {
	tc := ip.tc
	out := emptyStr
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		_, isS := x.v.(*Str)
		if i > 0 && (ln || !isS && !prevStr) {
			out = strCat(tc, out, mkStr(" "))
		}
		prevStr = isS
		out = strCat(tc, out, ip.fmtVal(fr, 'v', "", x.t, x.v, mode, 0))
	}
	if ln {
		out = strCat(tc, out, mkStr("\n"))
	}
	return out
}

func variadic(v value) []value {
	s, _ := v.([]value)
	return s
}

func (ip *Interp) fwrite(fr *frame, w iface, s *Str) value {
	if w.t == nil {
		ip.nilDeref()
	}
	r, ok := ip.method(fr, w, "Write", valuesOf(s.bytes(ip.tc)))
	if !ok {
		ip.unsupported("Fprint to %v", w.t)
	}
	return r
}

func (ip *Interp) errorf(fr *frame, f value, args value) value {
	s, wr := ip.sprintf(fr, f.(*Str), variadic(args), fmtLoose)
	if len(wr) == 0 {
		return ip.errOf(s)
	}
	p := new(value)
	if len(wr) == 1 {
		t := ip.prog.ImportedPackage("fmt").Type("wrapError").Type()
		*p = structure{s, wr[0]}
		return iface{types.NewPointer(t), p}
	}
	t := ip.prog.ImportedPackage("fmt").Type("wrapErrors").Type()
	var l []value
	for _, w := range wr {
		l = append(l, w)
	}
	*p = structure{s, l}
	return iface{types.NewPointer(t), p}
}

// ---- errors ----

var errNilIface = iface{}

func (ip *Interp) unwrapAll(fr *frame, e iface) []iface {
	if !ip.hasMethod(e.t, "Unwrap", 0, 1) {
		return nil
	}
	r, ok := ip.method(fr, e, "Unwrap")
	if !ok {
		return nil
	}
	switch r := r.(type) {
	case iface:
		if r.t != nil {
			return []iface{r}
		}
	case []value:
		var l []iface
		for _, x := range r {
			if x.(iface).t != nil {
				l = append(l, x.(iface))
			}
		}
		return l
	}
	return nil
}

func (ip *Interp) errIs(fr *frame, e, target iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) && ip.branch(ip.eq(e.t, e.v, target.v)) {
		return true
	}
	if ip.hasMethod(e.t, "Is", 1, 1) {
		r, ok := ip.method(fr, e, "Is", target)
		if ok && ip.branch(r.(*Term)) {
			return true
		}
	}
	for _, u := range ip.unwrapAll(fr, e) {
		if ip.errIs(fr, u, target) {
			return true
		}
	}
	return false
}

func (ip *Interp) errAs(fr *frame, e iface, target iface) bool {
	if e.t == nil {
		return false
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		ip.goPanicRT("errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	if it, ok := tt.Underlying().(*types.Interface); ok {
		if types.Implements(e.t, it) {
			ip.store(target.v, e)
			return true
		}
	} else if types.Identical(e.t, tt) {
		ip.store(target.v, e.v)
		return true
	}
	for _, u := range ip.unwrapAll(fr, e) {
		if ip.errAs(fr, u, target) {
			return true
		}
	}
	return false
}

// ---- search ----

func (ip *Interp) indexBytes(h, n []*Term) int {
	tc := ip.tc
	for i := 0; i+len(n) <= len(h); i++ {
		if ip.branch(tc.EqBytes(h[i:i+len(n)], n)) {
			return i
		}
	}
	return -1
}

func (ip *Interp) compareBytes(a, b []*Term) value {
	x, y := strOf(a), strOf(b)
	tc := ip.tc
	return tc.Ite(tc.strEq(x, y), tc.Const(64, 0), tc.Ite(ip.strLess(x, y), tc.Const(64, ^uint64(0)), tc.Const(64, 1)))
}

func bt(v value) []*Term { return termsOf(v.([]value)) }

func nop(fr *frame, a []value) value { return nil }

func stubPrefix(name string) intrFn {
	for _, p := range []string{
		"(*" + modPath + "/debug.Debug).",
		"(*log.Logger).", "log.",
		"github.com/davecgh/go-spew/spew.",
	} {
		if strings.HasPrefix(name, p) {
			if name == p+"init" {
				return nil
			}
			n := name
			return func(fr *frame, a []value) value { return fr.ip.zeroResults(fr, n) }
		}
	}
	return nil
}

func (ip *Interp) zeroResults(fr *frame, name string) value {
	fn := ip.stubFn[name]
	if fn == nil {
		return nil
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	return ip.zero(res)
}

// package initialisers that are replaced.
var pkgInitOverride = map[string]func(ip *Interp, pkg *ssa.Package){}

func setGlobal(ip *Interp, pkg *ssa.Package, name string, v value) {
	g, ok := pkg.Members[name].(*ssa.Global)
	if !ok {
		return
	}
	if p := ip.stdGlobals[g]; p != nil {
		*p = v
	}
}

func readGlobal(ip *Interp, pkg, name string) value {
	p := ip.prog.ImportedPackage(pkg)
	if p == nil {
		return iface{}
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return iface{}
	}
	return *ip.globalAddr(g)
}

func init() {
	noInit := func(ip *Interp, pkg *ssa.Package) {}
	for _, p := range []string{"net", "syscall", "runtime", "internal/poll", "internal/godebug", "internal/cpu", "net/http", "crypto/tls", "crypto/x509", "log", "os/user", "reflect", "internal/reflectlite", "os/signal", "os/exec", "internal/syscall/unix", "runtime/debug", "crypto/internal/fips140/check", "crypto/internal/boring", "crypto/internal/sysrand", "golang.org/x/sys/cpu", "internal/testlog", "internal/bisect", "testing", "flag", "github.com/davecgh/go-spew/spew", "unique", "vendor/golang.org/x/net/http/httpguts", "mime", "mime/multipart", "context", "encoding/json", "crypto/internal/fips140/drbg", "math/rand", "math/rand/v2", "internal/chacha8rand", "html/template", "text/template", "compress/zlib", "compress/flate"} {
		pkgInitOverride[p] = noInit
	}
	pkgInitOverride["os"] = func(ip *Interp, pkg *ssa.Package) {
		for n, src := range map[string]string{"ErrNotExist": "ErrNotExist", "ErrExist": "ErrExist", "ErrPermission": "ErrPermission", "ErrClosed": "ErrClosed", "ErrInvalid": "ErrInvalid"} {
			setGlobal(ip, pkg, n, readGlobal(ip, "internal/oserror", src))
		}
		sig := ip.prog.ImportedPackage("syscall").Type("Signal").Type()
		setGlobal(ip, pkg, "Interrupt", iface{sig, ip.tc.Const(64, 2)})
		setGlobal(ip, pkg, "Kill", iface{sig, ip.tc.Const(64, 9)})
	}
	pkgInitOverride["net"] = func(ip *Interp, pkg *ssa.Package) {
		setGlobal(ip, pkg, "ErrClosed", ip.newErr("use of closed network connection"))
		setGlobal(ip, pkg, "errClosed", ip.newErr("use of closed network connection"))
	}
	pkgInitOverride["context"] = func(ip *Interp, pkg *ssa.Package) {
		setGlobal(ip, pkg, "Canceled", ip.newErr("context canceled"))
		ch := ip.newChan(0)
		ch.closed = true
		setGlobal(ip, pkg, "closedchan", ch)
	}
	zlibErr := func(ip *Interp, pkg *ssa.Package) {
		for _, n := range []string{"ErrChecksum", "ErrDictionary", "ErrHeader"} {
			setGlobal(ip, pkg, n, ip.newErr("zlib: "+n))
		}
	}
	pkgInitOverride["compress/zlib"] = zlibErr

	reg := func(name string, f intrFn) { intrinsics[name] = f }

	// ---- harness API ----
	in := func(w uint32) intrFn {
		return func(fr *frame, a []value) value { return fr.ip.newInput(cstr(fr, a[0]), w) }
	}
	reg(zk+"U8", in(8))
	reg(zk+"U16", in(16))
	reg(zk+"U32", in(32))
	reg(zk+"I32", in(32))
	reg(zk+"U64", in(64))
	reg(zk+"I64", in(64))
	reg(zk+"Bool", func(fr *frame, a []value) value {
		ip := fr.ip
		v := ip.newInput(cstr(fr, a[0]), 8)
		return ip.tc.Eq(ip.tc.Extract(v, 0, 0), ip.tc.Const(1, 1))
	})
	reg(zk+"Bytes", func(fr *frame, a []value) value {
		ip := fr.ip
		n := int(mustConst(fr, a[1]))
		nm := cstr(fr, a[0])
		r := make([]value, n)
		for i := range r {
			r[i] = ip.newInput(nm, 8)
		}
		return r
	})
	reg(zk+"Concrete", func(fr *frame, a []value) value {
		return fr.ip.tc.Const(64, fr.ip.concretize(a[0].(*Term)))
	})
	reg(zk+"Free", func(fr *frame, a []value) value {
		for _, b := range a[0].(*Str).b {
			if !b.isConst() {
				return fr.ip.tc.Bool(true)
			}
		}
		return fr.ip.tc.Bool(false)
	})
	reg(zk+"Choose", func(fr *frame, a []value) value {
		ip := fr.ip
		n := int(int64(mustConst(fr, a[1])))
		if n <= 1 {
			return ip.intT(0)
		}
		if n > 256 {
			panic("Choose: too many")
		}
		return ip.intT(ip.chooseNamed(n, cstr(fr, a[0])))
	})
	reg(zk+"Assume", func(fr *frame, a []value) value { fr.ip.assume(a[0].(*Term)); return nil })
	reg(zk+"Assert", func(fr *frame, a []value) value {
		fr.ip.assert(a[0].(*Term), cstr(fr, a[1]))
		return nil
	})
	reg(zk+"AssertK", func(fr *frame, a []value) value {
		ip := fr.ip
		c, known := a[0].(*Term), a[1].(*Term)
		id, msg := cstr(fr, a[2]), cstr(fr, a[3])
		tc := ip.tc
		ip.assert(tc.Or(c, known), msg)
		ip.assert(tc.Or(c, tc.Not(known)), "[known "+id+"] "+msg)
		return nil
	})
	reg(zk+"Stop", func(fr *frame, a []value) value { panic(pathEnd{endDone, "", ""}) })
	reg(zk+"Reach", func(fr *frame, a []value) value {
		fr.ip.path.reached[cstr(fr, a[0])] = true
		return nil
	})
	obs := func(sgn bool) intrFn {
		return func(fr *frame, a []value) value {
			t := a[1].(*Term)
			fr.ip.path.observes = append(fr.ip.path.observes, observation{cstr(fr, a[0]), []obsVal{{kind: "int", t: t, w: t.w, sgn: sgn}}})
			return nil
		}
	}
	reg(zk+"ObsInt", obs(true))
	reg(zk+"ObsU", obs(false))
	reg(zk+"ObsBytes", func(fr *frame, a []value) value {
		fr.ip.path.observes = append(fr.ip.path.observes, observation{cstr(fr, a[0]), []obsVal{{kind: "bytes", b: bt(a[1])}}})
		return nil
	})
	reg(zk+"ObsStr", func(fr *frame, a []value) value {
		fr.ip.path.observes = append(fr.ip.path.observes, observation{cstr(fr, a[0]), []obsVal{{kind: "bytes", b: a[1].(*Str).bytes(fr.ip.tc)}}})
		return nil
	})
	reg(zk+"ObsBool", func(fr *frame, a []value) value {
		tc := fr.ip.tc
		t := tc.Ite(a[1].(*Term), tc.Const(64, 1), tc.Const(64, 0))
		fr.ip.path.observes = append(fr.ip.path.observes, observation{cstr(fr, a[0]), []obsVal{{kind: "int", t: t, w: 64, sgn: true}}})
		return nil
	})
	reg(zk+"Tier", func(fr *frame, a []value) value { return fr.ip.intT(fr.ip.w.job.tier) })
	reg(zk+"Native", func(fr *frame, a []value) value { return fr.ip.tc.False })
	reg(zk+"Interleave", func(fr *frame, a []value) value {
		ip := fr.ip
		ip.path.interleave = int(int64(mustConst(fr, a[0])))
		delete(ip.path.side, "delays")
		if ip.path.interleave < 0 {
			delete(ip.path.side, "interleave")
		} else {
			ip.path.side["interleave"] = true
		}
		return nil
	})
	reg(zk+"Delays", func(fr *frame, a []value) value {
		ip := fr.ip
		ip.path.interleave = int(int64(mustConst(fr, a[0])))
		ip.path.side["interleave"] = true
		ip.path.side["delays"] = true
		return nil
	})
	reg(zk+"MemPreempt", func(fr *frame, a []value) value {
		fr.ip.path.mem = map[interface{}]int{}
		return nil
	})
	reg(zk+"MapOrderOff", func(fr *frame, a []value) value { fr.ip.path.mapOrder = false; return nil })
	reg(zk+"MapOrder", func(fr *frame, a []value) value { fr.ip.path.mapOrder = true; return nil })
	reg(zk+"Gate", func(fr *frame, a []value) value { fr.ip.yieldPoint("gate"); return nil })
	reg(zk+"Quiesce", func(fr *frame, a []value) value {
		ip := fr.ip
		me := ip.path.cur
		me.lowprio, me.ready = true, nil
		for {
			norm, _ := ip.runnable()
			if len(norm) == 0 {
				break
			}
			n := ip.pickNext("quiesce")
			if n == me {
				break
			}
			ip.switchTo(n)
		}
		me.lowprio = false
		return nil
	})
	ideal := func(sym bool) intrFn {
		return func(fr *frame, a []value) value {
			ip := fr.ip
			kind := cstr(fr, a[0])
			n := int(mustConst(fr, a[1]))
			var args [][]*Term
			if sym {
				args = [][]*Term{bt(a[2]), bt(a[3])}
			} else {
				for _, x := range variadic(a[2]) {
					args = append(args, bt(x))
				}
			}
			if n == 0 {
				return []value{}
			}
			at := ip.newAtom(kind, n, args...)
			at.unordered = sym
			return valuesOf(at.bytes(ip.tc))
		}
	}
	reg(zk+"Ideal", ideal(false))
	reg(zk+"IdealSym", ideal(true))
	atomsOf := func(ip *Interp, kind string) []*Atom {
		var r []*Atom
		for _, a := range ip.path.atoms {
			if a.kind == kind {
				r = append(r, a)
			}
		}
		return r
	}
	reg(zk+"IdealN", func(fr *frame, a []value) value {
		return fr.ip.intT(len(atomsOf(fr.ip, cstr(fr, a[0]))))
	})
	reg(zk+"IdealOut", func(fr *frame, a []value) value {
		return valuesOf(atomsOf(fr.ip, cstr(fr, a[0]))[mustConst(fr, a[1])].bytes(fr.ip.tc))
	})
	reg(zk+"IdealArg", func(fr *frame, a []value) value {
		return valuesOf(atomsOf(fr.ip, cstr(fr, a[0]))[mustConst(fr, a[1])].args[mustConst(fr, a[2])])
	})
	reg(zk+"RandBytes", func(fr *frame, a []value) value {
		n := int(mustConst(fr, a[0]))
		if n == 0 {
			return []value{}
		}
		return valuesOf(fr.ip.newAtom("rand", n).bytes(fr.ip.tc))
	})
	reg(zk+"BytesEq", func(fr *frame, a []value) value { return fr.ip.tc.EqBytes(bt(a[0]), bt(a[1])) })
	reg(zk+"And", func(fr *frame, a []value) value { return fr.ip.tc.And(a[0].(*Term), a[1].(*Term)) })
	reg(zk+"Or", func(fr *frame, a []value) value { return fr.ip.tc.Or(a[0].(*Term), a[1].(*Term)) })
	reg(zk+"Implies", func(fr *frame, a []value) value { return fr.ip.tc.Implies(a[0].(*Term), a[1].(*Term)) })
	reg(zk+"IteInt", func(fr *frame, a []value) value {
		return fr.ip.tc.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})

	// ---- fmt ----
	reg("fmt.Sprintf", func(fr *frame, a []value) value {
		mode := fmtExact
		if fr.fn != nil && fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == modPath+"/zkclient" {
			switch fr.fn.Name() {
			case "printf", "log", "PrintfT": // what is only shown
				mode = fmtLoose
			}
		}
		if fr.fn != nil && fr.fn.Name() == "Error" { // the text of an error
			mode = fmtLoose
		}
		s, _ := fr.ip.sprintf(fr, a[0].(*Str), variadic(a[1]), mode)
		return s
	})
	reg("fmt.Sprint", func(fr *frame, a []value) value { return fr.ip.sprint(fr, variadic(a[0]), false, fmtExact) })
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.ip.sprint(fr, variadic(a[0]), true, fmtExact) })
	reg("fmt.Errorf", func(fr *frame, a []value) value { return fr.ip.errorf(fr, a[0], a[1]) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(fr *frame, a []value) value { return tuple{fr.ip.intT(0), iface{}} })
	}
	reg("fmt.Fprintf", func(fr *frame, a []value) value {
		s, _ := fr.ip.sprintf(fr, a[1].(*Str), variadic(a[2]), fmtExact)
		return fr.ip.fwrite(fr, a[0].(iface), s)
	})
	reg("fmt.Fprint", func(fr *frame, a []value) value {
		return fr.ip.fwrite(fr, a[0].(iface), fr.ip.sprint(fr, variadic(a[1]), false, fmtExact))
	})
	reg("fmt.Fprintln", func(fr *frame, a []value) value {
		return fr.ip.fwrite(fr, a[0].(iface), fr.ip.sprint(fr, variadic(a[1]), true, fmtExact))
	})

	// ---- errors ----
	reg("errors.Is", func(fr *frame, a []value) value {
		return fr.ip.tc.Bool(fr.ip.errIs(fr, a[0].(iface), a[1].(iface)))
	})
	reg("errors.As", func(fr *frame, a []value) value {
		return fr.ip.tc.Bool(fr.ip.errAs(fr, a[0].(iface), a[1].(iface)))
	})

	// ---- bytes, strings ----
	reg("bytes.Equal", func(fr *frame, a []value) value { return fr.ip.tc.EqBytes(bt(a[0]), bt(a[1])) })
	reg("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	reg("bytes.Compare", func(fr *frame, a []value) value { return fr.ip.compareBytes(bt(a[0]), bt(a[1])) })
	reg("internal/bytealg.Compare", intrinsics["bytes.Compare"])
	cmpStr := func(fr *frame, a []value) value {
		return fr.ip.compareBytes(a[0].(*Str).bytes(fr.ip.tc), a[1].(*Str).bytes(fr.ip.tc))
	}
	reg("internal/bytealg.CompareString", cmpStr)
	reg("strings.Compare", cmpStr)
	reg("bytes.Index", func(fr *frame, a []value) value { return fr.ip.intT(fr.ip.indexBytes(bt(a[0]), bt(a[1]))) })
	reg("internal/bytealg.Index", intrinsics["bytes.Index"])
	strIdx := func(fr *frame, a []value) value {
		x, y := a[0].(*Str), a[1].(*Str)
		if x.b == nil && y.b == nil {
			return fr.ip.intT(strings.Index(x.s, y.s))
		}
		return fr.ip.intT(fr.ip.indexBytes(x.bytes(fr.ip.tc), y.bytes(fr.ip.tc)))
	}
	reg("strings.Index", strIdx)
	reg("internal/bytealg.IndexString", strIdx)
	reg("internal/stringslite.Index", strIdx)
	idxByte := func(fr *frame, a []value) value {
		ip := fr.ip
		var b []*Term
		switch x := a[0].(type) {
		case *Str:
			b = x.bytes(ip.tc)
		case []value:
			b = termsOf(x)
		}
		return ip.intT(ip.indexBytes(b, []*Term{a[1].(*Term)}))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, idxByte)
	}
	lastByte := func(fr *frame, a []value) value {
		ip := fr.ip
		var b []*Term
		switch x := a[0].(type) {
		case *Str:
			if c, ok := a[1].(*Term); ok && x.b == nil && c.isConst() {
				return ip.intT(strings.LastIndexByte(x.s, byte(c.c)))
			}
			b = x.bytes(ip.tc)
		case []value:
			b = termsOf(x)
		}
		for i := len(b) - 1; i >= 0; i-- {
			if ip.branch(ip.tc.Eq(b[i], a[1].(*Term))) {
				return ip.intT(i)
			}
		}
		return ip.intT(-1)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte"} {
		reg(n, lastByte)
	}
	reg("path.Clean", func(fr *frame, a []value) value { return fr.ip.pathClean(a[0].(*Str)) })
	cntByte := func(fr *frame, a []value) value {
		ip := fr.ip
		var b []*Term
		switch x := a[0].(type) {
		case *Str:
			b = x.bytes(ip.tc)
		case []value:
			b = termsOf(x)
		}
		n := 0
		for _, t := range b {
			if ip.branch(ip.tc.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return ip.intT(n)
	}
	reg("internal/bytealg.Count", cntByte)
	reg("internal/bytealg.CountString", cntByte)
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		return fr.ip.makeSlice(types.Typ[types.Uint8], int(mustConst(fr, a[0])), int(mustConst(fr, a[0])))
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("strings.Clone", func(fr *frame, a []value) value { return a[0] })
	reg("internal/stringslite.Clone", intrinsics["strings.Clone"])
	reg("internal/abi.NoEscape", func(fr *frame, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(fr *frame, a []value) value { return a[0] })

	// ---- hex ----
	reg("encoding/hex.EncodeToString", func(fr *frame, a []value) value { return strOf(fr.ip.hexOf(bt(a[0]), false)) })
	reg("encoding/hex.DecodeString", func(fr *frame, a []value) value {
		ip := fr.ip
		tc := ip.tc
		b := a[0].(*Str).bytes(tc)
		out := []value{}
		mk := func(name string) iface {
			return (*ip.globalAddr(ip.prog.ImportedPackage("encoding/hex").Members[name].(*ssa.Global))).(iface)
		}
		for i := 0; i+1 < len(b); i += 2 {
			h, ok := ip.unhex(b[i])
			bad := b[i]
			var l *Term
			if ok {
				bad = b[i+1]
				l, ok = ip.unhex(b[i+1])
			}
			if !ok {
				t := ip.prog.ImportedPackage("encoding/hex").Type("InvalidByteError").Type()
				return tuple{out, iface{t, bad}}
			}
			out = append(out, tc.Concat(h, l))
		}
		if len(b)%2 == 1 {
			if _, ok := ip.unhex(b[len(b)-1]); !ok {
				t := ip.prog.ImportedPackage("encoding/hex").Type("InvalidByteError").Type()
				return tuple{out, iface{t, b[len(b)-1]}}
			}
			return tuple{out, mk("ErrLength")}
		}
		return tuple{out, iface{}}
	})

	// ---- strconv ----
	fi := func(signed bool) intrFn {
		return func(fr *frame, a []value) value {
			t := a[0].(*Term)
			v := fr.ip.concretize(t)
			base := 10
			if len(a) > 1 {
				base = int(mustConst(fr, a[1]))
			}
			if signed {
				return mkStr(strconv.FormatInt(int64(v), base))
			}
			return mkStr(strconv.FormatUint(v, base))
		}
	}
	reg("strconv.Itoa", fi(true))
	reg("strconv.FormatInt", fi(true))
	reg("strconv.FormatUint", fi(false))
	reg("strconv.Quote", func(fr *frame, a []value) value {
		s := a[0].(*Str)
		if s.b == nil {
			return mkStr(strconv.Quote(s.s))
		}
		return strCat(fr.ip.tc, strCat(fr.ip.tc, mkStr("\""), s), mkStr("\""))
	})
	reg("strconv.ParseFloat", func(fr *frame, a []value) value {
		f, err := strconv.ParseFloat(fr.ip.concStr(a[0].(*Str)), int(mustConst(fr, a[1])))
		if err != nil {
			return tuple{f, fr.ip.newErr(err.Error())}
		}
		return tuple{f, iface{}}
	})

	// ---- sort ----
	sortSlice := func(fr *frame, a []value) value {
		ip := fr.ip
		x := a[0].(iface)
		s := x.v.([]value)
		// insertion sort through the comparison closure on live elements
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !ip.branch(ip.call(fr, a[1], []value{ip.intT(j), ip.intT(j - 1)}).(*Term)) {
					break
				}
				t := copyVal(s[j])
				u := copyVal(s[j-1])
				storeVal(&s[j], u)
				storeVal(&s[j-1], t)
			}
		}
		ip.curFrame = fr
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	sortStrs := func(fr *frame, a []value) value {
		ip := fr.ip
		s := a[0].([]value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !ip.branch(ip.strLess(s[j].(*Str), s[j-1].(*Str))) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	reg("sort.Strings", sortStrs)

	// ---- runtime, time ----
	reg("runtime.NumCPU", func(fr *frame, a []value) value { return fr.ip.intT(4) })
	reg("runtime.GOMAXPROCS", func(fr *frame, a []value) value { return fr.ip.intT(4) })
	reg("runtime.Version", func(fr *frame, a []value) value { return mkStr(runtime.Version()) })
	reg("runtime.Gosched", func(fr *frame, a []value) value { fr.ip.yieldPoint("gosched"); return nil })
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "time.initLocal", "os.runtime_beforeExit"} {
		reg(n, nop)
	}
	reg("runtime.Caller", func(fr *frame, a []value) value {
		return tuple{fr.ip.tc.Const(64, 0), mkStr("?"), fr.ip.intT(0), fr.ip.tc.False}
	})
	reg("time.now", func(fr *frame, a []value) value {
		tc := fr.ip.tc
		return tuple{tc.Const(64, 1600000000), tc.Const(32, 0), tc.Const(64, 1)}
	})
	reg("time.runtimeNano", func(fr *frame, a []value) value { return fr.ip.tc.Const(64, 1) })
	reg("time.runtimeNow", intrinsics["time.now"])
	reg("internal/godebug.New", func(fr *frame, a []value) value { return (*value)(nil) })
	reg("(*internal/godebug.Setting).Value", func(fr *frame, a []value) value { return emptyStr })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/race.Acquire", nop)
	reg("internal/race.Release", nop)
	reg("internal/race.ReleaseMerge", nop)
	reg("internal/race.Disable", nop)
	reg("internal/race.Enable", nop)

	// ---- math ----
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(fr *frame, a []value) value { return f(a[0].(float64)) })
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Sqrt", math.Sqrt)
	f1("Log", math.Log)
	f1("Abs", math.Abs)
	f1("Trunc", math.Trunc)
	reg("math.Float64bits", func(fr *frame, a []value) value { return fr.ip.tc.Const(64, math.Float64bits(a[0].(float64))) })
	reg("math.Float64frombits", func(fr *frame, a []value) value {
		return math.Float64frombits(fr.ip.concretize(a[0].(*Term)))
	})
	reg("math.Float32bits", func(fr *frame, a []value) value {
		return fr.ip.tc.Const(32, uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	reg("math.Float32frombits", func(fr *frame, a []value) value {
		return float64(math.Float32frombits(uint32(fr.ip.concretize(a[0].(*Term)))))
	})

	// math/big kernels (assembly)
	reg("math/big.addVV", func(fr *frame, a []value) value { return bigVV(fr, a, true) })
	reg("math/big.subVV", func(fr *frame, a []value) value { return bigVV(fr, a, false) })

	// unicode/utf8 on concrete data is hot in a few loops
	reg("unicode/utf8.RuneCountInString", func(fr *frame, a []value) value {
		s := a[0].(*Str)
		if s.b == nil {
			return fr.ip.intT(utf8.RuneCountInString(s.s))
		}
		n := 0
		for i := 0; i < s.Len(); n++ {
			_, sz := fr.ip.decodeRune(s, i)
			i += sz
		}
		return fr.ip.intT(n)
	})
	conc1 := func(name string, f func(string) string) {
		orig := name
		reg(name, func(fr *frame, a []value) value {
			s := a[0].(*Str)
			if s.b == nil {
				return mkStr(f(s.s))
			}
			if m := maybeHooks[orig]; m != nil {
				if r, ok := m(fr.ip, a); ok {
					return r
				}
			}
			fn := fr.ip.w.prog.lookupFunc(orig)
			return fr.ip.callBody(fr, fn, a)
		})
	}
	conc1("strings.ToLower", strings.ToLower)
	conc1("strings.ToUpper", strings.ToUpper)
	conc1("strings.TrimSpace", strings.TrimSpace)

	// atomics on pointers and values
	reg("sync/atomic.LoadPointer", func(fr *frame, a []value) value { fr.ip.yieldPoint("atomic"); return fr.ip.load(a[0]) })
	reg("sync/atomic.StorePointer", func(fr *frame, a []value) value {
		fr.ip.yieldPoint("atomic")
		fr.ip.store(a[0], a[1])
		return nil
	})
	reg("sync/atomic.CompareAndSwapPointer", func(fr *frame, a []value) value {
		fr.ip.yieldPoint("atomic")
		if fr.ip.load(a[0]) == a[1] {
			fr.ip.store(a[0], a[2])
			return fr.ip.tc.True
		}
		return fr.ip.tc.False
	})
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []value) value {
		fr.ip.yieldPoint("atomic")
		return (*a[0].(*value)).(structure)[0]
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		fr.ip.yieldPoint("atomic")
		(*a[0].(*value)).(structure)[0] = a[1]
		return nil
	})
	_ = bits.Len
}

func bigVV(fr *frame, a []value, add bool) value {
	z, x, y := a[0].([]value), a[1].([]value), a[2].([]value)
	c := uint64(0)
	for i := range z {
		xv, yv := fr.ip.concretize(x[i].(*Term)), fr.ip.concretize(y[i].(*Term))
		var s uint64
		if add {
			s, c = bits.Add64(xv, yv, c)
		} else {
			s, c = bits.Sub64(xv, yv, c)
		}
		z[i] = fr.ip.tc.Const(64, s)
	}
	return fr.ip.tc.Const(64, c)
}

// callBody runs the compiled body of fn although fn has an intrinsic.
func (ip *Interp) callBody(caller *frame, fn *ssa.Function, args []value) value {
	fi := ip.bodies[fn]
	if fi == nil {
		fi = &fnInfo{fn: fn, name: fn.String()}
		if ip.bodies == nil {
			ip.bodies = map[*ssa.Function]*fnInfo{}
		}
		ip.bodies[fn] = fi
	}
	if !ip.compile(fi) {
		ip.unsupported("no body for %s", fn)
	}
	fr := &frame{ip: ip, caller: caller, fi: fi, fn: fn, env: make([]value, fi.nslots)}
	if caller != nil {
		fr.g = caller.g
	}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		ip.runFrame(fr)
	}
	ip.curFrame = caller
	return fr.result
}

// pathClean is path.Clean on symbolic bytes.
func (ip *Interp) pathClean(p *Str) value {
	if p.b == nil {
		return mkStr(path.Clean(p.s))
	}
	tc := ip.tc
	b := p.bytes(tc)
	if len(b) == 0 {
		return mkStr(".")
	}
	is := func(t *Term, c byte) bool { return ip.branch(tc.Eq(t, tc.Const(8, uint64(c)))) }
	slash, dot := tc.Const(8, '/'), tc.Const(8, '.')
	rooted := is(b[0], '/')
	n := len(b)
	var out []*Term
	r, dotdot := 0, 0
	if rooted {
		out = append(out, slash)
		r, dotdot = 1, 1
	}
	for r < n {
		switch {
		case is(b[r], '/'):
			r++
		case is(b[r], '.') && (r+1 == n || is(b[r+1], '/')):
			r++
		case is(b[r], '.') && is(b[r+1], '.') && (r+2 == n || is(b[r+2], '/')):
			r += 2
			switch {
			case len(out) > dotdot:
				w := len(out) - 1
				for w > dotdot && !is(out[w], '/') {
					w--
				}
				out = out[:w]
			case !rooted:
				if len(out) > 0 {
					out = append(out, slash)
				}
				out = append(out, dot, dot)
				dotdot = len(out)
			}
		default:
			if rooted && len(out) != 1 || !rooted && len(out) != 0 {
				out = append(out, slash)
			}
			for ; r < n && !is(b[r], '/'); r++ {
				out = append(out, b[r])
			}
		}
	}
	if len(out) == 0 {
		return mkStr(".")
	}
	return strOf(out)
}
