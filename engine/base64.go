package main

import "fmt"

// Base64 on symbolic bytes: characters remember the 6 bits they stand for, so
// that decoding what was encoded gives back the very same terms.

// maybeHooks handle some calls of the named functions; the others are
// interpreted.
var maybeHooks = map[string]func(ip *Interp, args []value) (value, bool){
	"(*encoding/base64.Encoding).EncodeToString": b64Encode,
	"(*encoding/base64.Encoding).DecodeString":   b64Decode,
	"strings.ToLower":    caseMap(false),
	"strings.ToUpper":    caseMap(true),
	"(time.Time).Format": timeFormat,
}

const b64Std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// b64Table gives characters 62 and 63 and tells if enc is an ordinary padded,
// not strict encoding.
func b64Table(v value) (c62, c63 byte, ok bool) {
	p, isP := v.(*value)
	if !isP || p == nil {
		return
	}
	st, isS := (*p).(structure)
	if !isS || len(st) != 4 {
		return
	}
	tab, isA := st[0].(array)
	pad, isT := st[2].(*Term)
	strict, isB := st[3].(*Term)
	if !isA || len(tab) != 64 || !isT || !isB || !pad.isConst() || pad.c != '=' || !strict.isConst() || strict.c != 0 {
		return
	}
	for i := 0; i < 62; i++ {
		t, isT := tab[i].(*Term)
		if !isT || !t.isConst() || byte(t.c) != b64Std[i] {
			return
		}
	}
	return byte(tab[62].(*Term).c), byte(tab[63].(*Term).c), true
}

func (ip *Interp) b64Char(n *Term, c62, c63 byte) *Term {
	tc := ip.tc
	if n.isConst() {
		switch {
		case n.c < 62:
			return tc.Const(8, uint64(b64Std[n.c]))
		case n.c == 62:
			return tc.Const(8, uint64(c62))
		}
		return tc.Const(8, uint64(c63))
	}
	z := tc.Zext(n, 8)
	lt := func(k uint64) *Term { return tc.Ult(n, tc.Const(6, k)) }
	add := func(k byte) *Term { return tc.Bin(OpAdd, z, tc.Const(8, uint64(k))) }
	r := tc.Ite(lt(26), add('A'),
		tc.Ite(lt(52), add('a'-26),
			tc.Ite(lt(62), add(256+'0'-52&255),
				tc.Ite(lt(63), tc.Const(8, uint64(c62)), tc.Const(8, uint64(c63))))))
	r.b64, r.b64c = n, [2]byte{c62, c63}
	r.rngOK, r.lo, r.hi = true, '0', 'z' // every one of the characters lies there
	for _, c := range []byte{c62, c63} {
		if uint64(c) < r.lo {
			r.lo = uint64(c)
		}
		if uint64(c) > r.hi {
			r.hi = uint64(c)
		}
	}
	return r
}

func b64Encode(ip *Interp, args []value) (value, bool) {
	c62, c63, ok := b64Table(args[0])
	if !ok {
		return nil, false
	}
	tc := ip.tc
	src := bt(args[1])
	var out []*Term
	pad := tc.Const(8, '=')
	for len(src) > 0 {
		var b [3]*Term
		n := 0
		for i := range b {
			b[i] = tc.Const(8, 0)
			if i < len(src) {
				b[i] = src[i]
				n++
			}
		}
		src = src[n:]
		s := [4]*Term{
			tc.Extract(b[0], 7, 2),
			tc.Concat(tc.Extract(b[0], 1, 0), tc.Extract(b[1], 7, 4)),
			tc.Concat(tc.Extract(b[1], 3, 0), tc.Extract(b[2], 7, 6)),
			tc.Extract(b[2], 5, 0),
		}
		for i := 0; i < 4; i++ {
			if i > n {
				out = append(out, pad)
			} else {
				out = append(out, ip.b64Char(s[i], c62, c63))
			}
		}
	}
	return strOf(out), true
}

func b64Decode(ip *Interp, args []value) (value, bool) {
	c62, c63, ok := b64Table(args[0])
	if !ok {
		return nil, false
	}
	tc := ip.tc
	src := args[1].(*Str).bytes(tc)
	if len(src)%4 != 0 {
		return nil, false
	}
	var out []*Term
	for i := 0; i < len(src); i += 4 {
		var s [4]*Term
		n := 0
		for k, c := range src[i : i+4] {
			s[k] = tc.Const(6, 0)
			switch {
			case c.b64 != nil:
				if c.b64c != [2]byte{c62, c63} && !ip.branch(tc.Ult(c.b64, tc.Const(6, 62))) {
					return nil, false // the alphabets differ
				}
				s[k] = c.b64
			case !c.isConst():
				return nil, false
			case c.c == '=':
				if i+4 != len(src) || k < 2 {
					return nil, false
				}
				continue
			default:
				v := -1
				for j := 0; j < 62; j++ {
					if uint64(b64Std[j]) == c.c {
						v = j
					}
				}
				if c.c == uint64(c62) {
					v = 62
				}
				if c.c == uint64(c63) {
					v = 63
				}
				if v < 0 {
					return nil, false
				}
				s[k] = tc.Const(6, uint64(v))
			}
			if n != k { // a character after padding
				return nil, false
			}
			n++
		}
		b := [3]*Term{
			tc.Concat(s[0], tc.Extract(s[1], 5, 4)),
			tc.Concat(tc.Extract(s[1], 3, 0), tc.Extract(s[2], 5, 2)),
			tc.Concat(tc.Extract(s[2], 1, 0), s[3]),
		}
		out = append(out, b[:n-1]...)
	}
	if out == nil {
		out = []*Term{}
	}
	return tuple{valuesOf(out), iface{}}, true
}

// caseMap changes the case of a text that cannot hold anything but ASCII.
func caseMap(upper bool) func(ip *Interp, args []value) (value, bool) {
	lo, hi := byte('A'), byte('Z')
	if upper {
		lo, hi = 'a', 'z'
	}
	return func(ip *Interp, args []value) (value, bool) {
		tc := ip.tc
		src := args[0].(*Str).bytes(tc)
		out := make([]*Term, len(src))
		sym := false
		for i, c := range src {
			if _, h := rng(c); h >= 0x80 {
				return nil, false
			}
			switch {
			case c.isConst():
				out[i] = c
				if byte(c.c) >= lo && byte(c.c) <= hi {
					out[i] = tc.Const(8, c.c^0x20)
				}
			case c.hex.n != nil:
				sym = true
				out[i] = ip.hexDigit(c.hex.n, upper)
			default:
				sym = true
				in := tc.And(tc.Ule(tc.Const(8, uint64(lo)), c), tc.Ule(c, tc.Const(8, uint64(hi))))
				out[i] = tc.Ite(in, tc.Bin(OpBvXor, c, tc.Const(8, 0x20)), c)
			}
		}
		if !sym && len(src) == 0 {
			return args[0], true
		}
		return strOf(out), true
	}
}

// timeFormat gives a time that is symbolic a text of its own.
func timeFormat(ip *Interp, args []value) (value, bool) {
	st, ok := args[0].(structure)
	if !ok {
		return nil, false
	}
	for _, f := range st {
		if t, isT := f.(*Term); isT && !t.isConst() {
			ip.nformat++
			return mkStr(fmt.Sprintf("99991231.%06d.000000000", ip.nformat)), true
		}
	}
	return nil, false
}
