package main

import "fmt"

// Atom is an ideal-crypto byte string: a fresh random value, a hash output, a
// ciphertext, a public key ...  Equality between two atoms is decided by how
// they were made; equality with other bytes is left to the solver, which is
// told the pairwise facts for the atoms it sees on a path.
type Atom struct {
	kind      string
	n         int // bytes
	args      [][]*Term
	v         *Term
	id        int
	unordered bool // first two args form an unordered pair
	extra     interface{}
}

func (a *Atom) byteAt(tc *termCtx, i int) *Term {
	return tc.Extract(a.v, uint32(8*i+7), uint32(8*i))
}

func (a *Atom) bytes(tc *termCtx) []*Term {
	if a.v != nil && len(a.v.split) == a.n {
		return a.v.split
	}
	r := make([]*Term, a.n)
	for i := range r {
		r[i] = a.byteAt(tc, i)
	}
	if a.v != nil {
		a.v.split = r
	}
	return r
}

func atomByte(t *Term) (*Atom, int) {
	if t.op == OpExtract && t.w == 8 && t.a[0].atom != nil {
		return t.a[0].atom, int(uint32(t.c)) / 8
	}
	return nil, 0
}

// run returns the longest run of consecutive bytes of one atom starting at b[i].
func atomRun(b []*Term, i int) (a *Atom, off, n int) {
	a, off = atomByte(b[i])
	if a == nil {
		return nil, 0, 0
	}
	n = 1
	for i+n < len(b) {
		a2, o2 := atomByte(b[i+n])
		if a2 != a || o2 != off+n {
			break
		}
		n++
	}
	return
}

const atomMin = 16

func (tc *termCtx) EqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return tc.False
	}
	// cheap refutation by constants first
	for i := range a {
		if a[i].isConst() && b[i].isConst() && a[i] != b[i] {
			return tc.False
		}
	}
	if len(a) >= 2 {
		var ok bool
		if a, b, ok = tc.unhexBoth(a, b); !ok {
			return tc.False
		}
	}
	res := tc.True
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		A, ao, an := atomRun(a, i)
		B, bo, bn := atomRun(b, i)
		if A != nil && B != nil {
			n := an
			if bn < n {
				n = bn
			}
			// extend backwards is not needed: runs start here or matched syntactically
			if n >= atomMin || n == A.n || n == B.n {
				if ao == bo && A.n == B.n {
					res = tc.And(res, tc.atomEq(A, B))
				} else {
					return tc.False
				}
				if res == tc.False {
					return res
				}
				i += n
				continue
			}
		} else if A != nil && an >= atomMin {
			if c := constRun(b, i); c >= an {
				return tc.False
			}
		} else if B != nil && bn >= atomMin {
			if c := constRun(a, i); c >= bn {
				return tc.False
			}
		}
		res = tc.And(res, tc.Eq(a[i], b[i]))
		if res == tc.False {
			return res
		}
		i++
	}
	return res
}

func constRun(b []*Term, i int) int {
	n := 0
	for i+n < len(b) && b[i+n].isConst() {
		n++
	}
	return n
}

func (tc *termCtx) atomEq(A, B *Atom) *Term {
	if A == B {
		return tc.True
	}
	if A.kind != B.kind || A.kind == "rand" || len(A.args) != len(B.args) {
		return tc.False
	}
	if A.unordered {
		s := tc.And(tc.EqBytes(A.args[0], B.args[0]), tc.EqBytes(A.args[1], B.args[1]))
		x := tc.And(tc.EqBytes(A.args[0], B.args[1]), tc.EqBytes(A.args[1], B.args[0]))
		return tc.Or(s, x)
	}
	r := tc.True
	for i := range A.args {
		r = tc.And(r, tc.EqBytes(A.args[i], B.args[i]))
		if r == tc.False {
			return r
		}
	}
	return r
}

// newAtom returns the atom for the given constructor and arguments; an atom
// already made from syntactically equal arguments on this path is returned.
func (ip *Interp) newAtom(kind string, n int, args ...[]*Term) *Atom {
	tc := ip.tc
	if kind != "rand" {
		for _, o := range ip.path.atoms {
			if o.kind != kind || o.n != n {
				continue
			}
			same := len(o.args) == len(args)
			for i := 0; same && i < len(args); i++ {
				same = sameTerms(o.args[i], args[i])
			}
			if same {
				return o
			}
		}
	}
	id := len(ip.path.atoms)
	v := tc.Var(uint32(n*8), fmt.Sprintf("atom!%d!%d", id, n))
	a := &Atom{kind: kind, n: n, args: args, v: v, id: id}
	v.atom = a // same id and size on every path; structure is rebuilt per path
	ip.path.atoms = append(ip.path.atoms, a)
	ip.path.vars = append(ip.path.vars, v)
	return a
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// atomsIn collects the atoms occurring in t.
func (ip *Interp) atomsIn(t *Term) []*Atom {
	if r, ok := ip.atomMemo[t]; ok {
		if r == nil {
			return nil
		}
		out := make([]*Atom, len(r))
		for i, v := range r {
			out[i] = v.atom
		}
		return out
	}
	seen := map[*Term]bool{}
	var vars []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || x.op == OpConst || seen[x] {
			return
		}
		seen[x] = true
		if x.atom != nil {
			vars = append(vars, x)
			return
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(t)
	ip.atomMemo[t] = vars
	out := make([]*Atom, len(vars))
	for i, v := range vars {
		out[i] = v.atom
	}
	return out
}

// touch asserts the pairwise facts about every atom in t that the solver has
// not seen on this path yet.
func (ip *Interp) touch(t *Term) {
	work := ip.atomsIn(t)
	for len(work) > 0 {
		a := work[0]
		work = work[1:]
		if ip.path.touched[a] {
			continue
		}
		ip.path.touched[a] = true
		if a.n >= atomMin {
			ip.rawAssert(ip.tc.Not(ip.tc.Eq(ip.tc.Extract(a.v, 63, 0), ip.tc.Const(64, 0))))
		}
		for _, b := range ip.path.touchedList {
			if b.n != a.n {
				continue
			}
			e := ip.tc.mk(OpEq, 0, 0, a.v, b.v, nil, "")
			if a.v.id > b.v.id {
				e = ip.tc.mk(OpEq, 0, 0, b.v, a.v, nil, "")
			}
			s := ip.tc.atomEq(a, b)
			fact := ip.tc.Eq(e, s)
			if s.isConst() {
				if s.c == 1 {
					fact = e
				} else {
					fact = ip.tc.Not(e)
				}
			}
			ip.rawAssert(fact)
			work = append(work, ip.atomsIn(s)...)
		}
		ip.path.touchedList = append(ip.path.touchedList, a)
	}
}

// hexDig says that a term is the hex digit of a nibble.
type hexDig struct {
	n     *Term
	upper bool
}

// unhexBoth replaces pairs of hex digits on both sides by the bytes they
// stand for, so that hex forms of atoms are compared like the atoms.
func (tc *termCtx) unhexBoth(a, b []*Term) ([]*Term, []*Term, bool) {
	found := false
	for i := 0; i < len(a) && !found; i++ {
		if a[i] != b[i] {
			found = a[i].hex.n != nil || b[i].hex.n != nil
		}
	}
	if !found {
		return a, b, true
	}
	// nib gives the nibble of x as a digit in the given case; bad means x is
	// a constant that is no such digit
	nib := func(x *Term, upper bool) (n *Term, bad bool) {
		if d := x.hex; d.n != nil {
			if d.upper != upper {
				return nil, false
			}
			return d.n, false
		}
		if x.isConst() {
			c := x.c
			switch {
			case c >= '0' && c <= '9':
				return tc.Const(4, c-'0'), false
			case !upper && c >= 'a' && c <= 'f':
				return tc.Const(4, c-'a'+10), false
			case upper && c >= 'A' && c <= 'F':
				return tc.Const(4, c-'A'+10), false
			}
			return nil, true
		}
		return nil, false
	}
	var ra, rb []*Term
	for i := 0; i < len(a); i++ {
		da, db := a[i].hex, b[i].hex
		if da.n == nil && db.n == nil || i+1 == len(a) {
			ra, rb = append(ra, a[i]), append(rb, b[i])
			continue
		}
		upper := da.upper
		if da.n == nil {
			upper = db.upper
		}
		na, bad1 := nib(a[i], upper)
		nb, bad2 := nib(b[i], upper)
		if bad1 || bad2 {
			return nil, nil, false
		}
		ma, bad1 := nib(a[i+1], upper)
		mb, bad2 := nib(b[i+1], upper)
		ok := na != nil && nb != nil && ma != nil && mb != nil
		if ok {
			ha, hb := tc.Concat(na, ma), tc.Concat(nb, mb)
			if ha.op != OpConcat || hb.op != OpConcat {
				ra, rb = append(ra, ha), append(rb, hb)
				i++
				continue
			}
		}
		ra, rb = append(ra, a[i]), append(rb, b[i])
	}
	return ra, rb, true
}
