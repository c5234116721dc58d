package main

// Terms: hash-consed bit-vector and boolean expressions with local
// simplification.  Every worker owns one termCtx; terms are never shared
// between workers.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpEq  // any sort -> bool
	OpUlt // bv -> bool
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // c = hi<<32|lo
	OpConcat
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "zext", "sext", "extract", "concat"}

// Term is immutable. w==0 means Bool.
type Term struct {
	op    Op
	w     uint32
	c     uint64 // const value (w<=64 or bool 0/1), or extract bounds
	a     [3]*Term
	name  string
	id    uint32
	atom  *Atom   // wide ideal-crypto variable
	split []*Term // its bytes
	hex   hexDig  // the nibble this is the hex digit of
	b64   *Term   // the 6 bits that this is the base64 character of
	b64c  [2]byte // characters 62 and 63 of that alphabet
	// unsigned range, computed on demand
	rngOK  bool
	lo, hi uint64
	// model evaluation cache
	evGen uint32
	evVal uint64
	// solver emission state (worker-private)
	emitted uint32 // solver epoch in which a definition was emitted
}

type termKey struct {
	op         Op
	w          uint32
	c          uint64
	a0, a1, a2 uint32
	name       string
}

type termCtx struct {
	tab    map[termKey]*Term
	next   uint32
	True   *Term
	False  *Term
	small  [9][4096]*Term // small consts for common widths: index by width/8
	evGen  uint32
	vars   []*Term // all declared vars, in order of creation
	nterms int
}

func newTermCtx() *termCtx {
	tc := &termCtx{tab: make(map[termKey]*Term, 1<<16), next: 1}
	tc.False = tc.mk(OpConst, 0, 0, nil, nil, nil, "")
	tc.True = tc.mk(OpConst, 0, 1, nil, nil, nil, "")
	for _, wi := range []int{1, 2, 4, 8} {
		for v := 0; v < 4096 && uint64(v) <= mask(uint32(wi*8)); v++ {
			tc.small[wi][v] = tc.mk(OpConst, uint32(wi*8), uint64(v), nil, nil, nil, "")
		}
	}
	return tc
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tc *termCtx) mk(op Op, w uint32, c uint64, a0, a1, a2 *Term, name string) *Term {
	k := termKey{op, w, c, tid(a0), tid(a1), tid(a2), name}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, a: [3]*Term{a0, a1, a2}, name: name, id: tc.next}
	tc.next++
	tc.tab[k] = t
	return t
}

func mask(w uint32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (tc *termCtx) Const(w uint32, v uint64) *Term {
	v &= mask(w)
	if v < 4096 && w <= 64 && w%8 == 0 {
		if t := tc.small[w/8][v]; t != nil {
			return t
		}
	}
	return tc.mk(OpConst, w, v, nil, nil, nil, "")
}

func (tc *termCtx) Bool(b bool) *Term {
	if b {
		return tc.True
	}
	return tc.False
}

func (tc *termCtx) Var(w uint32, name string) *Term {
	n := tc.next
	t := tc.mk(OpVar, w, 0, nil, nil, nil, name)
	if t.id >= n {
		tc.vars = append(tc.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext64(v uint64, w uint32) int64 {
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tc *termCtx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tc.Bool(a.c == 0)
	case OpNot:
		return a.a[0]
	case OpUlt:
		return tc.Ule(a.a[1], a.a[0])
	case OpUle:
		return tc.Ult(a.a[1], a.a[0])
	case OpSlt:
		return tc.Sle(a.a[1], a.a[0])
	case OpSle:
		return tc.Slt(a.a[1], a.a[0])
	}
	return tc.mk(OpNot, 0, 0, a, nil, nil, "")
}

func (tc *termCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OpAnd, 0, 0, a, b, nil, "")
}

func (tc *termCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OpOr, 0, 0, a, b, nil, "")
}

func (tc *termCtx) Implies(a, b *Term) *Term { return tc.Or(tc.Not(a), b) }

func (tc *termCtx) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tc.True {
			return tc.Or(c, b)
		}
		if a == tc.False {
			return tc.And(tc.Not(c), b)
		}
		if b == tc.True {
			return tc.Or(tc.Not(c), a)
		}
		if b == tc.False {
			return tc.And(c, a)
		}
	}
	if c.op == OpNot {
		return tc.Ite(c.a[0], b, a)
	}
	return tc.mk(OpIte, a.w, 0, c, a, b, "")
}

func (tc *termCtx) Eq(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %v %v", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.c == b.c)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return tc.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.w <= 64 && a.w > 0 {
		if lo, hi := rng(a); b.c < lo || b.c > hi {
			return tc.False
		}
		switch a.op {
		case OpZext:
			in := a.a[0]
			if b.c > mask(in.w) {
				return tc.False
			}
			return tc.Eq(in, tc.Const(in.w, b.c))
		case OpSext:
			in := a.a[0]
			tr := b.c & mask(in.w)
			if uint64(sext64(tr, in.w))&mask(a.w) != b.c {
				return tc.False
			}
			return tc.Eq(in, tc.Const(in.w, tr))
		case OpIte:
			x, y := a.a[1], a.a[2]
			_, okx := decEq(x, b)
			_, oky := decEq(y, b)
			if x.isConst() || y.isConst() || okx || oky {
				ex, ey := tc.Eq(x, b), tc.Eq(y, b)
				return tc.Ite(a.a[0], ex, ey)
			}
		case OpAdd:
			if a.a[1].isConst() {
				return tc.Eq(a.a[0], tc.Const(a.w, b.c-a.a[1].c))
			}
		case OpSub:
			if a.a[1].isConst() {
				return tc.Eq(a.a[0], tc.Const(a.w, b.c+a.a[1].c))
			}
			if a.a[0].isConst() {
				return tc.Eq(a.a[1], tc.Const(a.w, a.a[0].c-b.c))
			}
		case OpBvXor:
			if a.a[1].isConst() {
				return tc.Eq(a.a[0], tc.Const(a.w, b.c^a.a[1].c))
			}
			if b.c == 0 {
				return tc.Eq(a.a[0], a.a[1])
			}
		case OpConcat:
			lo := a.a[1]
			return tc.And(tc.Eq(a.a[0], tc.Const(a.a[0].w, b.c>>lo.w)), tc.Eq(lo, tc.Const(lo.w, b.c)))
		}
	}
	if a.op == OpConcat && b.op == OpConcat && a.a[1].w == b.a[1].w {
		return tc.And(tc.Eq(a.a[0], b.a[0]), tc.Eq(a.a[1], b.a[1]))
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return tc.Eq(a.a[0], b.a[0])
	}
	// x ^ d == x  ->  d == 0
	if a.op == OpBvXor {
		if a.a[0] == b {
			return tc.Eq(a.a[1], tc.Const(a.w, 0))
		}
		if a.a[1] == b {
			return tc.Eq(a.a[0], tc.Const(a.w, 0))
		}
	}
	if b.op == OpBvXor {
		if b.a[0] == a {
			return tc.Eq(b.a[1], tc.Const(a.w, 0))
		}
		if b.a[1] == a {
			return tc.Eq(b.a[0], tc.Const(a.w, 0))
		}
	}
	if a.op == OpIte && a.a[2] == b {
		return tc.Or(tc.Not(a.a[0]), tc.Eq(a.a[1], b))
	}
	if b.op == OpIte && b.a[2] == a {
		return tc.Or(tc.Not(b.a[0]), tc.Eq(b.a[1], a))
	}
	if a.op == OpIte && a.a[1] == b {
		return tc.Or(a.a[0], tc.Eq(a.a[2], b))
	}
	if b.op == OpIte && b.a[1] == a {
		return tc.Or(b.a[0], tc.Eq(b.a[2], a))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tc.mk(OpEq, 0, 0, a, b, nil, "")
}

// rng bounds the unsigned value of t (w in 1..64).
func rng(t *Term) (uint64, uint64) {
	if t.rngOK {
		return t.lo, t.hi
	}
	m := mask(t.w)
	lo, hi := uint64(0), m
	switch t.op {
	case OpConst:
		lo, hi = t.c, t.c
	case OpZext:
		lo, hi = rng(t.a[0])
	case OpIte:
		l1, h1 := rng(t.a[1])
		l2, h2 := rng(t.a[2])
		lo, hi = l1, h1
		if l2 < lo {
			lo = l2
		}
		if h2 > hi {
			hi = h2
		}
	case OpAdd:
		l1, h1 := rng(t.a[0])
		l2, h2 := rng(t.a[1])
		if h1 <= m-h2 {
			lo, hi = l1+l2, h1+h2
		}
	case OpBvAnd:
		_, h1 := rng(t.a[0])
		_, h2 := rng(t.a[1])
		hi = h1
		if h2 < hi {
			hi = h2
		}
	case OpLshr:
		if t.a[1].isConst() {
			l1, h1 := rng(t.a[0])
			if t.a[1].c < uint64(t.w) {
				lo, hi = l1>>t.a[1].c, h1>>t.a[1].c
			} else {
				lo, hi = 0, 0
			}
		}
	case OpUrem:
		if t.a[1].isConst() && t.a[1].c != 0 {
			hi = t.a[1].c - 1
		}
	case OpUdiv:
		if t.a[1].isConst() && t.a[1].c != 0 {
			l1, h1 := rng(t.a[0])
			lo, hi = l1/t.a[1].c, h1/t.a[1].c
		}
	}
	t.rngOK, t.lo, t.hi = true, lo, hi
	return lo, hi
}

// decEq and decUlt decide a comparison from the ranges alone.
func decEq(a, b *Term) (bool, bool) {
	al, ah := rng(a)
	bl, bh := rng(b)
	if ah < bl || bh < al {
		return false, true
	}
	return true, al == ah && bl == bh && al == bl
}

func decUlt(a, b *Term) (bool, bool) {
	al, ah := rng(a)
	bl, bh := rng(b)
	if ah < bl {
		return true, true
	}
	return false, al >= bh
}

func (tc *termCtx) Ult(a, b *Term) *Term {
	if a == b {
		return tc.False
	}
	if a.w <= 64 && a.op == OpIte && b.isConst() {
		_, ok1 := decUlt(a.a[1], b)
		_, ok2 := decUlt(a.a[2], b)
		if ok1 && ok2 {
			return tc.Ite(a.a[0], tc.Ult(a.a[1], b), tc.Ult(a.a[2], b))
		}
	}
	if b.w <= 64 && b.op == OpIte && a.isConst() {
		_, ok1 := decUlt(a, b.a[1])
		_, ok2 := decUlt(a, b.a[2])
		if ok1 && ok2 {
			return tc.Ite(b.a[0], tc.Ult(a, b.a[1]), tc.Ult(a, b.a[2]))
		}
	}
	if a.w <= 64 && !(a.isConst() && b.isConst()) {
		al, ah := rng(a)
		bl, bh := rng(b)
		if ah < bl {
			return tc.True
		}
		if al >= bh {
			return tc.False
		}
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.c < b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return tc.False
		}
		if b.c == 1 {
			return tc.Eq(a, tc.Const(a.w, 0))
		}
		if a.op == OpZext {
			in := a.a[0]
			if b.c > mask(in.w) {
				return tc.True
			}
			return tc.Ult(in, tc.Const(in.w, b.c))
		}
	}
	if a.isConst() {
		if a.c == mask(a.w) {
			return tc.False
		}
		if b.op == OpZext {
			in := b.a[0]
			if a.c >= mask(in.w) {
				return tc.False
			}
			return tc.Ult(tc.Const(in.w, a.c), in)
		}
		if a.c == 0 {
			return tc.Not(tc.Eq(b, tc.Const(b.w, 0)))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return tc.Ult(a.a[0], b.a[0])
	}
	return tc.mk(OpUlt, 0, 0, a, b, nil, "")
}

func (tc *termCtx) Ule(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.w <= 64 && !(a.isConst() && b.isConst()) {
		al, ah := rng(a)
		bl, bh := rng(b)
		if ah <= bl {
			return tc.True
		}
		if al > bh {
			return tc.False
		}
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.c <= b.c)
	}
	if b.isConst() {
		if b.c == mask(a.w) {
			return tc.True
		}
		return tc.Ult(a, tc.Const(a.w, b.c+1))
	}
	if a.isConst() {
		if a.c == 0 {
			return tc.True
		}
		return tc.Ult(tc.Const(a.w, a.c-1), b)
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return tc.Ule(a.a[0], b.a[0])
	}
	return tc.mk(OpUle, 0, 0, a, b, nil, "")
}

// nonneg reports that t is syntactically known to have a clear sign bit.
func nonneg(t *Term) bool {
	switch t.op {
	case OpConst:
		return t.c>>(t.w-1)&1 == 0
	case OpZext:
		return t.w > t.a[0].w
	case OpIte:
		return nonneg(t.a[1]) && nonneg(t.a[2])
	case OpUrem:
		return nonneg(t.a[1]) && t.a[1].isConst() && t.a[1].c != 0
	case OpBvAnd:
		return nonneg(t.a[0]) || nonneg(t.a[1])
	case OpLshr:
		return t.a[1].isConst() && t.a[1].c > 0
	}
	return false
}

func (tc *termCtx) Slt(a, b *Term) *Term {
	if a == b {
		return tc.False
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(sext64(a.c, a.w) < sext64(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tc.Ult(a, b)
	}
	if b.isConst() && b.c == 0 && nonneg(a) {
		return tc.False
	}
	if a.isConst() && sext64(a.c, a.w) < 0 && nonneg(b) {
		return tc.True
	}
	if b.isConst() && sext64(b.c, b.w) < 0 && nonneg(a) {
		return tc.False
	}
	return tc.mk(OpSlt, 0, 0, a, b, nil, "")
}

func (tc *termCtx) Sle(a, b *Term) *Term {
	if a == b {
		return tc.True
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(sext64(a.c, a.w) <= sext64(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tc.Ule(a, b)
	}
	if a.isConst() && sext64(a.c, a.w) <= 0 && nonneg(b) {
		return tc.True
	}
	if b.isConst() && sext64(b.c, b.w) < 0 && nonneg(a) {
		return tc.False
	}
	return tc.mk(OpSle, 0, 0, a, b, nil, "")
}

// Bin builds an arithmetic/bitwise binary operation (same width operands;
// for shifts the second operand has been brought to the same width).
func (tc *termCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.c, b.c); ok {
			return tc.Const(w, v)
		}
	}
	commut := op == OpAdd || op == OpMul || op == OpBvAnd || op == OpBvOr || op == OpBvXor
	if commut && a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return tc.Bin(OpAdd, a.a[0], tc.Const(w, a.a[1].c+b.c))
			}
		case OpSub:
			return tc.Bin(OpAdd, a, tc.Const(w, -b.c))
		case OpBvOr, OpBvXor:
			if b.c == 0 {
				return a
			}
			if op == OpBvXor && a.op == OpBvXor && a.a[1].isConst() {
				return tc.Bin(OpBvXor, a.a[0], tc.Const(w, a.a[1].c^b.c))
			}
			if op == OpBvOr && b.c == mask(w) {
				return b
			}
		case OpShl, OpLshr, OpAshr:
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) && op != OpAshr {
				return tc.Const(w, 0)
			}
			if op == OpLshr && b.c < uint64(w) {
				// (x >> k) == zext(extract(w-1,k))
				return tc.Zext(tc.Extract(a, w-1, uint32(b.c)), w)
			}
			if op == OpShl && b.c < uint64(w) {
				return tc.Concat(tc.Extract(a, w-1-uint32(b.c), 0), tc.Const(uint32(b.c), 0))
			}
		case OpBvAnd:
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			// low mask
			if n := bits.Len64(b.c); b.c == mask(uint32(n)) {
				return tc.Zext(tc.Extract(a, uint32(n)-1, 0), w)
			}
		case OpMul:
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
			if b.c&(b.c-1) == 0 {
				return tc.Bin(OpShl, a, tc.Const(w, uint64(bits.TrailingZeros64(b.c))))
			}
		case OpUdiv:
			if b.c == 1 {
				return a
			}
			if b.c != 0 && b.c&(b.c-1) == 0 {
				return tc.Bin(OpLshr, a, tc.Const(w, uint64(bits.TrailingZeros64(b.c))))
			}
		case OpUrem:
			if b.c != 0 && b.c&(b.c-1) == 0 {
				return tc.Bin(OpBvAnd, a, tc.Const(w, b.c-1))
			}
		case OpSdiv:
			if nonneg(a) && sext64(b.c, w) > 0 {
				return tc.Bin(OpUdiv, a, b)
			}
		case OpSrem:
			if nonneg(a) && sext64(b.c, w) > 0 {
				return tc.Bin(OpUrem, a, b)
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBvXor:
			return tc.Const(w, 0)
		case OpBvAnd, OpBvOr:
			return a
		}
	}
	if op == OpBvOr || op == OpAdd || op == OpBvXor {
		// disjoint halves: zext(x) | (y << k) with x.w <= k  => concat
		if r := tc.tryConcatOr(a, b); r != nil {
			return r
		}
		if r := tc.tryConcatOr(b, a); r != nil {
			return r
		}
	}
	if op == OpSub && a.op == OpAdd && a.a[0] == b {
		return a.a[1]
	}
	if commut && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tc.mk(op, w, 0, a, b, nil, "")
}

// tryConcatOr: hi = concat(x, 0_k), lo = zext(y) with y.w<=k.
func (tc *termCtx) tryConcatOr(hi, lo *Term) *Term {
	if lo.op != OpZext || hi.op != OpConcat && hi.op != OpZext {
		return nil
	}
	y := lo.a[0]
	// peel zext on hi
	if hi.op == OpZext && hi.a[0].op == OpConcat {
		in := hi.a[0]
		k := in.a[1]
		if !(k.isConst() && k.c == 0) || y.w > k.w {
			return nil
		}
		return tc.Zext(tc.Concat(in.a[0], tc.Zext(y, k.w)), hi.w)
	}
	if hi.op == OpConcat {
		k := hi.a[1]
		if !(k.isConst() && k.c == 0) || y.w > k.w {
			return nil
		}
		return tc.Concat(hi.a[0], tc.Zext(y, k.w))
	}
	return nil
}

func foldBin(op Op, w uint32, a, b uint64) (uint64, bool) {
	switch op {
	case OpAdd:
		return a + b, true
	case OpSub:
		return a - b, true
	case OpMul:
		return a * b, true
	case OpUdiv:
		if b == 0 {
			return mask(w), true
		}
		return a / b, true
	case OpUrem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSdiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext64(a, w), sext64(b, w)
		if y == -1 {
			return uint64(-x), true
		}
		return uint64(x / y), true
	case OpSrem:
		if b == 0 {
			return 0, false
		}
		x, y := sext64(a, w), sext64(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x % y), true
	case OpBvAnd:
		return a & b, true
	case OpBvOr:
		return a | b, true
	case OpBvXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return a << b, true
	case OpLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAshr:
		x := sext64(a, w)
		if b >= 64 {
			b = 63
		}
		return uint64(x >> b), true
	}
	return 0, false
}

func (tc *termCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return tc.Const(a.w, -a.c)
	}
	return tc.mk(OpNeg, a.w, 0, a, nil, nil, "")
}

func (tc *termCtx) BvNot(a *Term) *Term {
	if a.isConst() {
		return tc.Const(a.w, ^a.c)
	}
	return tc.mk(OpBvNot, a.w, 0, a, nil, nil, "")
}

func (tc *termCtx) Zext(a *Term, w uint32) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(w, a.c)
	}
	if a.op == OpZext {
		a = a.a[0]
	}
	return tc.mk(OpZext, w, 0, a, nil, nil, "")
}

func (tc *termCtx) Sext(a *Term, w uint32) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(w, uint64(sext64(a.c, a.w)))
	}
	if nonneg(a) {
		return tc.Zext(a, w)
	}
	return tc.mk(OpSext, w, 0, a, nil, nil, "")
}

func (tc *termCtx) Extract(a *Term, hi, lo uint32) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return tc.Const(w, a.c>>lo)
	case OpExtract:
		l0 := uint32(a.c)
		return tc.Extract(a.a[0], hi+l0, lo+l0)
	case OpZext:
		in := a.a[0]
		if lo >= in.w {
			return tc.Const(w, 0)
		}
		if hi < in.w {
			return tc.Extract(in, hi, lo)
		}
		return tc.Zext(tc.Extract(in, in.w-1, lo), w)
	case OpSext:
		in := a.a[0]
		if hi < in.w {
			return tc.Extract(in, hi, lo)
		}
	case OpConcat:
		l := a.a[1]
		if hi < l.w {
			return tc.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return tc.Extract(a.a[0], hi-l.w, lo-l.w)
		}
		return tc.Concat(tc.Extract(a.a[0], hi-l.w, 0), tc.Extract(l, l.w-1, lo))
	case OpIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return tc.Ite(a.a[0], tc.Extract(a.a[1], hi, lo), tc.Extract(a.a[2], hi, lo))
		}
	case OpBvXor, OpBvAnd, OpBvOr:
		return tc.Bin(a.op, tc.Extract(a.a[0], hi, lo), tc.Extract(a.a[1], hi, lo))
	case OpAdd, OpSub:
		if lo == 0 {
			return tc.Bin(a.op, tc.Extract(a.a[0], hi, 0), tc.Extract(a.a[1], hi, 0))
		}
	}
	return tc.mk(OpExtract, w, uint64(hi)<<32|uint64(lo), a, nil, nil, "")
}

func (tc *termCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w <= 64 {
		if a.isConst() && b.isConst() {
			return tc.Const(w, a.c<<b.w|b.c)
		}
		if a.isConst() && a.c == 0 {
			return tc.Zext(b, w)
		}
	}
	// adjacent extracts
	if a.op == OpExtract && b.op == OpExtract && a.a[0] == b.a[0] && uint32(a.c) == uint32(b.c>>32)+1 {
		return tc.Extract(a.a[0], uint32(a.c>>32), uint32(b.c))
	}
	if b.op == OpConcat && a.op == OpExtract && b.a[0].op == OpExtract && b.a[0].a[0] == a.a[0] && uint32(a.c) == uint32(b.a[0].c>>32)+1 {
		return tc.Concat(tc.Extract(a.a[0], uint32(a.c>>32), uint32(b.a[0].c)), b.a[1])
	}
	if w <= 64 && b.op == OpConcat {
		// right-assoc to left-assoc normal form
		return tc.Concat(tc.Concat(a, b.a[0]), b.a[1])
	}
	return tc.mk(OpConcat, w, 0, a, b, nil, "")
}

// ---- evaluation under a model ----

type Model struct {
	m    map[*Term]uint64   // narrow vars
	wide map[*Term]*big.Int // wide vars
}

func (tc *termCtx) newEval() { tc.evGen++ }

// Eval evaluates t under m (unassigned variables are 0). Wide terms are only
// supported below Extract of a variable.
func (tc *termCtx) Eval(m *Model, t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if t.evGen == tc.evGen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OpVar:
		if t.w > 64 {
			panic("Eval of wide var")
		}
		v = m.m[t]
	case OpNot:
		v = 1 - tc.Eval(m, t.a[0])
	case OpAnd:
		v = tc.Eval(m, t.a[0])
		if v != 0 {
			v = tc.Eval(m, t.a[1])
		}
	case OpOr:
		v = tc.Eval(m, t.a[0])
		if v == 0 {
			v = tc.Eval(m, t.a[1])
		}
	case OpEq:
		if t.a[0].w > 64 {
			if tc.evalWide(m, t.a[0]).Cmp(tc.evalWide(m, t.a[1])) == 0 {
				v = 1
			}
		} else if tc.Eval(m, t.a[0]) == tc.Eval(m, t.a[1]) {
			v = 1
		}
	case OpUlt:
		if tc.Eval(m, t.a[0]) < tc.Eval(m, t.a[1]) {
			v = 1
		}
	case OpUle:
		if tc.Eval(m, t.a[0]) <= tc.Eval(m, t.a[1]) {
			v = 1
		}
	case OpSlt:
		w := t.a[0].w
		if sext64(tc.Eval(m, t.a[0]), w) < sext64(tc.Eval(m, t.a[1]), w) {
			v = 1
		}
	case OpSle:
		w := t.a[0].w
		if sext64(tc.Eval(m, t.a[0]), w) <= sext64(tc.Eval(m, t.a[1]), w) {
			v = 1
		}
	case OpIte:
		if tc.Eval(m, t.a[0]) != 0 {
			v = tc.Eval(m, t.a[1])
		} else {
			v = tc.Eval(m, t.a[2])
		}
	case OpBvNot:
		v = ^tc.Eval(m, t.a[0])
	case OpNeg:
		v = -tc.Eval(m, t.a[0])
	case OpZext:
		v = tc.Eval(m, t.a[0])
	case OpSext:
		v = uint64(sext64(tc.Eval(m, t.a[0]), t.a[0].w))
	case OpExtract:
		if t.a[0].w > 64 {
			b := new(big.Int).Rsh(tc.evalWide(m, t.a[0]), uint(uint32(t.c)))
			v = new(big.Int).And(b, new(big.Int).SetUint64(mask(t.w))).Uint64()
		} else {
			v = tc.Eval(m, t.a[0]) >> uint32(t.c)
		}
	case OpConcat:
		v = tc.Eval(m, t.a[0])<<t.a[1].w | tc.Eval(m, t.a[1])
	default:
		x, y := tc.Eval(m, t.a[0]), tc.Eval(m, t.a[1])
		if (t.op == OpSdiv || t.op == OpSrem) && y == 0 {
			if t.op == OpSdiv {
				if sext64(x, t.w) >= 0 {
					v = mask(t.w)
				} else {
					v = 1
				}
			} else {
				v = x
			}
		} else {
			v, _ = foldBin(t.op, t.w, x, y)
		}
	}
	if t.w > 0 {
		v &= mask(t.w)
	}
	t.evGen, t.evVal = tc.evGen, v
	return v
}

func (tc *termCtx) evalWide(m *Model, t *Term) *big.Int {
	switch t.op {
	case OpVar:
		if v := m.wide[t]; v != nil {
			return v
		}
		return new(big.Int)
	case OpConcat:
		hi := new(big.Int)
		if t.a[0].w > 64 {
			hi.Set(tc.evalWide(m, t.a[0]))
		} else {
			hi.SetUint64(tc.Eval(m, t.a[0]))
		}
		hi.Lsh(hi, uint(t.a[1].w))
		var lo *big.Int
		if t.a[1].w > 64 {
			lo = tc.evalWide(m, t.a[1])
		} else {
			lo = new(big.Int).SetUint64(tc.Eval(m, t.a[1]))
		}
		return hi.Or(hi, lo)
	case OpExtract:
		b := new(big.Int).Rsh(tc.evalWide(m, t.a[0]), uint(uint32(t.c)))
		one := big.NewInt(1)
		mk := new(big.Int).Sub(new(big.Int).Lsh(one, uint(t.w)), one)
		return b.And(b, mk)
	}
	if t.w <= 64 {
		return new(big.Int).SetUint64(tc.Eval(m, t))
	}
	panic("evalWide: " + opNames[t.op])
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, depth int) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.c == 1)
		} else {
			fmt.Fprintf(sb, "%d:%d", t.c, t.w)
		}
		return
	case OpVar:
		sb.WriteString(t.name)
		return
	}
	if depth == 0 {
		sb.WriteString("...")
		return
	}
	sb.WriteString("(" + opNames[t.op])
	if t.op == OpExtract {
		fmt.Fprintf(sb, "[%d:%d]", t.c>>32, uint32(t.c))
	}
	for _, x := range t.a {
		if x != nil {
			sb.WriteString(" ")
			x.str(sb, depth-1)
		}
	}
	sb.WriteString(")")
}
