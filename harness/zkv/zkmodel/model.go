// Package zkmodel holds the idealised cryptography (and the few codecs) that
// replace the real primitives in the symbolic executor.  The native replay
// uses the real ones.
package zkmodel

import (
	"errors"
	"hash"
	"io"
	"regexp"
	"time"

	"github.com/companyzero/zkc/zkv"
)

func cp(b []byte) []byte { return append([]byte{}, b...) }

func readFull(r io.Reader, b []byte) error {
	n := 0
	for n < len(b) {
		k, err := r.Read(b[n:])
		n += k
		if err != nil && n < len(b) {
			return err
		}
	}
	return nil
}

type hashT struct {
	kind string
	size int
	key  []byte
	mac  bool
	buf  []byte
}

func (h *hashT) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *hashT) Sum(b []byte) []byte {
	if h.mac {
		return append(b, zkv.Ideal(h.kind, h.size, cp(h.key), cp(h.buf))...)
	}
	return append(b, zkv.Ideal(h.kind, h.size, cp(h.buf))...)
}
func (h *hashT) Reset()         { h.buf = nil }
func (h *hashT) Size() int      { return h.size }
func (h *hashT) BlockSize() int { return 2 * h.size }

func SHA256New() hash.Hash { return &hashT{kind: "sha256", size: 32} }
func SHA512New() hash.Hash { return &hashT{kind: "sha512", size: 64} }

func SHA256Sum(data []byte) (r [32]byte) {
	copy(r[:], zkv.Ideal("sha256", 32, cp(data)))
	return
}

func HMACNew(f func() hash.Hash, key []byte) hash.Hash {
	n := f().Size()
	k := "hmac256"
	if n == 64 {
		k = "hmac512"
	}
	return &hashT{kind: k, size: n, key: cp(key), mac: true}
}

func Equal(a, b []byte) bool { return zkv.BytesEq(a, b) }

func ConstantTimeCompare(a, b []byte) int {
	return zkv.IteInt(zkv.BytesEq(a, b), 1, 0)
}

func ScryptKey(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	return zkv.Ideal("scrypt", keyLen, cp(password), cp(salt), num(N), num(r), num(p)), nil
}

func num(x int) []byte {
	return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

// ---- secretbox: ideal authenticated encryption ----

func SBSeal(out, message []byte, nonce *[24]byte, key *[32]byte) []byte {
	return append(out, zkv.Ideal("sb", 16+len(message), cp(key[:]), cp(nonce[:]), cp(message))...)
}

func SBOpen(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	if len(box) < 16 {
		return nil, false
	}
	for i := zkv.IdealN("sb") - 1; i >= 0; i-- {
		o := zkv.IdealOut("sb", i)
		if len(o) != len(box) {
			continue
		}
		if zkv.And(zkv.And(zkv.BytesEq(zkv.IdealArg("sb", i, 0), key[:]), zkv.BytesEq(zkv.IdealArg("sb", i, 1), nonce[:])), zkv.BytesEq(o, box)) {
			return append(out, zkv.IdealArg("sb", i, 2)...), true
		}
	}
	return nil, false
}

// ---- X25519 ----

// x25519pub is a public value; honest ones are in the canonical range.
func x25519pub(scalar []byte) []byte {
	p := zkv.Ideal("x25519pub", 32, cp(scalar))
	zkv.Assume(zkv.And(p[31] > 0, p[31] < 0x7f))
	return p
}

func ScalarBaseMult(dst, scalar *[32]byte) {
	copy(dst[:], x25519pub(scalar[:]))
}

func ScalarMult(dst, scalar, point *[32]byte) {
	pub := x25519pub(scalar[:])
	copy(dst[:], zkv.IdealSym("x25519", 32, pub, cp(point[:])))
}

func X25519(scalar, point []byte) ([]byte, error) {
	if len(scalar) != 32 {
		return nil, errors.New("bad scalar length")
	}
	if len(point) != 32 {
		return nil, errors.New("bad input point")
	}
	if zkv.BytesEq(point, make([]byte, 32)) {
		return nil, errors.New("bad input point: low order point")
	}
	pub := x25519pub(scalar)
	return zkv.IdealSym("x25519", 32, pub, cp(point)), nil
}

// ---- Ed25519 ----

func EdGenerateKey(rand io.Reader) ([]byte, []byte, error) {
	seed := make([]byte, 32)
	if err := readFull(rand, seed); err != nil {
		return nil, nil, err
	}
	pub := zkv.Ideal("edpub", 32, cp(seed))
	return cp(pub), append(seed, pub...), nil
}

func EdSign(priv []byte, message []byte) []byte {
	if len(priv) != 64 {
		panic("ed25519: bad private key length")
	}
	pub := zkv.Ideal("edpub", 32, cp(priv[:32]))
	return zkv.Ideal("edsig", 64, pub, cp(message))
}

func EdVerify(pub []byte, message, sig []byte) bool {
	if len(pub) != 32 {
		panic("ed25519: bad public key length")
	}
	if len(sig) != 64 {
		return false
	}
	n := zkv.IdealN("edsig")
	for i := 0; i < n; i++ {
		if zkv.And(zkv.And(zkv.BytesEq(zkv.IdealArg("edsig", i, 0), pub), zkv.BytesEq(zkv.IdealArg("edsig", i, 1), message)), zkv.BytesEq(zkv.IdealOut("edsig", i), sig)) {
			return true
		}
	}
	return false
}

// ---- sntrup4591761 ----

func sntruPK(sk []byte) []byte { return zkv.Ideal("sntrupk", 32, cp(sk[:32])) }

func SntrupGenerateKey(r io.Reader) (*[1218]byte, *[1600]byte, error) {
	var pk [1218]byte
	var sk [1600]byte
	if err := readFull(r, sk[:32]); err != nil {
		return nil, nil, err
	}
	copy(pk[:], sntruPK(sk[:]))
	return &pk, &sk, nil
}

func SntrupEncapsulate(r io.Reader, pk *[1218]byte) (*[1047]byte, *[32]byte, error) {
	var ct [1047]byte
	var ss [32]byte
	var seed [32]byte
	if err := readFull(r, seed[:]); err != nil {
		return nil, nil, err
	}
	copy(ct[:], zkv.Ideal("sntruct", 32, cp(pk[:]), seed[:]))
	copy(ss[:], zkv.Ideal("sntruss", 32, cp(pk[:]), seed[:]))
	return &ct, &ss, nil
}

func SntrupDecapsulate(ct *[1047]byte, sk *[1600]byte) (*[32]byte, int) {
	var ss [32]byte
	var pk [1218]byte
	copy(pk[:], sntruPK(sk[:]))
	n := zkv.IdealN("sntruct")
	for i := 0; i < n; i++ {
		var full [1047]byte
		copy(full[:], zkv.IdealOut("sntruct", i))
		if zkv.And(zkv.BytesEq(full[:], ct[:]), zkv.BytesEq(zkv.IdealArg("sntruct", i, 0), pk[:])) {
			copy(ss[:], zkv.Ideal("sntruss", 32, cp(pk[:]), zkv.IdealArg("sntruct", i, 1)))
			return &ss, 1
		}
	}
	return &ss, 0
}

// ---- time ----

// TimeSub is time.Time.Sub without the overflow probe, which divides.
func TimeSub(t, u time.Time) time.Duration {
	s := t.Unix() - u.Unix()
	if s > 9223372035 {
		return 1<<63 - 1
	}
	if s < -9223372035 {
		return -1 << 63
	}
	return time.Duration(s*1000000000 + int64(t.Nanosecond()-u.Nanosecond()))
}

// ---- regexp: the two patterns of go-ini ----

var rePat = map[*regexp.Regexp]string{}

func ReMustCompile(p string) *regexp.Regexp {
	r := new(regexp.Regexp)
	rePat[r] = p
	return r
}

func ReFindStringSubmatch(r *regexp.Regexp, s string) []string {
	switch rePat[r] {
	case `^\[(.*)\]$`:
		n := len(s)
		if n >= 2 && s[0] == '[' && s[n-1] == ']' && noNL(s) {
			return []string{s, s[1 : n-1]}
		}
		return nil
	case `^([^=]+)=(.*)$`:
		for i := 0; i < len(s); i++ {
			if s[i] == '=' {
				if i == 0 || !noNL(s[i:]) {
					return nil
				}
				return []string{s, s[:i], s[i+1:]}
			}
		}
		return nil
	}
	panic("regular expression without a model: " + rePat[r])
}

func noNL(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = zkv.And(ok, s[i] != '\n')
	}
	return zkv.Fork(ok)
}
