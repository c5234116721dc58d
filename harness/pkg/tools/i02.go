package tools

import (
	"strings"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
)

func zkHexVal(c byte) (int, bool) {
	d := zkv.And(c >= '0', c <= '9')
	l := zkv.And(c|0x20 >= 'a', c|0x20 <= 'f')
	return zkv.IteInt(d, int(c)-'0', int(c|0x20)-'a'+10), zkv.Or(d, l)
}

// ZkvH_Validate: exactly the texts of an identity's hexadecimal digits are
// valid, and validation agrees with parsing.
//
//zkv:prop I02
func ZkvH_Validate() {
	n := []int{0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 128}[zkv.Choose("len", 12)]
	b := []byte(strings.Repeat("5aF0", 33))[:n]
	w := zkv.Pick(4, 8)
	if w > n {
		w = n
	}
	if n > 0 {
		at := zkv.Choose("at", 2) * (n - w)
		copy(b[at:at+w], zkv.Bytes("text", w))
	}
	good := n == 2*zkidentity.IdentitySize
	for _, c := range b {
		_, ok := zkHexVal(c)
		good = zkv.And(good, ok)
	}
	id, err := ValidateIdentity(string(b))
	if zkv.Fork(good) {
		zkv.Assert(err == nil, "a well-formed identity is valid")
		zkv.Assert(len(id) == zkidentity.IdentitySize, "an identity has its fixed size")
		ok := true
		for i := range id {
			h, _ := zkHexVal(b[2*i])
			l, _ := zkHexVal(b[2*i+1])
			ok = zkv.And(ok, int(id[i]) == 16*h+l)
		}
		zkv.Assert(ok, "a well-formed identity is parsed to its value")
	} else {
		zkv.Assert(err != nil, "a text that is not an identity is refused")
	}
	zkv.ObsErr("err", err)
	zkv.Reach("end")
}

// ZkvH_InFours: the readable form of a token holds the token.
//
//zkv:prop I02
func ZkvH_InFours() {
	n := zkv.Choose("len", 20)
	b := zkv.Bytes("token", n)
	for _, c := range b {
		zkv.Assume(zkv.And(c < 0x80, c > ' '))
	}
	s, err := InFours(string(b))
	zkv.Assert((err == nil) == (n == 16), "a token has 16 characters")
	if err == nil {
		zkv.Assert(strings.Replace(s, " ", "", -1) == string(b), "the readable form of a token holds the token")
		for i, f := range strings.Fields(s) {
			zkv.Assert(len(f) == 4 && i < 4, "a token is shown in fours")
		}
	}
	zkv.Reach("end")
}
