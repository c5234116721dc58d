package zkidentity

import (
	"github.com/companyzero/zkc/zkv"
)

func zkHex(c byte) bool {
	return zkv.Or(zkv.And(c >= '0', c <= '9'), zkv.Or(zkv.And(c >= 'a', c <= 'f'), zkv.And(c >= 'A', c <= 'F')))
}

func zkVal(c byte) byte {
	return byte(zkv.IteInt(c <= '9', int(c-'0'), int((c|0x20)-'a'+10)))
}

// ZkvH_Print: what is printed is parsed back to the same value.
//
//zkv:prop I02
func ZkvH_Print() {
	var p PublicIdentity
	copy(p.Identity[:], zkv.Bytes("id", IdentitySize))
	for _, s := range []string{p.String(), p.Fingerprint(), Fingerprint(p.Identity)} {
		zkv.Assert(len(s) == 2*IdentitySize, "the printed form has two digits per byte")
		id, err := String2ID(s)
		zkv.Assert(err == nil, "a printed identity can be parsed")
		zkv.Assert(zkv.BytesEq(id[:], p.Identity[:]), "a printed identity is parsed back to the same value")
		zkv.ObsStr("s", s)
	}
	zkv.Reach("end")
}

// ZkvH_Parse: exactly the texts of 64 hexadecimal digits are accepted, and
// with their value.
//
//zkv:prop I02
//zkv:opt w=2
func ZkvH_Parse() {
	// most of the text is fixed, a window of it is arbitrary
	var b []byte
	n := 0
	switch zkv.Choose("shape", 3) {
	case 0:
		n = 64
	case 1:
		n = zkv.Choose("short", zkv.Pick(6, 10))
	case 2:
		n = []int{62, 63, 65, 66, 128}[zkv.Choose("long", 5)]
	}
	for i := 0; i < n; i++ {
		b = append(b, "0123456789abcdefABCDEF"[i%22])
	}
	w := zkv.Pick(4, 6)
	if w > n {
		w = n
	}
	if n > 0 {
		at := 0
		if n > w {
			at = []int{0, 1, n/2 - 1, n - w}[zkv.Choose("at", 4)]
		}
		copy(b[at:at+w], zkv.Bytes("text", w))
	}
	good := n == 64
	for _, c := range b {
		good = zkv.And(good, zkHex(c))
	}
	id, err := String2ID(string(b))
	if zkv.Fork(good) {
		zkv.Assert(err == nil, "a well-formed identity is accepted")
		ok := true
		for i := range id {
			ok = zkv.And(ok, id[i] == zkVal(b[2*i])<<4|zkVal(b[2*i+1]))
		}
		zkv.Assert(ok, "a well-formed identity is parsed to its value")
		zkv.Reach("accepted")
	} else {
		zkv.Assert(err != nil, "a text that is not an identity is refused")
		zkv.Assert(id == nil, "nothing is returned for a text that is refused")
		zkv.Reach("refused")
	}
	zkv.ObsErr("err", err)
}
