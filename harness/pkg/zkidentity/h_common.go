package zkidentity

import (
	"github.com/companyzero/zkc/zkv"
)

// zkName returns a name: arbitrary ASCII, or one that needs more bytes.
func zkName(label string, max int) string {
	n := zkv.Choose(label+".len", max+2)
	if n == max+1 {
		return "\u00e9\u4e16"
	}
	b := zkv.Bytes(label, n)
	for _, c := range b {
		zkv.Assume(c < 0x80)
	}
	return string(b)
}

func zkNew(label string) *FullIdentity {
	fi, err := New(zkName(label+".name", 3), zkName(label+".nick", 2))
	zkv.Assert(err == nil, "an identity can be made")
	return fi
}

func zkSame(a, b *PublicIdentity) bool {
	r := zkv.And(zkv.BytesEq([]byte(a.Name), []byte(b.Name)), zkv.BytesEq([]byte(a.Nick), []byte(b.Nick)))
	r = zkv.And(r, zkv.And(zkv.BytesEq(a.SigKey[:], b.SigKey[:]), zkv.BytesEq(a.Key[:], b.Key[:])))
	r = zkv.And(r, zkv.And(zkv.BytesEq(a.Identity[:], b.Identity[:]), zkv.BytesEq(a.Digest[:], b.Digest[:])))
	return zkv.And(r, zkv.BytesEq(a.Signature[:], b.Signature[:]))
}
