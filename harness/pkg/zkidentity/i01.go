package zkidentity

import (
	"crypto/sha256"

	"github.com/companyzero/zkc/zkv"
	"golang.org/x/crypto/ed25519"
)

// ZkvH_Honest: an identity its owner made verifies, has the handle of its key
// and survives encoding; a renamed one verifies after RecalculateDigest.
//
//zkv:prop I01
func ZkvH_Honest() {
	fi := zkNew("a")
	if zkv.Choose("rename", 2) == 1 {
		fi.Public.Name, fi.Public.Nick = zkName("name2", 2), zkName("nick2", 2)
		zkv.Assert(fi.RecalculateDigest() == nil, "a changed identity can be signed again")
	}
	zkv.Assert(fi.Public.Verify(), "an honest identity verifies")
	zkv.Assert(fi.Public.Identity == sha256.Sum256(fi.Public.Key[:]), "the handle belongs to the key")
	b, err := fi.Public.Marshal()
	zkv.Assert(err == nil, "an identity can be encoded")
	p, err := UnmarshalPublicIdentity(b)
	zkv.Assert(err == nil, "an encoded identity can be decoded")
	zkv.Assert(zkSame(p, &fi.Public), "a public identity survives encoding")
	b, err = fi.Marshal()
	zkv.Assert(err == nil, "an identity can be encoded")
	f, err := UnmarshalFullIdentity(b)
	zkv.Assert(err == nil, "an encoded identity can be decoded")
	zkv.Assert(zkSame(&f.Public, &fi.Public), "a full identity survives encoding")
	zkv.Assert(zkv.And(zkv.BytesEq(f.PrivateKey[:], fi.PrivateKey[:]), zkv.BytesEq(f.PrivateSigKey[:], fi.PrivateSigKey[:])), "private keys survive encoding")
	zkv.ObsBytes("id", f.Public.Identity[:])
	zkv.Reach("end")
}

// ZkvH_Alter: one altered byte anywhere makes an identity invalid, both
// directly and in its encoding.
//
//zkv:prop I01
func ZkvH_Alter() {
	fi := zkNew("a")
	q := fi.Public
	x := zkv.U8("xor")
	zkv.Assume(x != 0)
	flip := func(s string) string {
		zkv.Assume(len(s) > 0)
		b := []byte(s)
		b[zkv.Choose("pos", len(b))] ^= x
		return string(b)
	}
	switch zkv.Choose("field", 7) {
	case 0:
		q.Name = flip(q.Name)
	case 1:
		q.Nick = flip(q.Nick)
	case 2:
		q.SigKey[zkv.Choose("pos", len(q.SigKey))] ^= x
	case 3:
		pos := []int{0, 1, 31, 32, 33, 600, 1216, 1217}
		if zkv.Tier() == 1 {
			pos = nil
			for i := 0; i < 250; i++ {
				pos = append(pos, i*1217/249)
			}
		}
		q.Key[pos[zkv.Choose("pos", len(pos))]] ^= x
	case 4:
		q.Identity[zkv.Choose("pos", len(q.Identity))] ^= x
	case 5:
		q.Digest[zkv.Choose("pos", len(q.Digest))] ^= x
	case 6:
		q.Signature[zkv.Choose("pos", len(q.Signature))] ^= x
	}
	zkv.Assert(!q.Verify(), "an altered identity does not verify")
	b, err := q.Marshal()
	zkv.Assert(err == nil, "an identity can be encoded")
	_, err = UnmarshalPublicIdentity(b)
	zkv.Assert(err != nil, "an altered identity is rejected when decoded")
	zkv.Reach("end")
}

// ZkvH_Forge: somebody who holds other keys, and genuine identities of the
// victim, presents a mixture of them with arbitrary values; what verifies is
// the victim's own or carries the key its handle belongs to.
//
//zkv:prop I01
//zkv:opt w=2
func ZkvH_Forge() {
	v, err := New(zkv.Str("victim", 2), "vn")
	zkv.Assert(err == nil, "an identity can be made")
	m, err := New("m", "n")
	zkv.Assert(err == nil, "an identity can be made")
	q := v.Public
	if zkv.Choose("names", 2) == 1 {
		n := zkv.Pick(3, 5)
		q.Name = zkv.Str("qname", 1+zkv.Choose("qname.len", n))
		q.Nick = zkv.Str("qnick", zkv.Choose("qnick.len", n+1))
	}
	key := zkv.Choose("key", 3)
	switch key {
	case 1:
		q.Key = m.Public.Key
	case 2:
		copy(q.Key[:], zkv.Bytes("key", 4))
	}
	switch zkv.Choose("identity", 3) {
	case 1:
		q.Identity = sha256.Sum256(q.Key[:])
	case 2:
		copy(q.Identity[:], zkv.Bytes("identity", 4))
	}
	own := zkv.Choose("sigkey", 2) == 1
	if own {
		q.SigKey = m.Public.SigKey
	}
	switch zkv.Choose("digest", 3) {
	case 1: // as it is computed
		d := sha256.New()
		d.Write([]byte(q.Name))
		d.Write([]byte(q.Nick))
		d.Write(q.SigKey[:])
		d.Write(q.Key[:])
		d.Write(q.Identity[:])
		copy(q.Digest[:], d.Sum(nil))
	case 2:
		copy(q.Digest[:], zkv.Bytes("digest", 4))
	}
	switch zkv.Choose("signature", 3) {
	case 1:
		copy(q.Signature[:], ed25519.Sign(m.PrivateSigKey[:], q.Digest[:]))
	case 2:
		copy(q.Signature[:], zkv.Bytes("signature", 4))
	}
	if q.Verify() {
		zkv.Assert(q.Identity == sha256.Sum256(q.Key[:]), "the handle of an identity that verifies belongs to its key")
		if !own {
			shift := zkv.And(q.Name+q.Nick == v.Public.Name+v.Public.Nick, q.Name != v.Public.Name)
			zkv.AssertK(zkSame(&q, &v.Public), shift, "name-nick-boundary", "only the owner's own identity verifies under its key")
		}
		zkv.Reach("verifies")
	}
	zkv.Reach("end")
}

// ZkvH_Sign: a signed message verifies under the signer's key alone.
//
//zkv:prop I01
func ZkvH_Sign() {
	a, err := New("a", "x")
	zkv.Assert(err == nil, "an identity can be made")
	b, err := New("b", "y")
	zkv.Assert(err == nil, "an identity can be made")
	msg := zkv.BytesUpTo("msg", 4)
	sig := a.SignMessage(msg)
	zkv.Assert(a.Public.VerifyMessage(msg, sig), "a signed message verifies")
	zkv.Assert(!b.Public.VerifyMessage(msg, sig), "a signed message verifies under no other key")
	other := zkv.BytesUpTo("other", 4)
	zkv.Assert(zkv.Implies(a.Public.VerifyMessage(other, sig), zkv.BytesEq(other, msg)), "a signature fits one message")
	if len(other) > 0 {
		zkv.Stop()
	}
	x := zkv.U8("xor")
	zkv.Assume(x != 0)
	sig[zkv.Choose("pos", len(sig))] ^= x
	zkv.Assert(!a.Public.VerifyMessage(msg, sig), "an altered signature does not verify")
	zkv.Reach("end")
}
