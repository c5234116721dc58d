package session

import (
	"crypto/rand"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zkv"
	"golang.org/x/crypto/nacl/secretbox"
)

// zkSealed is a record that a peer who knows key k can send.
func zkSealed(data []byte, seq byte, k *[32]byte) []byte {
	var n [24]byte
	n[0] = seq
	p := secretbox.Seal(nil, data, &n, k)
	r := []byte{byte(len(p) >> 24), byte(len(p) >> 16), byte(len(p) >> 8), byte(len(p))}
	r = append(r, p...)
	for len(r)%4 != 0 {
		r = append(r, 0)
	}
	return r
}

// ZkvH_Sizes: a client that follows the protocol except for the size of one
// of its sealed messages.  Anyone can do that: the first message only needs
// the public key of the server.
//
//zkv:prop S01
func ZkvH_Sizes() {
	rp := zkNewPeer()
	ct, k1, err := sntrup4591761.Encapsulate(rand.Reader, &rp.pub)
	if err != nil {
		panic(err)
	}
	w := zkNewWorld()
	r := zkKX(w, 1, rp, nil)
	zkv.Assert(regenerateEphemeral() == nil, "making ephemeral keys works")
	in := append(append([]byte{}, ct[:]...), 0)
	stage := zkv.Choose("stage", 3)
	if stage == 0 { // the ephemeral key has the wrong size
		n := []int{0, 1, 32, sntrup4591761.PublicKeySize - 1, sntrup4591761.PublicKeySize + 1}[zkv.Choose("n", 5)]
		in = append(in, zkSealed(make([]byte, n), 0, k1)...)
	} else {
		ep := zkNewPeer()
		in = append(in, zkSealed(ep.pub[:], 0, k1)...)
		if stage == 2 { // the second ciphertext has the wrong size
			w.filter = func(w *zkWorld, s, k int, rec []byte) []byte {
				if s != 1 || k != 0 {
					return rec
				}
				var n [24]byte
				c2, ok := secretbox.Open(nil, rec[4:4+sntrup4591761.CiphertextSize+secretbox.Overhead], &n, k1)
				zkv.Assert(ok, "the client can read the server's ciphertext")
				var c [sntrup4591761.CiphertextSize]byte
				copy(c[:], c2)
				k2, good := sntrup4591761.Decapsulate(&c, &ep.priv)
				zkv.Assert(good == 1, "the client can open the server's ciphertext")
				l := []int{0, 1, 31, sntrup4591761.CiphertextSize - 1, sntrup4591761.CiphertextSize + 1}[zkv.Choose("n", 5)]
				w.in[1] = append(w.in[1], zkSealed(make([]byte, l), 1, k2)...)
				return rec
			}
		}
	}
	w.in[1] = in
	w.kxphase = false
	w.done[0] = true
	zkv.Assert(r.Respond() != nil, "a handshake with a message of the wrong size is refused")
	zkv.Reach("end")
}

// ZkvH_Proof: only the right proof is accepted.
//
//zkv:prop S01
func ZkvH_Proof() {
	w := zkNewWorld()
	w.kxphase = false
	w.done[0] = true
	p := zkNewPeer()
	a, b := zkKX(w, 0, p, nil), zkKX(w, 1, p, nil)
	var mk, mk2, ek [32]byte
	copy(mk[:], zkv.RandBytes(32))
	copy(mk2[:], zkv.RandBytes(32))
	copy(ek[:], zkv.RandBytes(32))
	p1, p2 := zkv.Bytes("p1", 2), zkv.Bytes("p2", 2)
	q1, q2 := p1, p2
	good := false
	var d []byte
	var err error
	switch zkv.Choose("how", 5) {
	case 0: // right
		good = true
		d, err = sendProof(a, &mk, &ek, p1, p2)
		zkv.Assert(err == nil, "sending a proof works")
	case 1: // another key
		_, err = sendProof(a, &mk2, &ek, p1, p2)
		zkv.Assert(err == nil, "sending a proof works")
	case 2: // other data
		q1, q2 = zkv.Bytes("q1", 2), zkv.Bytes("q2", 2)
		zkv.Assume(!zkv.BytesEq(p1, q1) || !zkv.BytesEq(p2, q2))
		_, err = sendProof(a, &mk, &ek, q1, q2)
		zkv.Assert(err == nil, "sending a proof works")
	case 3: // part of the proof
		d, err = sendProof(zkKX(zkNewWorld(), 0, p, nil), &mk, &ek, p1, p2)
		zkv.Assert(err == nil, "sending a proof works")
		n := []int{0, 1, 16, 31}[zkv.Choose("n", 4)]
		zkv.Assert(a.writeWithKey(d[:n], &ek) == nil, "writing works")
	case 4: // an altered proof
		d, err = sendProof(zkKX(zkNewWorld(), 0, p, nil), &mk, &ek, p1, p2)
		zkv.Assert(err == nil, "sending a proof works")
		x := zkv.U8("xor")
		zkv.Assume(x != 0)
		d[zkv.Range("pos", 0, 31)] ^= x
		zkv.Assert(a.writeWithKey(d, &ek) == nil, "writing works")
	}
	got, err := recvProof(b, &mk, &ek, p1, p2)
	zkv.ObsErr("err", err)
	if good {
		zkv.Assert(err == nil && zkv.BytesEq(got, d), "the right proof is accepted")
	} else {
		zkv.Assert(err != nil, "a wrong proof is refused")
	}
	zkv.Reach("end")
}
