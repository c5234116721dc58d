package session

import (
	"crypto/rand"

	"github.com/companyzero/zkc/zkv"
)

// zkAgree checks what holds after any handshake the initiator completed.
func zkAgree(erri, errr error, i, r *KX, ip, rp *zkPeer) {
	if erri != nil {
		return
	}
	zkv.Assert(errr == nil, "when the initiator completes, the responder has completed")
	zkv.Assert(zkv.BytesEq(i.writeKey[:], r.readKey[:]) && zkv.BytesEq(i.readKey[:], r.writeKey[:]), "both ends hold the same keys")
	zkv.Assert(!zkv.BytesEq(i.readKey[:], i.writeKey[:]), "the directions use different keys")
	zkv.Assert(zkv.BytesEq(r.TheirPublicKey[:], ip.pub[:]), "the responder knows who the initiator is")
	zkv.Assert(zkv.BytesEq(i.TheirPublicKey[:], rp.pub[:]), "the initiator knows who the responder is")
}

// ZkvH_Honest: no interference; the responder may rotate its ephemeral key at
// any moment.
//
//zkv:prop S01
func ZkvH_Honest() {
	ip, rp := zkNewPeer(), zkNewPeer()
	w := zkNewWorld()
	i, r := zkKX(w, 0, ip, rp), zkKX(w, 1, rp, nil)
	at := zkv.Choose("rotate", 20)
	n := 0
	w.onYield = func(w *zkWorld, side int) {
		if side == 1 {
			n++
			if n == at {
				zkv.Assert(regenerateEphemeral() == nil, "making ephemeral keys works")
			}
		}
	}
	w.onWrite = w.onYield
	erri, errr := w.shake(i, r)
	zkv.Assert(erri == nil && errr == nil, "an undisturbed handshake completes")
	zkAgree(erri, errr, i, r, ip, rp)
	zero := true
	for _, b := range w.epriv[0] {
		zero = zkv.And(zero, b == 0)
	}
	zkv.Assert(zero, "the initiator erases its ephemeral private key")
	zkTalk(w, i, r)
	zkTalk(w, r, i)
	zkv.Reach("end")
}

// ZkvH_Tamper: the network changes one record of the handshake.
//
//zkv:prop S01
//zkv:opt w=3
func ZkvH_Tamper() {
	ip, rp := zkNewPeer(), zkNewPeer()
	// an earlier handshake of the same two, for the attacker to draw on
	w0 := zkNewWorld()
	i0, r0 := zkKX(w0, 0, ip, rp), zkKX(w0, 1, rp, nil)
	e0, e1 := w0.shake(i0, r0)
	zkv.Assert(e0 == nil && e1 == nil, "an undisturbed handshake completes")

	w := zkNewWorld()
	i, r := zkKX(w, 0, ip, rp), zkKX(w, 1, rp, nil)
	dir := zkv.Choose("dir", 2)
	at := zkv.Choose("record", 5)
	how := zkv.Choose("how", 7)
	x := zkv.U8("xor")
	zkv.Assume(x != 0)
	hit := false
	w.filter = func(w *zkWorld, s, k int, rec []byte) []byte {
		if s != dir || k != at || hit {
			return rec
		}
		hit = true
		body := len(rec)
		if !(s == 0 && k == 0) {
			body = int(rec[2])<<8 | int(rec[3])
			body += 4
		} else {
			body = 1047
		}
		switch how {
		case 0: // alter one byte
			pos := []int{0, 1, 2, 3, 4, 5, 19, 20, 21, 35, 36, 52, 500, 1046, 1047, 1218, 1237, body - 1}
			p := pos[zkv.Choose("pos", len(pos))]
			zkv.Assume(p < body)
			if (p == 2 || p == 3) && !(s == 0 && k == 0) {
				x = []byte{1, 2, 4, 8, 0x40, 0x80}[zkv.Choose("lenbit", 6)]
			}
			rec[p] ^= x
		case 1: // cut the connection within it
			cut := []int{0, 1, 4, 5, 19, 20, 36, body - 1}
			n := cut[zkv.Choose("cut", len(cut))]
			zkv.Assume(n < body)
			w.closed[1-s] = true
			w.in[1-s] = append(w.in[1-s], rec[:n]...)
			return nil
		case 2: // drop it
			return nil
		case 3: // deliver it twice
			zkv.Assume(k < 4)
			if s == 0 && k == 0 {
				return append(append(append([]byte{}, rec...), 0, 0, 4, 0x17), rec...)
			}
			return append(append([]byte{}, rec...), rec...)
		case 4: // the record of the earlier handshake instead
			return append([]byte{}, w0.recs[s][k]...)
		case 5: // another record of this handshake instead
			d := zkv.Choose("fromdir", 2)
			zkv.Assume(len(w.recs[d]) > 0)
			o := zkv.Choose("from", len(w.recs[d]))
			zkv.Assume(d != s || o != k)
			if d == 0 && o == 0 { // a raw ciphertext, as a record
				return append([]byte{0, 0, 4, 0x17}, w.recs[0][0]...)
			}
			return append([]byte{}, w.recs[d][o]...)
		case 6: // made-up bytes before it
			if s == 0 && k == 0 {
				m := zkv.Bytes("made", 20)
				zkv.Assume(!zkv.BytesEq(append(append([]byte{}, m...), rec...)[:1047], rec[:1047]))
				return append(m, rec...)
			}
			n := []int{0, 3, 15, 16, 17, 40}[zkv.Choose("n", 6)]
			m := append([]byte{0, 0, 0, byte(n)}, zkv.Bytes("made", (n+3)&^3)...)
			if k2 := k; n == len(rec)-4 {
				zkv.Assume(!zkv.BytesEq(m[4:4+n], w.recs[s][k2][4:]))
			}
			return append(m, rec...)
		}
		return rec
	}
	erri, errr := w.shake(i, r)
	zkv.Assert(hit, "every record is sent")
	zkv.ObsErr("erri", erri)
	zkv.ObsErr("errr", errr)
	if dir == 0 {
		zkv.Assert(errr != nil, "the responder notices a tampered handshake")
	} else {
		zkv.Assert(erri != nil, "the initiator notices a tampered handshake")
	}
	zkAgree(erri, errr, i, r, ip, rp)
	zkv.Reach("end")
}

// ZkvH_WrongPeer: a peer that does not have the key it should have.
//
//zkv:prop S01
func ZkvH_WrongPeer() {
	ip, rp, xp := zkNewPeer(), zkNewPeer(), zkNewPeer()
	w := zkNewWorld()
	i, r := zkKX(w, 0, ip, rp), zkKX(w, 1, rp, nil)
	how := zkv.Choose("how", 6)
	switch how {
	case 0: // another responder
		r.OurPublicKey, r.OurPrivateKey = &xp.pub, &xp.priv
	case 1: // a responder that only knows the public key
		r.OurPrivateKey = &xp.priv
	case 2: // a responder that claims another public key
		r.OurPublicKey = &xp.pub
	case 3: // an initiator that only knows the public key
		i.OurPrivateKey = &xp.priv
	case 4: // an initiator that claims another public key
		i.OurPublicKey = &xp.pub
	case 5: // an initiator that changes its mind after sending its key
		mine := *ip
		i.OurPublicKey = &mine.pub
		w.filter = func(w *zkWorld, s, k int, rec []byte) []byte {
			if s == 0 && k == 3 {
				*i.OurPublicKey = xp.pub
			}
			return rec
		}
	}
	erri, errr := w.shake(i, r)
	zkv.Assert(erri != nil, "no session with a peer that lacks the expected key")
	if how == 5 {
		zkv.Assert(errr != nil, "the responder does not accept an identity without its proof")
	}
	if errr == nil {
		// whatever the initiator sends now is noise to the responder
		w.in[1] = nil
		zkv.Assert(i.writeKey == nil, "an initiator without the key has no session key")
	}
	zkv.Reach("end")
}

// ZkvH_Shares: each of the four shared secrets decides the session keys, so
// nobody who lacks one of the private keys can know them.
//
//zkv:prop S01
func ZkvH_Shares() {
	ip, rp := zkNewPeer(), zkNewPeer()
	which := zkv.Choose("share", 4)
	// what was drawn from the random source in each phase of the first run
	var tape [6][][]byte
	var n [6]int
	var w *zkWorld
	rerun := false
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = zkReader(func(b []byte) (int, error) {
		ph := 5
		if zkv.Fork(!zkv.BytesEq(ephemeralPublic[:32], make([]byte, 32))) {
			switch {
			case len(w.recs[0]) == 0:
				ph = 0
			case len(w.recs[1]) == 0:
				ph = 1
			case len(w.recs[0]) < 5:
				ph = 2
			default:
				ph = 3
			}
		}
		k := n[ph]
		n[ph]++
		if rerun && ph != which && k < len(tape[ph]) && len(tape[ph][k]) == len(b) {
			copy(b, tape[ph][k])
			return len(b), nil
		}
		m, err := old.Read(b)
		if !rerun {
			tape[ph] = append(tape[ph], append([]byte{}, b...))
		}
		return m, err
	})
	var rk, wk [2][]byte
	for j := 0; j < 2; j++ {
		n = [6]int{}
		rerun = j == 1
		w = zkNewWorld()
		i, r := zkKX(w, 0, ip, rp), zkKX(w, 1, rp, nil)
		erri, errr := w.shake(i, r)
		zkv.Assert(erri == nil && errr == nil, "an undisturbed handshake completes")
		rk[j], wk[j] = i.readKey[:], i.writeKey[:]
	}
	zkv.Assert(!zkv.BytesEq(rk[0], rk[1]) && !zkv.BytesEq(wk[0], wk[1]), "every shared secret of the handshake decides the session keys")
	zkv.Reach("end")
}

type zkReader func(b []byte) (int, error)

func (f zkReader) Read(b []byte) (int, error) { return f(b) }
