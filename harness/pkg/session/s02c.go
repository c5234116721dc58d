package session

import (
	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zkv"
	"golang.org/x/crypto/nacl/secretbox"
)

// ZkvH_ShakeNonces: the sealed messages of the handshake.
//
//zkv:prop S02
func ZkvH_ShakeNonces() {
	ip, rp := zkNewPeer(), zkNewPeer()
	w := zkNewWorld()
	i, r := zkKX(w, 0, ip, rp), zkKX(w, 1, rp, nil)
	var esk [2][sntrup4591761.PrivateKeySize]byte
	w.filter = func(w *zkWorld, s, k int, rec []byte) []byte {
		if s == 0 && k == 1 {
			esk[0] = ephemeralPrivate
		}
		return rec
	}
	erri, errr := w.shake(i, r)
	zkv.Assert(erri == nil && errr == nil, "an undisturbed handshake completes")
	esk[1] = w.epriv[1]
	var keys []*[32]byte
	take := func(c []byte, sk *[sntrup4591761.PrivateKeySize]byte) {
		var ct [sntrup4591761.CiphertextSize]byte
		copy(ct[:], c)
		if k, ok := sntrup4591761.Decapsulate(&ct, sk); ok == 1 {
			keys = append(keys, k)
		}
	}
	take(w.recs[0][0], &rp.priv)
	var bs []zkBox
	for _, at := range [][2]int{{0, 1}, {1, 0}, {1, 1}, {1, 2}, {0, 2}, {0, 3}, {0, 4}, {1, 3}, {1, 4}} {
		rec := w.recs[at[0]][at[1]]
		n := int(rec[2])<<8 | int(rec[3])
		found := false
		for _, k := range keys {
			for seq := byte(0); seq < 8 && !found; seq++ {
				var nonce [24]byte
				nonce[0] = seq
				if pt, ok := secretbox.Open(nil, rec[4:4+n], &nonce, k); ok {
					found = true
					bs = append(bs, zkBox{rec[4 : 4+n], pt})
					if len(pt) == sntrup4591761.CiphertextSize {
						take(pt, &esk[0])
						take(pt, &esk[1])
						take(pt, &ip.priv)
					}
				}
			}
		}
		if !found {
			// a handshake of another form
			zkv.Stop()
		}
	}
	// the pairs of the recorded finding, checked last
	known := func(a, b int) bool {
		for _, p := range [][2]int{{0, 1}, {2, 4}, {6, 7}} {
			if b == p[0] && a == p[1] {
				return true
			}
		}
		return false
	}
	for _, k := range []bool{false, true} {
		for a := range bs {
			for b := range bs[:a] {
				if known(a, b) == k {
					zkv.AssertK(!zkSame(bs[a], bs[b]), k, "handshake-nonce", "no two records are sealed with the same key and nonce")
				}
			}
		}
	}
	zkv.Reach("end")
}
