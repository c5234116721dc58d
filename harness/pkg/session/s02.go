package session

import "github.com/companyzero/zkc/zkv"

// ZkvH_InOrder: any interleaving of writes and reads of both ends.
//
//zkv:prop S02
func ZkvH_InOrder() {
	w, kx := zkSession()
	var q [2][][]byte // written by i and not yet read
	var bs []zkBox
	steps := zkv.Pick(5, 7)
	for s := 0; s < steps; s++ {
		i := zkv.Choose("side", 2)
		if zkv.Choose("op", 2) == 0 {
			m := zkv.Bytes("msg", []int{32, 0, 1, 5}[zkv.Choose("len", zkv.Pick(2, 4))])
			zkv.Assert(kx[i].Write(append([]byte{}, m...)) == nil, "writing works")
			q[i] = append(q[i], m)
			bs = append(bs, w.zkLast(i, m))
			continue
		}
		zkv.Assume(len(q[1-i]) > 0)
		got, err := kx[i].Read()
		zkv.Assert(err == nil, "the peer can read what was written")
		zkv.ObsBytes("got", got)
		zkv.Assert(len(got) == len(q[1-i][0]) && zkv.BytesEq(got, q[1-i][0]), "messages arrive unchanged and in order")
		q[1-i] = q[1-i][1:]
	}
	for i := range q {
		for _, m := range q[i] {
			got, err := kx[1-i].Read()
			zkv.Assert(err == nil && len(got) == len(m) && zkv.BytesEq(got, m), "messages arrive unchanged and in order")
		}
		zkv.Assert(len(w.in[1-i]) == 0, "nothing else is sent")
	}
	zkNonces(bs)
	zkv.Reach("end")
}

// ZkvH_Tampered: one record of the stream is changed by the network.
//
//zkv:prop S02
//zkv:opt w=2
func ZkvH_Tampered() {
	w, kx := zkSession()
	// some ordinary traffic first
	for n := zkv.Choose("before", 3); n > 0; n-- {
		zkTalk(w, kx[n&1], kx[1-n&1])
	}
	w.recs = [2][][]byte{}
	s := zkv.Choose("dir", 2)
	var m [3][]byte
	for j := range m {
		m[j] = zkv.Bytes("msg", 3)
		zkv.Assert(kx[s].Write(append([]byte{}, m[j]...)) == nil, "writing works")
	}
	o := zkv.Bytes("other", 3)
	zkv.Assert(kx[1-s].Write(append([]byte{}, o...)) == nil, "writing works")
	at := zkv.Choose("record", 3)
	rec := append([]byte{}, w.recs[s][at]...)
	body := 4 + 3 + 16
	cut := -1
	var bad []byte
	switch zkv.Choose("how", 7) {
	case 0:
		p := zkv.Choose("pos", body)
		x := zkv.U8("xor")
		zkv.Assume(x != 0)
		if p == 3 {
			x = 1 << zkv.Choose("bit", 8)
		}
		rec[p] ^= x
		bad = rec
	case 1: // cut within it
		cut = zkv.Choose("cut", body)
		bad = rec[:cut]
	case 2: // dropped
		zkv.Assume(at < 2)
	case 3: // a record of the same direction instead
		d := zkv.Choose("other", 3)
		zkv.Assume(d != at)
		bad = w.recs[s][d]
	case 4: // reflected
		bad = w.recs[1-s][0]
	case 5: // delivered twice
		zkv.Assume(at < 2)
		bad = append(append([]byte{}, rec...), rec...)
	case 6: // made up
		n := []int{0, 3, 15, 16, 19, 20}[zkv.Choose("n", 6)]
		bad = append([]byte{0, 0, 0, byte(n)}, zkv.Bytes("made", (n+3)&^3)...)
		if n == 19 {
			zkv.Assume(!zkv.BytesEq(bad[4:23], rec[4:23]))
		}
	}
	in := []byte{}
	for j := 0; j < 3; j++ {
		if j == at {
			in = append(in, bad...)
			if cut >= 0 {
				break
			}
			continue
		}
		in = append(in, w.recs[s][j]...)
	}
	w.in[1-s] = in
	failed := false
	for j := 0; j < 4; j++ {
		got, err := kx[1-s].Read()
		if err != nil {
			failed = true
			break
		}
		zkv.Assert(j < 3 && len(got) == len(m[j]) && zkv.BytesEq(got, m[j]), "a read returns the next message of the peer or fails")
		zkv.Assert(j <= at, "a read beyond a manipulated record fails")
	}
	zkv.Assert(failed, "a manipulated stream makes a read fail")
	// the other direction is not affected
	got, err := kx[s].Read()
	zkv.Assert(err == nil && zkv.BytesEq(got, o), "the other direction still works")
	zkv.Reach("end")
}
