package session

import "github.com/companyzero/zkc/zkv"

// ZkvH_Counters: any value of the 64-bit record counter.
//
//zkv:prop S02
func ZkvH_Counters() {
	_, kx := zkSession()
	s := zkv.Choose("dir", 2)
	c := zkv.Bytes("counter", 8)
	full := true
	for _, b := range c {
		full = zkv.And(full, b >= 0xfe)
	}
	zkv.Assume(!full) // the counter does not wrap within the run
	// high bytes concrete or symbolic: carries from any byte into the next
	copy(kx[s].writeSeq[:], c)
	copy(kx[1-s].readSeq[:], c)
	last := zkCount(kx[s].writeSeq[:])
	for j := 0; j < 2; j++ {
		m := zkv.Bytes("msg", 2)
		zkv.Assert(kx[s].Write(append([]byte{}, m...)) == nil, "writing works")
		got, err := kx[1-s].Read()
		zkv.Assert(err == nil && zkv.BytesEq(got, m), "messages arrive unchanged and in order")
		now := zkCount(kx[s].writeSeq[:])
		zkv.Assert(now > last, "the record counter never returns to an earlier value")
		last = now
	}
	zkv.Reach("end")
}

// ZkvH_Broken: one write to the connection fails, and more is written after.
//
//zkv:prop S02
func ZkvH_Broken() {
	w, kx := zkSession()
	s := zkv.Choose("dir", 2)
	w.failAt[s] = 1 + zkv.Choose("fails", 9)
	w.failPart = [3]int{0, 3, 100}[zkv.Choose("sent", 3)]
	var bs []zkBox
	var ms [][]byte
	for j := 0; j < 4; j++ {
		m := append([]byte{byte('a' + j)}, "0123456789abcdef"[:16-j]...)
		ms = append(ms, m)
		w.tried[s] = nil
		err := kx[s].Write(append([]byte{}, m...))
		t := w.tried[s]
		zkv.Assert(err != nil || len(t) >= 4+len(m)+16, "a message that was written was sent")
		if len(t) >= 4+len(m)+16 {
			bs = append(bs, zkBox{append([]byte{}, t[4:4+len(m)+16]...), m})
		}
	}
	zkNonces(bs)
	// what is read is what was written
	at := 0
	for j := 0; j < 4; j++ {
		got, err := kx[1-s].Read()
		if err != nil {
			break
		}
		for at < 4 && !(len(got) == len(ms[at]) && zkv.BytesEq(got, ms[at])) {
			at++
		}
		zkv.Assert(at < 4, "a read returns the next message of the peer or fails")
		at++
	}
	zkv.Reach("end")
}

func zkCount(b []byte) (v uint64) {
	for k := 7; k >= 0; k-- {
		v = v<<8 | uint64(b[k])
	}
	return
}
