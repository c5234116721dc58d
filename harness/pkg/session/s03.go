package session

import "github.com/companyzero/zkc/zkv"

// ZkvH_Refused: writes of sizes around the limit at any point of a history.
//
//zkv:prop S03
func ZkvH_Refused() {
	w, kx := zkSession()
	max := 64
	kx[0].MaxMessageSize, kx[1].MaxMessageSize = uint(max), uint(max)
	var q [2][][]byte
	steps := zkv.Pick(3, 5)
	refused := false
	for s := 0; s < steps; s++ {
		i := zkv.Choose("side", 2)
		n := []int{1, max - 17, max - 16, max - 15, max, max + 1, 1000}[zkv.Choose("len", 7)]
		m := make([]byte, n)
		copy(m, zkv.Bytes("msg", 1))
		before := len(w.in[1-i])
		err := kx[i].Write(append([]byte{}, m...))
		zkv.ObsErr("write", err)
		if err != nil {
			refused = true
			zkv.Assert(len(w.in[1-i]) == before, "a refused write sends nothing")
			zkv.Assert(n+16 > max, "only a message that is too large is refused")
		} else {
			q[i] = append(q[i], m)
		}
		if zkv.Tier() > 0 && zkv.Choose("read", 2) == 1 {
			zkRead(kx, &q)
		}
	}
	zkRead(kx, &q)
	zkTalk(w, kx[0], kx[1])
	zkv.Assume(refused)
	zkv.Reach("end")
}

func zkRead(kx [2]*KX, q *[2][][]byte) {
	for i := range q {
		for _, m := range q[i] {
			got, err := kx[1-i].Read()
			zkv.Assert(err == nil, "what a write accepted can be read by the peer")
			zkv.Assert(len(got) == len(m) && zkv.BytesEq(got, m), "messages arrive unchanged and in order")
		}
		q[i] = nil
	}
}
