package ratchet

import (
	"time"

	"github.com/companyzero/zkc/zkv"
	zktime "github.com/companyzero/zkc/zkv/zktime"
)

// ZkvH_Restore: save and restore of a side at arbitrary points of a history.
//zkv:prop R03
//zkv:opt w=3
func ZkvH_Restore() {
	c := zkPair()
	steps := zkv.Pick(5, 7)
	saves := 0
	for i := 0; i < steps; i++ {
		p := c.pending()
		k := zkv.Choose("op", len(p)+4)
		switch {
		case k < 2:
			zkv.Assume(len(c.msgs) < 4)
			c.send(k, zkv.Bytes("pt", 2))
		case k < 4:
			zkv.Assume(saves < zkv.Pick(1, 2))
			saves++
			before := c.state(k - 2)
			c.restore(k-2, zkEpoch, 1000*time.Hour)
			zkv.Assert(zkSame(before, c.state(k-2)), "a restored ratchet has the state that was saved")
		default:
			c.deliver(p[k-4])
		}
	}
	zkv.Assume(saves > 0)
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.Reach("end")
}

// ZkvH_Expire: only keys whose lifetime has passed are dropped.
//zkv:prop R03
func ZkvH_Expire() {
	c := zkPair()
	who := zkv.Choose("who", 2)
	v := 1 - who
	base := zkEpoch
	// seconds; the interesting cases are just before, at and just after the
	// end of the lifetime of the older and of the newer key
	life := []int{0, 1, 60, 86400}[zkv.Choose("life", 4)]
	t1 := []int{0, 5}[zkv.Choose("t1", 2)]
	t2 := t1 + []int{0, 1, 3}[zkv.Choose("t2", 3)]
	t3 := t1 + life + zkv.Choose("t3", 7) - 1
	zkv.Assume(t3 >= t2)
	c.send(who, []byte{1})
	m2 := c.send(who, []byte{2})
	c.send(who, []byte{3})
	m4 := c.send(who, []byte{4})
	c.r[v].Now = func() time.Time { return time.Unix(base.Unix()+int64(t1), 0) }
	c.deliver(m2)
	c.r[v].Now = func() time.Time { return time.Unix(base.Unix()+int64(t2), 0) }
	c.deliver(m4)
	if zkv.Bool("restored before") {
		// saving and restoring does not make a key younger
		mid := t2 + (t3-t2)/2
		if mid-t1 <= life {
			zktime.Clock = (base.Unix() + int64(mid)) * 1e9
			c.restore(v, time.Unix(base.Unix()+int64(mid), 0), time.Duration(life)*time.Second)
		}
	}
	c.restore(v, time.Unix(base.Unix()+int64(t3), 0), time.Duration(life)*time.Second)
	for i, t := range []int{t1, t2} {
		m := c.msgs[2*i]
		got, err := c.r[v].Decrypt(append([]byte{}, m.ct...))
		if zkv.Fork(t3-t <= life) {
			zkv.Assert(err == nil, "a key within its lifetime survives saving")
			zkv.Assert(zkv.BytesEq(got, m.pt), "the late message is decrypted")
			zkv.Reach("kept")
		} else {
			zkv.Assert(err != nil, "a key beyond its lifetime is dropped")
			zkv.Reach("dropped")
		}
		m.done = true
	}
	c.deliver(c.send(who, []byte{5}))
	c.deliver(c.send(v, []byte{6}))
	c.deliver(c.send(who, []byte{7}))
}

// ZkvH_RestoreKX: a ratchet saved in the middle of the key exchange completes
// it after being restored.
//zkv:prop R03
func ZkvH_RestoreKX() {
	c := &zkConvo{rd: new(zkNonce)}
	c.u[0], c.u[1] = zkNewUser(), zkNewUser()
	c.r[0] = zkSide(c.u[0], c.u[1], c.rd)
	c.r[1] = zkSide(c.u[1], c.u[0], c.rd)
	at := zkv.Choose("at", 5)
	who := zkv.Choose("who", 2)
	sv := func(k int) {
		if at == k {
			before := c.state(who)
			c.restore(who, zkEpoch, time.Hour)
			zkv.Assert(zkSame(before, c.state(who)), "a restored ratchet has the state that was saved")
		}
	}
	kx0, kx1 := new(KeyExchange), new(KeyExchange)
	sv(0)
	zkv.Assert(c.r[0].FillKeyExchange(kx0) == nil, "honest key exchange works")
	sv(1)
	zkv.Assert(c.r[1].FillKeyExchange(kx1) == nil, "honest key exchange works")
	sv(2)
	zkv.Assert(c.r[0].CompleteKeyExchange(kx1, false) == nil, "key exchange works after a restore")
	sv(3)
	zkv.Assert(c.r[1].CompleteKeyExchange(kx0, true) == nil, "key exchange works after a restore")
	sv(4)
	f := zkv.Choose("first", 2)
	c.deliver(c.send(f, zkv.Bytes("pt", 2)))
	c.deliver(c.send(1-f, zkv.Bytes("pt", 2)))
	c.finish(false)
	zkv.Reach("end")
}
