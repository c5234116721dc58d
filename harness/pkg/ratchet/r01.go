package ratchet

import "github.com/companyzero/zkc/zkv"

// ZkvH_Any: arbitrary histories of sends by both sides and deliveries in any
// order; what is still under way at the end is delivered late.
//zkv:prop R01
//zkv:opt w=4
func ZkvH_Any() {
	c := zkPair()
	steps := zkv.Pick(6, 8)
	max := zkv.Pick(5, 6)
	for i := 0; i < steps; i++ {
		p := c.pending()
		n := len(p)
		k := zkv.Choose("op", n+2)
		if k < 2 {
			zkv.Assume(len(c.msgs) < max)
			c.send(k, zkv.Bytes("pt", 2))
			continue
		}
		c.deliver(p[k-2])
	}
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.ObsInt("n", int64(len(c.msgs)))
	zkv.Reach("end")
}

// ZkvH_Turns: alternating bursts, each burst delivered only in part and in any
// order; the rest comes late.
//zkv:prop R01
//zkv:opt w=4
func ZkvH_Turns() {
	c := zkPair()
	rounds := zkv.Pick(3, 4)
	who := zkv.Choose("first", 2)
	for i := 0; i < rounds; i++ {
		n := 1 + zkv.Choose("burst", 2)
		for k := 0; k < n; k++ {
			c.send(who, zkv.Bytes("pt", 1))
		}
		// deliver some of what the other side has coming
		for k := 0; k < 2; k++ {
			var p []*zkMsg
			for _, m := range c.pending() {
				if m.to == 1-who {
					p = append(p, m)
				}
			}
			d := zkv.Choose("del", len(p)+1)
			if d > 0 {
				c.deliver(p[d-1])
			}
		}
		who = 1 - who
	}
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.Reach("end")
}

// ZkvH_Empty: messages of every small size, the empty one included, some late.
//zkv:prop R01
func ZkvH_Empty() {
	c := zkPair()
	who := zkv.Choose("first", 2)
	n := zkv.Pick(2, 3)
	for k := 0; k < n; k++ {
		c.send(who, zkv.BytesUpTo("pt", 2))
	}
	for len(c.pending()) > 0 {
		p := c.pending()
		c.deliver(p[zkv.Choose("del", len(p))])
	}
	c.send(1-who, zkv.BytesUpTo("pt", 2))
	c.send(1-who, zkv.BytesUpTo("pt", 2))
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.Reach("end")
}

// ZkvH_Skip: one long burst of which the message at an arbitrary place comes
// first: it is accepted exactly when no more than 80 before it are missing,
// and then the missing ones are, too.
//zkv:prop R01
//zkv:opt steps=20000000
func ZkvH_Skip() {
	c := zkPair()
	who := zkv.Choose("first", 2)
	// optionally start inside a later chain
	if zkv.Choose("later", 2) == 1 {
		c.deliver(c.send(1-who, []byte{1}))
		c.deliver(c.send(who, []byte{1}))
		c.deliver(c.send(1-who, []byte{1}))
	}
	base := len(c.msgs)
	for k := 0; k < 84; k++ {
		c.send(who, []byte{byte(k)})
	}
	lo := 78
	at := lo + zkv.Choose("at", 6)
	m := c.msgs[base+at]
	got, err := c.r[m.to].Decrypt(append([]byte{}, m.ct...))
	if at > 80 {
		// beyond the tolerance: refused, and nothing is lost
		zkv.Assert(err != nil, "more than 80 skipped messages are refused")
		c.deliver(c.msgs[base])
		c.deliver(c.msgs[base+80])
		zkv.Reach("beyond")
		return
	}
	zkv.Assert(err == nil && zkv.BytesEq(got, m.pt), "80 skipped messages are tolerated")
	m.done = true
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.Reach("end")
}

// ZkvH_SkipOld: messages skipped at the end of one chain, learned from the
// first message of the next one.
//zkv:prop R01
//zkv:opt steps=20000000
func ZkvH_SkipOld() {
	c := zkPair()
	// both sides have a running chain
	c.deliver(c.send(0, []byte{1}))
	c.deliver(c.send(1, []byte{1}))
	c.deliver(c.send(0, []byte{1}))
	who := zkv.Choose("who", 2)
	if who == 1 {
		c.deliver(c.send(1, []byte{1}))
		c.deliver(c.send(0, []byte{1}))
	}
	// a burst of which only one arrives, an answer, and then the next chain
	n := zkv.Pick(3, 5)
	first := len(c.msgs)
	for k := 0; k < n; k++ {
		c.send(who, []byte{byte(k)})
	}
	d := zkv.Choose("seen", n+1)
	if d < n {
		c.deliver(c.msgs[first+d])
	}
	c.deliver(c.send(1-who, []byte{9}))
	k2 := zkv.Pick(2, 3)
	second := len(c.msgs)
	for k := 0; k < k2; k++ {
		c.send(who, []byte{byte(16 + k)})
	}
	c.deliver(c.msgs[second+zkv.Choose("second", k2)])
	// now everything else, in any order of the first few
	for i := 0; i < 2; i++ {
		p := c.pending()
		c.deliver(p[zkv.Choose("late", len(p))])
	}
	c.finish(zkv.Fork(zkv.Choose("rev", 2) == 1))
	zkv.Reach("end")
}
