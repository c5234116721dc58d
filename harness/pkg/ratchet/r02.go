package ratchet

import "github.com/companyzero/zkc/zkv"

// zkAttack presents bytes the peer did not send to side v: truncated,
// altered, reflected, foreign, replayed or made up.
func zkAttack(c *zkConvo, v int) {
	var bad []byte
	var toV, fromV, old []*zkMsg
	for _, m := range c.msgs {
		if m.to == v && m.done {
			old = append(old, m)
		} else if m.to == v {
			toV = append(toV, m)
		} else {
			fromV = append(fromV, m)
		}
	}
	switch zkv.Choose("attack", zkMade) {
	case 0: // truncate a genuine message
		zkv.Assume(len(toV) > 0)
		m := toV[zkv.Choose("which", len(toV))]
		n := zkv.Range("len", 0, len(m.ct)-1)
		cuts := []int{0, 1, 23, 24, 25, 39, 40, 103, 104, 105, len(m.ct) - 1}
		n = cuts[zkv.Choose("cut", len(cuts))]
		zkv.Assume(n < len(m.ct))
		bad = append([]byte{}, m.ct[:n]...)
	case 1: // alter a byte of a genuine message
		zkv.Assume(len(toV) > 0)
		m := toV[zkv.Choose("which", len(toV))]
		bad = append([]byte{}, m.ct...)
		pos := []int{0, 23, 24, 60, 103, 104, 110, len(bad) - 1}
		x := zkv.U8("xor")
		zkv.Assume(x != 0)
		bad[pos[zkv.Choose("pos", len(pos))]] ^= x
	case 2: // append to a genuine message
		zkv.Assume(len(toV) > 0)
		m := toV[zkv.Choose("which", len(toV))]
		bad = append(append([]byte{}, m.ct...), zkv.U8("app"))
	case 3: // reflect a message of the victim
		zkv.Assume(len(fromV) > 0)
		bad = append([]byte{}, fromV[zkv.Choose("which", len(fromV))].ct...)
	case 4: // header of one message on the body of another
		zkv.Assume(len(toV)+len(old) > 1)
		all := append(append([]*zkMsg{}, toV...), old...)
		i := zkv.Choose("hdr", len(all))
		j := zkv.Choose("body", len(all))
		zkv.Assume(i != j)
		bad = append(append([]byte{}, all[i].ct[:sealedHeaderSize]...), all[j].ct[sealedHeaderSize:]...)
	case 5: // replay
		zkv.Assume(len(old) > 0)
		bad = append([]byte{}, old[zkv.Choose("which", len(old))].ct...)
	case 6: // made up
		n := []int{0, 24, 103, 104, 120, 122}[zkv.Choose("n", 6)]
		bad = zkv.Bytes("made", n)
		for _, m := range c.msgs {
			zkv.Assume(!zkv.BytesEq(bad, m.ct))
		}
	}
	before := c.state(v)
	_, err := c.r[v].Decrypt(append([]byte{}, bad...))
	zkv.Assert(err != nil, "what the peer did not send is rejected")
	zkv.Assert(zkSame(before, c.state(v)), "a rejected message leaves the saved state unchanged")
}

// zkMade is 7 if made-up bytes are among the attacks, or else 6.
var zkMade = 7

// ZkvH_Attack: an attack at any point of an arbitrary short history.
//zkv:prop R02
//zkv:opt w=3
func ZkvH_Attack() {
	c := zkPair()
	zkMade = zkv.Pick(6, 7)
	steps := zkv.Pick(3, 5)
	for i := 0; i < steps; i++ {
		p := c.pending()
		k := zkv.Choose("op", len(p)+3)
		if k == 0 {
			break
		}
		if k < 3 {
			c.send(k-1, zkv.Bytes("pt", 2))
			continue
		}
		c.deliver(p[k-3])
	}
	zkAttack(c, zkv.Choose("victim", 2))
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.Reach("end")
}

// ZkvH_AttackSaved: an attack on a receiver that keeps keys of skipped
// messages of an old and of the current chain.
//zkv:prop R02
//zkv:opt w=2
func ZkvH_AttackSaved() {
	c := zkPair()
	c.send(0, zkv.Bytes("pt", 2))
	c.deliver(c.send(0, zkv.Bytes("pt", 2)))
	c.deliver(c.send(1, zkv.Bytes("pt", 2)))
	c.send(0, zkv.Bytes("pt", 2))
	c.deliver(c.send(0, zkv.Bytes("pt", 2)))
	c.send(0, zkv.Bytes("pt", 2))
	zkAttack(c, 1)
	p := c.pending()
	c.deliver(p[zkv.Choose("next", len(p))])
	zkAttackOrNot(c)
	c.finish(zkv.Fork(zkv.Choose("late", 2) == 1))
	zkv.Reach("end")
}

func zkAttackOrNot(c *zkConvo) {
	if zkv.Tier() == 1 && zkv.Choose("again", 2) == 1 {
		zkAttack(c, 1)
	}
}

// ZkvH_Foreign: a message of another conversation of the same peer.
//zkv:prop R02
func ZkvH_Foreign() {
	c := zkPair()
	d := zkPair()
	for i := 0; i < 2; i++ {
		c.send(zkv.Choose("c", 2), zkv.Bytes("pt", 2))
		d.send(zkv.Choose("d", 2), zkv.Bytes("pt", 2))
	}
	if zkv.Choose("warm", 2) == 1 {
		c.deliver(c.msgs[0])
		d.deliver(d.msgs[0])
	}
	v := zkv.Choose("victim", 2)
	for _, m := range d.msgs {
		before := c.state(v)
		_, err := c.r[v].Decrypt(append([]byte{}, m.ct...))
		zkv.Assert(err != nil, "a message of another conversation is rejected")
		zkv.Assert(zkSame(before, c.state(v)), "a rejected message leaves the saved state unchanged")
	}
	c.finish(false)
	zkv.Reach("end")
}
