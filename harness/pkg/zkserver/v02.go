package main

import (
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktime"
)

// ZkvH_V02Deliver: a message is sent to somebody, while nothing goes wrong,
// a file operation fails, or the server dies.
//
//zkv:prop V02
func ZkvH_V02Deliver() {
	z := zkServer()
	a, b, c := zkNewUser(z, 1), zkNewUser(z, 2), zkNewUser(z, 3)
	la := a.login()
	directory := zkv.Bool("directory")
	cmd := [2]string{rpc.TaggedCmdCache, rpc.TaggedCmdProxy}[zkv.Choose("kind", 2)]
	who := zkv.Choose("to", 4)
	to := [4]zkID{a.id(), b.id(), c.id()}[who]
	if who == 2 {
		zkNo(z.account.Disable(c.id()), "an account can be disabled")
	}
	if who == 3 {
		copy(to[:], zkv.Bytes("unknown", 4))
		zkv.Assume(to != a.id() && to != b.id() && to != c.id())
	}
	online := who == 1 && zkv.Bool("online")
	var lb *zkLink
	if online {
		lb = b.login()
	}
	payload := zkv.Bytes("payload", [3]int{0, 1, 9}[zkv.Choose("size", zkv.Pick(2, 3))])
	fault := 0
	if !directory {
		fault = zkv.Choose("event", 3)
	}
	z.settings.Directory = directory
	at := -1
	if fault > 0 {
		at = zkv.Choose("at", zkv.Pick(6, 10))
	}
	zkos.CrashBlocks = true
	switch fault {
	case 1:
		zkos.Arm(-1, at)
	case 2:
		zkos.Arm(at, -1)
	}
	var v interface{} = rpc.Cache{To: to, Payload: payload}
	if cmd == rpc.TaggedCmdProxy {
		v = rpc.Proxy{To: to, Payload: payload}
	}
	tag := [2]uint32{0, tagDepth - 1}[zkv.Choose("tag", zkv.Pick(1, 2))]
	from := zktime.Peek().Unix()
	la.send(cmd, tag, v)
	zkv.Quiesce()
	when := [2]int64{from, zktime.Peek().Unix()}
	hit := zkos.Crashed || zkos.Faulted
	zkv.Assume(fault == 0 || hit)
	died := zkos.Crashed
	zkos.Disarm()

	acked, answered := false, false
	var got []zkReply
	for _, x := range la.drain() {
		if x.cmd == rpc.TaggedCmdPush {
			zkv.Assert(who == 0, "a message for somebody else is not pushed to its sender")
			got = append(got, x)
			continue
		}
		zkv.Assert(!answered && x.cmd == replyTo(cmd) && x.tag == tag, "a message is answered once, under its tag")
		answered = true
		acked = x.err == ""
	}
	if !died {
		zkv.Assert(answered || la.c.Closed(), "a message is answered")
	}
	if fault == 0 {
		zkv.Assert(acked == (who < 2), "a message is accepted exactly if its recipient exists and is enabled")
	}
	if online {
		got = append(got, pushes(lb.drain())...)
	}
	zkv.Assert(len(got) <= 1, "a message is delivered once")
	if acked && fault == 0 && (online || who == 0) {
		zkv.Assert(len(got) == 1, "a message for a user who is online is pushed")
	}
	zkSame(got, a, cmd, payload, when)

	// after a restart everybody has what was acknowledged, and nothing else
	z = zkServerOf(z.id)
	z.settings.Directory = directory
	zktime.Clock += 1000e9
	if who == 2 {
		zkNo(z.account.Enable(c.id()), "an account can be enabled")
	}
	for i, u := range []*zkUser{a, b, c} {
		u.srv = z
		p := pushes(u.login().drain())
		zkv.Assert(len(p) <= 1, "a message is delivered once")
		if i != who {
			zkv.Assert(len(p) == 0, "a message is delivered to nobody but its recipient")
		} else if acked || len(got) > 0 {
			zkv.Assert(len(p) == 1, "a message that was acknowledged is delivered until its recipient acknowledges it")
			zkv.Reach("delivered")
		} else if fault == 0 {
			zkv.Assert(len(p) == 0, "a message that was refused is not delivered")
		}
		zkSame(p, a, cmd, payload, when)
	}
	zkv.Reach("end")
}

func zkSame(p []zkReply, from *zkUser, cmd string, payload []byte, when [2]int64) {
	for _, x := range p {
		zkv.Assert(x.psh.From == from.id(), "a message is marked with the identity that sent it")
		zkv.Assert(zkv.BytesEq(x.psh.Payload, payload), "a message is delivered unchanged")
		zkv.Assert(x.psh.Received >= when[0] && x.psh.Received <= when[1], "a message is marked with the time when the server received it")
		zkv.Assert(x.clr == (cmd == rpc.TaggedCmdProxy), "a message is marked as proxied exactly if it was")
	}
}

// ZkvH_V02Acks: a user with queued messages acknowledges some deliveries and
// logs in again; so does another user.
//
//zkv:prop V02
func ZkvH_V02Acks() {
	z := zkServer()
	a, b, c := zkNewUser(z, 1), zkNewUser(z, 2), zkNewUser(z, 3)
	n := zkv.Pick(2, 3)
	have := map[zkID][]byte{} // messages that are queued, per user
	for i := 0; i < n; i++ {
		for _, u := range []*zkUser{b, c} {
			m := byte(10*len(have[u.id()]) + 1)
			if u == c && i > 0 {
				continue
			}
			_, err := z.account.Deliver(u.id(), a.id(), []byte{m}, false)
			zkNo(err, "a message can be stored")
			have[u.id()] = append(have[u.id()], m)
		}
	}
	for round := 0; round < zkv.Pick(2, 3); round++ {
		for _, u := range []*zkUser{b, c} {
			if u == c && !zkv.Bool("other too") {
				continue
			}
			l := u.login()
			out := map[uint32]byte{}
			for _, x := range pushes(l.drain()) {
				_, dup := out[x.tag]
				zkv.Assert(!dup && x.tag < tagDepth, "deliveries that are outstanding have different tags")
				zkv.Assert(len(x.psh.Payload) == 1, "a message is delivered unchanged")
				out[x.tag] = x.psh.Payload[0]
			}
			zkv.Assert(len(out) == len(have[u.id()]), "every queued message is delivered")
			for _, m := range have[u.id()] {
				f := false
				for _, o := range out {
					f = f || o == m
				}
				zkv.Assert(f, "a queued message is delivered until it is acknowledged")
			}
			for k := zkv.Choose("acks", zkv.Pick(2, 3)); k > 0 && !l.c.Closed(); k-- {
				tag := uint32(zkv.Choose("tag", zkv.Pick(3, 4)))
				l.send(rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{})
				zkv.Quiesce()
				m, ok := out[tag]
				if !ok {
					zkv.Reach("bad ack")
					continue
				}
				delete(out, tag)
				var left []byte
				for _, h := range have[u.id()] {
					if h != m {
						left = append(left, h)
					}
				}
				have[u.id()] = left
				zkv.Reach("ack")
			}
			l.hangup()
		}
	}
	for _, u := range []*zkUser{b, c} {
		zkv.Assert(len(pushes(u.login().drain())) == len(have[u.id()]), "exactly the unacknowledged messages are left")
	}
	zkv.Reach("end")
}

// ZkvH_V02Tags: more messages than tags arrive for a user who acknowledges
// some of them.
//
//zkv:prop V02
func ZkvH_V02Tags() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	n := tagDepth + 2
	for i := 0; i < n; i++ {
		_, err := z.account.Deliver(b.id(), a.id(), []byte{byte(i)}, false)
		zkNo(err, "a message can be stored")
	}
	l := b.login()
	p := pushes(l.drain())
	zkv.Assert(len(p) == tagDepth, "as many messages as there are tags are outstanding")
	seen := map[byte]uint32{}
	for _, x := range p {
		seen[x.psh.Payload[0]] = x.tag
	}
	zkv.Assert(len(seen) == tagDepth, "outstanding deliveries carry different messages")
	zktime.Clock += 3600e9 // the user takes time
	zktime.FireTimers()
	zkv.Quiesce()
	first := zkv.Choose("acknowledged", tagDepth)
	gone := p[first].psh.Payload[0]
	race := first == 1 || zkv.Tier() > 0
	if race {
		zkv.Delays(zkv.Pick(2, 3))
	}
	l.send(rpc.TaggedCmdAcknowledge, p[first].tag, rpc.Acknowledge{})
	zkv.Quiesce()
	zkv.Delays(0)
	q := pushes(l.drain())
	zkv.Assert(len(q) == 1 && q[0].tag == p[first].tag, "the tag that became free is used for the next message")
	_, dup := seen[q[0].psh.Payload[0]]
	zkv.Assert(!dup, "a message is delivered once per session")
	gone2 := gone
	left := tagDepth
	if race {
		l.send(rpc.TaggedCmdAcknowledge, q[0].tag, rpc.Acknowledge{})
		zkv.Quiesce()
		zkv.Assert(!l.c.Closed(), "an outstanding delivery can be acknowledged")
		zkv.Assert(len(pushes(l.drain())) == 0 || n > tagDepth+1, "a message is delivered once per session")
		gone2 = q[0].psh.Payload[0]
		if n-2 < left {
			left = n - 2
		}
	}
	l.hangup()
	l = b.login()
	p = pushes(l.drain())
	zkv.Assert(len(p) == left, "as many messages as there are tags are outstanding")
	for _, x := range p {
		zkv.Assert(x.psh.Payload[0] != gone && x.psh.Payload[0] != gone2, "an acknowledged message is gone")
	}
	zkv.Reach("end")
}

// ZkvH_V02Race: a message is sent while its recipient logs in, or while it
// acknowledges another one.
//
//zkv:prop V02
func ZkvH_V02Race() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	la := a.login()
	cmd := [2]string{rpc.TaggedCmdCache, rpc.TaggedCmdProxy}[zkv.Choose("kind", 2)]
	v := func(m byte) interface{} {
		if cmd == rpc.TaggedCmdProxy {
			return rpc.Proxy{To: b.id(), Payload: []byte{m}}
		}
		return rpc.Cache{To: b.id(), Payload: []byte{m}}
	}
	had := zkv.Choose("before", 2)
	if had > 0 {
		la.send(cmd, 1, v(100))
		zkv.Quiesce()
	}
	online := zkv.Bool("online")
	var lb *zkLink
	if online {
		lb = b.login()
	}
	zkv.Delays(zkv.Pick(1, 2))
	n := zkv.Pick(1, 2)
	for i := 0; i < n; i++ {
		la.send(cmd, uint32(2+i), v(byte(i)))
	}
	var left []byte
	var rest []zkReply
	if online {
		// acknowledge what is there
		if had > 0 {
			lb.send(rpc.TaggedCmdAcknowledge, 0, rpc.Acknowledge{})
		}
	} else {
		lb = b.login()
	}
	zkv.Quiesce()
	zkv.Delays(0)
	seen := map[byte]bool{}
	tags := map[uint32]bool{}
	for _, x := range pushes(lb.drain()) {
		m := x.psh.Payload[0]
		zkv.Assert(!seen[m], "a message is delivered once per session")
		zkv.Assert(m == 100 || !tags[x.tag] || x.tag == 0 && online, "deliveries that are outstanding have different tags")
		seen[m] = true
		tags[x.tag] = true
		if m != 100 || !online {
			left = append(left, m)
			rest = append(rest, x)
		}
	}
	zkv.Assert(len(seen) == n+had, "every message is delivered to a user who is online")
	acks := 0
	for _, x := range la.drain() {
		if x.cmd == replyTo(cmd) && x.err == "" {
			acks++
		}
	}
	zkv.Assert(acks == n+had, "a message is accepted")
	if zkv.Bool("acknowledge the rest") {
		zkv.Reach("acknowledged")
		for _, x := range rest {
			lb.send(rpc.TaggedCmdAcknowledge, x.tag, rpc.Acknowledge{})
			zkv.Quiesce()
			zkv.Assert(!lb.c.Closed(), "an outstanding delivery can be acknowledged")
		}
		left = nil
	}
	lb.hangup()
	p := pushes(b.login().drain())
	zkv.Assert(len(p) == len(left), "exactly the unacknowledged messages are left")
	zkv.Reach("end")
}

// ZkvH_V02Fault: a file operation fails while a user receives and
// acknowledges messages, each of them twice if the first acknowledgement did
// not end the session.
//
//zkv:prop V02
func ZkvH_V02Fault() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	n := 3
	send := func(m byte) {
		_, err := z.account.Deliver(b.id(), a.id(), []byte{m}, false)
		zkNo(err, "a message can be stored")
	}
	// everything that is delivered is in the cache and not seen before in
	// the session
	acked := map[byte]bool{}
	check := func(seen map[byte]bool, p []zkReply) {
		for _, x := range p {
			zkv.Assert(x.psh.From == a.id(), "a message is marked with the identity that sent it")
			zkv.Assert(len(x.psh.Payload) == 1 && int(x.psh.Payload[0]) < n, "a message is delivered unchanged")
			m := x.psh.Payload[0]
			zkv.Assert(!seen[m], "a message is delivered once per session")
			seen[m] = true
		}
	}
	for i := 0; i < n-1; i++ {
		send(byte(i))
	}
	at := zkv.Choose("at", zkv.Pick(12, 20)) - 1
	early := zkv.Bool("login too")
	reading := zkv.Bool("reading")
	arm := func() {
		if !reading {
			zkos.Arm(-1, at)
			return
		}
		zkos.OpenFail = func(string) bool {
			at--
			if at == -1 {
				zkos.Faulted = true
				return true
			}
			return false
		}
	}
	none := at < 0
	if early {
		arm()
	}
	l := b.connect()
	zkv.Quiesce()
	if !early {
		arm()
	}
	if l.more() {
		l.recv()
	}
	seen := map[byte]bool{}
	p := pushes(l.drain())
	check(seen, p)
	order := zkv.Choose("order", 2)
	for i := range p {
		x := p[i]
		if order == 1 {
			x = p[len(p)-1-i]
		}
		if i == 1 && zkv.Bool("leave one") {
			break
		}
		if l.c.Closed() || l.trySend(rpc.TaggedCmdAcknowledge, x.tag, rpc.Acknowledge{}) != nil {
			break
		}
		acked[x.psh.Payload[0]] = true
		zkv.Quiesce()
		check(seen, pushes(l.drain()))
	}
	zkv.Assume(zkos.Faulted || none)
	hit := zkos.Faulted
	zkos.Disarm()
	zkos.OpenFail = nil
	send(byte(n - 1)) // the next message is delivered as always
	zkv.Quiesce()
	if l.live() {
		check(seen, pushes(l.drain()))
		zkv.Assert(seen[byte(n-1)] || !l.live(), "a message for a user who is online is pushed")
	}
	zkv.Assert(hit || len(seen) == n, "every queued message is delivered")
	l.hangup()
	again := map[byte]bool{}
	check(again, pushes(b.login().drain()))
	for i := 0; i < n; i++ {
		zkv.Assert(again[byte(i)] || acked[byte(i)], "a message is removed only when it is acknowledged")
		zkv.Assert(hit || !again[byte(i)] || !acked[byte(i)], "an acknowledged message is gone")
	}
	if hit {
		zkv.Reach("fault")
	}
	zkv.Reach("end")
}
