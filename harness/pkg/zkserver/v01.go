package main

import (
	"bytes"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// ZkvH_V01Message: a logged in client sends one message: any command, any
// tag, any payload bytes.  The server survives, answers under the request's
// tag and goes on serving others.
//
//zkv:prop V01
//zkv:opt mem=1900 w=3
func ZkvH_V01Message() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	lb := b.login()
	la := a.login()
	pins(4711)
	cmd := zkCommands[zkv.Choose("command", len(zkCommands))]
	tag := zkv.U32("tag")
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.Message{Command: cmd, Tag: tag})
	zkNo(err, "a message can be encoded")
	switch cmd {
	case rpc.TaggedCmdCache, rpc.TaggedCmdProxy:
		// a recipient, which may exist, and a message of any size
		to := [3]zkID{b.id(), a.id(), {}}[zkv.Choose("to", 3)]
		if to == (zkID{}) {
			copy(to[:], zkv.Bytes("unknown", 4))
		}
		bb.Write(to[:])
		bb.Write(zkv.BytesUpTo("payload", zkv.Pick(12, 24)))
	case rpc.TaggedCmdRendezvous:
		bb.Write(zkv.BytesUpTo("payload", zkv.Pick(14, 20)))
	case rpc.TaggedCmdAcknowledge:
	default:
		bb.Write(zkv.BytesUpTo("payload", zkv.Pick(16, 40)))
	}
	la.raw(bb.Bytes())
	zkv.Quiesce()
	m, n := rpc.Message{}, 0
	for la.more() {
		// the client may have written to itself
		if x, _ := la.recv(); x.Command != rpc.TaggedCmdPush || cmd != rpc.TaggedCmdCache && cmd != rpc.TaggedCmdProxy {
			m = x
			n++
		}
	}
	if n > 0 {
		zkv.Assert(m.Tag == tag, "a reply carries the tag of its request")
		zkv.Assert(m.Command == replyTo(cmd), "a reply is of the kind that answers its request")
		zkv.Assert(n == 1, "one request gets one reply")
		zkv.Reach("replied")
	} else if la.c.Closed() {
		zkv.Reach("closed")
	}
	lb.alive(5)
	zkv.Reach("end")
}

// ZkvH_V01Bytes: a logged in client sends arbitrary bytes as its message.
//
//zkv:prop V01
//zkv:opt mem=1900
func ZkvH_V01Bytes() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	lb := b.login()
	la := a.login()
	la.raw(zkv.BytesUpTo("message", zkv.Pick(24, 40)))
	zkv.Quiesce()
	lb.alive(5)
	zkv.Reach("end")
}

// ZkvH_V01Acks: a client with messages outstanding acknowledges tags of its
// choice.  The session then either ends or still answers.
//
//zkv:prop V01
func ZkvH_V01Acks() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	lb := b.login()
	n := zkv.Choose("messages", 3)
	for i := 0; i < n; i++ {
		_, err := z.account.Deliver(a.id(), b.id(), []byte{byte(i)}, false)
		zkNo(err, "a message can be stored")
	}
	la := a.login()
	acks := zkv.Pick(2, 3)
	for i := 0; i < acks; i++ {
		la.send(rpc.TaggedCmdAcknowledge, zkv.U32("tag"), rpc.Acknowledge{})
		zkv.Quiesce()
		if la.c.Closed() {
			break
		}
	}
	for la.more() {
		la.recv()
	}
	if !la.c.Closed() {
		la.send(rpc.TaggedCmdPing, 7, rpc.Ping{})
		zkv.Quiesce()
		zkv.Assert(la.more() || la.c.Closed(), "a session is closed or its requests are answered")
	}
	lb.alive(5)
	// a later login works again
	if la.c.Closed() {
		<-la.done
		a.login().alive(3)
		zkv.Reach("again")
	}
	zkv.Reach("end")
}

// ZkvH_V01Two: two requests in a row, of any kinds and tags.
//
//zkv:prop V01
func ZkvH_V01Two() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	lb := b.login()
	la := a.login()
	pins(4711, 4712)
	var cmd [2]string
	var tag [2]uint32
	kinds := []string{rpc.TaggedCmdPing, rpc.TaggedCmdRendezvousPull, rpc.TaggedCmdCache, rpc.TaggedCmdProxy, rpc.TaggedCmdIdentityFind, rpc.TaggedCmdRendezvous}
	for i := range cmd {
		cmd[i] = kinds[zkv.Choose("command", len(kinds))]
		tag[i] = zkv.U32("tag")
		zkv.Assume(tag[i] < tagDepth)
		zkSendAny(la, cmd[i], tag[i], b.id(), zkv.Bytes("payload", 3))
		if i == 0 && zkv.Bool("at once") {
			continue
		}
		zkv.Quiesce()
	}
	i := 0
	for la.more() {
		m, _ := la.recv()
		zkv.Assert(i < 2 && m.Tag == tag[i] && m.Command == replyTo(cmd[i]), "replies come in the order of the requests and carry their tags")
		i++
	}
	zkv.Assert(i == 2, "every request is answered")
	lb.alive(5)
	zkv.Reach("end")
}

// zkSendAny sends a well-formed request.
func zkSendAny(l *zkLink, cmd string, tag uint32, to zkID, p []byte) {
	var v interface{}
	switch cmd {
	case rpc.TaggedCmdPing:
		v = rpc.Ping{}
	case rpc.TaggedCmdRendezvousPull:
		v = rpc.RendezvousPull{Token: "4711"}
	case rpc.TaggedCmdCache:
		v = rpc.Cache{To: to, Payload: p}
	case rpc.TaggedCmdProxy:
		v = rpc.Proxy{To: to, Payload: p}
	case rpc.TaggedCmdIdentityFind:
		v = rpc.IdentityFind{Nick: "nick2"}
	case rpc.TaggedCmdRendezvous:
		v = rpc.Rendezvous{Blob: p, Expiration: "24"}
	}
	l.send(cmd, tag, v)
}

// ZkvH_V01Pre: arbitrary bytes arrive before any login, then the connection
// ends.
//
//zkv:prop V01,V05
//zkv:opt mem=1900
func ZkvH_V01Pre() {
	z := zkServer()
	b := zkNewUser(z, 2)
	lb := b.login()
	l := zkDial(z)
	var bb bytes.Buffer
	mode := []string{rpc.InitialCmdIdentify, rpc.InitialCmdCreateAccount, rpc.InitialCmdSession, "", "other"}[zkv.Choose("mode", 5)]
	if mode != "" {
		_, err := xdr.Marshal(&bb, mode)
		zkNo(err, "a mode can be encoded")
	}
	bb.Write(zkv.BytesUpTo("bytes", zkv.Pick(16, 32)))
	_, err := l.c.Write(bb.Bytes())
	zkNo(err, "bytes can be sent")
	l.c.Close()
	<-l.done
	zkv.Quiesce()
	zkv.Assert(len(z.sessions) == 1, "nothing but a key exchange makes a session")
	lb.alive(5)
	zkv.Reach("end")
}

// ZkvH_V01Frame: what follows the login on the wire is no record of the
// session: any length, any bytes.
//
//zkv:prop V01
//zkv:opt mem=1900 alloc=24
func ZkvH_V01Frame() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	lb := b.login()
	la := a.login()
	_, err := la.c.Write(append(zkv.Bytes("length", 4), zkv.BytesUpTo("record", zkv.Pick(6, 20))...))
	zkNo(err, "bytes can be sent")
	if zkv.Bool("cut off") {
		la.c.CloseWrite()
	}
	zkv.Quiesce()
	lb.alive(5)
	if la.c.Closed() {
		<-la.done
		a.login().alive(3)
		zkv.Reach("again")
	}
	zkv.Reach("end")
}
