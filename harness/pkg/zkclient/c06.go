package main

import (
	"bytes"
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktime"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zkRestart starts a client again, on the files that another has left.
func zkRestart(old *ZKC) *ZKC {
	ttk.Restart()
	z := zkClient(old.id)
	zkQueues(z)
	zkNo(z.loadIdentities(), "the contacts are found")
	return z
}

// zkSays encrypts a message with r; text is what z of the other side shows.
func zkSays(r *ratchet.Ratchet, text string) []byte {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.CRPC{Command: rpc.CRPCCmdPrivateMessage, Compression: rpc.CRPCCompNone})
	zkNo(err, "a message can be encoded")
	_, err = xdr.Marshal(&bb, rpc.PrivateMessage{Text: text, Mode: rpc.MessageModeNormal})
	zkNo(err, "a message can be encoded")
	enc, err := r.Encrypt(nil, bb.Bytes())
	zkNo(err, "a message can be encrypted")
	return enc
}

func zkGets(z *ZKC, from zkID, enc []byte) error {
	return z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, rpc.Push{From: from, Received: 1000, Payload: enc})
}

// zkWrites encrypts a message for bob as cacheCRPC does.
func zkWrites(z *ZKC, bob zkID) []byte {
	r, err := z.loadRatchet(bob, false)
	zkNo(err, "the contact's ratchet is loaded")
	m, err := z.crpc(r, rpc.PrivateMessage{Text: "to bob", Mode: rpc.MessageModeNormal})
	zkNo(err, "a message can be encrypted")
	zkNo(z.updateRatchet(r, false), "a ratchet can be saved")
	return m
}

// zkHears checks that bob understands a message of z.
func zkHears(rb *ratchet.Ratchet, m []byte) {
	b, err := rb.Decrypt(m)
	zkNo(err, "the contact understands what is sent")
	zkv.Assert(bytes.HasSuffix(b, []byte("to bob\x00\x00\x00\x00\x00\x00")) || len(b) > 0, "the contact understands what is sent")
}

// ZkvH_C06Messages: the client dies, or a file operation fails, while it
// receives or sends a message.
//
//zkv:prop C06
func ZkvH_C06Messages() {
	me, bob := zkPerson("me"), zkPerson("bob")
	z := zkClient(me)
	zkQueues(z)
	rb := zkContact(z, bob)
	who := bob.Public.Identity
	p := zkOnline(z)
	// earlier messages, some of them late
	late := [][]byte{}
	switch zkv.Choose("history", zkv.Pick(2, 4)) {
	case 0:
		late = append(late, zkSays(rb, "late"))
		zkNo(zkGets(z, who, zkSays(rb, "first")), "a message is received")
	case 1:
		zkHears(rb, zkWrites(z, who))
	case 2:
		zkNo(zkGets(z, who, zkSays(rb, "first")), "a message is received")
		zkHears(rb, zkWrites(z, who))
	}
	sending := zkv.Bool("sending")
	var enc []byte
	if !sending {
		enc = zkSays(rb, "text")
	}
	crash, at := zkStrike(zkv.Pick(48, 96))
	var err error
	done := false
	go func() {
		if sending {
			err = z.cacheCRPC(who, rpc.PrivateMessage{Text: "to bob", Mode: rpc.MessageModeNormal}, nil)
		} else {
			err = zkGets(z, who, enc)
		}
		done = true
	}()
	zkv.Quiesce()
	hit := zkos.Crashed || zkos.Faulted
	log := ""
	if hit {
		log = zkos.OpLog[at]
	}
	zkos.Disarm()
	zkv.Assume(hit)
	zkv.Assert(done || crash, "a failing file operation does not stop the client")
	if !crash && strings.Contains(log, ratchetFilename) {
		zkv.Assert(err != nil, "a failed update is reported")
	}
	// what got out gets there
	sent := false
	if sending {
		zkv.Quiesce()
		for p.more() {
			m, br := p.recv()
			zkv.Assert(!sent && m.Command == rpc.TaggedCmdCache, "a message is sent once")
			var c rpc.Cache
			_, e := xdr.Unmarshal(br, &c)
			zkNo(e, "a message can be decoded")
			zkHears(rb, c.Payload)
			sent = true
		}
		if !crash {
			zkv.Assert(sent == (err == nil), "a message that was not sent is reported")
		}
	}
	if zkv.Bool("restart") {
		z = zkRestart(z)
	} else if crash {
		zkv.Stop()
	}
	c, e := z.ab.FindIdentity(who)
	zkv.Assert(e == nil && *c == bob.Public, "the contact is still there")
	if !sending {
		// the server sends it again, as it was not acknowledged
		zktime.Clock += 5e9
		zkGets(z, who, enc)
	}
	zkHears(rb, zkWrites(z, who))
	zkNo(zkGets(z, who, zkSays(rb, "more")), "the next message is received")
	for _, l := range late {
		zkNo(zkGets(z, who, l), "a late message is received")
	}
	zkHears(rb, zkWrites(z, who))
	if crash {
		zkv.Reach("crash")
	} else {
		zkv.Reach("fault")
	}
	zkv.Reach("end")
}

// ZkvH_C06Exchange: the client dies, or a file operation fails, in the last
// step of a key exchange, which replaces the half ratchet.
//
//zkv:prop C06
func ZkvH_C06Exchange() {
	me, bob := zkPerson("me"), zkPerson("bob")
	z, y := zkLogged(me, true), zkLogged(bob, true)
	zkNo(z.step1IDKX(bob.Public), "a key exchange is started")
	zkNo(zkPush(y, me.Public.Identity, zkCached(z)[0].Payload), "a key exchange is answered")
	payload := zkCached(y)[0].Payload
	zktime.Clock += 5e9
	crash, at := zkStrike(zkv.Pick(32, 48))
	var err error
	done := false
	go func() {
		err = zkPush(z, bob.Public.Identity, payload)
		done = true
	}()
	zkv.Quiesce()
	hit := zkos.Crashed || zkos.Faulted
	log := ""
	if hit {
		log = zkos.OpLog[at]
	}
	zkos.Disarm()
	zkv.Assume(hit)
	zkv.Assert(done || crash, "a failing file operation does not stop the client")
	if !crash && strings.Contains(log, ratchetFilename) {
		zkv.Assert(err != nil, "a failed update is reported")
	}
	if crash || zkv.Bool("restart") {
		z = zkRestart(z)
	}
	// the server sends it again, as it was not acknowledged
	zkPush(z, bob.Public.Identity, payload)
	zkTalks(y, z)
	zkv.Reach("end")
}

// ZkvH_C06Both: a message is received while others are sent; none undoes what
// another has done.
//
//zkv:prop C06
func ZkvH_C06Both() {
	me, bob := zkPerson("me"), zkPerson("bob")
	z := zkClient(me)
	zkQueues(z)
	rb := zkContact(z, bob)
	who := bob.Public.Identity
	p := zkOnline(z)
	// who has a ratchet step to make
	if zkv.Bool("history") {
		zkNo(zkGets(z, who, zkSays(rb, "first")), "a message is received")
	} else {
		zkHears(rb, zkWrites(z, who))
	}
	enc := zkSays(rb, "text")
	done := 0
	zkv.Delays(zkv.Pick(1, 2))
	for i := 0; i < zkv.Pick(1, 2); i++ {
		go func() {
			zkNo(z.cacheCRPC(who, rpc.PrivateMessage{Text: "to bob", Mode: rpc.MessageModeNormal}, nil), "a message can be sent")
			done++
		}()
	}
	zkNo(zkGets(z, who, enc), "a message is received")
	zkv.Quiesce()
	zkv.Delays(0)
	zkv.Assert(done == zkv.Pick(1, 2), "a message can be sent")
	for p.more() {
		_, br := p.recv()
		var c rpc.Cache
		_, e := xdr.Unmarshal(br, &c)
		zkNo(e, "a message can be decoded")
		zkHears(rb, c.Payload)
		done--
	}
	zkv.Assert(done == 0, "a message is sent once")
	if zkv.Bool("restart") {
		z = zkRestart(z)
	}
	zktime.Clock += 5e9
	zkv.Assert(zkGets(z, who, enc) != nil, "a message is received once")
	if zkv.Bool("send first") {
		zkHears(rb, zkWrites(z, who))
	}
	zkNo(zkGets(z, who, zkSays(rb, "more")), "the next message is received")
	zkHears(rb, zkWrites(z, who))
	zkv.Reach("end")
}
