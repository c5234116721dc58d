package main

import (
	"bytes"
	"crypto/rand"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	zkzlib "github.com/companyzero/zkc/zkv/zkzlib"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zkAlive checks that the client still works.
func zkAlive(z *ZKC, r *ratchet.Ratchet, from zkID) {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.PrivateMessage{Text: "hello", Mode: rpc.MessageModeNormal})
	zkNo(err, "a message can be encoded")
	zkNo(zkPushed(z, r, from, rpc.CRPC{Command: rpc.CRPCCmdPrivateMessage, Compression: rpc.CRPCCompNone}, bb.Bytes()), "the next message is handled")
	zkv.Quiesce()
	shown := false
	for i := range z.conversation {
		for _, l := range z.conversation[i].console.Content {
			if len(l) >= 5 {
				shown = zkv.Or(shown, l[len(l)-5:] == "hello")
			}
		}
	}
	zkv.Assert(shown, "the next message is handled")
}

var zkCmds = []string{rpc.CRPCCmdPrivateMessage, rpc.CRPCCmdGroupInvite, rpc.CRPCCmdGroupJoin, rpc.CRPCCmdGroupPart,
	rpc.CRPCCmdGroupKill, rpc.CRPCCmdGroupKick, rpc.CRPCCmdGroupUpdate, rpc.CRPCCmdGroupList, rpc.CRPCCmdGroupMessage,
	rpc.CRPCCmdChunkNew, rpc.CRPCCmdChunk, rpc.CRPCCmdJanitorMessage, "x", ""}

// ZkvH_C04Raw: a contact sends any bytes as the content of any command.
//
//zkv:prop C04
func ZkvH_C04Raw() {
	z, r, from := zkFrom()
	n := zkv.Choose("length", zkv.Pick(6, 24))
	if zkv.Tier() == 0 {
		n = [6]int{0, 1, 4, 6, 8, 11}[n]
	}
	b := zkv.Bytes("payload", n)
	comp := [4]string{rpc.CRPCCompNone, rpc.CRPCCompZLIB, rpc.CRPCCompZLIB, "x"}[zkv.Choose("compression", 4)]
	if comp == rpc.CRPCCompZLIB && zkv.Bool("packed") {
		b = zkzlib.Pack(b, false)
	}
	zkPushed(z, r, from, rpc.CRPC{Command: zkCmds[zkv.Choose("command", len(zkCmds))], Compression: comp}, b)
	zkAlive(z, r, from)
	zkv.Reach("end")
}

// zkCapital are the letters that messages are made of; some take another
// number of bytes in capitals.
var zkCapital = []string{"m", "e", "E", "ɐ", "ı", "ſ", "\xff", "x"}

// ZkvH_C04Mention: anybody's message to a group, with or without the nick of
// its reader.
//
//zkv:prop C04
func ZkvH_C04Mention() {
	id := zkM
	id.Nick = [4]string{"me", "ɐ", "ı", "x"}[zkv.Choose("nick", 4)]
	z := zkMe(id)
	zkKnow(z, zkA)
	zkHas(z, zkGroup("g", 5, zkA.Identity, id.Identity))
	text := ""
	n := zkv.Choose("length", zkv.Pick(4, 5))
	for i := 0; i < n; i++ {
		text += zkCapital[zkv.Choose("letter", len(zkCapital))]
	}
	mode := rpc.MessageModeNormal
	if n < 3 && zkv.Bool("me") {
		mode = rpc.MessageModeMe
	}
	zkNo(z.handleGroupMessage(rpc.Message{}, rpc.Push{From: zkA.Identity, Received: 1000}, rpc.GroupMessage{Name: "g", Message: text, Mode: mode}), "a member's message is shown")
	zkv.Quiesce()
	zkv.Assert(len(z.conversation) == 2 && len(z.conversation[1].console.Content) >= 1, "a member's message is shown")
	zkv.Reach("end")
}

// zkTagged are the commands that a server can send.
var zkTagged = []string{rpc.TaggedCmdPong, rpc.TaggedCmdRendezvousReply, rpc.TaggedCmdRendezvousPullReply, rpc.TaggedCmdPush,
	rpc.TaggedCmdAcknowledge, rpc.TaggedCmdIdentityFindReply, rpc.TaggedCmdProxyReply, "x", ""}

// zkWaiting is an online client that has a message to be acknowledged and
// waits for the answer to a request.
func zkWaiting() (z *ZKC, r *ratchet.Ratchet, from zkID, p *zkPeer, called *int) {
	z, r, from = zkFrom()
	p = zkOnline(z)
	tag, err := z.tagStack.Pop()
	zkNo(err, "there are tags")
	called = new(int)
	z.tagCallback[tag] = &cb{callback: func() { *called++ }, to: from}
	_, err = z.tagStack.Pop()
	zkNo(err, "there are tags")
	go z.handleRPC()
	return
}

// zkSurvives delivers a message; the client hangs up or keeps working.
func zkSurvives(z *ZKC, p *zkPeer, m rpc.Message, payload []byte, called *int) {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, m)
	zkNo(err, "a message can be encoded")
	p.raw(append(bb.Bytes(), payload...))
	zkv.Quiesce()
	if z.isOnline() {
		zkv.Reach("survived")
		p.send(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 5}, rpc.Push{From: zkA.Identity, Payload: []byte{1}})
		zkv.Quiesce()
		sent := zkSent(z)
		zkv.Assert(len(sent) > 0 && sent[len(sent)-1].msg.Command == rpc.TaggedCmdAcknowledge && sent[len(sent)-1].msg.Tag == 5, "the client still answers")
	} else {
		zkv.Reach("closed")
	}
	zkv.Assert(*called <= 1, "a message is acknowledged once")
}

// ZkvH_C04First: somebody whose keys are not known, or not all of them, sends
// any bytes of any length.
//
//zkv:prop C04
func ZkvH_C04First() {
	z, r, from := zkFrom()
	z.directory = zkv.Bool("directory")
	eve := zkPerson("eve").Public
	if zkv.Bool("offered") {
		zkNo(z.saveKey(&[32]byte{1}), "a key can be saved")
	}
	switch zkv.Choose("known", 3) {
	case 1:
		zkNo(z.saveIdentity(eve), "a contact can be added")
	case 2:
		// a key exchange was started
		zkNo(z.saveIdentity(eve), "a contact can be added")
		h := ratchet.New(rand.Reader)
		h.MyPrivateKey, h.MySigningPublic = &z.id.PrivateKey, &z.id.Public.SigKey
		h.TheirIdentityPublic, h.TheirSigningPublic, h.TheirPublicKey = &eve.Identity, &eve.SigKey, &eve.Key
		zkNo(h.FillKeyExchange(new(ratchet.KeyExchange)), "a key exchange works")
		zkNo(z.updateRatchet(h, true), "a ratchet can be saved")
	}
	const whole = sntrup4591761.CiphertextSize
	n := [13]int{0, 1, 23, 24, 25, 40, 64, whole - 1, whole, whole + 1, whole + 24, whole + 25, whole + 60}[zkv.Choose("length", 13)]
	b := make([]byte, n)
	for i := 0; i < n; i += 300 {
		b[i] = zkv.U8("byte")
	}
	if zkv.Bool("right key") {
		// she has a key, and what it encrypts or follows it is wrong
		var head []byte
		key := &[32]byte{1}
		if z.directory {
			c, k, err := sntrup4591761.Encapsulate(rand.Reader, &z.id.Public.Key)
			zkNo(err, "a key can be encapsulated")
			head, key = c[:], k
		}
		if n > 100 {
			b = b[:n-whole+10]
		}
		if zkv.Bool("encrypted") {
			enc, nonce, err := blobshare.Encrypt(b, key)
			zkNo(err, "a message can be encrypted")
			b = blobshare.PackNonce(nonce, enc)
		}
		b = append(head, b...)
		n = len(b)
	}
	z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, rpc.Push{From: eve.Identity, Received: 1000, Payload: b[:n:n]})
	zkAlive(z, r, from)
	zkv.Reach("end")
}

// ZkvH_C04Bytes: the server sends any bytes as the content of any message.
//
//zkv:prop C04
func ZkvH_C04Bytes() {
	z, _, _, p, called := zkWaiting()
	m := rpc.Message{Tag: [2]uint32{0, tagDepth}[zkv.Choose("tag", 2)], Command: zkTagged[zkv.Choose("kind", len(zkTagged))]}
	n := zkv.Choose("length", zkv.Pick(5, 40))
	if zkv.Tier() == 0 {
		n = [5]int{0, 3, 4, 8, 12}[n]
	}
	zkSurvives(z, p, m, zkv.Bytes("payload", n), called)
	zkv.Reach("end")
}

// ZkvH_C04Server: the server sends any message.
//
//zkv:prop C04
func ZkvH_C04Server() {
	z, r, from, p, called := zkWaiting()
	kind := zkv.Choose("kind", len(zkTagged))
	m := rpc.Message{Command: zkTagged[kind]}
	if kind != 3 {
		m.Tag = zkv.U32("tag")
		zkv.Assume(zkv.Or(zkv.Or(m.Tag < 2, m.Tag-31 < 3), m.Tag == 1<<32-1))
	}
	text := ""
	if kind != 3 {
		text = zkv.Str("text", zkv.Choose("text length", 2))
	}
	var v interface{}
	switch kind {
	case 0:
		v = rpc.Pong{}
	case 1:
		v = rpc.RendezvousReply{Token: "1", Error: text}
	case 2:
		v = rpc.RendezvousPullReply{Error: text, Blob: zkv.Bytes("blob", 3)}
	case 3:
		who := zkAnyID("who")
		if zkv.Bool("known") {
			who = from
		}
		ps := rpc.Push{From: who, Received: zkAnyTime("received")}
		switch zkv.Choose("inside", 3) {
		case 0:
			ps.Payload = zkv.Bytes("inside", zkv.Choose("inside length", 3)*20)
		case 1:
			m.Cleartext = true
			var bb bytes.Buffer
			xdr.Marshal(&bb, rpc.ProxyCmd{Command: [2]uint32{rpc.ProxyCmdResetRatchet, 77}[zkv.Choose("proxy", 2)], Message: zkv.Str("text", 1)})
			ps.Payload = bb.Bytes()
		case 2:
			var bb bytes.Buffer
			xdr.Marshal(&bb, rpc.CRPC{Command: rpc.CRPCCmdPrivateMessage, Compression: rpc.CRPCCompNone})
			xdr.Marshal(&bb, rpc.PrivateMessage{Text: "x", Mode: rpc.MessageMode(zkv.U32("mode"))})
			var err error
			ps.Payload, err = r.Encrypt(nil, bb.Bytes())
			zkNo(err, "a message can be encrypted")
		}
		v = ps
	case 4:
		v = rpc.Acknowledge{ErrorCode: int(zkv.I32("code")), Error: text}
	case 5:
		f := rpc.IdentityFindReply{Nick: text, Error: zkv.Str("error", zkv.Choose("error length", 2))}
		switch zkv.Choose("identity", 3) {
		case 0:
			f.Identity = zkPerson("eve").Public
		case 1:
			f.Identity = z.id.Public
		}
		v = f
	case 6:
		v = rpc.ProxyReply{To: zkAnyID("who"), Error: text}
	default:
		v = rpc.Ping{}
	}
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, v)
	zkNo(err, "a message can be encoded")
	zkSurvives(z, p, m, bb.Bytes(), called)
	zkv.Reach("end")
}

func zkAnyTime(name string) int64 {
	return [4]int64{0, 1000, -1 << 63, 1<<63 - 1}[zkv.Choose(name, 4)]
}

// ZkvH_C04Welcome: the server sends any welcome message.
//
//zkv:prop C04
func ZkvH_C04Welcome() {
	z, _, _ := zkFrom()
	p := zkOnline(z)
	z.online, z.tagStack, z.tagCallback = false, nil, nil
	m := rpc.Message{Command: [3]string{rpc.SessionCmdWelcome, rpc.SessionCmdUnwelcome, "x"}[zkv.Choose("command", 3)]}
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, m)
	zkNo(err, "a message can be encoded")
	if zkv.Bool("raw") {
		n := zkv.Choose("length", zkv.Pick(5, 40))
		if zkv.Tier() == 0 {
			n = [5]int{0, 3, 8, 12, 20}[n]
		}
		bb.Write(zkv.Bytes("payload", n))
	} else {
		w := rpc.Welcome{Version: rpc.ProtocolVersion, ServerTime: 0}
		odd := zkv.Choose("odd", 9)
		if odd == 8 {
			w.Version = int(zkv.I32("version"))
		}
		for i, k := range []string{rpc.PropTagDepth, rpc.PropServerTime, rpc.PropMaxChunkSize, rpc.PropMaxMsgSize, rpc.PropMaxAttachmentSize, rpc.PropMOTD, rpc.PropDirectory, "x"} {
			v := "1"
			if i == odd {
				if zkv.Bool("missing") {
					continue
				}
				v = [4]string{"-2", "33", "9223372036854775807", "0"}[zkv.Choose("value", 4)]
				if zkv.Bool("free") {
					v = zkv.Str("free", zkv.Choose("value length", zkv.Pick(3, 4)))
				}
			} else if i == 7 {
				continue
			}
			w.Properties = append(w.Properties, rpc.ServerProperty{Key: k, Value: v, Required: i == odd && zkv.Bool("required")})
		}
		_, err = xdr.Marshal(&bb, w)
		zkNo(err, "a message can be encoded")
	}
	p.raw(bb.Bytes())
	w, err := z.welcomePhase(z.kx)
	zkv.Assert((err == nil) == (w != nil) && (err == nil) == z.online, "a login works or is reported")
	if err == nil {
		go z.handleRPC()
		zkNo(z.welcomeUser(w), "the user is greeted")
		p.send(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 5}, rpc.Push{From: zkA.Identity, Payload: []byte{1}})
		zkv.Quiesce()
		sent := zkSent(z)
		zkv.Assert(len(sent) > 0 && sent[len(sent)-1].msg.Command == rpc.TaggedCmdAcknowledge && sent[len(sent)-1].msg.Tag == 5, "the client answers")
		zkv.Reach("works")
	}
	zkv.Reach("end")
}
