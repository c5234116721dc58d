package main

import (
	"bytes"
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zktime"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
)

// zkLogged is a client that can send.
func zkLogged(p *zkidentity.FullIdentity, directory bool) *ZKC {
	z := zkClient(p)
	zkQueues(z)
	z.online, z.directory = true, directory
	z.tagStack = tagstack.New(tagDepth)
	return z
}

// zkCached are the messages in the queues that are for others.
func zkCached(z *ZKC) (r []rpc.Cache) {
	for _, m := range zkSent(z) {
		if c, ok := m.payload.(rpc.Cache); ok {
			r = append(r, c)
		}
	}
	return
}

// zkPush hands z what from sent it.
func zkPush(z *ZKC, from zkID, payload []byte) error {
	zktime.Clock += 5e9
	return z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, rpc.Push{From: from, Received: 1000, Payload: payload})
}

// zkEnter presses the enter key.
func zkEnter(w *ttk.Window, h ttk.Windower, widget ttk.Widgeter) {
	h.KeyHandler(w, ttk.Key{Key: termbox.KeyEnter, Widget: widget})
	zkv.Quiesce()
}

// zkAccepts answers the question whether to accept a fingerprint.
func zkAccepts(z *ZKC, pid *zkidentity.PublicIdentity, dk *[32]byte, isNew bool, answer string) {
	acw := &acceptCFPWindow{zkc: z, pid: pid, dk: dk, newIdentity: isNew}
	w := ttk.NewWindow(acw)
	acw.question = answer
	zkEnter(w, acw, acw.questionInput)
}

// zkTalks checks that both have each other as a contact, with the genuine
// keys, and that messages arrive in both directions.
func zkTalks(a, b *ZKC) {
	zkTold(a, b)
	zkTold(b, a)
	zkTold(a, b)
}

func zkTold(a, b *ZKC) {
	id, err := a.ab.FindIdentity(b.id.Public.Identity)
	zkNo(err, "both are contacts of each other")
	zkv.Assert(*id == b.id.Public, "a contact has the genuine keys")
	r, err := a.loadRatchet(b.id.Public.Identity, false)
	zkNo(err, "there is a ratchet")
	text := "hello from " + a.id.Public.Nick
	var bb bytes.Buffer
	_, err = xdr.Marshal(&bb, rpc.PrivateMessage{Text: text, Mode: rpc.MessageModeNormal})
	zkNo(err, "a message can be encoded")
	zkNo(zkPushed(b, r, a.id.Public.Identity, rpc.CRPC{Command: rpc.CRPCCmdPrivateMessage, Compression: rpc.CRPCCompNone}, bb.Bytes()), "a message arrives")
	zkNo(a.updateRatchet(r, false), "a ratchet can be saved")
	zkv.Assert(strings.Contains(zkShown(b, 1), text), "a message arrives")
}

// zkMix is an identity that somebody made from parts of others': of records
// with genuine keys; it is signed with the key of its maker or not at all.
func zkMix(maker *zkidentity.FullIdentity, who []*zkidentity.FullIdentity) zkidentity.PublicIdentity {
	var p zkidentity.PublicIdentity
	n := len(who)
	p.Name, p.Nick = who[zkv.Choose("name", 2)].Public.Name, who[zkv.Choose("nick", n)].Public.Nick
	p.Key = who[zkv.Choose("key", n)].Public.Key
	p.Identity = who[zkv.Choose("identity", n)].Public.Identity
	p.SigKey = who[zkv.Choose("sigkey", n)].Public.SigKey
	if d := who[0].Public; zkv.Bool("genuine digest") {
		p.Digest, p.Signature = d.Digest, d.Signature
		return p
	}
	f := zkidentity.FullIdentity{Public: p, PrivateSigKey: maker.PrivateSigKey}
	f.RecalculateDigest()
	return f.Public
}

// zkAltered is a genuine identity one byte of which is perhaps altered.
func zkAltered(p zkidentity.PublicIdentity) (zkidentity.PublicIdentity, bool) {
	d := zkv.U8("difference")
	switch zkv.Choose("field", 7) {
	case 0:
		b := []byte(p.Name)
		b[zkv.Choose("at", len(b))] ^= d
		p.Name = string(b)
	case 1:
		b := []byte(p.Nick)
		b[0] ^= d
		p.Nick = string(b)
	case 2:
		p.SigKey[5*zkv.Choose("at", 4)] ^= d
	case 3:
		p.Key[100*zkv.Choose("at", 4)] ^= d
	case 4:
		p.Identity[10*zkv.Choose("at", 4)] ^= d
	case 5:
		p.Digest[10*zkv.Choose("at", 4)] ^= d
	case 6:
		p.Signature[20*zkv.Choose("at", 4)] ^= d
	}
	return p, d != 0
}
