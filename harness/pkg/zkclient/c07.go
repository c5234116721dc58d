package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"path"
	"strings"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktime"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// ZkvH_C07Honest: two users who do as they should become contacts, with a
// password and with a directory.
//
//zkv:prop C07
func ZkvH_C07Honest() {
	me, bob := zkPerson("me"), zkPerson("bob")
	directory := zkv.Bool("directory")
	z, y := zkLogged(me, directory), zkLogged(bob, directory)
	if directory {
		zkNo(z.find("bob"), "a search can be made")
		p := zkFinder(z)
		p(rpc.IdentityFindReply{Nick: "bob", Identity: bob.Public})
	} else {
		// y invites z with a password
		y.kw.password = "secret"
		zkEnter(y.ttkKW, y.kw, y.kw.passwordInput)
		var blob []byte
		for _, m := range zkSent(y) {
			if r, ok := m.payload.(rpc.Rendezvous); ok {
				blob = r.Blob
			}
		}
		zkv.Assert(len(blob) > 0, "an invitation is sent")
		z.kaw.rendezvousPullReply = &rpc.RendezvousPullReply{Blob: blob}
		z.kaw.password = "secret"
		zktime.Clock += 5e9
		zkEnter(z.ttkKAW, z.kaw, z.kaw.passwordInput)
		zkv.Assert(z.ttkACFPW != nil, "the user is asked")
		acw := z.ttkACFPW.Manager().(*acceptCFPWindow)
		zkv.Assert(*acw.pid == y.id.Public, "the user is asked about the genuine identity")
		acw.question = "yes"
		zkEnter(z.ttkACFPW, acw, acw.questionInput)
	}
	got := zkCached(z)
	zkv.Assert(len(got) == 1 && got[0].To == bob.Public.Identity, "a key exchange is started")
	zkNo(zkPush(y, me.Public.Identity, got[0].Payload), "a key exchange is answered")
	got = zkCached(y)
	zkv.Assert(len(got) == 1 && got[0].To == me.Public.Identity, "a key exchange is answered")
	zkNo(zkPush(z, bob.Public.Identity, got[0].Payload), "a key exchange is finished")
	zkTalks(y, z)
	zkv.Reach("end")
}

// zkFinder makes a connection on which the server answers a search.
func zkFinder(z *ZKC) func(rpc.IdentityFindReply) {
	p := zkOnline(z)
	tag, err := z.tagStack.Pop()
	zkNo(err, "there are tags")
	go z.handleRPC()
	return func(r rpc.IdentityFindReply) {
		p.send(rpc.Message{Command: rpc.TaggedCmdIdentityFindReply, Tag: tag}, r)
		zkv.Quiesce()
		zkv.Assert(z.isOnline(), "an answer to a search is handled")
	}
}

// zkKept are the files of z that are about users.
func zkKept(z *ZKC) map[string]string {
	r := map[string]string{}
	for _, f := range zkos.Files(path.Join(z.settings.Root, inboundDir)) {
		if b, ok := zkos.Peek(f); ok {
			r[f] = string(b)
		}
	}
	return r
}

// zkUntouched checks that nothing is kept about users other than allowed.
func zkUntouched(z *ZKC, before map[string]string, allowed zkID) {
	after := zkKept(z)
	for f, b := range before {
		a, ok := after[f]
		zkv.Assert(ok, "nobody else's keys are changed")
		zkv.Assert(zkv.BytesEq([]byte(a), []byte(b)), "nobody else's keys are changed")
	}
	mine := path.Join(z.settings.Root, inboundDir, hex.EncodeToString(allowed[:])) + "/"
	for f := range after {
		_, was := before[f]
		if !was {
			zkv.Assert(strings.HasPrefix(f, mine), "keys are kept under the identity of the one they are from")
		}
	}
}

// zkStep2 is what the second step of an exchange receives.
func zkStep2(s *zkidentity.FullIdentity, id zkidentity.PublicIdentity, to *zkidentity.FullIdentity, key *[32]byte) []byte {
	r := ratchet.New(rand.Reader)
	r.MyPrivateKey, r.MySigningPublic = &s.PrivateKey, &s.Public.SigKey
	r.TheirIdentityPublic, r.TheirSigningPublic, r.TheirPublicKey = &to.Public.Identity, &to.Public.SigKey, &to.Public.Key
	kx := new(ratchet.KeyExchange)
	zkNo(r.FillKeyExchange(kx), "a key exchange works")
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.IdentityKX{Identity: id, KX: *kx})
	zkNo(err, "a message can be encoded")
	var head []byte
	if key == nil {
		c, k, err := sntrup4591761.Encapsulate(rand.Reader, &to.Public.Key)
		zkNo(err, "a key can be encapsulated")
		head, key = c[:], k
	}
	enc, nonce, err := blobshare.Encrypt(bb.Bytes(), key)
	zkNo(err, "a message can be encrypted")
	return append(head, blobshare.PackNonce(nonce, enc)...)
}

// ZkvH_C07Forged: mallory, who may start an exchange, does so with an identity
// that is not hers.
//
//zkv:prop C07
func ZkvH_C07Forged() {
	me, bob, mallory, alice := zkPerson("me"), zkPerson("bob"), zkPerson("mallory"), zkPerson("alice")
	directory := zkv.Bool("directory")
	z := zkLogged(me, directory)
	zkContact(z, alice)
	var key *[32]byte
	if !directory {
		key = &[32]byte{1, 2, 3}
		zkNo(z.saveKey(key), "a key can be saved")
	}
	var id zkidentity.PublicIdentity
	genuine := false
	switch zkv.Choose("forged", 4) {
	case 0:
		id = zkMix(mallory, []*zkidentity.FullIdentity{bob, mallory})
	case 1:
		id = zkMix(mallory, []*zkidentity.FullIdentity{alice, mallory})
	case 2:
		var altered bool
		id, altered = zkAltered(mallory.Public)
		genuine = !altered
	case 3:
		id = [4]*zkidentity.FullIdentity{me, bob, alice, mallory}[zkv.Choose("whose", 4)].Public
	}
	before := zkKept(z)
	zkPush(z, mallory.Public.Identity, zkStep2(mallory, id, me, key))
	zkUntouched(z, before, mallory.Public.Identity)
	a, err := z.ab.FindIdentity(alice.Public.Identity)
	zkv.Assert(err == nil && *a == alice.Public, "a contact keeps its keys")
	zkv.Assert(zkAll(z, me, bob) == 0, "nobody becomes a contact who does not take part")
	m, err := z.ab.FindIdentity(mallory.Public.Identity)
	zkv.Assert(!genuine || err == nil, "who may become a contact becomes one")
	if err == nil {
		zkv.Reach("contact")
		_, err = z.loadIdentity(mallory.Public.Identity)
		zkNo(err, "a contact's identity verifies")
		zkv.Assert(m.Key == mallory.Public.Key, "a contact's key is the genuine one")
	}
	for _, c := range zkCached(z) {
		zkv.Assert(c.To == mallory.Public.Identity, "only the other side of an exchange gets an answer")
	}
	zkv.Reach("end")
}

// zkAll counts the contacts among some people.
func zkAll(z *ZKC, who ...*zkidentity.FullIdentity) (n int) {
	for _, p := range who {
		if _, err := z.ab.FindIdentity(p.Public.Identity); err == nil {
			n++
		}
	}
	return
}

// ZkvH_C07Find: the directory answers a search, or one that was not made,
// with any identity.
//
//zkv:prop C07
func ZkvH_C07Find() {
	me, bob, alice := zkPerson("me"), zkPerson("bob"), zkPerson("alice")
	z := zkLogged(me, true)
	zkContact(z, alice)
	searched := zkv.Bool("searched")
	if searched {
		zkNo(z.find("bob"), "a search can be made")
	}
	zkSent(z)
	var id zkidentity.PublicIdentity
	bad := false
	switch zkv.Choose("forged", 4) {
	case 0:
		id = zkMix(bob, []*zkidentity.FullIdentity{alice, bob})
		bad = !id.Verify()
	case 1:
		id, bad = zkAltered(bob.Public)
	case 2:
		id, bad = [2]*zkidentity.FullIdentity{me, alice}[zkv.Choose("whose", 2)].Public, true
	case 3:
		id = bob.Public
	}
	refused := ""
	if zkv.Bool("refused") {
		refused = "not found"
	}
	before := zkKept(z)
	answer := zkFinder(z)
	nick := [3]string{"bob", "alice", ""}[zkv.Choose("asked", 3)]
	answer(rpc.IdentityFindReply{Nick: nick, Error: refused, Identity: id})
	zkUntouched(z, before, id.Identity)
	zkv.Assert(zkAll(z, me, bob) == 0, "nobody becomes a contact who did not take part")
	a, err := z.ab.FindIdentity(alice.Public.Identity)
	zkv.Assert(err == nil && *a == alice.Public, "a contact keeps its keys")
	sent := zkCached(z)
	bad = zkv.Or(bad, !searched || nick != "bob" || refused != "" || id.Identity == alice.Public.Identity)
	zkv.Assert(zkv.Or(!bad, len(sent) == 0 && len(zkKept(z)) == len(before)), "an identity that is not valid or not asked for does nothing")
	zkv.Assert(zkv.Or(bad, len(sent) == 1 && z.identityExists(id.Identity)), "an exchange is started")
	if len(sent) == 1 {
		zkv.Reach("started")
		zkv.Assert(sent[0].To == id.Identity, "an exchange is started")
		if id.Key == bob.Public.Key {
			y := zkLogged(bob, true)
			err := zkPush(y, me.Public.Identity, sent[0].Payload)
			zkNo(err, "the found one can answer")
		}
	}
	zkv.Reach("end")
}

// ZkvH_C07Step3: an exchange is under way with bob and perhaps one with
// mallory; what finishes it comes from either, with the key of either.
//
//zkv:prop C07
func ZkvH_C07Step3() {
	me, bob, mallory := zkPerson("me"), zkPerson("bob"), zkPerson("mallory")
	z := zkLogged(me, false)
	keys := [3]*[32]byte{&[32]byte{1}, &[32]byte{2}, &[32]byte{3}}
	zkAccepts(z, &bob.Public, keys[0], true, "yes")
	two := zkv.Bool("mallory too")
	if two {
		zktime.Clock += 5e9
		zkAccepts(z, &mallory.Public, keys[1], true, "yes")
	}
	sent := zkCached(z)
	zkv.Assert(sent[0].To == bob.Public.Identity, "an exchange is started")
	before := zkKept(z)
	// what the other side answers with
	whom := [2]*zkidentity.FullIdentity{bob, mallory}[zkv.Choose("made for", 2)]
	offer := sent[0].Payload
	ok := whom == bob
	if whom == mallory {
		if !two {
			zkv.Stop()
		}
		offer = sent[1].Payload
	}
	y := zkLogged(whom, false)
	for i := 0; i < 2; i++ {
		zktime.Clock += 5e9
		zkNo(y.saveKey(keys[i]), "a key can be saved")
	}
	zkNo(zkPush(y, me.Public.Identity, offer), "an exchange is answered")
	answer := zkCached(y)
	payload := answer[0].Payload
	from := [2]*zkidentity.FullIdentity{bob, mallory}[zkv.Choose("from", 2)]
	if from == mallory && !two {
		zkv.Stop() // that is another exchange's beginning
	}
	if zkv.Bool("again sealed") {
		// the content moves to another key
		nonce, enc, err := blobshare.UnpackNonce(payload)
		zkNo(err, "the answer can be opened")
		k := 0
		if whom == mallory {
			k = 1
		}
		b, err := blobshare.Decrypt(keys[k], nonce, enc)
		zkNo(err, "the answer can be opened")
		k = zkv.Choose("key", 3)
		if k == 2 || k == 1 && !two {
			ok = false
		}
		enc, nonce, err = blobshare.Encrypt(b, keys[k])
		zkNo(err, "an answer can be sealed")
		payload = blobshare.PackNonce(nonce, enc)
	}
	err := zkPush(z, from.Public.Identity, payload)
	after := zkKept(z)
	for _, p := range [2]*zkidentity.FullIdentity{bob, mallory} {
		dir := path.Join(z.settings.Root, inboundDir, p.Public.String())
		c, err := z.ab.FindIdentity(p.Public.Identity)
		zkv.Assert(zkv.BytesEq([]byte(after[path.Join(dir, identityFilename)]), []byte(before[path.Join(dir, identityFilename)])), "an identity that was accepted stays as it is")
		if err == nil {
			zkv.Assert(p == from, "only the other side can finish an exchange")
			zkv.Assert(*c == p.Public, "a contact has the genuine keys")
		}
		if p != from {
			h := path.Join(dir, halfRatchetFilename)
			zkv.Assert(zkv.BytesEq([]byte(after[h]), []byte(before[h])) && !z.ratchetExists(p.Public.Identity), "only the other side can finish an exchange")
		}
	}
	if ok && from == bob {
		zkNo(err, "the other side can finish an exchange")
		zkv.Reach("finished")
		zkTold(y, z)
	}
	zkv.Reach("end")
}

// ZkvH_C07Accept: an invitation that is perhaps altered is shown to the user,
// who answers anything.
//
//zkv:prop C07
func ZkvH_C07Accept() {
	me, bob, alice := zkPerson("me"), zkPerson("bob"), zkPerson("alice")
	z := zkLogged(me, false)
	zkContact(z, alice)
	var id zkidentity.PublicIdentity
	bad := false
	switch zkv.Choose("forged", 4) {
	case 0:
		id = zkMix(bob, []*zkidentity.FullIdentity{alice, bob})
		bad = !id.Verify() || id.Identity == alice.Public.Identity
	case 1:
		id, bad = zkAltered(bob.Public)
	case 2:
		id, bad = [2]*zkidentity.FullIdentity{me, alice}[zkv.Choose("whose", 2)].Public, true
	case 3:
		id = bob.Public
	}
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, id)
	zkNo(err, "an identity can be encoded")
	blobshare.SetNrp(32768, 16, 2)
	key, salt, err := blobshare.NewKey([]byte("secret"))
	zkNo(err, "a key can be made")
	enc, nonce, err := blobshare.Encrypt(bb.Bytes(), key)
	zkNo(err, "an identity can be sealed")
	z.kaw.rendezvousPullReply = &rpc.RendezvousPullReply{Blob: blobshare.PackSaltNonce(salt, nonce, enc)}
	z.kaw.password = "secret"
	if zkv.Bool("wrong password") {
		z.kaw.password, bad = "Secret", true
	}
	before := zkKept(z)
	zkEnter(z.ttkKAW, z.kaw, z.kaw.passwordInput)
	zkUntouched(z, before, id.Identity)
	zkv.Assert(len(zkKept(z)) == len(before) && len(zkSent(z)) == 0, "nothing is done without the user")
	zkv.Assert(zkv.Or(!bad, z.ttkACFPW == nil), "an invalid identity is not shown to the user")
	zkv.Assert(zkv.Or(bad, z.ttkACFPW != nil), "an invitation is shown to the user")
	if z.ttkACFPW != nil {
		acw := z.ttkACFPW.Manager().(*acceptCFPWindow)
		acw.question = zkv.StrUpTo("answer", 3)
		ascii := true
		for i := 0; i < len(acw.question); i++ {
			ascii = zkv.And(ascii, acw.question[i] < 0x80)
		}
		zkv.Assume(ascii)
		zkEnter(z.ttkACFPW, acw, acw.questionInput)
		zkUntouched(z, before, id.Identity)
		sent := zkCached(z)
		yes := len(acw.question) == 3
		for i := 0; yes && i < 3; i++ {
			yes = zkv.And(yes, acw.question[i]|0x20 == "yes"[i])
		}
		zkv.Assert(zkv.Implies(!yes, len(sent) == 0 && len(zkKept(z)) == len(before)), "nothing is done without the user")
		zkv.Assert(zkv.Implies(yes, len(sent) == 1 && z.identityExists(id.Identity)), "an exchange is started")
		if len(sent) == 1 {
			zkv.Reach("accepted")
			zkv.Assert(sent[0].To == id.Identity, "an exchange is started")
		}
	}
	zkv.Reach("end")
}
