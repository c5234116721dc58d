package main

import (
	"encoding/hex"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// findReply reads the answer to a lookup.
func (l *zkLink) findReply(tag uint32, nick string) (*zkidentity.PublicIdentity, bool) {
	if !l.more() {
		return nil, false
	}
	m, br := l.recv()
	zkv.Assert(m.Command == rpc.TaggedCmdIdentityFindReply && m.Tag == tag, "a request is answered by the reply to it")
	var r rpc.IdentityFindReply
	_, err := xdr.Unmarshal(br, &r)
	zkNo(err, "a message of the server can be decoded")
	zkv.Assert(r.Nick == nick, "an answer names what was asked for")
	if r.Error != "" {
		var none zkidentity.PublicIdentity
		zkv.Assert(r.Identity == none, "an error reveals nothing")
		return nil, true
	}
	return &r.Identity, true
}

func (l *zkLink) find(nick string) *zkidentity.PublicIdentity {
	l.send(rpc.TaggedCmdIdentityFind, 9, rpc.IdentityFind{Nick: nick})
	zkv.Quiesce()
	id, ok := l.findReply(9, nick)
	zkv.Assert(ok, "a lookup is answered")
	return id
}

// ZkvH_V08Find: any nick is looked up, whatever other accounts there are.
//
//zkv:prop V08
func ZkvH_V08Find() {
	z := zkServer()
	a, b, c, d := zkSigned(z, 1), zkSigned(z, 2), zkSigned(z, 3), zkSigned(z, 4)
	a.fi.Public.Nick, b.fi.Public.Nick, c.fi.Public.Nick, d.fi.Public.Nick = "an", "bn", "b ", "d"
	for _, u := range []*zkUser{a, b, c, d} {
		u.fi.RecalculateDigest()
		if u != d {
			zkNo(z.account.Create(u.fi.Public, false), "an account can be created")
		}
	}
	// b and c were online while there was a directory, a was not
	z.settings.Directory = true
	b.login().hangup()
	lc := c.login()
	if zkv.Bool("twice") {
		lc.hangup()
		lc = c.login()
	}
	z.settings.Directory = false
	id := d.id()
	dir := z.settings.Users + "/" + hex.EncodeToString(id[:])
	switch zkv.Choose("fourth", 5) {
	case 1: // the creation was cut short
		zkNo(zkos.MkdirAll(dir, 0700), "a directory can be made")
	case 2:
		zkNo(z.account.Create(d.fi.Public, false), "an account can be created")
		zkNo(z.account.Disable(id), "an account can be disabled")
	case 3:
		zkos.Put(dir+"/user.ini", []byte("# This file is autogenerated, DO NOT EDIT!\nidentity = %%%\nlisted = 1\n"))
	case 4:
		zkos.Put(dir+"/user.ini", []byte("[[[\n"))
	}
	if zkv.Bool("restart") {
		z = zkServerOf(z.id)
		a.srv = z
	}
	la := a.login()
	n := zkv.BytesUpTo("nick", 3)
	for _, x := range n {
		zkv.Assume(x < 0x80)
	}
	nick := string(n)
	p := la.find(nick)
	switch {
	case nick == "bn":
		zkv.Assert(p != nil && *p == b.fi.Public, "a lookup yields the identity that has the nick")
		zkv.Assert(p.Verify(), "an identity that was looked up verifies")
		zkv.Reach("b")
	case nick == "b ":
		zkv.Assert(p != nil && *p == c.fi.Public, "a lookup yields the identity that has the nick")
		zkv.Reach("c")
	default:
		zkv.Assert(p == nil, "a lookup yields nobody but who is listed under that very nick")
	}
	la.alive(1)
	zkv.Reach("end")
}

// ZkvH_V08Race: lookups while accounts are made, log in and are disabled.
//
//zkv:prop V08
func ZkvH_V08Race() {
	z := zkServer()
	z.settings.Directory = true
	z.settings.CreatePolicy = "yes"
	a, b, c := zkSigned(z, 1), zkSigned(z, 2), zkSigned(z, 3)
	zkNo(z.account.Create(a.fi.Public, false), "an account can be created")
	zkNo(z.account.Create(b.fi.Public, false), "an account can be created")
	la := a.login()
	b.login().hangup()
	what := zkv.Choose("what", 3)
	adm := zkAdmin(z)
	hold, waiting := make(chan bool), 0
	if what == 2 {
		zkNo(z.account.Create(c.fi.Public, false), "an account can be created")
		zkos.OpenHook = func(name string) {
			if name == z.settings.MOTD {
				waiting++
				<-hold
			}
		}
		c.connect()
		zkv.Quiesce()
		zkos.OpenHook = nil
	}
	zkv.Delays(zkv.Pick(1, 2))
	switch what {
	case 0:
		c.ask("")
	case 1:
		adm.send(`{"version":1,"command":"userdisable"}`)
		adm.send(`{"identity":"` + zkHex(a.id()) + `"}`)
	case 2:
		for ; waiting > 0; waiting-- {
			hold <- true
		}
	}
	la.trySend(rpc.TaggedCmdIdentityFind, 9, rpc.IdentityFind{Nick: b.fi.Public.Nick})
	zkv.Quiesce()
	zkv.Delays(0)
	if la.live() {
		p, ok := la.findReply(9, b.fi.Public.Nick)
		zkv.Assert(ok, "a lookup is answered")
		zkv.Assert(p != nil && *p == b.fi.Public, "a lookup yields the identity that has the nick")
	}
	zkv.Assert(la.live() == (what != 1), "only who is disabled loses the session")
	if what != 1 {
		p := la.find(c.fi.Public.Nick)
		zkv.Assert((p != nil) == (what == 2), "exactly who was online is listed")
		zkv.Assert(p == nil || *p == c.fi.Public, "a lookup yields the identity that has the nick")
	}
	zkv.Reach("end")
}
