package main

import (
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	xdr "github.com/davecgh/go-xdr/xdr2"

	"strings"
)

// ZkvH_V05Modes: a connection makes up to two requests and then starts a
// session as a user who is unknown, disabled, enabled or an impostor.
//
//zkv:prop V05
func ZkvH_V05Modes() {
	z := zkServer()
	z.settings.AllowIdentify = zkv.Bool("allow identify")
	z.settings.CreatePolicy = [3]string{"no", "yes", "token"}[zkv.Choose("policy", 3)]
	b := zkNewUser(z, 1)
	u := zkFresh(z, 2)
	who := zkv.Choose("who", 4)
	switch who {
	case 1:
		zkNo(z.account.Create(u.fi.Public, false), "an account can be created")
	case 2:
		zkNo(z.account.Create(u.fi.Public, false), "an account can be created")
		zkNo(z.account.Disable(u.id()), "an account can be disabled")
	case 3: // knows only the public key of b
		u.fi.Public = b.fi.Public
	}
	before := len(zkos.Files(zkRoot))
	l := zkDial(z)
	l.u = u
	created := false
	for i := zkv.Choose("requests", 3); i > 0 && !l.c.Closed(); i-- {
		if zkv.Bool("create") {
			_, err := xdr.Marshal(l.c, rpc.InitialCmdCreateAccount)
			zkNo(err, "a command can be sent")
			c := zkSigned(z, 3)
			_, err = xdr.Marshal(l.c, rpc.CreateAccount{PublicIdentity: c.fi.Public, Token: "token"})
			zkNo(err, "a command can be sent")
			zkv.Quiesce()
			if z.settings.CreatePolicy == "yes" {
				created = true
			} else {
				zkv.Assert(!z.account.Enabled(c.id()), "the policy decides on new accounts")
				zkv.Assert(l.c.Closed(), "a refused request ends the connection")
			}
		} else {
			_, err := xdr.Marshal(l.c, rpc.InitialCmdIdentify)
			zkNo(err, "a command can be sent")
			zkv.Quiesce()
			zkv.Assert(l.c.Pending() > 0 == z.settings.AllowIdentify, "the server identifies itself exactly if it may")
			zkv.Assert(l.c.Closed() != z.settings.AllowIdentify, "a refused request ends the connection")
		}
		if l.more() {
			l.c.Discard()
		}
	}
	if !created && z.settings.CreatePolicy != "token" {
		zkv.Assert(len(zkos.Files(zkRoot)) == before, "a connection without a session changes nothing")
	}
	if !l.c.Closed() {
		session.Init()
		_, err := xdr.Marshal(l.c, rpc.InitialCmdSession)
		zkNo(err, "a command can be sent")
		zkv.Quiesce()
		pub := z.id.Public.Key
		l.kx = &session.KX{Conn: l.c, MaxMessageSize: uint(z.settings.MaxMsgSize), OurPublicKey: &u.fi.Public.Key, OurPrivateKey: &u.fi.PrivateKey, TheirPublicKey: &pub}
		if who == 3 {
			go l.kx.Initiate()
		} else {
			zkNo(l.kx.Initiate(), "an honest key exchange works")
		}
		zkv.Quiesce()
	}
	if l.kx != nil && (who == 0 || who == 2) {
		zkv.Assert(l.c.Closed(), "only an enabled account gets a session")
		zkv.Assert(l.more() == (who == 2), "an unknown client is told nothing, a disabled one that it is disabled")
		if who == 2 {
			m, _ := l.recv()
			zkv.Assert(m.Command == rpc.SessionCmdUnwelcome && !l.more(), "an unknown client is told nothing, a disabled one that it is disabled")
		}
	}
	zkv.AssertK(len(z.sessions) == 0 || who == 1, who == 3, "public-key-session", "only an enabled account gets a session")
	zkv.Assert(!z.account.Enabled(u.id()) == (who == 0 || who == 2), "a connection does not change the state of an account")
	if who == 1 && !l.c.Closed() {
		m, _ := l.recv()
		zkv.Assert(m.Command == rpc.SessionCmdWelcome && l.registered(), "an enabled account gets a session")
		l.alive(1)
		zkv.Reach("session")
	}
	b.login().alive(2)
	zkv.Reach("end")
}

// zkFresh is a user without an account.
func zkFresh(z *ZKS, n int) *zkUser {
	u := zkNewUser(z, n)
	zkNo(zkos.RemoveAll(z.settings.Users+"/"+zkHex(u.id())), "the account can be removed")
	return u
}

// ZkvH_V05Race: the administrator disables an account while its user logs in.
//
//zkv:prop V05,V07
func ZkvH_V05Race() {
	z := zkServer()
	a := zkNewUser(z, 1)
	adm := zkAdmin(z)
	disable := func() {
		adm.send(`{"version":1,"command":"` + socketapi.SCUserDisable + `"}`)
		adm.send(`{"identity":"` + zkHex(a.id()) + `"}`)
	}
	hold, waiting, open := make(chan bool), 0, false
	when := zkv.Choose("when", zkv.Pick(4, 5))
	zkos.OpenHook = func(name string) {
		if name == z.settings.MOTD && !open {
			waiting++
			<-hold
		}
		if when == 3 && strings.HasSuffix(name, "/cache") { // the session looks for messages
			when = 0
			disable()
		}
	}
	var l *zkLink
	delays := zkv.Pick(1, 2)
	if when < 4 {
		l = a.connect()
		zkv.Quiesce()
	}
	switch when {
	case 0: // anything may happen first
		disable()
		zkv.Delays(delays)
	case 1:
		zkv.Delays(delays)
		disable()
	case 2: // the session continues when the request is done
		disable()
		zkv.Quiesce()
	case 3:
		zkv.Delays(delays)
	case 4:
		open = true
		zkv.Delays(delays)
		disable()
		l = a.connect()
	}
	open = true
	for ; waiting > 0; waiting-- {
		hold <- true
	}
	zkv.Quiesce()
	zkv.Delays(0)
	zkos.OpenHook = nil
	errs, ok := adm.reply()
	zkv.Assert(ok && errs == "" && z.account.Disabled(a.id()), "an account can be disabled")
	zkv.Assert(l.c.Closed() && !l.registered() && len(z.sessions) == 0, "a disabled account has no session")
	zkNo(z.account.Enable(a.id()), "an account can be enabled")
	l2 := a.login()
	l2.alive(1)
	zkv.Reach("end")
}
