package main

import (
	"time"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktime"
)

// ZkvH_V04Token: an account is asked for under any policy with any token.
//
//zkv:prop V04
func ZkvH_V04Token() {
	z := zkServer()
	z.settings.CreatePolicy = [6]string{"no", "token", "yes", "", "TOKEN", "tokens"}[zkv.Choose("policy", 6)]
	now := zktime.Peek().Unix() // 1600000000
	zkTokens("a = 1600003600", "b = 1599999999", "c = junk", "a1 = 1600086400", "d = ", "e = 1600003600x", "f = 99999999999999999999")
	if zkv.Bool("later") {
		now += int64(zkv.U32("seconds"))
	}
	zktime.NowHook = func() time.Time { return time.Unix(now, 0) }
	t := zkv.BytesUpTo("token", 2)
	for _, c := range t {
		zkv.Assume(c < 0x80)
	}
	token := string(t)
	a, b := zkSigned(z, 1), zkSigned(z, 2)
	n := zkAccounts(z)
	ok := a.create(token)
	zktime.NowHook = nil
	expires := int64(0)
	switch token {
	case "a":
		expires = 1600003600
		zkv.Reach("token")
	case "a1":
		expires = 1600086400
	}
	want := z.settings.CreatePolicy == "yes"
	if z.settings.CreatePolicy == "token" {
		want = now <= expires
	}
	zkv.Assert(ok == want, "an account is created exactly if the policy allows it")
	zkv.Assert(z.account.Enabled(a.id()) == ok, "an account is created exactly if the client is told so")
	if ok {
		n++
	}
	zkv.Assert(zkAccounts(z) == n, "no other account appears")
	if ok {
		a.login().alive(1)
	}
	// the same token is presented again
	if zkv.Bool("restart") {
		z2 := zkServerOf(z.id)
		z2.settings = z.settings
		z, a.srv, b.srv = z2, z2, z2
	}
	zkv.Assert(b.create(token) == (z.settings.CreatePolicy == "yes"), "a token creates at most one account")
	zkv.Assert(z.account.Enabled(b.id()) == (z.settings.CreatePolicy == "yes"), "a token creates at most one account")
	// other tokens keep working
	if z.settings.CreatePolicy == "token" && token != "a" && zkv.Fork(now <= 1600003600) {
		zktime.NowHook = func() time.Time { return time.Unix(now, 0) }
		zkv.Assert(b.create("a"), "other tokens are not affected")
		zkv.Reach("other")
	}
	zkv.Reach("end")
}

// ZkvH_V04Identity: an account is asked for with an identity that is not in
// order, or that has an account.
//
//zkv:prop V04
func ZkvH_V04Identity() {
	z := zkServer()
	token := zkv.Bool("token")
	z.settings.CreatePolicy = "yes"
	if token {
		z.settings.CreatePolicy = "token"
		zkTokens("1234 = 1600003600")
	}
	a, b := zkSigned(z, 1), zkSigned(z, 2)
	zkNo(z.account.Create(b.fi.Public, false), "an account can be created")
	p := &a.fi.Public
	good := *p
	dis := false
	how := zkv.Choose("how", 9)
	switch how {
	case 0:
		p.Key[zkv.Choose("byte", zkv.Pick(2, 8))] ^= 1 + zkv.U8("change")&0x7f
	case 1:
		p.SigKey[0] ^= 1 + zkv.U8("change")&0x7f
	case 2:
		p.Identity[0] ^= 1 + zkv.U8("change")&0x7f
	case 3:
		p.Digest[0] ^= 1 + zkv.U8("change")&0x7f
	case 4:
		p.Signature[0] ^= 1 + zkv.U8("change")&0x7f
	case 5:
		p.Name = "other"
	case 6: // somebody else's handle
		p.Identity = b.fi.Public.Identity
		a.fi.RecalculateDigest()
	case 7: // an account that exists
		*p = b.fi.Public
	case 8:
		dis = true
		zkNo(z.account.Disable(b.id()), "an account can be disabled")
		*p = b.fi.Public
	}
	n := zkAccounts(z)
	before := zkos.Files(z.settings.Users)
	zkv.Assert(!a.create("1234"), "an account is created only for an identity that is in order and has none")
	zkv.Assert(zkAccounts(z) == n, "a refused creation leaves no account behind")
	after := zkos.Files(z.settings.Users)
	zkv.Assert(len(before) == len(after), "a refused creation leaves nothing behind")
	zkv.Assert(z.account.Disabled(b.id()) == dis && z.account.Enabled(b.id()) == !dis, "a refused creation changes no account")
	// the account still belongs to b
	if !dis {
		b.login().alive(1)
	}
	a.fi.Public = good
	if !token {
		zkv.Assert(a.create(""), "an account can be created after a refusal")
		a.login().alive(1)
	}
	zkv.Reach("end")
}

// ZkvH_V04Race: two or three accounts are asked for at the same time.
//
//zkv:prop V04
func ZkvH_V04Race() {
	z := zkServer()
	z.settings.CreatePolicy = "token"
	zkTokens("1 = 1600003600", "2 = 1600003600", "3 = 1500000000")
	us := [4]*zkUser{zkSigned(z, 1), zkSigned(z, 2), zkSigned(z, 3), zkSigned(z, 4)}
	ts := [2]string{"1", [3]string{"1", "2", "3"}[zkv.Choose("second", 3)]}
	same := zkv.Bool("same user")
	if same {
		us[1] = us[0]
	}
	// both requests have been read when either is handled
	hold, waiting := make(chan bool), 0
	zkos.OpenHook = func(name string) {
		if name == zkPending {
			waiting++
			<-hold
		}
	}
	var ls [2]*zkLink
	for i := range ls {
		ls[i] = us[i].ask(ts[i])
	}
	zkv.Quiesce()
	zkos.OpenHook = nil
	zkv.Delays(zkv.Pick(2, 3))
	for ; waiting > 0; waiting-- {
		hold <- true
	}
	zkv.Quiesce()
	zkv.Delays(0)
	ok := [2]bool{ls[0].granted(), ls[1].granted()}
	if ts[1] == "1" {
		zkv.Assert(!(ok[0] && ok[1]), "a token creates at most one account")
	} else if !same {
		zkv.Assert(ok[0] && ok[1] == (ts[1] == "2"), "a token that is valid creates an account")
	}
	for i := range ok {
		if !same {
			zkv.Assert(z.account.Enabled(us[i].id()) == ok[i], "an account is created exactly if the client is told so")
		}
	}
	zkv.Assert(!same || z.account.Enabled(us[0].id()) == (ok[0] || ok[1]), "an account is created exactly if the client is told so")
	zkv.Assert(!us[2].create("1"), "a token creates at most one account")
	zkv.Assert(us[2].create("2") == (ts[1] != "2"), "other tokens are not affected")
	zkv.Assert(!us[3].create("2"), "a token creates at most one account")
	zkv.Reach("end")
}

// ZkvH_V04Crash: the server dies, or a file operation fails, while an account
// is created.
//
//zkv:prop V04
func ZkvH_V04Crash() {
	z := zkServer()
	z.settings.CreatePolicy = "token"
	zkTokens("1 = 1600003600", "2 = 1600003600")
	us := [3]*zkUser{zkSigned(z, 1), zkSigned(z, 2), zkSigned(z, 3)}
	at := zkv.Choose("at", 40)
	crash := zkv.Bool("crash")
	zkos.CrashBlocks = true
	if crash {
		zkos.Arm(at, -1)
	} else {
		zkos.Arm(-1, at)
	}
	l := us[0].ask("1")
	zkv.Quiesce()
	zkv.Assume(zkos.Crashed || zkos.Faulted)
	zkos.Disarm()
	told := l.granted()
	if crash || zkv.Bool("restart") {
		z2 := zkServerOf(z.id)
		z2.settings = z.settings
		z = z2
		for _, u := range us {
			u.srv = z
		}
	}
	made := z.account.Enabled(us[0].id())
	zkv.Assert(!told || made, "an account is created if the client is told so")
	if !crash {
		zkv.Assert(made == told, "a refused creation leaves no account behind")
	}
	again := us[1].create("1")
	zkv.Assert(!made || !again, "a token creates at most one account")
	if again {
		zkv.Reach("again")
	}
	if told {
		us[0].login().alive(1)
	}
	zkv.Assert(!us[2].create("1") || !again && !made, "a token creates at most one account")
	zkv.Assert(us[2].create("2") || z.account.Enabled(us[2].id()), "other tokens are not affected")
	zkv.Reach("end")
}
