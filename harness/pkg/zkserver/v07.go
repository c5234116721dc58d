package main

import (
	"encoding/hex"
	"strings"

	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zkv"
)

// ZkvH_V07Request: a request to enable or disable any account is made.
//
//zkv:prop V07
func ZkvH_V07Request() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	la := a.login()
	var lb *zkLink
	disabled := zkv.Bool("disabled")
	if disabled {
		zkNo(z.account.Disable(b.id()), "an account can be disabled")
	} else if zkv.Bool("online") {
		lb = b.login()
	}
	id := b.id()
	s := hex.EncodeToString(id[:])
	known := true
	form := zkv.Choose("form", 8)
	switch form {
	case 1:
		s = strings.ToUpper(s)
	case 2: // another identity
		c := zkv.Bytes("id", 2)
		zkv.Assume(c[0] < 0x80 && c[1] < 0x80 && c[0] >= ' ' && c[1] >= ' ' && c[0] != '"' && c[1] != '"' && c[0] != '\\' && c[1] != '\\')
		s = string(c) + strings.Repeat("0", 62)
		known = false
	case 3:
		s = s[:62]
		known = false
	case 4:
		s += "00"
		known = false
	case 5:
		s = s[:63]
		known = false
	case 6:
		c := zkv.BytesUpTo("short", 3)
		for _, x := range c {
			zkv.Assume(x < 0x80 && x >= ' ' && x != '"' && x != '\\')
		}
		s = string(c)
		known = false
	case 7:
		s = s[:32] + "/../" + s[36:]
		known = false
	}
	cmd := [2]string{socketapi.SCUserDisable, socketapi.SCUserEnable}[zkv.Choose("command", 2)]
	adm := zkAdmin(z)
	adm.send(`{"version":1,"command":"` + cmd + `"}`)
	adm.send(`{"identity":"` + s + `"}`)
	zkv.Quiesce()
	works := known && disabled == (cmd == socketapi.SCUserEnable)
	errs, ok := adm.reply()
	zkv.Assert(ok, "a request is answered")
	zkv.Assert((errs == "") == works, "a request succeeds exactly if it names an account that can be changed so")
	zkv.Assert(z.account.Disabled(b.id()) == (disabled != works), "an account is changed exactly if a request for it succeeds")
	zkv.Assert(z.account.Enabled(b.id()) != z.account.Disabled(b.id()), "an account is enabled or disabled")
	zkv.Assert(z.account.Enabled(a.id()) && !z.account.Disabled(a.id()), "no other account is changed")
	if lb != nil {
		if cmd == socketapi.SCUserDisable && works {
			zkv.Assert(lb.c.Closed(), "disabling an account ends its session")
			zkv.Reach("knocked")
		} else if !known {
			lb.alive(2)
		}
	}
	la.alive(1)
	// the connection can be used again
	adm.send(`{"version":1,"command":"userenable"}`)
	adm.send(`{"identity":"zz"}`)
	zkv.Quiesce()
	errs, ok = adm.reply()
	zkv.Assert(ok && errs != "", "a request is answered")
	adm.c.Close()
	<-adm.done
	zkv.Reach("end")
}

// ZkvH_V07Bytes: any bytes arrive.
//
//zkv:prop V07
func ZkvH_V07Bytes() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	la := a.login()
	adm := zkAdmin(z)
	id := b.id()
	good := hex.EncodeToString(id[:])
	n := zkv.Pick(2, 3)
	switch zkv.Choose("where", 5) {
	case 0:
		adm.send(string(zkv.BytesUpTo("bytes", n+1)))
	case 1:
		adm.send(`{"version":` + string(zkv.BytesUpTo("bytes", n)) + `,"command":"userdisable"}`)
	case 2:
		adm.send(`{"version":1,"command":` + string(zkv.BytesUpTo("bytes", n)) + `}`)
	case 3:
		adm.send(`{"version":1,"command":"userdisable"}{"identity":` + string(zkv.BytesUpTo("bytes", n)) + `}`)
	case 4:
		adm.send(`{"version":1,"command":"user` + string(zkv.Bytes("bytes", 1)) + `isable"}{"identity":"` + good + `"}`)
	}
	adm.c.CloseWrite()
	<-adm.done
	errs, ok := adm.reply()
	if ok && errs == "" {
		zkv.Reach("done")
		zkv.Assert(z.account.Disabled(b.id()), "a request that succeeds takes effect")
	} else {
		zkv.Assert(z.account.Enabled(b.id()), "only a well-formed request changes an account")
	}
	zkv.Assert(z.account.Enabled(a.id()) && !z.account.Disabled(a.id()), "no other account is changed")
	la.alive(1)
	zkv.Reach("end")
}

// ZkvH_V07Version: requests of another version or kind are refused.
//
//zkv:prop V07
func ZkvH_V07Version() {
	z := zkServer()
	b := zkNewUser(z, 2)
	id := b.id()
	v := [6]string{"0", "2", "-1", "1.0", `"1"`, "18446744073709551617"}[zkv.Choose("version", 6)]
	cmd := "userdisable"
	if k := zkv.Choose("command", 4); k > 0 {
		v = "1"
		cmd = [4]string{"", "userdelete", "USERDISABLE", ""}[k]
	}
	adm := zkAdmin(z)
	adm.send(`{"version":` + v + `,"command":"` + cmd + `"}`)
	adm.trySend(`{"identity":"` + hex.EncodeToString(id[:]) + `"}`)
	<-adm.done
	_, ok := adm.reply()
	zkv.Assert(!ok && adm.c.Closed(), "a request of another version or kind is refused")
	zkv.Assert(z.account.Enabled(b.id()), "only a well-formed request changes an account")
	zkv.Reach("end")
}
