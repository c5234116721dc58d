package main

import (
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	xdr "github.com/davecgh/go-xdr/xdr2"

	"fmt"
)

// zkSigned is a user with a proper identity and no account.
func zkSigned(z *ZKS, n int) *zkUser {
	fi, err := zkidentity.New(fmt.Sprintf("name%d", n), fmt.Sprintf("nick%d", n))
	zkNo(err, "an identity can be made")
	return &zkUser{srv: z, fi: fi}
}

const zkPending = zkRoot + "/pending/pending.ini"

// zkTokens are the tokens that an administrator issued and the times at which
// they expire.
func zkTokens(lines ...string) {
	zkos.Put(zkPending, []byte("# This file is autogenerated, DO NOT EDIT!\n"+strings.Join(lines, "\n")+"\n"))
}

// ask asks for an account.
func (u *zkUser) ask(token string) *zkLink {
	l := zkDial(u.srv)
	l.u = u
	_, err := xdr.Marshal(l.c, rpc.InitialCmdCreateAccount)
	zkNo(err, "a command can be sent")
	_, err = xdr.Marshal(l.c, rpc.CreateAccount{PublicIdentity: u.fi.Public, Token: token})
	zkNo(err, "a command can be sent")
	return l
}

// granted tells if the server says that the account was made.
func (l *zkLink) granted() bool {
	if !l.more() {
		return false
	}
	var r rpc.CreateAccountReply
	_, err := xdr.Unmarshal(l.c, &r)
	zkNo(err, "a reply can be read")
	return r.Error == ""
}

// create asks for an account and waits for the answer.
func (u *zkUser) create(token string) bool {
	l := u.ask(token)
	zkv.Quiesce()
	ok := l.granted()
	l.hangup()
	return ok
}

// zkAccounts is the number of accounts.
func zkAccounts(z *ZKS) int {
	n := 0
	for _, f := range zkos.Files(z.settings.Users) {
		if strings.Count(f, "/") == strings.Count(z.settings.Users, "/")+1 {
			n++
		}
	}
	return n
}
