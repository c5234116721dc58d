package main

import (
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// zkCerts are the certificates that a server shows, if it is not the expected
// one perhaps.
func zkCerts(l string) (r [][]byte) {
	n := zkv.Choose(l+" number", 3)
	for i := 0; i < n; i++ {
		k := 3
		if i == 0 && n == 1 {
			k = 2 + zkv.Choose(l+" length", 3)
		}
		r = append(r, zkv.Bytes(l, k))
	}
	return
}

func zkSame(certs [][]byte, cert []byte) bool {
	return len(certs) == 1 && len(certs[0]) == len(cert) && zkv.BytesEq(certs[0], cert)
}

// zkVisit lets z try to go online with h and checks the outcome.
func zkVisit(z *ZKC, h *zkHost, srv *zkidentity.FullIdentity, cert []byte) {
	h.listen()
	h.got = nil
	_, err := z.goOnline()
	zkv.Quiesce()
	zkv.Assert((err == nil) == z.isOnline(), "a client is online if it says so")
	if !zkSame(h.certs, cert) {
		zkv.Assert(err != nil, "a server with another certificate is refused")
		zkv.Assert(len(h.got) == 0 && h.conns[len(h.conns)-1].Pending() == 0, "nothing is sent to a server with another certificate")
		return
	}
	zkv.Assert((err == nil) == (h.id == srv), "the client gets a session with exactly the server that it knows")
	for _, c := range h.got {
		zkv.Assert(c == rpc.InitialCmdSession, "a known server is only asked for a session")
	}
}

// zkKnows checks what z knows about its server, now and after a restart.
func zkKnows(z *ZKC, srv zkidentity.PublicIdentity, cert []byte) *ZKC {
	y := zkRestarted(z)
	zkv.Assert(y != nil, "the server record is kept")
	for _, x := range []*ZKC{z, y} {
		zkv.Assert(x.serverIdentity != nil && *x.serverIdentity == srv, "the server's identity is kept")
		zkv.Assert(len(x.cert) == len(cert) && zkv.BytesEq(x.cert, cert), "the server's certificate is kept")
	}
	return y
}

// ZkvH_C09Pinned: whatever certificate and whichever keys the one at the
// server's address has.
//
//zkv:prop C09
func ZkvH_C09Pinned() {
	z := zkClient(zkPerson("me"))
	srv, evil := zkPerson("server"), zkPerson("evil")
	cert := []byte{1, 2, 3}
	zkStored(z, &srv.Public, cert)
	z.offline = true
	h := &zkHost{id: []*zkidentity.FullIdentity{srv, evil}[zkv.Choose("keys", 2)], certs: zkCerts("certificate")}
	zkVisit(z, h, srv, cert)
	y := zkKnows(z, srv.Public, cert)
	zkv.Reach("visited")
	if z.isOnline() {
		return
	}
	if zkv.Bool("twice") {
		zkVisit(z, h, srv, cert)
		y = zkKnows(z, srv.Public, cert)
	}
	if len(h.certs) != 1 {
		return
	}
	// it is the user who accepts another certificate
	if zkv.Bool("fault") {
		zkv.Quiesce()
		zkos.Arm(-1, zkv.Choose("at", 12))
		err := z.mw.action(cmdAcceptnewcert)
		hit := zkos.Faulted
		zkos.Disarm()
		zkv.Assume(hit)
		y = zkRestarted(z)
		zkv.Assert(y != nil, "the server record is kept")
		want := cert
		if err == nil {
			want = h.certs[0]
		}
		zkv.Assert(zkSame([][]byte{z.cert}, want), "a certificate is accepted unless there is an error")
		zkv.Assert(zkv.Or(zkSame([][]byte{y.cert}, want), zkSame([][]byte{y.cert}, h.certs[0])), "the server's certificate is kept")
		zkv.Reach("fault")
		return
	}
	err := z.mw.action(cmdAcceptnewcert)
	zkv.Assert((err == nil) == !zkSame(h.certs, cert), "a new certificate can be accepted, if there is one")
	if err == nil {
		cert = h.certs[0]
	}
	y = zkKnows(z, srv.Public, cert)
	if zkv.Bool("restart") {
		y.offline = true
		z = y
	}
	h2 := &zkHost{id: []*zkidentity.FullIdentity{srv, evil}[zkv.Choose("keys", 2)], certs: [][]byte{zkv.Bytes("certificate", len(cert))}}
	zkVisit(z, h2, srv, cert)
	zkKnows(z, srv.Public, cert)
	zkv.Reach("again")
}

// zkTyped enters the data of a new account.
func zkTyped(z *ZKC, token string) *welcomeWindow {
	ww := &welcomeWindow{zkc: z}
	z.ttkWW = ttk.NewWindow(ww)
	ww.name, ww.nick, ww.server, ww.token = "name me", "me", "10.0.0.1:12345", token
	zkEnter(z.ttkWW, ww, ww.tokenInput)
	zkv.Quiesce()
	return ww
}

// ZkvH_C09First: the first connection ever.
//
//zkv:prop C09
func ZkvH_C09First() {
	z := zkClient(zkPerson("me"))
	zkServerDir(z)
	z.offline = true
	srv, evil := zkPerson("server"), zkPerson("evil")
	h := &zkHost{id: srv, shows: srv.Public, certs: zkCerts("certificate")}
	genuine := true
	switch zkv.Choose("shown", 4) {
	case 0:
	case 1: // it claims to be somebody else
		h.id = evil
	case 2:
		h.id = evil
		h.shows = zkMix(evil, []*zkidentity.FullIdentity{srv, evil})
		genuine = h.shows == srv.Public || h.shows.Verify()
	case 3:
		var d bool
		h.shows, d = zkAltered(srv.Public)
		genuine = !d
	}
	h.listen()
	zkTyped(z, "12 34")
	if len(h.certs) != 1 {
		zkv.Assert(len(h.got) == 0, "nothing is sent to a server with a chain of certificates")
	}
	for _, c := range h.got {
		zkv.Assert(c == rpc.InitialCmdIdentify, "an unknown server is only asked who it is")
	}
	if z.ttkAW == nil {
		zkv.Assert(len(h.certs) != 1 || !genuine, "the user is asked about a genuine server")
		zkv.Reach("not asked")
		return
	}
	if zkv.Bool("refuse") {
		h.refuse = "no"
	}
	aw := z.ttkAW.Manager().(*acceptWindow)
	zkv.Assert(genuine, "the user is not asked about an identity that is not genuine")
	zkv.Assert(*aw.pid == h.shows, "the user is asked about the identity that was shown")
	answer := []string{"yes", "Yes", "no", "y", "", "yes "}[zkv.Choose("answer", 6)]
	aw.question = answer
	zkEnter(z.ttkAW, aw, aw.questionInput)
	zkv.Quiesce()
	yes := strings.ToLower(answer) == "yes"
	if !yes {
		zkv.Assert(len(h.got) == 1, "nothing is sent to a server that was not accepted")
	} else {
		zkv.Assert(len(h.created) == 1 && h.created[0].Token == "1234" && h.created[0].PublicIdentity == z.id.Public, "the account is created as the user wished")
		zkv.Assert(h.created[0].PublicIdentity.Verify() && h.created[0].PublicIdentity.Nick == "me", "the account is created with a genuine identity")
	}
	if !yes || h.refuse != "" || h.id.Public.Key != h.shows.Key {
		zkv.Assert(!z.isOnline() && zkRestarted(z) == nil, "a server is remembered only once there is a session")
		zkv.Reach("none")
		return
	}
	zkv.Assert(z.isOnline(), "an account that was created can be used")
	zkKnows(z, h.shows, h.certs[0])
	zkv.Reach("end")
}

// ZkvH_C09Imported: the server was imported, but there is no account yet.
//
//zkv:prop C09
func ZkvH_C09Imported() {
	z := zkClient(zkPerson("me"))
	zkServerDir(z)
	z.offline = true
	srv, evil := zkPerson("server"), zkPerson("evil")
	cert := []byte{1, 2, 3}
	z.serverIdentity, z.cert = &srv.Public, cert
	h := &zkHost{id: []*zkidentity.FullIdentity{srv, evil}[zkv.Choose("keys", 2)], certs: zkCerts("certificate")}
	h.shows = h.id.Public
	h.listen()
	zkTyped(z, "1234")
	if !zkSame(h.certs, cert) {
		zkv.Assert(len(h.got) == 0, "nothing is sent to a server with another certificate than the one that was imported")
	}
	ok := zkSame(h.certs, cert) && h.id == srv
	zkv.Assert(z.isOnline() == ok, "the client gets a session with exactly the server that was imported")
	if ok {
		zkKnows(z, srv.Public, cert)
	} else {
		zkv.Assert(zkRestarted(z) == nil, "a server is remembered only once there is a session")
	}
	zkv.Reach("end")
}
