package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zkserver/settings"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zknet"
	"github.com/companyzero/zkc/zkv/zkrand"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

const zkRoot = "/srv/zk"

type zkID = [zkidentity.IdentitySize]byte

func zkNo(err error, what string) { zkv.Assert(err == nil, what) }

func zkServer() *ZKS {
	id, err := zkidentity.New("zkserver", "zkserver")
	zkNo(err, "the server has an identity")
	return zkServerOf(id)
}

// zkServerOf starts a server on whatever the file system holds.
func zkServerOf(id *zkidentity.FullIdentity) *ZKS {
	z := &ZKS{sessions: make(map[string]*sessionContext), settings: settings.New()}
	z.settings.Root = zkRoot
	z.settings.Users = zkRoot + "/users"
	z.settings.MOTD = zkRoot + "/motd"
	z.settings.CreatePolicy = "no"
	z.settings.AllowIdentify = true
	var err error
	zkNo(os.MkdirAll(zkRoot, 0700), "the root directory can be made")
	z.Debug, err = debug.New("/dev/null", "15:04:05")
	zkNo(err, "logging starts")
	z.Register(idApp, "[APP]")
	z.Register(idRPC, "[RPC]")
	z.Register(idS, "[SES]")
	z.Register(idSock, "[SOC]")
	z.id = id
	z.account, err = account.New(z.settings.Users)
	zkNo(err, "the account service starts")
	return z
}

// zkUser is a user of the server and, while connected, one connection.
type zkUser struct {
	fi  *zkidentity.FullIdentity
	srv *ZKS
}

func zkNewUser(z *ZKS, n int) *zkUser {
	u := &zkUser{srv: z, fi: new(zkidentity.FullIdentity)}
	pub, priv, err := sntrup4591761.GenerateKey(rand.Reader)
	zkNo(err, "a key can be made")
	u.fi.Public.Name, u.fi.Public.Nick = fmt.Sprintf("name%d", n), fmt.Sprintf("nick%d", n)
	u.fi.Public.Key, u.fi.PrivateKey = *pub, *priv
	u.fi.Public.Identity = sha256.Sum256(u.fi.Public.Key[:])
	zkNo(z.account.Create(u.fi.Public, false), "an account can be created")
	return u
}

func (u *zkUser) id() zkID { return u.fi.Public.Identity }

// zkLink is a connection to the server.
type zkLink struct {
	u    *zkUser
	c    *zknet.Conn
	s    *zknet.Conn // the server's end
	kx   *session.KX
	done chan bool // the server is done with the connection
}

func zkDial(z *ZKS) *zkLink {
	l := &zkLink{done: make(chan bool, 1)}
	var sc *zknet.Conn
	l.c, sc = zknet.Pipe()
	l.s = sc
	go func() {
		z.preSession(sc)
		l.done <- true
	}()
	return l
}

// connect makes a session up to and including the welcome.
func (u *zkUser) connect() *zkLink {
	session.Init() // the server's ephemeral keys, not those of the last client
	l := zkDial(u.srv)
	l.u = u
	_, err := xdr.Marshal(l.c, rpc.InitialCmdSession)
	zkNo(err, "a command can be sent")
	zkv.Quiesce() // both ends share the ephemeral keys of this process
	pub := u.srv.id.Public.Key
	l.kx = &session.KX{Conn: l.c, MaxMessageSize: uint(u.srv.settings.MaxMsgSize), OurPublicKey: &u.fi.Public.Key, OurPrivateKey: &u.fi.PrivateKey, TheirPublicKey: &pub}
	zkNo(l.kx.Initiate(), "an honest key exchange works")
	return l
}

// login is connect, for a user who is welcome.
func (u *zkUser) login() *zkLink {
	l := u.connect()
	m, br := l.recv()
	zkv.Assert(m.Command == rpc.SessionCmdWelcome, "the server welcomes an enabled account")
	var w rpc.Welcome
	_, err := xdr.Unmarshal(br, &w)
	zkNo(err, "the welcome can be read")
	zkv.Quiesce()
	return l
}

func (l *zkLink) raw(b []byte) { zkNo(l.kx.Write(b), "a message can be sent") }

func (l *zkLink) send(cmd string, tag uint32, payload interface{}) {
	zkNo(l.trySend(cmd, tag, payload), "a message can be sent")
}

func (l *zkLink) trySend(cmd string, tag uint32, payload interface{}) error {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, rpc.Message{Command: cmd, Tag: tag})
	zkNo(err, "a message can be encoded")
	_, err = xdr.Marshal(&bb, payload)
	zkNo(err, "a payload can be encoded")
	return l.kx.Write(bb.Bytes())
}

// recv reads the next message; the harness must know that there is one.
func (l *zkLink) recv() (rpc.Message, *bytes.Reader) {
	var m rpc.Message
	b, err := l.kx.Read()
	zkNo(err, "a message of the server can be read")
	br := bytes.NewReader(b)
	_, err = xdr.Unmarshal(br, &m)
	zkNo(err, "a message of the server can be decoded")
	return m, br
}

func (l *zkLink) more() bool { return l.c.Pending() > 0 }

func (l *zkLink) hangup() {
	l.c.Close()
	<-l.done
	zkv.Quiesce()
}

// alive checks that a session still gets answers.
func (l *zkLink) alive(tag uint32) {
	l.send(rpc.TaggedCmdPing, tag, rpc.Ping{})
	zkv.Quiesce()
	zkv.Assert(l.more(), "another user's ping is answered")
	m, _ := l.recv()
	for m.Command == rpc.TaggedCmdPush && l.more() {
		m, _ = l.recv()
	}
	zkv.Assert(m.Command == rpc.TaggedCmdPong && m.Tag == tag, "a ping is answered with a pong that carries its tag")
}

// replyTo is the command that answers cmd.
func replyTo(cmd string) string {
	switch cmd {
	case rpc.TaggedCmdPing:
		return rpc.TaggedCmdPong
	case rpc.TaggedCmdRendezvous:
		return rpc.TaggedCmdRendezvousReply
	case rpc.TaggedCmdRendezvousPull:
		return rpc.TaggedCmdRendezvousPullReply
	case rpc.TaggedCmdCache:
		return rpc.TaggedCmdAcknowledge
	case rpc.TaggedCmdIdentityFind:
		return rpc.TaggedCmdIdentityFindReply
	case rpc.TaggedCmdProxy:
		return rpc.TaggedCmdProxyReply
	}
	return ""
}

var zkCommands = []string{rpc.TaggedCmdPing, rpc.TaggedCmdAcknowledge, rpc.TaggedCmdRendezvousPull, rpc.TaggedCmdCache, rpc.TaggedCmdProxy,
	rpc.TaggedCmdIdentityFind, rpc.TaggedCmdRendezvous, rpc.TaggedCmdPush, "nonsense", ""}

// pins makes the next rendezvous names those given.
func pins(n ...uint64) {
	for _, v := range n {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(v >> (8 * uint(7-i)))
		}
		zkrand.Force(b)
	}
}

// zkReply is an answer that a client got.
type zkReply struct {
	cmd string
	tag uint32
	err string
	clr bool
	psh rpc.Push
}

// drain reads all messages that are there.
func (l *zkLink) drain() []zkReply {
	var r []zkReply
	for l.more() {
		m, br := l.recv()
		x := zkReply{cmd: m.Command, tag: m.Tag, clr: m.Cleartext}
		var err error
		switch m.Command {
		case rpc.TaggedCmdAcknowledge:
			var a rpc.Acknowledge
			_, err = xdr.Unmarshal(br, &a)
			x.err = a.Error
		case rpc.TaggedCmdProxyReply:
			var a rpc.ProxyReply
			_, err = xdr.Unmarshal(br, &a)
			x.err = a.Error
		case rpc.TaggedCmdPush:
			_, err = xdr.Unmarshal(br, &x.psh)
		}
		zkNo(err, "a message of the server can be decoded")
		r = append(r, x)
	}
	return r
}

// pushes is the pushed messages among r.
func pushes(r []zkReply) []zkReply {
	var p []zkReply
	for _, x := range r {
		if x.cmd == rpc.TaggedCmdPush {
			p = append(p, x)
		}
	}
	return p
}

// registered tells if l is the session of its user that the server knows.
func (l *zkLink) registered() bool {
	id := l.u.id()
	z := l.u.srv
	z.Lock()
	defer z.Unlock()
	sc, ok := z.sessions[hex.EncodeToString(id[:])]
	return ok && sc.kx.Conn == l.s
}

func (l *zkLink) live() bool { return !l.c.Closed() }

func zkHex(id [zkidentity.IdentitySize]byte) string { return hex.EncodeToString(id[:]) }
