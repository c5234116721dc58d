package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zknet"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

type zkID = [zkidentity.IdentitySize]byte

func zkNo(err error, what string) { zkv.Assert(err == nil, what) }

// zkPerson makes an identity with genuine keys.
func zkPerson(nick string) *zkidentity.FullIdentity {
	fi, err := zkidentity.New("name "+nick, nick)
	zkNo(err, "an identity can be made")
	return fi
}

// zkWho makes an identity without keys.
func zkWho(n byte, nick string) zkidentity.PublicIdentity {
	var p zkidentity.PublicIdentity
	p.Name, p.Nick = "name "+nick, nick
	p.Identity[0], p.Identity[31] = n, n
	return p
}

// zkClient starts a client, as _main does, whose files are below /home/<nick>.
func zkClient(id *zkidentity.FullIdentity) *ZKC {
	z := &ZKC{
		conversation:  make([]*conversation, 1, 16),
		ab:            addressbook.New(),
		groups:        make(map[string]rpc.GroupList),
		lastDuration:  5e9,
		msgSize:       uint(rpc.PropMaxMsgSizeDefault),
		id:            id,
		serverAddress: "127.0.0.1:12345",
		settings:      &Settings{Root: "/home/" + id.Public.Nick, TimeFormat: "15:04:05", LongTimeFormat: "2006-01-02 15:04:05"},
	}
	for _, d := range []string{inboundDir, logsDir, spoolDir, groupchatDir} {
		zkNo(os.MkdirAll(path.Join(z.settings.Root, d), 0700), "a directory can be made")
	}
	var err error
	z.Debug, err = debug.New("/dev/null", z.settings.TimeFormat)
	zkNo(err, "logging starts")
	z.Register(idZKC, "")
	z.Register(idRPC, "[RPC]")
	z.Register(idSnd, "[SND]")
	z.mw = &mainWindow{quitC: make(chan struct{}), zkc: z}
	z.ttkMW = ttk.NewWindow(z.mw)
	z.kw = &kxWindow{zkc: z}
	z.ttkKW = ttk.NewWindow(z.kw)
	z.kaw = &kxAcceptWindow{zkc: z}
	z.ttkKAW = ttk.NewWindow(z.kaw)
	z.mw.welcomeMessage()
	return z
}

// zkQueues stands in for the scheduler: what is to be sent stays in the
// queues, to be looked at.
func zkQueues(z *ZKC) {
	z.hi = make(chan wireMsg, 64)
	z.lo = make(chan wireMsg, 64)
}

// zkSent takes everything out of the queues.
func zkSent(z *ZKC) []wireMsg {
	var r []wireMsg
	for {
		select {
		case m := <-z.hi:
			r = append(r, m)
		case m := <-z.lo:
			r = append(r, m)
		default:
			return r
		}
	}
}

// zkOnline makes a connection; the other end speaks the server's side of it.
func zkOnline(z *ZKC) *zkPeer {
	p := &zkPeer{z: z}
	srv := zkPerson("server")
	z.serverIdentity = &srv.Public
	var cc *zknet.Conn
	cc, p.c = zknet.Pipe()
	session.Init()
	p.kx = &session.KX{Conn: p.c, MaxMessageSize: uint(rpc.PropMaxMsgSizeDefault), OurPublicKey: &srv.Public.Key, OurPrivateKey: &srv.PrivateKey}
	done := make(chan bool, 1)
	go func() {
		cmd := ""
		_, err := xdr.Unmarshal(p.c, &cmd)
		zkNo(err, "the client asks for a session")
		zkNo(p.kx.Respond(), "an honest key exchange works")
		done <- true
	}()
	kx, err := z.sessionPhase(cc)
	zkNo(err, "an honest key exchange works")
	<-done
	z.kx = kx
	z.tagStack = tagstack.New(tagDepth)
	z.tagCallback = make([]*cb, tagDepth)
	z.chunkSize, z.attachmentSize = 4, 1000
	z.online = true
	return p
}

// zkPeer is the server as the client sees it.
type zkPeer struct {
	z  *ZKC
	c  *zknet.Conn
	kx *session.KX
}

func (p *zkPeer) raw(b []byte) { zkNo(p.kx.Write(b), "a message can be sent") }

func (p *zkPeer) send(m rpc.Message, payload interface{}) {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, m)
	zkNo(err, "a message can be encoded")
	_, err = xdr.Marshal(&bb, payload)
	zkNo(err, "a payload can be encoded")
	p.raw(bb.Bytes())
}

func (p *zkPeer) more() bool { return p.c.Pending() > 0 }

// recv reads the next message of the client; there must be one.
func (p *zkPeer) recv() (rpc.Message, *bytes.Reader) {
	var m rpc.Message
	b, err := p.kx.Read()
	zkNo(err, "a message of the client can be read")
	br := bytes.NewReader(b)
	_, err = xdr.Unmarshal(br, &m)
	zkNo(err, "a message of the client can be decoded")
	return m, br
}

// zkKnow adds a contact without a ratchet.
func zkKnow(z *ZKC, p zkidentity.PublicIdentity) {
	_, err := z.ab.Add(p)
	zkNo(err, "a contact can be added")
	dir := path.Join(z.settings.Root, inboundDir, hex.EncodeToString(p.Identity[:]))
	zkNo(os.MkdirAll(dir, 0700), "a directory can be made")
	f, err := os.Create(path.Join(dir, identityFilename))
	zkNo(err, "a file can be made")
	_, err = xdr.Marshal(f, p)
	zkNo(err, "an identity can be written")
	f.Close()
}

// zkRatchets makes both sides' ratchets between a and b.
func zkRatchets(a, b *zkidentity.FullIdentity) (*ratchet.Ratchet, *ratchet.Ratchet) {
	ra, rb := ratchet.New(rand.Reader), ratchet.New(rand.Reader)
	ra.MyPrivateKey, ra.TheirPublicKey = &a.PrivateKey, &b.Public.Key
	rb.MyPrivateKey, rb.TheirPublicKey = &b.PrivateKey, &a.Public.Key
	ra.MySigningPublic, ra.TheirSigningPublic, ra.TheirIdentityPublic = &a.Public.SigKey, &b.Public.SigKey, &b.Public.Identity
	rb.MySigningPublic, rb.TheirSigningPublic, rb.TheirIdentityPublic = &b.Public.SigKey, &a.Public.SigKey, &a.Public.Identity
	kxA, kxB := new(ratchet.KeyExchange), new(ratchet.KeyExchange)
	zkNo(ra.FillKeyExchange(kxA), "a key exchange works")
	zkNo(rb.FillKeyExchange(kxB), "a key exchange works")
	zkNo(ra.CompleteKeyExchange(kxB, false), "a key exchange works")
	zkNo(rb.CompleteKeyExchange(kxA, true), "a key exchange works")
	return ra, rb
}

// zkContact makes b a contact of z with a ratchet on disk, and returns b's.
func zkContact(z *ZKC, b *zkidentity.FullIdentity) *ratchet.Ratchet {
	zkKnow(z, b.Public)
	ra, rb := zkRatchets(z.id, b)
	zkNo(z.updateRatchet(ra, false), "a ratchet can be saved")
	return rb
}

// zkShown is everything that window k shows.
func zkShown(z *ZKC, k int) string {
	zkv.Quiesce()
	if k >= len(z.conversation) || z.conversation[k] == nil {
		return ""
	}
	return strings.Join(z.conversation[k].console.Content, "\n")
}

func zkShow(z *ZKC, k int) string { return fmt.Sprint(k) + zkShown(z, k) }
