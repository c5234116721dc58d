package main

import (
	"bytes"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zkPin is a name and what it was given to.
type zkPin struct {
	name string
	blob []byte
}

// pinReply reads a reply to a publication or to a pull.
func (l *zkLink) pinReply(cmd string, tag uint32) (string, zkPin, bool) {
	if !l.more() {
		return "", zkPin{}, false
	}
	m, br := l.recv()
	zkv.Assert(m.Command == replyTo(cmd) && m.Tag == tag, "a request is answered by the reply to it")
	var err error
	var r rpc.RendezvousReply
	var p rpc.RendezvousPullReply
	if cmd == rpc.TaggedCmdRendezvous {
		_, err = xdr.Unmarshal(br, &r)
	} else {
		_, err = xdr.Unmarshal(br, &p)
		r.Error, r.Token = p.Error, p.Token
	}
	zkNo(err, "a message of the server can be decoded")
	return r.Error, zkPin{r.Token, p.Blob}, true
}

// publish gives blob a name, which is empty if the server refuses.
func (l *zkLink) publish(blob []byte, exp string) string {
	l.send(rpc.TaggedCmdRendezvous, 5, rpc.Rendezvous{Blob: blob, Expiration: exp})
	zkv.Quiesce()
	errs, p, ok := l.pinReply(rpc.TaggedCmdRendezvous, 5)
	zkv.Assert(ok == l.live(), "a publication is answered")
	if !ok || errs != "" {
		return ""
	}
	zkv.Assert(len(p.name) > 0 && len(p.name) < 7, "a name has at most six digits")
	for _, c := range []byte(p.name) {
		zkv.Assert(c >= '0' && c <= '9', "a name consists of digits")
	}
	return p.name
}

// pull gets what has a name.
func (l *zkLink) pull(name string) (blob []byte, ok bool) {
	l.send(rpc.TaggedCmdRendezvousPull, 6, rpc.RendezvousPull{Token: name})
	zkv.Quiesce()
	errs, p, ok := l.pinReply(rpc.TaggedCmdRendezvousPull, 6)
	zkv.Assert(ok, "a pull is answered")
	if errs != "" {
		zkv.Assert(len(p.blob) == 0, "an error hands out nothing")
		return nil, false
	}
	zkv.Assert(p.name == name, "an answer names what was asked for")
	return p.blob, true
}

// has checks what a name stands for.
func (l *zkLink) has(p zkPin) {
	b, ok := l.pull(p.name)
	zkv.Assert(ok && bytes.Equal(b, p.blob), "what has a name is handed out as it was published")
}
