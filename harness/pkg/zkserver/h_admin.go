package main

import (
	"strings"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zknet"
)

// zkAdm is a connection to the administration socket.
type zkAdm struct {
	c    *zknet.Conn
	done chan bool
	buf  []byte
}

func zkAdmin(z *ZKS) *zkAdm {
	c, s := zknet.Pipe()
	a := &zkAdm{c: c, done: make(chan bool, 1)}
	go func() {
		z.socketHandler(s)
		a.done <- true
	}()
	return a
}

func (a *zkAdm) send(s string) {
	zkNo(a.trySend(s), "a request can be sent")
}

func (a *zkAdm) trySend(s string) error {
	_, err := a.c.Write([]byte(s))
	return err
}

// reply reads one reply.
func (a *zkAdm) reply() (string, bool) {
	for a.c.Pending() > 0 {
		b := make([]byte, 512)
		n, err := a.c.Read(b)
		zkNo(err, "a reply can be read")
		a.buf = append(a.buf, b[:n]...)
	}
	i := strings.IndexByte(string(a.buf), '\n')
	if i < 0 {
		zkv.Assert(len(a.buf) == 0, "a reply is complete")
		return "", false
	}
	s := string(a.buf[:i])
	a.buf = a.buf[i+1:]
	zkv.Assert(strings.HasPrefix(s, `{"error":"`) && strings.HasSuffix(s, `"}`), "a reply tells what failed")
	return s[10 : len(s)-2], true
}
