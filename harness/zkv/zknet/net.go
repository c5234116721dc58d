// Package zknet is an in-memory connection.
package zknet

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

type Addr struct{}

func (Addr) Network() string { return "mem" }
func (Addr) String() string  { return "mem" }

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

var errClosed = errors.New("use of closed network connection")

type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool // by either end
}

// Conn is one end of a connection.
type Conn struct {
	in, out *half
	Refuse  bool  // writes fail
	Full    bool  // writes wait, until the connection ends
	expired bool  // the read deadline passed
	until   int64 // read deadline, 0 if none
	Gone    bool  // this end was closed
}

// Pipe makes a connection with an unlimited buffer in both directions.
func Pipe() (*Conn, *Conn) {
	x, y := &half{}, &half{}
	x.cond, y.cond = sync.NewCond(&x.mu), sync.NewCond(&y.mu)
	return &Conn{in: x, out: y}, &Conn{in: y, out: x}
}

func (c *Conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.buf) == 0 && !h.closed && !c.Gone && !c.expired {
		h.cond.Wait()
	}
	if c.Gone {
		return 0, &net.OpError{Op: "read", Net: "mem", Err: errClosed}
	}
	if len(h.buf) == 0 && c.expired {
		return 0, &net.OpError{Op: "read", Net: "mem", Err: timeout{}}
	}
	if len(h.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	for c.Full && !h.closed && !c.Refuse && !c.Gone {
		h.cond.Wait()
	}
	if h.closed || c.Refuse || c.Gone {
		return 0, &net.OpError{Op: "write", Net: "mem", Err: errClosed}
	}
	h.buf = append(h.buf, b...)
	h.cond.Broadcast()
	return len(b), nil
}

// Close ends the connection for both ends; the other end can still read what
// was written before.
func (c *Conn) Close() error {
	c.in.mu.Lock()
	c.Gone = true
	c.in.closed = true
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	c.out.mu.Lock()
	c.out.closed = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	return nil
}

// Expire lets so much time pass that the read deadline of this end, if it has
// one, is over.
func (c *Conn) Expire() {
	c.in.mu.Lock()
	c.expired = c.until != 0
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// Pass lets time pass until now.
func (c *Conn) Pass(now int64) {
	c.in.mu.Lock()
	if c.until != 0 && c.until <= now {
		c.expired = true
		c.in.cond.Broadcast()
	}
	c.in.mu.Unlock()
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	c.until = 0
	if !t.IsZero() {
		c.until = t.UnixNano()
	}
	c.in.mu.Unlock()
	return nil
}

// Wake lets waiting writers look at Full and Refuse again.
func (c *Conn) Wake() {
	c.out.mu.Lock()
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// Closed tells if either end closed the connection.
func (c *Conn) Closed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.closed
}

// CloseWrite ends the direction away from this end.
func (c *Conn) CloseWrite() {
	c.out.mu.Lock()
	c.out.closed = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// Discard drops what can be read without waiting.
func (c *Conn) Discard() {
	c.in.mu.Lock()
	c.in.buf = nil
	c.in.mu.Unlock()
}

// Pending is the number of bytes that can be read without waiting.
func (c *Conn) Pending() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.buf)
}

func (c *Conn) LocalAddr() net.Addr                { return Addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return Addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
