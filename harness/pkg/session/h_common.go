package session

import (
	"crypto/rand"
	"errors"
	"net"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zkv"
)

type zkAddr struct{}

func (zkAddr) Network() string { return "mem" }
func (zkAddr) String() string  { return "mem" }

var (
	errZkClosed  = errors.New("connection closed")
	errZkTimeout = errors.New("timeout")
)

// zkConn is one end of a connection whose two directions are byte queues the
// harness owns.  Only one end runs at a time; an end that has nothing to read
// lets the other one run.  The ends live in different processes, so each has
// its own copy of the package's ephemeral keys.
type zkConn struct {
	w    *zkWorld
	side int
}

type zkWorld struct {
	raw    [2][]byte   // written by side i, not yet split into records
	recs   [2][][]byte // genuine records written by side i
	in     [2][]byte   // what side i can read
	closed [2]bool     // nothing more will arrive at side i
	run    [2]chan bool
	done   [2]bool
	wait   [2]bool
	fin    chan bool
	epub   [2][sntrup4591761.PublicKeySize]byte
	epriv  [2][sntrup4591761.PrivateKeySize]byte
	// filter sees record k written by side i and returns what arrives
	filter func(w *zkWorld, i, k int, rec []byte) []byte
	// onYield runs when side i waits for input
	onYield func(w *zkWorld, i int)
	kxphase bool
	// onWrite runs when side i writes
	onWrite func(w *zkWorld, i int)
	// side i's writes fail once failAt[i] of them were made; the failing one
	// sends failPart bytes
	failAt   [2]int
	failPart int
	tried    [2][]byte // what side i has tried to write
}

func zkNewWorld() *zkWorld {
	w := &zkWorld{fin: make(chan bool, 2), kxphase: true}
	w.run[0], w.run[1] = make(chan bool, 2), make(chan bool, 2)
	return w
}

func (w *zkWorld) save(i int) { w.epub[i], w.epriv[i] = ephemeralPublic, ephemeralPrivate }
func (w *zkWorld) load(i int) { ephemeralPublic, ephemeralPrivate = w.epub[i], w.epriv[i] }

// split turns raw bytes into records and passes them on.
func (w *zkWorld) split(i int) {
	for {
		n := 0
		if w.kxphase && i == 0 && len(w.recs[0]) == 0 {
			n = (sntrup4591761.CiphertextSize + 3) &^ 3
		} else {
			if len(w.raw[i]) < 4 {
				return
			}
			b := w.raw[i]
			n = 4 + (int(b[0])<<24|int(b[1])<<16|int(b[2])<<8|int(b[3])+3)&^3
		}
		if len(w.raw[i]) < n {
			return
		}
		rec := append([]byte{}, w.raw[i][:n]...)
		w.raw[i] = w.raw[i][n:]
		k := len(w.recs[i])
		w.recs[i] = append(w.recs[i], rec)
		out := append([]byte{}, rec...)
		if w.filter != nil {
			out = w.filter(w, i, k, out)
		}
		if !w.closed[1-i] {
			w.in[1-i] = append(w.in[1-i], out...)
		}
	}
}

// yield lets the other side run until this one has something to read; it
// returns false when that can no longer happen.
func (w *zkWorld) yield(i int) bool {
	for len(w.in[i]) == 0 {
		if w.done[1-i] || w.closed[i] || (w.wait[1-i] && len(w.in[1-i]) == 0) {
			if w.done[1-i] || w.closed[i] {
				return false
			}
			// both wait: the network gives up
			w.closed[0], w.closed[1] = true, true
			return false
		}
		if w.onYield != nil {
			w.onYield(w, i)
		}
		w.wait[i] = true
		w.save(i)
		w.load(1 - i)
		w.run[1-i] <- true
		<-w.run[i]
		w.wait[i] = false
	}
	return true
}

func (c *zkConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	w := c.w
	if len(w.in[c.side]) == 0 {
		if !w.yield(c.side) {
			return 0, errZkClosed
		}
	}
	n := copy(b, w.in[c.side])
	w.in[c.side] = w.in[c.side][n:]
	return n, nil
}

func (c *zkConn) Write(b []byte) (int, error) {
	if c.w.onWrite != nil {
		c.w.onWrite(c.w, c.side)
	}
	c.w.tried[c.side] = append(c.w.tried[c.side], b...)
	if c.w.failAt[c.side] > 0 {
		c.w.failAt[c.side]--
		if c.w.failAt[c.side] == 0 {
			n := c.w.failPart
			if n > len(b) {
				n = len(b)
			}
			c.w.raw[c.side] = append(c.w.raw[c.side], b[:n]...)
			return n, errZkTimeout
		}
	}
	c.w.raw[c.side] = append(c.w.raw[c.side], b...)
	c.w.split(c.side)
	return len(b), nil
}

func (c *zkConn) Close() error                       { return nil }
func (c *zkConn) LocalAddr() net.Addr                { return zkAddr{} }
func (c *zkConn) RemoteAddr() net.Addr               { return zkAddr{} }
func (c *zkConn) SetDeadline(t time.Time) error      { return nil }
func (c *zkConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *zkConn) SetWriteDeadline(t time.Time) error { return nil }

// both runs f0 as side 0 and f1 as side 1 to their ends.
func (w *zkWorld) both(f0, f1 func()) {
	w.done = [2]bool{}
	start := func(i int, f func()) {
		<-w.run[i]
		f()
		w.save(i)
		w.done[i] = true
		if !w.done[1-i] {
			w.load(1 - i)
			w.run[1-i] <- true
		}
		w.fin <- true
	}
	go start(0, f0)
	go start(1, f1)
	w.load(0)
	w.run[0] <- true
	<-w.fin
	<-w.fin
}

type zkPeer struct {
	pub  [sntrup4591761.PublicKeySize]byte
	priv [sntrup4591761.PrivateKeySize]byte
}

func zkNewPeer() *zkPeer {
	pub, priv, err := sntrup4591761.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	return &zkPeer{pub: *pub, priv: *priv}
}

func zkKX(w *zkWorld, side int, me *zkPeer, them *zkPeer) *KX {
	kx := &KX{Conn: &zkConn{w: w, side: side}, MaxMessageSize: 4096, OurPrivateKey: &me.priv, OurPublicKey: &me.pub}
	if them != nil {
		p := them.pub
		kx.TheirPublicKey = &p
	}
	return kx
}

// shake runs the handshake; side 0 initiates.
func (w *zkWorld) shake(i, r *KX) (erri, errr error) {
	w.load(1)
	zkv.Assert(regenerateEphemeral() == nil, "making ephemeral keys works")
	w.save(1)
	w.both(func() { erri = i.Initiate() }, func() { errr = r.Respond() })
	w.kxphase = false
	return
}

// zkTalk checks that the two ends can talk to each other, in both directions.
func zkTalk(w *zkWorld, a, b *KX) {
	w.filter = nil
	for k := 0; k < 2; k++ {
		m := zkv.Bytes("talk", 2)
		zkv.Assert(a.Write(m) == nil, "writing on an established session works")
		got, err := b.Read()
		zkv.Assert(err == nil, "the peer can read what was written")
		zkv.Assert(zkv.BytesEq(got, m), "the peer reads what was written")
		a, b = b, a
	}
}

// zkBox is a sealed record and what is in it.
type zkBox struct{ ct, pt []byte }

// zkSame tells if two records were sealed with the same key and nonce.
func zkSame(a, b zkBox) bool {
	if zkv.Native() {
		n := 0
		for ; n < len(a.pt) && n < len(b.pt); n++ {
			if a.ct[16+n]^a.pt[n] != b.ct[16+n]^b.pt[n] {
				return false
			}
		}
		return n >= 8
	}
	n := zkv.IdealN("sb")
	find := func(ct []byte) int {
		for i := 0; i < n; i++ {
			if o := zkv.IdealOut("sb", i); len(o) == len(ct) && zkv.Fork(zkv.BytesEq(o, ct)) {
				return i
			}
		}
		zkv.Assert(false, "a record is a sealed box")
		return 0
	}
	i, j := find(a.ct), find(b.ct)
	return zkv.And(zkv.BytesEq(zkv.IdealArg("sb", i, 0), zkv.IdealArg("sb", j, 0)), zkv.BytesEq(zkv.IdealArg("sb", i, 1), zkv.IdealArg("sb", j, 1)))
}

func zkNonces(bs []zkBox) {
	for i := range bs {
		for j := range bs[:i] {
			zkv.Assert(!zkSame(bs[i], bs[j]), "no two records are sealed with the same key and nonce")
		}
	}
}

// zkLast is the last record side i wrote.
func (w *zkWorld) zkLast(i int, pt []byte) zkBox {
	r := w.recs[i][len(w.recs[i])-1]
	return zkBox{r[4 : 4+len(pt)+16], pt}
}

func zkSession() (*zkWorld, [2]*KX) {
	ip, rp := zkNewPeer(), zkNewPeer()
	w := zkNewWorld()
	i, r := zkKX(w, 0, ip, rp), zkKX(w, 1, rp, nil)
	erri, errr := w.shake(i, r)
	zkv.Assert(erri == nil && errr == nil, "an undisturbed handshake completes")
	w.recs = [2][][]byte{}
	w.done = [2]bool{true, true}
	return w, [2]*KX{i, r}
}
