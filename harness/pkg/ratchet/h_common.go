package ratchet

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"io"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/zkv"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"golang.org/x/crypto/ed25519"
)

type zkUser struct {
	priv  [sntrup4591761.PrivateKeySize]byte
	pub   [sntrup4591761.PublicKeySize]byte
	spub  [ed25519.PublicKeySize]byte
	ident [sha256.Size]byte
}

func zkNewUser() *zkUser {
	u := new(zkUser)
	pub, priv, err := sntrup4591761.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	u.priv, u.pub = *priv, *pub
	copy(u.ident[:], zkv.RandBytes(32))
	copy(u.spub[:], zkv.RandBytes(32))
	return u
}

// zkNonce hands out random keys but constant nonces, so that two messages of
// the same text get the same body exactly when they use the same key.
type zkNonce struct{ fixed bool }

func (z *zkNonce) Read(b []byte) (int, error) {
	if z.fixed && len(b) == 24 {
		for i := range b {
			b[i] = 7
		}
		return len(b), nil
	}
	return rand.Reader.Read(b)
}

func zkSide(me, them *zkUser, rd io.Reader) *Ratchet {
	r := New(rd)
	r.MyPrivateKey = &me.priv
	r.MySigningPublic = &me.spub
	r.TheirIdentityPublic = &them.ident
	r.TheirSigningPublic = &them.spub
	r.TheirPublicKey = &them.pub
	return r
}

type zkMsg struct {
	to   int
	pt   []byte
	ct   []byte
	done bool
}

type zkConvo struct {
	u    [2]*zkUser
	r    [2]*Ratchet
	msgs []*zkMsg
	rd   *zkNonce
}

func zkPair() *zkConvo {
	c := &zkConvo{rd: new(zkNonce)}
	c.u[0], c.u[1] = zkNewUser(), zkNewUser()
	c.r[0] = zkSide(c.u[0], c.u[1], c.rd)
	c.r[1] = zkSide(c.u[1], c.u[0], c.rd)
	kx0, kx1 := new(KeyExchange), new(KeyExchange)
	zkv.Assert(c.r[0].FillKeyExchange(kx0) == nil, "honest key exchange works")
	zkv.Assert(c.r[1].FillKeyExchange(kx1) == nil, "honest key exchange works")
	zkv.Assert(c.r[0].CompleteKeyExchange(kx1, false) == nil, "honest key exchange works")
	zkv.Assert(c.r[1].CompleteKeyExchange(kx0, true) == nil, "honest key exchange works")
	return c
}

func (c *zkConvo) send(from int, pt []byte) *zkMsg {
	ct, err := c.r[from].Encrypt(nil, append([]byte{}, pt...))
	zkv.Assert(err == nil, "encrypting works")
	m := &zkMsg{to: 1 - from, pt: pt, ct: ct}
	c.msgs = append(c.msgs, m)
	return m
}

func (c *zkConvo) deliver(m *zkMsg) {
	got, err := c.r[m.to].Decrypt(append([]byte{}, m.ct...))
	if len(m.pt) == 0 {
		zkv.Assert(err == nil, "an empty message is decrypted")
	}
	zkv.Assert(err == nil, "a message of the peer is decrypted")
	zkv.Assert(len(got) == len(m.pt) && zkv.BytesEq(got, m.pt), "the plaintext is the one that was encrypted")
	m.done = true
}

// undelivered messages, oldest first.
func (c *zkConvo) pending() []*zkMsg {
	var p []*zkMsg
	for _, m := range c.msgs {
		if !m.done {
			p = append(p, m)
		}
	}
	return p
}

// finish delivers what is left, in the order sent or reversed, and checks
// that nothing can be decrypted twice.
func (c *zkConvo) finish(reverse bool) {
	p := c.pending()
	for i := range p {
		if reverse {
			c.deliver(p[len(p)-1-i])
		} else {
			c.deliver(p[i])
		}
	}
	for _, m := range c.msgs {
		_, err := c.r[m.to].Decrypt(append([]byte{}, m.ct...))
		zkv.Assert(err != nil, "a message is not decrypted twice")
	}
}

// zkStates compares two saved states; the order of saved keys is free.
func zkSame(a, b *disk.RatchetState) bool {
	f := func(x, y []byte) bool { return len(x) == len(y) && zkv.BytesEq(x, y) }
	ok := f(a.RootKey, b.RootKey) && f(a.SendHeaderKey, b.SendHeaderKey) && f(a.RecvHeaderKey, b.RecvHeaderKey) &&
		f(a.NextSendHeaderKey, b.NextSendHeaderKey) && f(a.NextRecvHeaderKey, b.NextRecvHeaderKey) &&
		f(a.SendChainKey, b.SendChainKey) && f(a.RecvChainKey, b.RecvChainKey) &&
		f(a.SendRatchetPrivate, b.SendRatchetPrivate) && f(a.RecvRatchetPublic, b.RecvRatchetPublic) &&
		a.SendCount == b.SendCount && a.RecvCount == b.RecvCount && a.PrevSendCount == b.PrevSendCount &&
		a.Ratchet == b.Ratchet && f(a.Private, b.Private) && f(a.MyHalf, b.MyHalf) && f(a.TheirHalf, b.TheirHalf) &&
		len(a.SavedKeys) == len(b.SavedKeys)
	if !ok {
		return false
	}
	for _, k := range a.SavedKeys {
		found := false
		for _, l := range b.SavedKeys {
			if !f(k.HeaderKey, l.HeaderKey) {
				continue
			}
			if len(k.MessageKeys) != len(l.MessageKeys) {
				return false
			}
			n := 0
			for _, x := range k.MessageKeys {
				for _, y := range l.MessageKeys {
					if x.Num == y.Num && f(x.Key, y.Key) && x.CreationTime == y.CreationTime {
						n++
					}
				}
			}
			found = n == len(k.MessageKeys)
		}
		if !found {
			return false
		}
	}
	return true
}

var zkEpoch = time.Unix(1600000000, 0)

func (c *zkConvo) state(i int) *disk.RatchetState { return c.r[i].Marshal(zkEpoch, 1000*time.Hour) }

// restore saves and restores one side the way the client does.
func (c *zkConvo) restore(i int, now time.Time, life time.Duration) {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, c.r[i].Marshal(now, life))
	zkv.Assert(err == nil, "saving works")
	var s disk.RatchetState
	_, err = xdr.Unmarshal(&bb, &s)
	zkv.Assert(err == nil, "reading a saved ratchet works")
	r := zkSide(c.u[i], c.u[1-i], c.rd)
	r.Now = c.r[i].Now
	zkv.Assert(r.Unmarshal(&s) == nil, "restoring works")
	c.r[i] = r
}
