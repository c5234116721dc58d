package ratchet

import (
	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/zkv"
)

// ZkvH_Keys: no two messages of a conversation are sealed with the same key:
// with the nonces held constant, equal texts never give equal bodies.
//zkv:prop R04
//zkv:opt w=3
func ZkvH_Keys() {
	c := zkPair()
	c.rd.fixed = true
	steps := zkv.Pick(6, 8)
	text := []byte("same text")
	for i := 0; i < steps; i++ {
		p := c.pending()
		k := zkv.Choose("op", len(p)+2)
		if k < 2 {
			zkv.Assume(len(c.msgs) < 5)
			c.send(k, text)
			continue
		}
		c.deliver(p[k-2])
	}
	for i, m := range c.msgs {
		for _, n := range c.msgs[:i] {
			zkv.Assert(!zkv.BytesEq(m.ct[sealedHeaderSize:], n.ct[sealedHeaderSize:]), "no message key is used twice")
		}
	}
	zkv.Reach("end")
}

// ZkvH_Nonces: nonces are fresh in every message.
//zkv:prop R04
func ZkvH_Nonces() {
	c := zkPair()
	for i := 0; i < 3; i++ {
		m := c.send(zkv.Choose("who", 2), zkv.Bytes("pt", 1))
		if zkv.Choose("del", 2) == 1 {
			c.deliver(m)
		}
	}
	for i, m := range c.msgs {
		for _, n := range c.msgs[:i] {
			zkv.Assert(!zkv.BytesEq(m.ct[:24], n.ct[:24]), "header nonces are fresh")
		}
	}
	zkv.Reach("end")
}

// ZkvH_KX: both sides agree and either can send first; a key exchange message
// that was altered, reflected or made for somebody else is rejected.
//zkv:prop R04
//zkv:opt w=2
func ZkvH_KX() {
	c := &zkConvo{rd: new(zkNonce)}
	c.u[0], c.u[1] = zkNewUser(), zkNewUser()
	c.r[0] = zkSide(c.u[0], c.u[1], c.rd)
	c.r[1] = zkSide(c.u[1], c.u[0], c.rd)
	kx := [2]*KeyExchange{new(KeyExchange), new(KeyExchange)}
	zkv.Assert(c.r[0].FillKeyExchange(kx[0]) == nil, "honest key exchange works")
	zkv.Assert(c.r[1].FillKeyExchange(kx[1]) == nil, "honest key exchange works")
	v := zkv.Choose("victim", 2)
	bad := new(KeyExchange)
	bad.Cipher = kx[1-v].Cipher
	bad.Public = append([]byte{}, kx[1-v].Public...)
	genuine := false
	switch zkv.Choose("attack", 8) {
	case 0:
		genuine = true
	case 1: // altered encapsulated key
		x := zkv.U8("xor")
		zkv.Assume(x != 0)
		bad.Cipher[[]int{0, 31, 32, 500, 1046}[zkv.Choose("pos", 5)]] ^= x
	case 2: // altered public value
		x := zkv.U8("xor")
		zkv.Assume(x != 0)
		bad.Public[[]int{0, 31, 32, 55, 56, 72, 103}[zkv.Choose("pos", 7)]] ^= x
	case 3: // truncated or extended public value
		n := []int{0, 1, 31, 32, 55, 56, 57, 71, 72, 73, 103, 105}[zkv.Choose("len", 12)]
		for len(bad.Public) < n {
			bad.Public = append(bad.Public, zkv.U8("ext"))
		}
		bad.Public = bad.Public[:n]
	case 4: // reflected
		bad = kx[v]
	case 5: // made for somebody else
		o := zkNewUser()
		r := zkSide(c.u[1-v], o, c.rd)
		bad = new(KeyExchange)
		zkv.Assert(r.FillKeyExchange(bad) == nil, "honest key exchange works")
	case 6: // made up
		bad = new(KeyExchange)
		copy(bad.Cipher[:], zkv.Bytes("cipher", 4))
		bad.Public = zkv.Bytes("public", []int{0, 32, 56, 80, 104}[zkv.Choose("publen", 5)])
	case 7: // a peer that picks a bad public value
		ct, k, err := sntrup4591761.Encapsulate(c.rd, &c.u[v].pub)
		zkv.Assert(err == nil, "a key can be encapsulated")
		blobshare.SetNrp(32768, 16, 2)
		key, salt, err := blobshare.NewKey(k[:])
		zkv.Assert(err == nil, "a key can be derived")
		pub := make([]byte, 32)
		switch zkv.Choose("point", 3) {
		case 0: // of low order, little endian
			pub[0] = byte(zkv.Choose("low", 3))
		case 1: // not below the prime
			for i := range pub {
				pub[i] = 255
			}
			pub[31] = 127
			pub[0] = byte(0xed + zkv.Choose("above", 0x13))
		case 2:
			pub = append(pub, 9)[:[4]int{0, 1, 31, 33}[zkv.Choose("point length", 4)]]
		}
		enc, nonce, err := blobshare.Encrypt(pub, key)
		zkv.Assert(err == nil, "a value can be encrypted")
		bad = &KeyExchange{Cipher: *ct, Public: blobshare.PackSaltNonce(salt, nonce, enc)}
	}
	err := c.r[v].CompleteKeyExchange(bad, v == 1)
	zkv.ObsErr("err", err)
	if !genuine {
		zkv.Assert(err != nil, "a key exchange message that was altered, reflected or made for another is rejected")
		zkv.Reach("rejected")
		return
	}
	zkv.Assert(err == nil, "honest key exchange works")
	zkv.Assert(c.r[1-v].CompleteKeyExchange(kx[v], v == 0) == nil, "honest key exchange works")
	f := zkv.Choose("first", 2)
	c.deliver(c.send(f, zkv.Bytes("pt", 2)))
	c.deliver(c.send(1-f, zkv.Bytes("pt", 2)))
	zkv.Reach("agreed")
}
