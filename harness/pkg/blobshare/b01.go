package blobshare

import "github.com/companyzero/zkc/zkv"

func key32(name string) *[32]byte {
	var k [32]byte
	copy(k[:], zkv.Bytes(name, 32))
	return &k
}

// ZkvH_Round: seal, pack, unpack, open with the same key.
//zkv:prop B01
func ZkvH_Round() {
	data := zkv.BytesUpTo("data", zkv.Pick(5, 40))
	key := key32("key")
	enc, nonce, err := Encrypt(data, key)
	zkv.Assert(err == nil, "Encrypt works")
	var salt [32]byte
	copy(salt[:], zkv.Bytes("salt", 32))
	packed := PackSaltNonce(&salt, nonce, enc)
	s2, n2, d2, err := UnpackSaltNonce(packed)
	zkv.Assert(err == nil, "UnpackSaltNonce of a packed blob works")
	zkv.Assert(zkv.BytesEq(s2[:], salt[:]), "salt is recovered")
	out, err := Decrypt(key, n2, d2)
	zkv.Assert(err == nil, "Decrypt of an unaltered blob works")
	zkv.Assert(zkv.BytesEq(out, data), "the original data is recovered")
	zkv.ObsBytes("out", out)
	packed = PackNonce(nonce, enc)
	n3, d3, err := UnpackNonce(packed)
	zkv.Assert(err == nil, "UnpackNonce of a packed blob works")
	out, err = Decrypt(key, n3, d3)
	zkv.Assert(err == nil, "Decrypt of an unaltered blob works")
	zkv.Assert(zkv.BytesEq(out, data), "the original data is recovered")
	zkv.Reach("end")
}

// ZkvH_Password: the key derived from the password and the salt that NewKey
// returned is the same key, and another password gives another key.
//zkv:prop B01
func ZkvH_Password() {
	SetNrp(16, 8, 1)
	pw := zkv.BytesUpTo("pw", 4)
	key, salt, err := NewKey(pw)
	zkv.Assert(err == nil, "NewKey works")
	key2, err := DeriveKey(pw, salt)
	zkv.Assert(err == nil, "DeriveKey works")
	zkv.Assert(zkv.BytesEq(key[:], key2[:]), "the same password and salt give the same key")
	pw3 := zkv.BytesUpTo("pw3", 4)
	// passwords that differ only in trailing NUL bytes are one password to
	// HMAC, and so to scrypt
	zkv.Assume(len(pw) == 0 || pw[len(pw)-1] != 0)
	zkv.Assume(len(pw3) == 0 || pw3[len(pw3)-1] != 0)
	zkv.Assume(!zkv.BytesEq(pw, pw3))
	key3, err := DeriveKey(pw3, salt)
	zkv.Assert(err == nil, "DeriveKey works")
	zkv.Assert(!zkv.BytesEq(key[:], key3[:]), "another password gives another key")
	data := zkv.BytesUpTo("data", 3)
	enc, nonce, err := Encrypt(data, key)
	zkv.Assert(err == nil, "Encrypt works")
	_, err = Decrypt(key3, nonce, enc)
	zkv.Assert(err != nil, "another password does not open the blob")
	kb, sb, err := NewKey(pw)
	zkv.Assert(err == nil, "NewKey works")
	zkv.Assert(!zkv.BytesEq(sb[:], salt[:]), "salts are fresh")
	zkv.Assert(!zkv.BytesEq(kb[:], key[:]), "keys with fresh salts differ")
	enc2, nonce2, err := Encrypt(data, key)
	zkv.Assert(err == nil, "Encrypt works")
	zkv.Assert(!zkv.BytesEq(nonce[:], nonce2[:]), "nonces are fresh")
	zkv.ObsInt("len", int64(len(enc2)))
	zkv.Reach("end")
}

// ZkvH_Tamper: any other key, altered byte, or truncation is an error.
//zkv:prop B01
func ZkvH_Tamper() {
	data := zkv.BytesUpTo("data", zkv.Pick(3, 12))
	var k [32]byte
	copy(k[:], zkv.RandBytes(32))
	enc, nonce, err := Encrypt(data, &k)
	zkv.Assert(err == nil, "Encrypt works")
	packed := PackNonce(nonce, enc)
	salted := zkv.Fork(zkv.Bool("salted"))
	var salt [32]byte
	off := 0
	if salted {
		packed = PackSaltNonce(&salt, nonce, enc)
		off = 32
	}
	orig := append([]byte{}, packed...)
	key := k
	switch zkv.Choose("attack", 4) {
	case 0: // flip
		i := zkv.Range("pos", off, len(packed)-1)
		x := zkv.U8("xor")
		zkv.Assume(x != 0)
		packed[i] ^= x
	case 1: // truncate
		n := zkv.Choose("cut", len(packed)+1)
		zkv.Assume(n > 0)
		packed = packed[:len(packed)-n]
	case 2: // extend
		packed = append(packed, zkv.Bytes("ext", 1+zkv.Choose("extn", 2))...)
	case 3: // other key
		copy(key[:], zkv.Bytes("key", 32))
		zkv.Assume(!zkv.BytesEq(key[:], k[:]))
	}
	var n2 *[24]byte
	var d2 []byte
	if salted {
		_, n2, d2, err = UnpackSaltNonce(packed)
	} else {
		n2, d2, err = UnpackNonce(packed)
	}
	if err == nil {
		var out []byte
		out, err = Decrypt(&key, n2, d2)
		_ = out
	}
	zkv.Assert(err != nil, "altered, truncated or wrongly keyed blob is an error")
	_ = orig
	zkv.ObsErr("err", err)
	zkv.Reach("end")
}

// ZkvH_Any: arbitrary input never crashes.
//zkv:prop B01
func ZkvH_Any() {
	in := zkv.BytesUpTo("in", zkv.Pick(80, 120))
	key := key32("key")
	var nonce *[24]byte
	var d []byte
	var err error
	if zkv.Fork(zkv.Bool("salted")) {
		_, nonce, d, err = UnpackSaltNonce(in)
	} else {
		nonce, d, err = UnpackNonce(in)
	}
	zkv.ObsErr("unpack", err)
	if err == nil {
		_, err = Decrypt(key, nonce, d)
		zkv.Assert(err != nil, "made-up input does not decrypt")
	}
	zkv.Reach("end")
}
