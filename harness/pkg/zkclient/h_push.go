package main

import (
	"bytes"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zkFrom is a client with a contact, and the contact's ratchet.
func zkFrom() (*ZKC, *ratchet.Ratchet, zkID) {
	me, bob := zkPerson("me"), zkPerson("bob")
	z := zkClient(me)
	zkQueues(z)
	return z, zkContact(z, bob), bob.Public.Identity
}

// zkPushed hands z an encrypted message from r's owner.
func zkPushed(z *ZKC, r *ratchet.Ratchet, from zkID, crpc rpc.CRPC, payload []byte) error {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, crpc)
	zkNo(err, "a message can be encoded")
	bb.Write(payload)
	enc, err := r.Encrypt(nil, bb.Bytes())
	zkNo(err, "a message can be encrypted")
	return z.handlePush(rpc.Message{Command: rpc.TaggedCmdPush}, rpc.Push{From: from, Received: 1000, Payload: enc})
}
