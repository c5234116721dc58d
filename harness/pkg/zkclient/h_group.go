package main

import (
	"bytes"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zkGroup(name string, gen uint64, members ...zkID) rpc.GroupList {
	return rpc.GroupList{Name: name, Generation: gen, Timestamp: 1, Members: members}
}

// zkHas stores groups in memory and on disk.
func zkHas(z *ZKC, gs ...rpc.GroupList) {
	for _, g := range gs {
		g.Members = append([]zkID{}, g.Members...)
		z.groups[g.Name] = g
		zkNo(z.gcSaveDisk(g.Name), "a group can be saved")
	}
}

func zkSameList(a, b rpc.GroupList) bool {
	if len(a.Members) != len(b.Members) || len(a.Name) != len(b.Name) {
		return false
	}
	eq := zkv.And(a.Name == b.Name, a.Generation == b.Generation)
	for i := range a.Members {
		eq = zkv.And(eq, a.Members[i] == b.Members[i])
	}
	return eq
}

// zkGroups checks that the client's groups are exactly those given, in memory
// and on disk.  A zero Timestamp means any.
func zkGroups(z *ZKC, want []rpc.GroupList, what string) {
	zkv.Assert(len(z.groups) == len(want), what)
	for _, w := range want {
		g, ok := z.groups[w.Name]
		zkv.Assert(ok, what)
		zkv.Assert(zkSameList(g, w), what)
		zkv.Assert(zkv.Or(w.Timestamp == 0, g.Timestamp == w.Timestamp), what)
	}
	zkDisk(z)
}

// zkDisk checks that what a restarted client would load is what it has.
func zkDisk(z *ZKC) {
	y := &ZKC{Debug: z.Debug, settings: z.settings, groups: make(map[string]rpc.GroupList)}
	zkNo(y.loadGroupchat(), "the groups can be loaded again")
	zkv.Assert(len(y.groups) == len(z.groups), "the stored groups are those in memory")
	for n, g := range z.groups {
		d, ok := y.groups[n]
		zkv.Assert(ok, "the stored groups are those in memory")
		zkv.Assert(zkSameList(d, g), "the stored groups are those in memory")
	}
}

// zkNoDisk forgets the stored groups.
func zkNoDisk(z *ZKC) { zkos.Reset() }

func zkOneOf(ids []zkID, id zkID) bool {
	in := false
	for _, x := range ids {
		in = zkv.Or(in, x == id)
	}
	return in
}

// zkAnyID is any identity that is zero but for the first and the last byte.
func zkAnyID(name string) (id zkID) {
	id[0] = zkv.U8(name)
	id[31] = zkv.U8(name)
	return
}

// zkMe is a client whose identity is the given one; it needs no keys.
func zkMe(p zkidentity.PublicIdentity) *ZKC {
	z := zkClient(&zkidentity.FullIdentity{Public: p})
	zkQueues(z)
	return z
}

var zkA, zkB, zkC, zkM = zkWho(1, "alice"), zkWho(2, "bob"), zkWho(3, "carol"), zkWho(9, "me")

// zkWorld is a few clients and the messages under way between them.
type zkWorld struct {
	z   []*ZKC
	way [][][]wireMsg // from, to
}

func zkNewWorld(who ...zkidentity.PublicIdentity) *zkWorld {
	w := &zkWorld{}
	for i := range who {
		z := zkMe(who[i])
		z.online = true
		for j := range who {
			if j != i {
				zkKnow(z, who[j])
			}
		}
		w.z = append(w.z, z)
		w.way = append(w.way, make([][]wireMsg, len(who)))
	}
	return w
}

func (w *zkWorld) collect(from int) {
	for _, m := range zkSent(w.z[from]) {
		to := -1
		for i, z := range w.z {
			if *m.id == z.id.Public.Identity {
				to = i
			}
		}
		zkv.Assert(to >= 0, "messages go to people")
		w.way[from][to] = append(w.way[from][to], m)
	}
}

func (w *zkWorld) deliver(from, to int) {
	m := w.way[from][to][0]
	w.way[from][to] = w.way[from][to][1:]
	zkHandle(w.z[to], w.z[from].id.Public.Identity, m)
	w.collect(to)
}

// zkHandle lets z handle a message as if it had gone over the wire.
func zkHandle(z *ZKC, from zkID, m wireMsg) error {
	var bb bytes.Buffer
	_, err := xdr.Marshal(&bb, m.payload)
	zkNo(err, "a message can be encoded")
	msg, p := rpc.Message{}, rpc.Push{From: from, Received: 1000}
	switch m.payload.(type) {
	case rpc.GroupInvite:
		var v rpc.GroupInvite
		_, err = xdr.Unmarshal(&bb, &v)
		zkNo(err, "a message can be decoded")
		return z.handleGroupInvite(msg, p, v)
	case rpc.GroupJoin:
		var v rpc.GroupJoin
		_, err = xdr.Unmarshal(&bb, &v)
		zkNo(err, "a message can be decoded")
		return z.handleGroupJoin(msg, p, v)
	case rpc.GroupList:
		var v rpc.GroupList
		_, err = xdr.Unmarshal(&bb, &v)
		zkNo(err, "a message can be decoded")
		return z.handleGroupList(msg, p, v)
	case rpc.GroupKick:
		var v rpc.GroupKick
		_, err = xdr.Unmarshal(&bb, &v)
		zkNo(err, "a message can be decoded")
		return z.handleGroupKick(msg, p, v)
	case rpc.GroupPart:
		var v rpc.GroupPart
		_, err = xdr.Unmarshal(&bb, &v)
		zkNo(err, "a message can be decoded")
		return z.handleGroupPart(msg, p, v)
	case rpc.GroupKill:
		var v rpc.GroupKill
		_, err = xdr.Unmarshal(&bb, &v)
		zkNo(err, "a message can be decoded")
		return z.handleGroupKill(msg, p, v)
	}
	zkv.Assert(false, "only messages about groups are sent")
	return nil
}
