package main

import (
	"strconv"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkrand"
)

const zkSame = "a group changes only as its administrator says"

// ZkvH_C01Member: somebody sends a group message of any kind to somebody who
// administers group "h", is a member of "g" and has just joined "p".
//
//zkv:prop C01,C04
func ZkvH_C01Member() {
	z := zkMe(zkM)
	for _, p := range []zkidentity.PublicIdentity{zkA, zkB, zkC} {
		zkKnow(z, p)
	}
	g := zkGroup("g", 5, zkA.Identity, zkM.Identity, zkB.Identity)
	h := zkGroup("h", 7, zkM.Identity, zkB.Identity, zkC.Identity)
	p := zkGroup("p", 0, zkA.Identity)
	have := []rpc.GroupList{g, h, p}
	zkHas(z, have...)

	from := zkAnyID("from")
	zkv.Assume(from != zkM.Identity)
	name := [5]string{"g", "h", "p", "x", ""}[zkv.Choose("name", 5)]
	var cur *rpc.GroupList
	for i := range have {
		if have[i].Name == name {
			cur = &have[i]
		}
	}
	nl := rpc.GroupList{Name: name, Generation: zkv.U64("generation"), Timestamp: 99}
	kind := zkv.Choose("kind", 8)
	if kind < 3 {
		n := zkv.Choose("members", zkv.Pick(3, 5))
		for i := 0; i < n; i++ {
			nl.Members = append(nl.Members, zkAnyID("member"))
		}
	}
	msg, psh := rpc.Message{}, rpc.Push{From: from, Received: 1000}
	admin := cur != nil && cur.Members[0] == from
	mine := cur != nil && cur.Members[0] == zkM.Identity
	whole := len(nl.Members) > 0 && nl.Members[0] == from
	want := nl
	gone, changed := false, false
	var err error
	switch kind {
	case 0:
		err = z.handleGroupList(msg, psh, nl)
		changed = admin && whole
	case 1:
		err = z.handleGroupUpdate(msg, psh, rpc.GroupUpdate{Reason: "r", NewGroupList: nl})
		changed = admin && whole
	case 2:
		who := zkAnyID("who")
		if zkv.Bool("me") {
			who = zkM.Identity
		}
		err = z.handleGroupKick(msg, psh, rpc.GroupKick{Member: who, Reason: "r", Parted: zkv.Bool("parted"), NewGroupList: nl})
		gone = admin && who == zkM.Identity
		changed = admin && !gone && whole
	case 3:
		err = z.handleGroupKill(msg, psh, rpc.GroupKill{Name: name, Reason: "r"})
		gone = admin
	case 4:
		err = z.handleGroupPart(msg, psh, rpc.GroupPart{Name: name, Reason: "r"})
		changed = mine && (from == zkB.Identity || from == zkC.Identity)
		if changed {
			want = zkGroup("h", 8, zkM.Identity)
			want.Timestamp = 0
			for _, m := range h.Members[1:] {
				if m != from {
					want.Members = append(want.Members, m)
				}
			}
		}
	case 5:
		err = z.handleGroupJoin(msg, psh, rpc.GroupJoin{Name: name, Token: zkv.U64("token")})
	case 6:
		err = z.handleGroupMessage(msg, psh, rpc.GroupMessage{Name: name, Generation: nl.Generation, Message: "hello", Mode: rpc.MessageModeNormal})
	case 7:
		err = z.handleGroupInvite(msg, psh, rpc.GroupInvite{Name: name, Members: []string{"bob"}, Token: 1, Description: "d"})
	}
	_ = err
	var after []rpc.GroupList
	for i := range have {
		switch {
		case cur != &have[i] || !gone && !changed:
			after = append(after, have[i])
		case changed:
			after = append(after, want)
		}
	}
	zkGroups(z, after, zkSame)
	sent := zkSent(z)
	if kind == 4 && changed {
		zkv.Assert(len(sent) == 2, "everybody in a group learns who leaves")
		for i, m := range sent {
			zkv.Assert(*m.id == h.Members[i+1], "everybody in a group learns who leaves")
			k, ok := m.payload.(rpc.GroupKick)
			zkv.Assert(ok && k.Member == from && k.Parted && zkSameList(k.NewGroupList, z.groups["h"]), "members get the list that the administrator has")
		}
	} else {
		zkv.Assert(len(sent) == 0, "nothing is sent without need")
	}
	if kind == 6 {
		zkv.Quiesce()
		in := cur != nil && zkOneOf(cur.Members, from)
		shown := false
		for i := range z.conversation {
			for _, l := range z.conversation[i].console.Content {
				if len(l) >= 5 && l[len(l)-5:] == "hello" {
					shown = true
					zkv.Assert(z.conversation[i].group && z.conversation[i].nick == name, "a group message is shown with its group")
				}
			}
		}
		zkv.Assert(shown == in, "a message is shown exactly if its sender is in the group")
	}
	zkv.Reach("end")
}

// ZkvH_C01Sync: alice administers a group with bob and carol and has invited
// me.  Whatever they do, and whenever their messages arrive, in the end
// everybody has the group that alice has.
//
//zkv:prop C01,C04
func ZkvH_C01Sync() {
	w := zkNewWorld(zkA, zkB, zkC, zkM)
	g := zkGroup("g", 5, zkA.Identity, zkB.Identity, zkC.Identity)
	for _, z := range w.z[:3] {
		zkHas(z, g)
	}
	zkrand.Force([]byte{0, 0, 0, 0, 0, 0, 0, 77})
	zkNo(w.z[0].gcInvite([]string{"/gc", "invite", "g", "me"}), "somebody can be invited")
	w.collect(0)
	zkv.Assert(len(w.way[0][3]) == 1, "an invitation goes to whom it invites")
	gi, ok := w.way[0][3][0].payload.(rpc.GroupInvite)
	zkv.Assert(ok, "an invitation goes to whom it invites")
	w.deliver(0, 3)

	left := zkv.Pick(2, 3)
	for {
		// what can happen next
		type ev struct{ from, to int }
		var evs []ev
		if left > 0 {
			evs = append(evs, ev{-1, 0})
		}
		for i := range w.z {
			for j := range w.z {
				if len(w.way[i][j]) > 0 && (j == 0 || left > 0 || len(evs) == 0) {
					evs = append(evs, ev{i, j})
				}
			}
		}
		if len(evs) == 0 {
			break
		}
		e := evs[zkv.Choose("next", len(evs))]
		if e.from >= 0 {
			w.deliver(e.from, e.to)
			continue
		}
		left--
		who := zkv.Choose("who", 4)
		switch {
		case who > 0:
			z := w.z[who]
			if _, in := z.groups["g"]; in {
				z.gcPart([]string{"/gc", "part", "g"})
			} else {
				z.gcJoin([]string{"/gc", "join", "g", strconv.FormatUint(gi.Token, 10)})
			}
		default:
			k := zkv.Choose("kick", 4)
			if k == 0 {
				w.z[0].gcKill([]string{"/gc", "kill", "g"})
			} else {
				w.z[0].gcKick([]string{"/gc", "kick", "g", w.z[k].id.Public.Nick})
			}
		}
		w.collect(who)
	}
	const same = "in the end all members have the administrator's list, and nobody else has one"
	g, any := w.z[0].groups["g"]
	for _, z := range w.z {
		mine, have := z.groups["g"]
		in := any && zkOneOf(g.Members, z.id.Public.Identity)
		if have && !in {
			// only alice's answer to a join is still awaited
			zkv.Assert(len(mine.Members) == 1 && mine.Members[0] == zkA.Identity && mine.Generation == 0, same)
			continue
		}
		zkv.Assert(have == in, same)
		if have {
			zkv.Assert(zkSameList(mine, g), same)
		}
		zkDisk(z)
	}
	zkv.Reach("end")
}
