package main

import (
	"strconv"
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zkrand"
)

const zkTok = 77

// zkChange is a client that is about to change group g; do makes the change.
func zkChange(root string, ev int) (z *ZKC, do func() error) {
	me := zkM
	me.Nick = root
	z = zkMe(me)
	z.online = true
	for _, p := range []zkidentity.PublicIdentity{zkA, zkB, zkC} {
		zkKnow(z, p)
	}
	g := zkGroup("g", 5, zkA.Identity, me.Identity, zkB.Identity)
	if ev >= 5 && ev <= 8 {
		// the client is the administrator
		g = zkGroup("g", 5, me.Identity, zkA.Identity, zkB.Identity)
	}
	if ev > 1 {
		zkHas(z, g)
	}
	zkHas(z, zkGroup("h", 7, zkB.Identity, me.Identity))
	cmd := func(f func([]string) error, a ...string) {
		do = func() error { return f(append([]string{"/gc"}, a...)) }
	}
	get := func(from zkID, payload interface{}) {
		do = func() error { return zkHandle(z, from, wireMsg{payload: payload}) }
	}
	newer := zkGroup("g", 6, zkA.Identity, me.Identity, zkC.Identity)
	switch ev {
	case 0:
		cmd(z.gcNew, "new", "g")
	case 1:
		gi := rpc.GroupInvite{Name: "g", Token: 77, Expires: 1 << 40}
		zkNo(z.joinDBAdd(zkA.Identity, gi), "an invitation can be stored")
		cmd(z.gcJoin, "join", "g", "77")
	case 2:
		cmd(z.gcPartForce, "part", "g", "force")
	case 3:
		get(zkA.Identity, newer)
	case 4:
		get(zkA.Identity, rpc.GroupKick{Member: zkB.Identity, NewGroupList: newer})
	case 5:
		cmd(z.gcKick, "kick", "g", "bob")
	case 6:
		cmd(z.gcKill, "kill", "g")
	case 7:
		zkrand.Force([]byte{0, 0, 0, 0, 0, 0, 0, zkTok})
		gi, err := z.inviteDBAdd(zkC.Identity, "", g)
		zkNo(err, "an invitation can be stored")
		get(zkC.Identity, rpc.GroupJoin{Name: "g", Token: gi.Token})
	case 8:
		get(zkB.Identity, rpc.GroupPart{Name: "g", Reason: "bye"})
	case 9:
		get(zkA.Identity, rpc.GroupKick{Member: me.Identity, NewGroupList: newer})
	case 10:
		get(zkA.Identity, rpc.GroupKill{Name: "g"})
	}
	zkSent(z)
	return
}

// zkIs tells if the client's groups are those given.
func zkIs(z *ZKC, want map[string]rpc.GroupList) bool {
	if len(z.groups) != len(want) {
		return false
	}
	eq := true
	for n, w := range want {
		g, ok := z.groups[n]
		eq = zkv.And(eq, ok && zkSameList(g, w))
	}
	return eq
}

func zkCopy(m map[string]rpc.GroupList) map[string]rpc.GroupList {
	r := make(map[string]rpc.GroupList)
	for n, g := range m {
		g.Members = append([]zkID{}, g.Members...)
		r[n] = g
	}
	return r
}

// ZkvH_C11Change: the client dies, or a file operation fails, while one of its
// groups changes.
//
//zkv:prop C11,C02
func ZkvH_C11Change() {
	ev := zkv.Choose("event", 11)
	// what the change makes of the groups when nothing goes wrong
	ref, do := zkChange("ref", ev)
	old := zkCopy(ref.groups)
	zkNo(do(), "a group can be changed")
	want := zkCopy(ref.groups)
	zkv.Assert(!zkIs(ref, old), "a group can be changed")
	zkDisk(ref)

	z, do := zkChange("me", ev)
	crash, at := zkStrike(zkv.Pick(32, 48))
	var err error
	done := false
	go func() {
		err = do()
		done = true
	}()
	zkv.Quiesce()
	hit := zkos.Crashed || zkos.Faulted
	log := ""
	if hit {
		log = zkos.OpLog[at]
	}
	zkos.Disarm()
	zkv.Assume(hit)
	zkv.Assert(done || crash, "a failing file operation does not stop the client")
	if !crash {
		sent := zkSent(z)
		is := zkIs(z, old)
		zkv.Assert(zkv.Or(is, zkIs(z, want)), "a group has its old or its new list")
		if is {
			zkv.Assert(len(sent) == 0, "nobody is told of a change that was not made")
		}
		if strings.Contains(log, groupchatDir) {
			// an update's failure is shown on the console
			told := err != nil || ev == 3 && zkLines(z) > zkLines(ref)
			zkv.Assert(!zkv.And(is, !told), "a change that was not made is reported")
		}
		zkDisk(z)
		zkUsed(z, ev)
		if !zkv.Bool("restart") {
			zkv.Reach("fault")
			zkAgain(z)
			return
		}
	}
	// start again on the files that are left
	ttk.Restart()
	y := zkMe(z.id.Public)
	y.settings = z.settings
	zkNo(y.loadGroupchat(), "the groups are found")
	zkv.Assert(zkv.Or(zkIs(y, old), zkIs(y, want)), "a group has its old or its new list after a restart")
	zkUsed(y, ev)
	zkv.Reach("restart")
	y.online = true
	zkAgain(y)
}

// zkUsed checks that an invitation that has added somebody is gone.
func zkUsed(z *ZKC, ev int) {
	if ev == 7 && len(z.groups["g"].Members) == 4 {
		zkv.Assert(z.delInvite(zkC.Identity, rpc.GroupJoin{Name: "g", Token: zkTok}) != nil, "an invitation adds whom it was sent to once")
	}
}

// zkLines is the number of lines on the console.
func zkLines(z *ZKC) int {
	zkv.Quiesce()
	return len(z.conversation[0].console.Content)
}

// zkAgain checks that groups still can be changed and stored.
func zkAgain(z *ZKC) {
	for _, n := range []string{"i", "g"} {
		if g, in := z.groups[n]; in {
			g.Generation += 2
			zkNo(z._updateGroupList(g.Members[0], g), "a group can be changed later")
		} else {
			zkNo(z.gcNew([]string{"/gc", "new", n}), "a group can be made later, "+strconv.Quote(n))
		}
	}
	zkDisk(z)
	// nothing of a group remains when it is gone
	for _, n := range []string{"g", "h", "i"} {
		zkNo(z.gcPartForce([]string{"/gc", "part", n, "force"}), "a group can be left later")
	}
	zkDisk(z)
	zkv.Reach("end")
}
