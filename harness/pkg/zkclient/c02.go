package main

import (
	"strconv"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkrand"
	zktime "github.com/companyzero/zkc/zkv/zktime"
)

const (
	zkDay  = 24 * 60 * 60
	zkOnce = "an invitation adds whom it was sent to, once, until it expires"
)

// zkOpen is an invitation that can be answered.
type zkOpen struct {
	group   string
	who     zkID
	token   uint64
	expires int64
}

func zkNext(token uint64) {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(token >> uint(56-8*i))
	}
	zkrand.Force(b)
}

// ZkvH_C02Answer: somebody who administers "g" and "h" invites people, and
// anybody answers with any token at any time.
//
//zkv:prop C02
func ZkvH_C02Answer() {
	z := zkMe(zkM)
	z.online = true
	people := []zkidentity.PublicIdentity{zkA, zkB, zkC}
	for _, p := range people {
		zkKnow(z, p)
	}
	// zkos and inidb name backups after the time
	start := int64(1600000000)
	zktime.Clock = start * 1e9
	groups := []rpc.GroupList{zkGroup("g", 5, zkM.Identity, zkB.Identity), zkGroup("h", 7, zkM.Identity), zkGroup("a", 3, zkA.Identity, zkM.Identity)}
	zkHas(z, groups...)
	var open []zkOpen
	tokens := uint64(77)
	invite := func(group string, who zkidentity.PublicIdentity) {
		now := zktime.Peek().Unix()
		may := false
		for _, g := range groups {
			if g.Name == group && g.Members[0] == zkM.Identity {
				may = true
			}
		}
		for _, g := range groups {
			if g.Name == group && zkOneOf(g.Members, who.Identity) {
				may = false
			}
		}
		var rest []zkOpen
		for _, o := range open {
			if o.group == group && o.who == who.Identity {
				if now < o.expires {
					may = false
				} else {
					continue
				}
			}
			rest = append(rest, o)
		}
		zkNext(tokens)
		err := z.gcInvite([]string{"/gc", "invite", group, who.Nick})
		zkv.Assert((err == nil) == may, "an administrator can invite whoever has no invitation and is no member")
		sent := zkSent(z)
		if err != nil {
			zkv.Assert(len(sent) == 0, "nothing is sent without need")
			return
		}
		zkv.Assert(len(sent) == 1 && *sent[0].id == who.Identity, "an invitation goes to whom it invites")
		gi, ok := sent[0].payload.(rpc.GroupInvite)
		zkv.Assert(ok && gi.Name == group && gi.Expires > now, "an invitation goes to whom it invites")
		open = append(rest, zkOpen{group, who.Identity, gi.Token, gi.Expires})
		tokens++
	}
	invite("g", zkC)
	invite("h", zkB)
	n := zkv.Pick(3, 4)
	for i := 0; i < n; i++ {
		switch zkv.Choose("event", 5) {
		case 3:
			// somebody leaves and could answer again
			k := zkv.Choose("which", 2)
			m := groups[k].Members
			if len(m) == 1 || m[0] != zkM.Identity {
				zkv.Stop()
			}
			who := m[len(m)-1]
			if zkv.Bool("kicked") {
				zkNo(z.gcKick([]string{"/gc", "kick", groups[k].Name, z.nickFromId(who)}), "a member can be kicked")
			} else {
				zkNo(z.handleGroupPart(rpc.Message{}, rpc.Push{From: who, Received: 1000}, rpc.GroupPart{Name: groups[k].Name}), "a member can leave")
			}
			zkSent(z)
			groups[k].Members = append([]zkID{}, m[:len(m)-1]...)
			zkv.Assert(z.groups[groups[k].Name].Generation > groups[k].Generation, "a changed list has a higher generation")
			groups[k].Generation = z.groups[groups[k].Name].Generation
			groups[k].Timestamp = z.groups[groups[k].Name].Timestamp
			zkGroups(z, groups, zkOnce)
			continue
		case 4:
			// a group ends, and alice has one of that name
			k := zkv.Choose("which", 2)
			if groups[k].Members[0] != zkM.Identity {
				zkv.Stop()
			}
			zkNo(z.gcKill([]string{"/gc", "kill", groups[k].Name}), "a group can be ended")
			zkSent(z)
			groups[k] = zkGroup(groups[k].Name, 20, zkA.Identity, zkM.Identity)
			zkNo(z.handleGroupInvite(rpc.Message{}, rpc.Push{From: zkA.Identity, Received: 1000},
				rpc.GroupInvite{Name: groups[k].Name, Token: 5, Description: "d", Expires: zktime.Peek().Unix() + zkDay}), "an invitation is shown")
			zkNo(z.gcJoin([]string{"/gc", "join", groups[k].Name, "5"}), "an invitation can be accepted")
			zkSent(z)
			zkNo(z.handleGroupList(rpc.Message{}, rpc.Push{From: zkA.Identity, Received: 1000}, groups[k]), "the administrator's list is taken")
			zkGroups(z, groups, zkOnce)
			// what was sent for the old group no longer counts
			var rest []zkOpen
			for _, o := range open {
				if o.group != groups[k].Name {
					rest = append(rest, o)
				}
			}
			open = rest
			continue
		case 0:
			zktime.Clock += [3]int64{100, zkDay - 50, zkDay + 50}[zkv.Choose("later", 3)] * 1e9
			continue
		case 1:
			invite([3]string{"g", "h", "a"}[zkv.Choose("group", 3)], people[zkv.Choose("who", 3)])
			continue
		}
		now := zktime.Peek().Unix()
		from := zkAnyID("from")
		zkv.Assume(from != zkM.Identity)
		name := [4]string{"g", "h", "a", "x"}[zkv.Choose("name", 4)]
		token := zkv.U64("token")
		err := z.handleGroupJoin(rpc.Message{}, rpc.Push{From: from, Received: 1000}, rpc.GroupJoin{Name: name, Token: token})
		in := -1
		for k, o := range open {
			if o.group == name && o.token == token && o.who == from && now < o.expires {
				in = k
			}
		}
		zkv.Assert((err == nil) == (in >= 0), zkOnce)
		sent := zkSent(z)
		if in >= 0 {
			zkv.Reach("joined")
			open = append(append([]zkOpen{}, open[:in]...), open[in+1:]...)
			for k := range groups {
				if groups[k].Name == name {
					zkv.Assert(z.groups[name].Generation > groups[k].Generation, "a changed list has a higher generation")
					groups[k].Members = append(append([]zkID{}, groups[k].Members...), from)
					groups[k].Generation = z.groups[name].Generation
					zkv.Assert(len(sent) == len(groups[k].Members)-1, "everybody in a group learns who joins")
					for j, m := range sent {
						l, ok := m.payload.(rpc.GroupList)
						zkv.Assert(ok && *m.id == groups[k].Members[j+1], "everybody in a group learns who joins")
						zkv.Assert(zkSameList(l, groups[k]), "members get the list that the administrator has")
					}
				}
			}
		} else {
			zkv.Assert(len(sent) == 0, "nothing is sent without need")
		}
		zkGroups(z, groups, zkOnce)
	}
	zkv.Reach("end")
}

// ZkvH_C02Accept: people invite somebody, who accepts some invitations.
//
//zkv:prop C02
func ZkvH_C02Accept() {
	z := zkMe(zkM)
	people := []zkidentity.PublicIdentity{zkA, zkB, zkC}
	zkKnow(z, zkA)
	zkKnow(z, zkB) // but not carol
	groups := []rpc.GroupList{zkGroup("a", 3, zkA.Identity, zkM.Identity)}
	zkHas(z, groups...)
	zktime.Clock = 1600000000 * 1e9
	var open []zkOpen
	names := []string{"g", "h", "a"}
	n := zkv.Pick(3, 4)
	for i := 0; i < n; i++ {
		name := names[zkv.Choose("name", 3)]
		token := [2]uint64{77, 78}[zkv.Choose("token", 2)]
		if zkv.Bool("invited") {
			k := zkv.Choose("by", 3)
			by := people[k]
			zkNo(z.handleGroupInvite(rpc.Message{}, rpc.Push{From: by.Identity, Received: 1000},
				rpc.GroupInvite{Name: name, Members: []string{by.Nick}, Token: token, Description: "d", Expires: zktime.Peek().Unix() + zkDay}), "an invitation is shown")
			zkv.Assert(len(zkSent(z)) == 0, "nothing is sent without need")
			known := k != 2
			for _, o := range open {
				// the first one stays until it is accepted or expires
				known = known && !(o.group == name && o.who == by.Identity)
			}
			if known {
				open = append(open, zkOpen{name, by.Identity, token, 0})
			}
			zkGroups(z, groups, "an invited user joins only groups whose invitation it accepts")
			continue
		}
		var can []int
		for k, o := range open {
			if o.group == name && o.token == token {
				can = append(can, k)
			}
		}
		in := false
		for _, g := range groups {
			in = in || g.Name == name
		}
		err := z.gcJoin([]string{"/gc", "join", name, strconv.FormatUint(token, 10)})
		zkv.Assert((err == nil) == (!in && len(can) > 0), "an invitation can be accepted, once")
		sent := zkSent(z)
		if err != nil {
			zkv.Assert(len(sent) == 0, "nothing is sent without need")
		} else {
			zkv.Reach("joined")
			zkv.Assert(len(sent) == 1, "an accepted invitation is answered")
			gj, ok := sent[0].payload.(rpc.GroupJoin)
			zkv.Assert(ok && gj.Name == name && gj.Token == token, "an accepted invitation is answered")
			who := -1
			for _, k := range can {
				if open[k].who == *sent[0].id {
					who = k
				}
			}
			zkv.Assert(who >= 0, "the answer goes to whoever has sent the invitation")
			groups = append(groups, zkGroup(name, 0, open[who].who))
			groups[len(groups)-1].Timestamp = 0
			open = append(append([]zkOpen{}, open[:who]...), open[who+1:]...)
			if zkv.Bool("part") {
				zkNo(z.gcPart([]string{"/gc", "part", name, "force"}), "a member can leave")
				zkSent(z)
				groups = groups[:len(groups)-1]
			}
		}
		zkGroups(z, groups, "an invited user joins only groups whose invitation it accepts")
	}
	zkv.Reach("end")
}

// ZkvH_C02Again: an invitation that has expired can be sent again.
//
//zkv:prop C02
func ZkvH_C02Again() {
	w := zkNewWorld(zkA, zkM)
	start := int64(1600000000)
	zktime.Clock = start * 1e9
	zkHas(w.z[0], zkGroup("g", 5, zkA.Identity))
	zkNext(77)
	zkNo(w.z[0].gcInvite([]string{"/gc", "invite", "g", "me"}), "somebody can be invited")
	w.collect(0)
	w.deliver(0, 1)
	zktime.Clock += (zkDay + 50) * 1e9
	old := zkv.Bool("answer the first")
	if !old {
		zkNext(78)
		zkNo(w.z[0].gcInvite([]string{"/gc", "invite", "g", "me"}), "somebody can be invited again")
		w.collect(0)
		w.deliver(0, 1)
	}
	tok := "78"
	if old {
		tok = "77"
	}
	err := w.z[1].gcJoin([]string{"/gc", "join", "g", tok})
	if !old {
		zkNo(err, "the new invitation can be accepted")
	}
	w.collect(1)
	for len(w.way[1][0]) > 0 {
		w.deliver(1, 0)
	}
	for len(w.way[0][1]) > 0 {
		w.deliver(0, 1)
	}
	zkv.Assert(zkOneOf(w.z[0].groups["g"].Members, zkM.Identity) == !old, zkOnce)
	if !old {
		zkv.Assert(zkSameList(w.z[0].groups["g"], w.z[1].groups["g"]), "in the end all members have the administrator's list")
	}
	zkv.Reach("end")
}

// ZkvH_C02Name: an invitation whose name is anything leaves the others alone.
//
//zkv:prop C02,C04
func ZkvH_C02Name() {
	z := zkMe(zkM)
	zkKnow(z, zkA)
	zkKnow(z, zkB)
	zktime.Clock = 1600000000 * 1e9
	invite := func(by zkID, name string, token uint64) {
		zkNo(z.handleGroupInvite(rpc.Message{}, rpc.Push{From: by, Received: 1000},
			rpc.GroupInvite{Name: name, Token: token, Description: "d", Expires: zktime.Peek().Unix() + zkDay}), "an invitation is shown")
	}
	invite(zkA.Identity, "g", 77)
	name := ""
	switch zkv.Choose("kind", 3) {
	case 0:
		name = zkv.Str("name", zkv.Choose("length", zkv.Pick(2, 3)))
	case 1:
		name = [6]string{".", "..", "../g", "/", "g]", "\n"}[zkv.Choose("odd", 6)]
	case 2:
		// a whole invitation from somebody else inside the name
		name = "y]\n[h]\n" + zkAHex + "=AAAAAWgAAAAAAAAAAAAAAAAAAE4AAAAA\n[z"
	}
	if len(name) == 1 {
		zkv.Assume(name != "g" && name != "h" && name != "k")
	}
	invite(zkB.Identity, name, 78)
	if zkv.Bool("another") {
		invite(zkB.Identity, "k", 79)
		err := z.gcJoin([]string{"/gc", "join", "k", "79"})
		zkNo(err, "an invitation can be accepted")
	}
	zkv.Assert(z.gcJoin([]string{"/gc", "join", "h", "78"}) != nil, "only an invitation from its sender can be accepted")
	err := z.gcJoin([]string{"/gc", "join", name, "78"})
	zkSent(z)
	if err == nil {
		zkv.Reach("accepted")
	}
	zkNo(z.gcJoin([]string{"/gc", "join", "g", "77"}), "an invitation can be accepted")
	sent := zkSent(z)
	zkv.Assert(len(sent) == 1 && *sent[0].id == zkA.Identity, "the answer goes to whoever has sent the invitation")
	zkDisk(z)
	zkv.Reach("end")
}

const zkAHex = "0100000000000000000000000000000000000000000000000000000000000001"

// ZkvH_C02Both: an invitation arrives while another one is accepted.
//
//zkv:prop C02
func ZkvH_C02Both() {
	z := zkMe(zkM)
	zkKnow(z, zkA)
	zkKnow(z, zkB)
	zktime.Clock = 1600000000 * 1e9
	invite := func(by zkID, name string, token uint64) {
		zkNo(z.handleGroupInvite(rpc.Message{}, rpc.Push{From: by, Received: 1000},
			rpc.GroupInvite{Name: name, Token: token, Description: "d", Expires: zktime.Peek().Unix() + zkDay}), "an invitation is shown")
	}
	invite(zkA.Identity, "g", 77)
	name := [2]string{"g", "h"}[zkv.Choose("name", 2)]
	zkv.Interleave(zkv.Pick(1, 2))
	go func() {
		zkNo(z.gcJoin([]string{"/gc", "join", "g", "77"}), "an invitation can be accepted")
	}()
	invite(zkB.Identity, name, 78)
	zkv.Quiesce()
	zkv.Interleave(0)
	_, err := z.getJoin("g", 77)
	zkv.Assert(err != nil, "an invitation that was accepted is gone")
	from, err := z.getJoin(name, 78)
	zkv.Assert(err == nil && from == zkB.Identity, "no invitation is lost")
	zkv.Reach("end")
}

// ZkvH_C02Invites: somebody is invited while another one accepts.
//
//zkv:prop C02
func ZkvH_C02Invites() {
	z := zkMe(zkM)
	z.online = true
	for _, p := range []zkidentity.PublicIdentity{zkA, zkB} {
		zkKnow(z, p)
	}
	zktime.Clock = 1600000000 * 1e9
	zkHas(z, zkGroup("g", 5, zkM.Identity), zkGroup("h", 5, zkM.Identity))
	zkNext(77)
	zkNo(z.gcInvite([]string{"/gc", "invite", "g", "alice"}), "somebody can be invited")
	name := [2]string{"g", "h"}[zkv.Choose("name", 2)]
	zkNext(78)
	join := func(from zkID, name string, token uint64) error {
		return z.handleGroupJoin(rpc.Message{}, rpc.Push{From: from, Received: 1000}, rpc.GroupJoin{Name: name, Token: token})
	}
	zkv.Interleave(zkv.Pick(1, 2))
	go func() {
		zkNo(join(zkA.Identity, "g", 77), "an invitation can be answered")
	}()
	zkNo(z.gcInvite([]string{"/gc", "invite", name, "bob"}), "somebody can be invited")
	zkv.Quiesce()
	zkv.Interleave(0)
	zkv.Assert(z.delInvite(zkA.Identity, rpc.GroupJoin{Name: "g", Token: 77}) != nil, zkOnce)
	zkNo(join(zkB.Identity, name, 78), "no invitation is lost")
	zkv.Assert(zkOneOf(z.groups["g"].Members, zkA.Identity), "whoever answers an invitation is added")
	zkv.Assert(zkOneOf(z.groups[name].Members, zkB.Identity), "whoever answers an invitation is added")
	zkDisk(z)
	zkv.Reach("end")
}
