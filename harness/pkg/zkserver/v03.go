package main

import (
	"bytes"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktime"
)

// ZkvH_V03Pull: something is published, and any name is pulled, perhaps after
// a restart.
//
//zkv:prop V03
func ZkvH_V03Pull() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	la := a.login()
	blob := zkv.BytesUpTo("blob", zkv.Pick(2, 4))
	pin := [4]uint64{7, 0, 1000000, 999999}[zkv.Choose("pin", 4)]
	want := "0"
	switch pin {
	case 7:
		want = "7"
	case 999999:
		want = "999999"
	}
	pins(pin)
	n := la.publish(blob, "24")
	zkv.Assert(n == want, "a publication gets a fresh name")
	if zkv.Bool("restart") {
		z = zkServerOf(z.id)
		a.srv, b.srv = z, z
	}
	lb := b.login()
	lb.has(zkPin{n, blob})
	var other string
	switch zkv.Choose("name", 6) {
	case 0:
		s := zkv.BytesUpTo("other", 2)
		for _, c := range s {
			zkv.Assume(c < 0x80)
		}
		other = string(s)
	case 1:
		other = " " + n
	case 2:
		other = "0" + n
	case 3:
		other = n + "\x00"
	case 4:
		other = "# This file is autogenerated, DO NOT EDIT!"
	case 5:
		other = "../" + n
	}
	got, ok := lb.pull(other)
	zkv.Assert(ok == (other == n), "a name that was not given out stands for nothing")
	if ok {
		zkv.Reach("known")
		zkv.Assert(bytes.Equal(got, blob), "what has a name is handed out as it was published")
	}
	lb.has(zkPin{n, blob})
	zkv.Reach("end")
}

// ZkvH_V03Limits: the limits on size and expiration are enforced.
//
//zkv:prop V03
func ZkvH_V03Limits() {
	z := zkServer()
	a := zkNewUser(z, 1)
	l := a.login()
	size := [5]int{0, 1, 4095, 4096, 4097}[zkv.Choose("size", 5)]
	blob := make([]byte, size)
	if size > 0 {
		blob[0], blob[size-1] = zkv.U8("first"), zkv.U8("last")
	}
	exps := [14]string{"1", "24", "168", "169", "1000", "", "-1", "x", "99999999999999999999", " 1", "1 ", "1.5", "0x1", "18446744073709551617"}
	k := zkv.Choose("expiration", 15)
	var exp string
	var okExp bool
	if k < 14 {
		exp, okExp = exps[k], k < 3
	} else {
		c := append([]byte("1")[:zkv.Pick(1, 0)], zkv.Bytes("digits", zkv.Pick(2, 3))...)
		exp = string(c)
		v := 0
		okExp = true
		for i := range c {
			zkv.Assume(c[i] < 0x80)
			okExp = zkv.And(okExp, zkv.And(c[i] >= '0', c[i] <= '9'))
			v = 10*v + int(c[i]) - '0'
		}
		zkv.Assume(v != 0)
		okExp = zkv.And(okExp, v <= 168)
	}
	pins(5)
	n := l.publish(blob, exp)
	zkv.Assert(l.live(), "a publication that is refused does not end the session")
	zkv.Assert((n != "") == zkv.And(okExp, size <= 4096), "exactly blobs within the limits are accepted")
	b, ok := l.pull("5")
	zkv.Assert(ok == (n != ""), "what is refused gets no name")
	if ok {
		zkv.Assert(bytes.Equal(b, blob), "what has a name is handed out as it was published")
		zkv.Reach("accepted")
	}
	zkv.Reach("end")
}

// ZkvH_V03Expire: a name is pulled at any later time.
//
//zkv:prop V03
func ZkvH_V03Expire() {
	z := zkServer()
	a := zkNewUser(z, 1)
	l := a.login()
	k := zkv.Choose("hours", 4)
	h := [4]int64{1, 2, 24, 168}[k]
	pins(5, 6)
	blob := zkv.Bytes("blob", 2)
	start := zktime.Peek().Unix()
	n := l.publish(blob, [4]string{"1", "2", "24", "168"}[k])
	zkv.Assert(n == "5", "a publication gets a fresh name")
	if zkv.Bool("another") {
		zkv.Assert(l.publish(nil, "168") == "6", "a publication gets a fresh name")
	}
	now := start + int64(zkv.U32("later"))
	zktime.NowHook = func() time.Time { return time.Unix(now, 0) }
	b, ok := l.pull("5")
	if ok {
		zkv.Assert(bytes.Equal(b, blob), "what has a name is handed out as it was published")
	}
	zkv.Assert(zkv.Implies(now < start+3600*h-60, ok), "a name stands for what was published until it expires")
	zkv.Assert(zkv.Implies(now > start+3600*h+60, !ok), "an expired name stands for nothing")
	if ok {
		zkv.Reach("valid")
	} else {
		zkv.Reach("expired")
	}
}

// ZkvH_V03Names: publications whose random names collide.
//
//zkv:prop V03
func ZkvH_V03Names() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	ls := [2]*zkLink{a.login(), b.login()}
	var has []zkPin
	for i := 0; i < zkv.Pick(3, 4); i++ {
		x := [3]int{zkv.Choose("x", 3), zkv.Choose("y", 3), 0}
		k := 0
		for _, p := range has {
			if p.name == string([]byte{'0' + byte(x[k])}) {
				k++
			}
		}
		for _, p := range has {
			if k == 1 && p.name == string([]byte{'0' + byte(x[k])}) {
				k++
			}
		}
		pins(uint64(x[0]))
		if k > 0 {
			pins(uint64(x[1]))
		}
		if k > 1 {
			pins(uint64(3 + i))
		}
		blob := zkv.Bytes("blob", 1)
		n := ls[i%2].publish(blob, "24")
		zkv.Assert(n != "", "a publication gets a name")
		for _, p := range has {
			zkv.Assert(p.name != n, "a name is given out once")
		}
		has = append(has, zkPin{n, blob})
	}
	for i, p := range has {
		ls[(i+1)%2].has(p)
	}
	zkv.Reach("end")
}

// ZkvH_V03Full: no free name is found.
//
//zkv:prop V03
func ZkvH_V03Full() {
	z := zkServer()
	a := zkNewUser(z, 1)
	l := a.login()
	n := 0
	for ; n < 30; n++ {
		pins(5)
	}
	blob := zkv.Bytes("blob", 1)
	zkv.Assert(l.publish(blob, "24") == "5", "a publication gets a name")
	zkv.Assert(l.publish(zkv.Bytes("other", 1), "24") == "", "a name is given out once")
	l.has(zkPin{"5", blob})
	l.alive(1)
	zkv.Reach("end")
}

// ZkvH_V03Race: two users publish, and perhaps a third pulls, at one time.
//
//zkv:prop V03
func ZkvH_V03Race() {
	z := zkServer()
	us := [3]*zkUser{zkNewUser(z, 1), zkNewUser(z, 2), zkNewUser(z, 3)}
	var ls [3]*zkLink
	for i, u := range us {
		ls[i] = u.login()
	}
	var has []zkPin
	if zkv.Bool("before") {
		pins(7)
		blob := zkv.Bytes("blob", 1)
		has = append(has, zkPin{ls[0].publish(blob, "24"), blob})
	}
	if zkv.Bool("same") {
		pins(8, 8, 9)
	} else {
		pins(8, 9)
	}
	zkv.Delays(zkv.Pick(1, 2))
	bs := [2][]byte{zkv.Bytes("blob", 1), zkv.Bytes("blob", 2)}
	for i := range bs {
		ls[i].send(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: bs[i], Expiration: "24"})
	}
	ls[2].send(rpc.TaggedCmdRendezvousPull, 2, rpc.RendezvousPull{Token: "8"})
	zkv.Quiesce()
	zkv.Delays(0)
	for i := range bs {
		errs, p, ok := ls[i].pinReply(rpc.TaggedCmdRendezvous, 1)
		zkv.Assert(ok && errs == "", "a publication gets a name")
		for _, q := range has {
			zkv.Assert(p.name != q.name, "a name is given out once")
		}
		has = append(has, zkPin{p.name, bs[i]})
	}
	errs, p, ok := ls[2].pinReply(rpc.TaggedCmdRendezvousPull, 2)
	zkv.Assert(ok, "a pull is answered")
	if errs == "" {
		good := false
		for _, q := range has {
			good = zkv.Or(good, zkv.And(q.name == "8", bytes.Equal(q.blob, p.blob)))
		}
		zkv.Assert(good, "what has a name is handed out as it was published")
		zkv.Reach("early")
	}
	for _, q := range has {
		ls[2].has(q)
	}
	zkv.Reach("end")
}

// ZkvH_V03Crash: the server dies, or a file operation fails, during a
// publication or a pull.
//
//zkv:prop V03
func ZkvH_V03Crash() {
	z := zkServer()
	a, b := zkNewUser(z, 1), zkNewUser(z, 2)
	la, lb := a.login(), b.login()
	var has []zkPin
	if zkv.Bool("before") {
		pins(7)
		blob := zkv.Bytes("blob", 1)
		has = append(has, zkPin{la.publish(blob, "24"), blob})
	}
	pins(8, 9)
	blob := zkv.Bytes("blob", 2)
	at := zkv.Choose("at", zkv.Pick(12, 24))
	crash := zkv.Bool("crash")
	pull := zkv.Bool("pull")
	zkos.CrashBlocks = true
	if crash {
		zkos.Arm(at, -1)
	} else {
		zkos.Arm(-1, at)
	}
	if pull {
		lb.send(rpc.TaggedCmdRendezvousPull, 2, rpc.RendezvousPull{Token: "7"})
	} else {
		la.send(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: blob, Expiration: "24"})
	}
	zkv.Quiesce()
	zkv.Assume(zkos.Crashed || zkos.Faulted)
	zkos.Disarm()
	if pull {
		errs, p, ok := lb.pinReply(rpc.TaggedCmdRendezvousPull, 2)
		if ok && errs == "" {
			zkv.Assert(len(has) > 0 && bytes.Equal(has[0].blob, p.blob), "what has a name is handed out as it was published")
		}
	} else {
		errs, p, ok := la.pinReply(rpc.TaggedCmdRendezvous, 1)
		if ok && errs == "" {
			zkv.Assert(p.name == "8", "a publication gets a name")
			has = append(has, zkPin{"8", blob})
		}
	}
	if crash || zkv.Bool("restart") {
		z = zkServerOf(z.id)
		a.srv, b.srv = z, z
		lb = b.login()
	} else if !lb.live() {
		lb = b.login()
	}
	for _, p := range has {
		lb.has(p)
	}
	if len(has) == 0 || has[len(has)-1].name != "8" {
		if got, ok := lb.pull("8"); ok {
			zkv.Assert(!pull && bytes.Equal(got, blob), "a publication that was cut short is complete or gone")
		}
	}
	pins(20, 21)
	p := zkPin{lb.publish(blob, "24"), blob}
	zkv.Assert(p.name != "", "publications work after a failure")
	lb.has(p)
	zkv.Reach("end")
}
