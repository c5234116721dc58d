package account

import (
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// ZkvH_States: any short history of account commands and restarts.
//
//zkv:prop A02
//zkv:opt w=2
func ZkvH_States() {
	a := zkAccounts()
	const none, enabled, disabled = 0, 1, 2
	var st [2]int
	steps := zkv.Pick(4, 5)
	for s := 0; s < steps; s++ {
		u := zkv.Choose("user", 2)
		n := byte(u + 1)
		id := zkIdent(n)
		switch zkv.Choose("op", 5) {
		case 0:
			err := a.Create(zkPublic(n), false)
			if st[u] == none {
				zkv.Assert(err == nil, "an account can be created")
				st[u] = enabled
			} else {
				zkv.Assert(err != nil, "an account is created only once")
			}
		case 1:
			err := a.Disable(id)
			if st[u] == enabled {
				zkv.Assert(err == nil, "an enabled account can be disabled")
				st[u] = disabled
			} else {
				zkv.Assert(err != nil, "only an enabled account can be disabled")
			}
		case 2:
			err := a.Enable(id)
			if st[u] == disabled {
				zkv.Assert(err == nil, "a disabled account can be enabled")
				st[u] = enabled
			} else {
				zkv.Assert(err != nil, "only a disabled account can be enabled")
			}
		case 3:
			_, err := a.Deliver(id, zkIdent(9), []byte("x"), false)
			zkv.Assert((err == nil) == (st[u] == enabled), "only an enabled account receives messages")
		case 4:
			zkv.Assume(u == 0)
			a = zkAccounts()
		}
		for u := range st {
			id := zkIdent(byte(u + 1))
			zkv.Assert(a.Enabled(id) == (st[u] == enabled), "an account is enabled as the last command said")
			zkv.Assert(a.Disabled(id) == (st[u] == disabled), "an account is disabled as the last command said")
		}
	}
	zkv.Reach("end")
}

// ZkvH_Keep: an account keeps its queue and its identity while disabled.
//
//zkv:prop A02
func ZkvH_Keep() {
	a := zkAccounts()
	id := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	m := &zkMail{from: zkIdent(2), payload: zkv.Bytes("payload", 3)}
	id2, err := a.Deliver(id, m.from, m.payload, false)
	zkv.Assert(err == nil, "a message for an account is accepted")
	m.id, m.accepted, m.hi = id2, true, 1<<62
	listed := zkv.Choose("listed", 2) == 1
	if listed {
		zkv.Assert(a.Push(id) == nil, "an account can be listed")
	}
	zkv.Assert(a.Disable(id) == nil, "an enabled account can be disabled")
	if zkv.Choose("restart", 2) == 1 {
		a = zkAccounts()
	}
	// somebody tries to take the identity over
	for n := zkv.Choose("create", 3); n > 0; n-- {
		p := zkPublic(1)
		p.Name, p.Nick = "mallory", "mallory"
		zkv.Assert(a.Create(p, n == 2) != nil, "a disabled account cannot be created again")
	}
	zkv.Assert(a.Disabled(id) && !a.Enabled(id), "an account is disabled as the last command said")
	zkv.Assert(a.Enable(id) == nil, "a disabled account can be enabled")
	if listed {
		p, err := a.Find("nick1")
		zkv.Assert(err == nil && p.Name == "name1" && p.Identity == id, "a listed account can be found")
	} else {
		_, err := a.Find("nick1")
		zkv.Assert(err != nil, "an account that is not listed cannot be found")
	}
	r := zkLogin(a, id)
	zkv.Quiesce()
	zkCheck(r, []*zkMail{m}, []*zkMail{m})
	zkv.Reach("end")
}

// ZkvH_CommandFault: a file operation of a command fails.
//
//zkv:prop A02
func ZkvH_CommandFault() {
	a := zkAccounts()
	id := zkIdent(1)
	const none, enabled, disabled = 0, 1, 2
	st := zkv.Choose("state", 3)
	if st != none {
		zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	}
	if st == disabled {
		zkv.Assert(a.Disable(id) == nil, "an enabled account can be disabled")
	}
	want := st
	var err error
	at := zkv.Choose("at", zkv.Pick(20, 30))
	op := zkv.Choose("op", 3)
	zkos.Arm(-1, at)
	switch op {
	case 0:
		err = a.Create(zkPublic(1), false)
		want = enabled
	case 1:
		err = a.Disable(id)
		want = disabled
	case 2:
		err = a.Enable(id)
		want = enabled
	}
	faulted := zkos.Faulted
	zkos.Disarm()
	zkv.Assume(faulted)
	if err != nil {
		want = st
	}
	if zkv.Choose("restart", 2) == 1 {
		a = zkAccounts()
	}
	zkv.Assert(a.Enabled(id) == (want == enabled), "a failed command changes nothing")
	zkv.Assert(a.Disabled(id) == (want == disabled), "a failed command changes nothing")
	switch want {
	case none:
		zkv.Assert(a.Create(zkPublic(1), false) == nil, "a failed creation can be tried again")
	case disabled:
		zkv.Assert(a.Enable(id) == nil, "a disabled account can be enabled")
	}
	zkv.Assert(a.Push(id) == nil, "an account can be listed")
	p, err := a.Find("nick1")
	zkv.Assert(err == nil && p.Identity == id && p.Name == "name1", "a listed account can be found")
	_, err = a.Deliver(id, zkIdent(9), []byte("x"), false)
	zkv.Assert(err == nil, "a message for an account is accepted")
	zkv.Reach("end")
}
