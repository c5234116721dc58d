package account

import (
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// ZkvH_StoreCrash: the server dies, or a file operation fails, while a
// message is stored.
//
//zkv:prop A03
//zkv:opt w=2
func ZkvH_StoreCrash() {
	a := zkAccounts()
	to := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	var ms []*zkMail
	for n := zkv.Choose("before", 3); n > 0; n-- {
		m := &zkMail{from: zkIdent(9), payload: zkv.Bytes("payload", 2)}
		zkSend2(a, to, m)
		zkv.Assert(m.accepted, "a message for an account is accepted")
		ms = append(ms, m)
	}
	var r *zkReader
	online := zkv.Choose("online", 2) == 1
	if online {
		r = zkLogin(a, to)
		zkv.Quiesce()
		zkCheck(r, ms, ms)
	}
	m := &zkMail{from: zkIdent(7), payload: zkv.Bytes("payload", 5*zkv.Choose("len", 2)), clear: zkv.Bool("clear")}
	crash, fault := -1, -1
	at := zkv.Choose("at", zkv.Pick(6, 12))
	if zkv.Choose("crash", 2) == 1 {
		crash = at
	} else {
		fault = at
	}
	zkos.Arm(crash, fault)
	dead := zkv.Catch(func() { zkSend2(a, to, m) })
	crashed, faulted := zkos.Crashed, zkos.Faulted
	zkos.Disarm()
	zkv.Assume(crashed || faulted)
	if _, ok := dead.(zkos.CrashSignal); dead != nil && !ok {
		panic(dead)
	}
	may := append([]*zkMail{}, ms...)
	if crashed {
		// restart
		if r != nil {
			close(r.stop)
		}
		a = zkAccounts()
	} else {
		if m.accepted {
			ms = append(ms, m)
			may = append(may, m)
		}
		zkv.Quiesce()
		if r != nil {
			zkCheck(r, ms, may)
			a.Offline(to)
			close(r.stop)
		}
	}
	after := &zkMail{from: zkIdent(8), payload: zkv.Bytes("payload", 1)}
	r = zkLogin(a, to)
	if zkv.Bool("later") {
		zkv.Quiesce()
	}
	zkSend2(a, to, after)
	zkv.Assert(after.accepted, "messages are accepted after a crash")
	ms = append(ms, after)
	may = append(may, after)
	zkv.Quiesce()
	if crashed {
		// the interrupted message may be there, complete
		n := 0
		var rest []*Notification
		for _, g := range r.list() {
			zkv.Assert(g.Error == nil, "no delivery error after a crash")
			if g.From == m.from {
				n++
				m.lo, m.hi = g.Received, g.Received
				zkv.Assert(m.is(g), "an interrupted message is delivered complete or not at all")
				continue
			}
			rest = append(rest, g)
		}
		zkv.Assert(n < 2, "a message is delivered once per session")
		r.got = rest
	}
	zkCheck(r, ms, may)
	zkv.Reach("end")
}

func zkSend2(a *Account, to zkID, m *zkMail) {
	id, err := a.Deliver(to, m.from, append([]byte{}, m.payload...), m.clear)
	m.lo, m.hi = 0, 1<<62
	if err == nil {
		m.id = id
		m.accepted = true
	}
}
