package account

import (
	"path"
	"time"

	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zktime"
)

func zkSend(a *Account, to zkID, m *zkMail) {
	m.lo = zktime.Peek().Unix()
	id, err := a.Deliver(to, m.from, append([]byte{}, m.payload...), m.clear)
	m.hi = zktime.Peek().Unix()
	if err == nil {
		m.id = id
		m.accepted = true
	}
}

func zkAccepted(ms []*zkMail) (r []*zkMail) {
	for _, m := range ms {
		if m.accepted && !m.deleted {
			r = append(r, m)
		}
	}
	return
}

// ZkvH_Queue: a sequential history of deliveries, acknowledgements, logins,
// logouts and restarts.
//
//zkv:prop A01
//zkv:opt w=2
func ZkvH_Queue() {
	a := zkAccounts()
	to := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	var ms []*zkMail
	var r *zkReader
	may := 0
	end := func() {
		if r != nil {
			zkv.Quiesce()
			zkCheck(r, zkAccepted(ms), ms[may:])
			a.Offline(to)
			close(r.stop)
			r = nil
		}
	}
	steps := zkv.Pick(5, 6)
	for s := 0; s < steps; s++ {
		switch zkv.Choose("op", 4) {
		case 0: // deliver
			m := &zkMail{from: zkIdent(2 + byte(len(ms))), payload: zkv.Bytes("payload", zkv.Choose("len", 2)*3), clear: zkv.Bool("clear")}
			zkSend(a, to, m)
			zkv.Assert(m.accepted, "a message for an account is accepted")
			ms = append(ms, m)
		case 1: // log in, or out
			if r != nil {
				end()
			} else {
				r = zkLogin(a, to)
			}
		case 2: // acknowledge the oldest message of this session
			zkv.Assume(r != nil)
			zkv.Quiesce()
			zkCheck(r, zkAccepted(ms), ms)
			q := zkAccepted(ms)
			zkv.Assume(len(q) > 0)
			m := q[zkv.Choose("which", len(q))]
			zkv.Assert(a.Delete(to, path.Base(m.id)) == nil, "a delivered message can be deleted")
			m.deleted = true
		case 3: // restart
			zkv.Assume(r == nil && s > 0)
			a = zkAccounts()
		}
	}
	end()
	r = zkLogin(a, to)
	zkv.Quiesce()
	zkCheck(r, zkAccepted(ms), zkAccepted(ms))
	zkv.ObsInt("delivered", int64(len(r.list())))
	zkv.Reach("end")
}

// ZkvH_Race: messages are delivered while the recipient comes online.
//
//zkv:prop A01
//zkv:opt w=3
func ZkvH_Race() {
	a := zkAccounts()
	to := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	var ms []*zkMail
	for i := 0; i < 3; i++ {
		ms = append(ms, &zkMail{from: zkIdent(2 + byte(i)), payload: []byte{byte(i)}, clear: i == 1})
	}
	before := zkv.Choose("before", 2)
	for _, m := range ms[:before] {
		zkSend(a, to, m)
		zkv.Assert(m.accepted, "a message for an account is accepted")
	}
	if zkv.Choose("clock", 2) == 1 { // the clock stands still
		t := zktime.Peek().Add(time.Second)
		zktime.NowHook = func() time.Time { return t }
		zktime.Clock = t.UnixNano()
	}
	zkv.Delays(zkv.Pick(2, 3))
	done := make(chan bool, 3)
	rest := ms[before:zkv.Pick(2, 3)]
	for _, m := range rest {
		m := m
		go func() {
			zkSend(a, to, m)
			done <- true
		}()
	}
	r := zkLogin(a, to)
	for range rest {
		<-done
	}
	zkv.Quiesce()
	zkCheck(r, zkAccepted(ms), ms)
	// and again after a new login
	zkv.Delays(0)
	a.Offline(to)
	close(r.stop)
	r = zkLogin(a, to)
	zkv.Quiesce()
	zkCheck(r, zkAccepted(ms), ms)
	zkv.Reach("end")
}

// ZkvH_AckRace: acknowledgements race with further deliveries, and with
// going offline and online again.
//
//zkv:prop A01
//zkv:opt w=3
func ZkvH_AckRace() {
	a := zkAccounts()
	to := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	m1 := &zkMail{from: zkIdent(2), payload: []byte("one")}
	m2 := &zkMail{from: zkIdent(3), payload: []byte("two")}
	m3 := &zkMail{from: zkIdent(4), payload: []byte("three")}
	zkSend(a, to, m1)
	zkSend(a, to, m2)
	r := zkLogin(a, to)
	zkv.Quiesce()
	zkCheck(r, []*zkMail{m1, m2}, []*zkMail{m1, m2})
	zkv.Delays(zkv.Pick(2, 3))
	done := make(chan bool, 2)
	go func() {
		zkSend(a, to, m3)
		done <- true
	}()
	go func() {
		zkv.Assert(a.Delete(to, path.Base(m1.id)) == nil, "a delivered message can be deleted")
		m1.deleted = true
		done <- true
	}()
	relog := zkv.Choose("relog", 2) == 1
	if relog {
		a.Offline(to)
		close(r.stop)
		r = zkLogin(a, to)
	}
	<-done
	<-done
	zkv.Quiesce()
	zkv.Assert(m3.accepted, "a message for an account is accepted")
	zkCheck(r, []*zkMail{m2, m3}, []*zkMail{m1, m2, m3})
	zkv.Delays(0)
	a.Offline(to)
	close(r.stop)
	r = zkLogin(a, to)
	zkv.Quiesce()
	zkCheck(r, []*zkMail{m2, m3}, []*zkMail{m2, m3})
	zkv.Reach("end")
}

// ZkvH_Second: a second login does not disturb the first.
//
//zkv:prop A01,A02
func ZkvH_Second() {
	a := zkAccounts()
	to := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	m := &zkMail{from: zkIdent(2), payload: zkv.Bytes("payload", 3)}
	r := zkLogin(a, to)
	other := make(chan *Notification, 4)
	err := a.Online(to, other)
	_, already := err.(ErrAlreadyOnline)
	zkv.Assert(already, "an account that is online cannot come online again")
	zkSend(a, to, m)
	zkv.Assert(m.accepted, "a message for an account is accepted")
	zkv.Quiesce()
	zkCheck(r, []*zkMail{m}, []*zkMail{m})
	zkv.Assert(len(other) == 0, "a refused login receives nothing")
	zkv.Reach("end")
}

// ZkvH_Burst: messages that arrive at nearly the same time, for a user who
// takes a long time to read them.
//
//zkv:prop A01
func ZkvH_Burst() {
	a := zkAccounts()
	to := zkIdent(1)
	zkv.Assert(a.Create(zkPublic(1), false) == nil, "an account can be created")
	zktime.Step = [3]int64{1, 1000, 999999999}[zkv.Choose("apart", 3)]
	r := &zkReader{who: to, c: make(chan *Notification), stop: make(chan bool)}
	online := zkv.Bool("online")
	if online {
		zkv.Assert(a.Online(to, r.c) == nil, "an account that is not online can come online")
	}
	var ms []*zkMail
	for i := 0; i < zkv.Pick(3, 5); i++ {
		m := &zkMail{from: zkIdent(byte(2 + i)), payload: []byte{byte(i)}}
		zkSend(a, to, m)
		zkv.Assert(m.accepted, "a message for an account is accepted")
		ms = append(ms, m)
	}
	if !online {
		zkv.Assert(a.Online(to, r.c) == nil, "an account that is not online can come online")
	}
	zkv.Quiesce()
	zktime.Clock += 3600e9
	zktime.FireTimers()
	zkv.Quiesce()
	go r.run()
	zkv.Quiesce()
	zkCheck(r, ms, ms)
	zkv.Reach("end")
}
