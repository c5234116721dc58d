package main

import (
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktime"
)

// mayLogin connects a user who perhaps has another session.
func (u *zkUser) mayLogin() *zkLink {
	l := u.connect()
	m, _ := l.recv()
	zkv.Assert(m.Command == rpc.SessionCmdWelcome, "the server welcomes an enabled account")
	return l
}

// settle checks that u, whose connections are ls, can take over and that a
// live session is known to the server.
func (u *zkUser) settle(ls ...*zkLink) {
	n := 0
	for _, l := range ls {
		if l.live() {
			n++
			zkv.Assert(l.registered(), "the server knows the session that is live")
			l.alive(3)
			// it stays so as long as the client pings
			for i := 0; i < 2; i++ {
				zktime.Clock += 10e9
				l.s.Pass(zktime.Clock)
				zkv.Quiesce()
				l.alive(3)
			}
			zkv.Reach("live")
		}
	}
	zkv.Assert(n <= 1, "an account has one session")
	l := u.mayLogin()
	zkv.Quiesce()
	zkv.Assert(l.live() == (n == 0), "a login of an account without sessions succeeds")
	for _, o := range ls {
		zkv.Assert(!o.live(), "a login ends the session that the account had")
	}
	if n > 0 {
		zkv.Reach("takeover")
		l = u.mayLogin()
		zkv.Quiesce()
	}
	zkv.Assert(l.live() && l.registered(), "an account whose sessions have ended can log in")
	l.alive(3)
	l.hangup()
	zkv.Assert(!l.registered(), "a session that has ended is not registered")
	l = u.mayLogin()
	zkv.Quiesce()
	zkv.Assert(l.live() && l.registered(), "an account whose sessions have ended can log in")
	l.alive(4)
}

// ZkvH_V06Overlap: two sessions of one account start at the same time, or one
// ends, in some way, while another starts.
//
//zkv:prop V06
func ZkvH_V06Overlap() {
	z := zkServer()
	a := zkNewUser(z, 1)
	if zkv.Bool("mail") {
		_, err := z.account.Deliver(a.id(), a.id(), []byte{1}, false)
		zkNo(err, "a message can be stored")
	}
	how := zkv.Choose("how", 5)
	var l1 *zkLink
	if how < 4 {
		l1 = a.login()
	}
	// new sessions wait before they go online
	hold, waiting := make(chan bool), 0
	zkos.OpenHook = func(name string) {
		if name == z.settings.MOTD {
			waiting++
			<-hold
		}
	}
	if how == 4 {
		l1 = a.connect()
	}
	l2 := a.connect()
	zkv.Quiesce()
	zkos.OpenHook = nil
	first := zkv.Bool("event first")
	zkv.Delays(zkv.Pick(1, 2))
	for k := 0; k < 2; k++ {
		if first == (k == 1) {
			for ; waiting > 0; waiting-- {
				hold <- true
			}
			continue
		}
		switch how {
		case 1:
			l1.c.Close()
		case 2:
			l1.s.Expire()
		case 3: // a message that ends the session
			l1.trySend("nonsense", 0, rpc.Ping{})
		}
	}
	zkv.Quiesce()
	zkv.Delays(0)
	l2.drain()
	if how == 4 {
		l1.drain()
	}
	a.settle(l1, l2)
	zkv.Reach("end")
}

// ZkvH_V06Stall: a client stops reading, or its connection stops working
// while answers are pending, and the user connects again.
//
//zkv:prop V06
func ZkvH_V06Stall() {
	z := zkServer()
	a := zkNewUser(z, 1)
	l := a.login()
	mail := zkv.Choose("mail", 2)
	l.s.Full = true
	for i := 0; i < mail; i++ {
		_, err := z.account.Deliver(a.id(), a.id(), []byte{1}, false)
		zkNo(err, "a message can be stored")
		zkv.Quiesce()
	}
	n := [5]int{0, 1, tagDepth, tagDepth + 1, tagDepth + 4}[zkv.Choose("requests", 5)]
	for i := 0; i < n; i++ {
		l.send(rpc.TaggedCmdPing, 1, rpc.Ping{})
	}
	zkv.Quiesce()
	how := zkv.Choose("how", 3)
	switch how {
	case 0: // a new connection takes over
		a.mayLogin()
	case 1: // the connection breaks
		l.s.Refuse = true
		l.s.Wake()
	case 2:
		l.c.Close()
	}
	zkv.Quiesce()
	if how == 1 {
		zkv.Assert(!l.live() || n+mail == 0, "a session that cannot answer any more ends")
		l.s.Expire()
		zkv.Quiesce()
	}
	zkv.Assert(!l.live(), "a login ends the session that the account had")
	a.settle(l)
	zkv.Reach("end")
}

// ZkvH_V06Fault: file operations fail while a user logs in.
//
//zkv:prop V06
func ZkvH_V06Fault() {
	z := zkServer()
	z.settings.Directory = zkv.Bool("directory")
	a := zkNewUser(z, 1)
	if zkv.Bool("mail") {
		_, err := z.account.Deliver(a.id(), a.id(), []byte{1}, false)
		zkNo(err, "a message can be stored")
	}
	at := zkv.Choose("at", 13) - 1
	zkos.Arm(-1, at)
	l := a.connect()
	zkv.Quiesce()
	zkv.Assume(zkos.Faulted || at < 0)
	zkos.Disarm()
	zkv.Quiesce()
	if l.more() {
		l.recv()
	}
	a.settle(l)
	zkv.Reach("end")
}
