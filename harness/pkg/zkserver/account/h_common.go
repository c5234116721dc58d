package account

import (
	"fmt"
	"path"
	"sync"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
)

const zkRoot = "/srv/users"

type zkID = [zkidentity.IdentitySize]byte

func zkIdent(n byte) (id zkID) {
	for i := range id {
		id[i] = n
	}
	return
}

func zkAccounts() *Account {
	a, err := New(zkRoot)
	zkv.Assert(err == nil, "the account service starts")
	return a
}

func zkPublic(n byte) zkidentity.PublicIdentity {
	return zkidentity.PublicIdentity{Name: fmt.Sprintf("name%d", n), Nick: fmt.Sprintf("nick%d", n), Identity: zkIdent(n)}
}

// zkMail is a message given to Deliver.
type zkMail struct {
	from     zkID
	payload  []byte
	clear    bool
	id       string
	accepted bool
	deleted  bool
	lo, hi   int64 // when
}

func (m *zkMail) is(n *Notification) bool {
	return zkv.And(zkv.And(n.From == m.from, n.Cleartext == m.clear),
		zkv.And(len(n.Payload) == len(m.payload) && zkv.BytesEq(n.Payload, m.payload), zkv.And(n.Received >= m.lo, n.Received <= m.hi)))
}

// zkReader is a session of user who: it collects what it is notified of.
type zkReader struct {
	who  zkID
	c    chan *Notification
	stop chan bool
	mu   sync.Mutex
	got  []*Notification
}

func zkLogin(a *Account, who zkID) *zkReader {
	r := &zkReader{who: who, c: make(chan *Notification, 1), stop: make(chan bool)}
	zkv.Assert(a.Online(who, r.c) == nil, "an account that is not online can come online")
	go r.run()
	return r
}

func (r *zkReader) run() {
	for {
		select {
		case <-r.stop:
			return
		case n := <-r.c:
			r.mu.Lock()
			r.got = append(r.got, n)
			r.mu.Unlock()
		}
	}
}

func (r *zkReader) list() []*Notification {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*Notification{}, r.got...)
}

// zkCheck compares what a session was told with what it should have been
// told: every mail of must exactly once, and nothing but may.
func zkCheck(r *zkReader, must, may []*zkMail) {
	seen := map[string]int{}
	for _, n := range r.list() {
		zkv.Assert(n.Error == nil, "no delivery error")
		zkv.Assert(n.To == r.who, "the notification is for the user of the session")
		seen[n.Identifier]++
		zkv.Assert(seen[n.Identifier] == 1, "a message is delivered once per session")
		found := false
		for _, m := range may {
			if m.accepted && path.Base(m.id) == n.Identifier {
				found = true
				zkv.Assert(m.is(n), "the delivered message is the one that was stored")
			}
		}
		zkv.Assert(found, "only accepted messages are delivered")
	}
	for _, m := range must {
		zkv.Assert(seen[path.Base(m.id)] == 1, "every queued message reaches the session")
	}
}
