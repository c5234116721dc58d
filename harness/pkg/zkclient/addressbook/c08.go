package addressbook

import (
	"encoding/hex"
	"strings"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
)

type zkID = [zkidentity.IdentitySize]byte

func zkIdent(n byte) (id zkID) {
	id[0], id[31] = n, n
	return
}

// zkContact is what the book should hold.
type zkContact struct {
	id   zkID
	name string
	nick string
}

// zkBook checks everything that can be asked of a book.
func zkBook(a *AddressBook, cs []zkContact) {
	all := a.All()
	zkv.Assert(len(all) == len(cs), "the book holds exactly the contacts that were added and not deleted")
	for i := range all {
		n, m := 0, 0
		for j := range all {
			if all[i].Nick == all[j].Nick {
				n++
			}
			if all[i].Identity == all[j].Identity {
				m++
			}
		}
		zkv.Assert(n == 1, "a nick names at most one contact")
		zkv.Assert(m == 1, "an identity names at most one contact")
	}
	for _, c := range cs {
		p, err := a.FindNick(c.nick)
		zkv.Assert(err == nil && p.Identity == c.id && p.Name == c.name && p.Nick == c.nick, "a contact is found by its nick")
		p, err = a.FindIdentity(c.id)
		zkv.Assert(err == nil && p.Identity == c.id && p.Name == c.name && p.Nick == c.nick, "a contact is found by its identity")
		p, err = a.FindIdentityS(hex.EncodeToString(c.id[:]))
		zkv.Assert(err == nil && p.Identity == c.id && p.Nick == c.nick, "a contact is found by its identity in hexadecimal")
		// what is handed out is a copy
		p.Nick, p.Identity = "changed", zkID{}
		p, err = a.FindNick(c.nick)
		zkv.Assert(err == nil && p.Identity == c.id && p.Nick == c.nick, "a result can be changed without harm")
	}
}

// ZkvH_C08Book: contacts are added, changed and deleted.
//
//zkv:prop C08
func ZkvH_C08Book() {
	a := New()
	var cs []zkContact
	steps := zkv.Pick(3, 4)
	if zkv.Bool("map order") {
		zkv.MapOrder()
	}
	for i := 0; i < steps; i++ {
		id := zkIdent(byte(1 + zkv.Choose("who", 3)))
		k := -1
		for j := range cs {
			if cs[j].id == id {
				k = j
			}
		}
		if zkv.Bool("delete") {
			err := a.Del(id)
			zkv.Assert((err == nil) == (k >= 0), "exactly who is in the book can be deleted")
			if k >= 0 {
				cs = append(append([]zkContact{}, cs[:k]...), cs[k+1:]...)
			}
			continue
		}
		nick := [4]string{"x", "x_", "y", ""}[zkv.Choose("nick", zkv.Pick(3, 4))]
		p := zkidentity.PublicIdentity{Identity: id, Nick: nick, Name: string([]byte{'0' + byte(i)})}
		got, err := a.Add(p)
		// the nick that is free for this contact
		taken := func(n string) bool {
			for j := range cs {
				if j != k && cs[j].nick == n {
					return true
				}
			}
			return false
		}
		want := nick
		for taken(want) {
			want += "_"
		}
		zkv.Assert(got == want, "a contact keeps its nick or, if somebody else has it, gets another one")
		zkv.Assert((err == nil) == (want == nick), "a change of the nick is reported")
		zkv.Assert(err == nil || err == ErrDuplicateNick, "a change of the nick is reported")
		if k >= 0 {
			cs = append(append([]zkContact{}, cs[:k]...), cs[k+1:]...)
			zkv.Reach("again")
		}
		cs = append(cs, zkContact{id, p.Name, got})
	}
	zkv.MapOrderOff()
	zkBook(a, cs)
	zkv.Reach("end")
}

// ZkvH_C08Find: any nick and any identity are looked up.
//
//zkv:prop C08
func ZkvH_C08Find() {
	a := New()
	one := zkContact{id: zkIdent(1), name: "n"}
	s := zkv.BytesUpTo("nick", zkv.Pick(2, 3))
	for _, c := range s {
		zkv.Assume(c < 0x80)
	}
	nick, err := a.Add(zkidentity.PublicIdentity{Identity: one.id, Nick: string(s), Name: "n"})
	zkv.Assert(err == nil && nick == string(s), "a contact keeps its nick")
	one.nick = nick
	t := zkv.BytesUpTo("other", zkv.Pick(2, 3))
	for _, c := range t {
		zkv.Assume(c < 0x80)
	}
	cs := []zkContact{one}
	if zkv.Bool("two") {
		nick, err = a.Add(zkidentity.PublicIdentity{Identity: zkIdent(2), Nick: string(t), Name: "m"})
		if string(t) == string(s) {
			zkv.Assert(err == ErrDuplicateNick && nick == string(s)+"_", "a contact gets another nick if somebody has its own")
		} else {
			zkv.Assert(err == nil && nick == string(t), "a contact keeps its nick")
		}
		cs = append(cs, zkContact{zkIdent(2), "m", nick})
	} else {
		p, err := a.FindNick(string(t))
		zkv.Assert((err == nil) == (string(t) == string(s)), "a nick finds exactly the contact that has it")
		zkv.Assert(err != nil || p.Identity == one.id, "a nick finds exactly the contact that has it")
		zkv.Assert(err == nil || err == ErrNotFound, "a nick that nobody has is not found")
	}
	zkBook(a, cs)
	var id zkID
	copy(id[:], zkv.Bytes("id", 2))
	id[31] = zkv.U8("last")
	_, err = a.FindIdentity(id)
	found := id == one.id || len(cs) == 2 && id == zkIdent(2)
	zkv.Assert((err == nil) == found, "an identity finds exactly the contact that has it")
	_, err = a.FindIdentityS(strings.ToUpper(hex.EncodeToString(id[:])))
	zkv.Assert((err == nil) == found, "an identity finds exactly the contact that has it")
	zkv.Reach("end")
}

// ZkvH_C08Hex: any text is looked up as an identity.
//
//zkv:prop C08
func ZkvH_C08Hex() {
	a := New()
	id := zkIdent(0x1a)
	_, err := a.Add(zkidentity.PublicIdentity{Identity: id, Nick: "n"})
	zkv.Assert(err == nil, "a contact can be added")
	h := hex.EncodeToString(id[:])
	var t string
	ok := false
	switch zkv.Choose("form", 5) {
	case 0:
		b := zkv.Bytes("text", 2)
		for _, c := range b {
			zkv.Assume(c < 0x80)
		}
		t = string(b) + h[2:]
		ok = zkv.And(b[0] == '1', zkv.Or(b[1] == 'a', b[1] == 'A'))
	case 1:
		t = h[:2*zkv.Choose("len", 32)]
	case 2:
		t = h + "00"
	case 3:
		t = h[:63]
	case 4:
		b := zkv.BytesUpTo("text", 3)
		for _, c := range b {
			zkv.Assume(c < 0x80)
		}
		t = string(b)
	}
	p, err := a.FindIdentityS(t)
	zkv.Assert((err == nil) == ok, "a text finds exactly the contact whose identity it is")
	zkv.Assert(err != nil || p.Identity == id, "a text finds exactly the contact whose identity it is")
	zkv.Reach("end")
}

// ZkvH_C08Race: the book is used by several at once.
//
//zkv:prop C08
func ZkvH_C08Race() {
	a := New()
	x := zkidentity.PublicIdentity{Identity: zkIdent(1), Nick: "x"}
	y := zkidentity.PublicIdentity{Identity: zkIdent(2), Nick: "x"}
	_, err := a.Add(zkidentity.PublicIdentity{Identity: zkIdent(3), Nick: "z"})
	zkv.Assert(err == nil, "a contact can be added")
	var nx, ny string
	done := make(chan bool, 4)
	zkv.Interleave(zkv.Pick(2, 3))
	zkv.MemPreempt()
	go func() {
		nx, _ = a.Add(x)
		done <- true
	}()
	go func() {
		ny, _ = a.Add(y)
		done <- true
	}()
	what := zkv.Choose("what", 3)
	go func() {
		switch what {
		case 0:
			zkv.Assert(a.Del(zkIdent(3)) == nil, "exactly who is in the book can be deleted")
		case 1:
			p, err := a.FindIdentity(zkIdent(3))
			zkv.Assert(err == nil && p.Nick == "z", "a contact is found by its identity")
		case 2:
			zkv.Assert(len(a.All()) >= 1, "the book holds exactly the contacts that were added and not deleted")
		}
		done <- true
	}()
	<-done
	<-done
	<-done
	cs := []zkContact{{zkIdent(1), "", nx}, {zkIdent(2), "", ny}}
	zkv.Assert(nx == "x" && ny == "x_" || ny == "x" && nx == "x_", "a contact keeps its nick or, if somebody else has it, gets another one")
	if what > 0 {
		cs = append(cs, zkContact{zkIdent(3), "", "z"})
	}
	zkBook(a, cs)
	zkv.Reach("end")
}
