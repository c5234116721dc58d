package main

import (
	"encoding/hex"
	"os"
	"path"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
)

// zkDesk is a client with two contacts whose nicks may clash, and a group with
// both.
type zkDesk struct {
	z    *ZKC
	x, y *zkidentity.FullIdentity
	win  map[string]int // of x, y and the group
}

const zkRoom = "talk"

func zkNewDesk(me, xNick string, xFirst bool) *zkDesk {
	d := &zkDesk{x: zkPerson(xNick), y: zkPerson("bob"), win: map[string]int{}}
	d.z = zkClient(zkPerson(me))
	zkQueues(d.z)
	zkNo(os.MkdirAll(path.Join(d.z.settings.Root, conversationsDir), 0700), "a directory can be made")
	if xFirst {
		d.meet(d.x)
		d.meet(d.y)
	} else {
		d.meet(d.y)
		d.meet(d.x)
	}
	zkHas(d.z, zkGroup(zkRoom, 1, d.z.id.Public.Identity, d.x.Public.Identity, d.y.Public.Identity))
	zkv.Assert(d.nick(d.x) != d.nick(d.y), "every contact has a nick of its own")
	return d
}

// meet makes p a contact, as the end of a key exchange does.
func (d *zkDesk) meet(p *zkidentity.FullIdentity) {
	zkNo(d.z.saveIdentity(p.Public), "an identity can be saved")
	d.z.addressBookAdd(p.Public) // an error is a warning about the nick
	// nothing here reads the ratchet
	zkPutFile(path.Join(d.z.settings.Root, inboundDir, hex.EncodeToString(p.Public.Identity[:]), ratchetFilename), "")
}

// nick is the name by which the user knows p.
func (d *zkDesk) nick(p *zkidentity.FullIdentity) string {
	id, err := d.z.ab.FindIdentity(p.Public.Identity)
	zkNo(err, "a contact is in the address book")
	return id.Nick
}

// restart starts the client again with what is on disk.
func (d *zkDesk) restart() {
	x, y := d.nick(d.x), d.nick(d.y)
	old := d.z
	zkv.Quiesce()
	z := &ZKC{
		conversation:  make([]*conversation, 1, 16),
		ab:            addressbook.New(),
		groups:        make(map[string]rpc.GroupList),
		msgSize:       old.msgSize,
		id:            old.id,
		serverAddress: old.serverAddress,
		settings:      old.settings,
	}
	var err error
	z.Debug, err = debug.New("/dev/null", z.settings.TimeFormat)
	zkNo(err, "logging starts")
	z.Register(idZKC, "")
	z.Register(idRPC, "[RPC]")
	z.Register(idSnd, "[SND]")
	z.mw = &mainWindow{quitC: make(chan struct{}), zkc: z}
	z.ttkMW = ttk.NewWindow(z.mw)
	z.kw = &kxWindow{zkc: z}
	z.ttkKW = ttk.NewWindow(z.kw)
	z.kaw = &kxAcceptWindow{zkc: z}
	z.ttkKAW = ttk.NewWindow(z.kaw)
	z.mw.welcomeMessage()
	zkNo(z.loadIdentities(), "the contacts can be loaded")
	zkNo(z.loadGroupchat(), "the groups can be loaded")
	zkQueues(z)
	d.z = z
	zkv.Assert(zkv.And(d.nick(d.x) == x, d.nick(d.y) == y), "contacts keep their nicks")
}

// open opens the windows of the contacts and the group.
func (d *zkDesk) open(order int) {
	what := [][]string{{"x", "y", "g"}, {"g", "y", "x"}, {"y", "x", "g"}}[order]
	for _, w := range what {
		d.openOne(w)
	}
	zkv.Quiesce()
}

func (d *zkDesk) openOne(w string) {
	var err error
	k := 0
	switch w {
	case "x":
		_, k, err = d.z.getConversation(d.x.Public.Identity)
	case "y":
		_, k, err = d.z.getConversation(d.y.Public.Identity)
	case "g":
		_, k, err = d.z.groupConversation(zkRoom)
	}
	zkNo(err, "a window can be opened")
	d.win[w] = k
}

// types types a line and presses enter.
func (d *zkDesk) types(line string) {
	d.z.mw.cmd = line
	zkEnter(d.z.ttkMW, d.z.mw, d.z.mw.cmdEdit)
}

func (d *zkDesk) look(w string) {
	d.z.focus(d.win[w])
	zkv.Quiesce()
}

// sent takes everything out of the queues.
func (d *zkDesk) sent() (r []wireMsg) {
	for len(d.z.hi) > 0 {
		r = append(r, <-d.z.hi)
	}
	for len(d.z.lo) > 0 {
		r = append(r, <-d.z.lo)
	}
	return
}
func zkPutFile(name, content string) {
	f, err := os.Create(name)
	zkNo(err, "a file can be made")
	_, err = f.Write([]byte(content))
	zkNo(err, "a file can be written")
	f.Close()
}
