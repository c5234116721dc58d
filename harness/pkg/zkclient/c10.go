package main

import (
	"encoding/hex"
	"path"
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/nsf/termbox-go"
)

// told checks that exactly those people are sent the text, in private or in
// the group.
func (d *zkDesk) told(text string, mode rpc.MessageMode, group bool, who ...*zkidentity.FullIdentity) {
	sent := d.sent()
	zkv.Assert(len(sent) == len(who), "a text goes to the people that it is for and to nobody else")
	for i, m := range sent {
		zkv.Assert(m.id != nil && *m.id == who[i].Public.Identity, "a text goes to the people that it is for and to nobody else")
		if group {
			p, ok := m.payload.(rpc.GroupMessage)
			zkv.Assert(ok, "a text for a group goes to the group")
			zkv.Assert(p.Name == zkRoom && p.Mode == mode && p.Generation == 1, "a text for a group goes to the group")
			zkv.Assert(p.Message == text, "what is sent is what was typed")
		} else {
			p, ok := m.payload.(rpc.PrivateMessage)
			zkv.Assert(ok, "a private text is sent in private")
			zkv.Assert(p.Mode == mode, "a private text is sent in private")
			zkv.Assert(p.Text == text, "what is sent is what was typed")
		}
	}
}

// zkAnyDesk is a desk whose one contact has one of the nicks.
func zkAnyDesk(me string, nicks []string) *zkDesk {
	nick := nicks[zkv.Choose("nick", len(nicks))]
	clash := strings.HasPrefix(nick, "bob")
	d := zkNewDesk(me, nick, clash && zkv.Bool("first"))
	if (clash || zkv.Tier() > 0) && zkv.Bool("restart") {
		d.restart()
	}
	return d
}

// ZkvH_C10Typed: what is typed in a window goes to the contact, or the group,
// of that window.
//
//zkv:prop C10
func ZkvH_C10Typed() {
	d := zkAnyDesk("me", []string{"bob", "bob x", "bob_", zkRoom, consoleText, "m", "me", "x bob"})
	d.open(zkv.Choose("order", zkv.Pick(2, 3)))
	to := []string{"x", "y", "g", "c"}[zkv.Choose("window", 4)]
	if to != "c" {
		d.look(to)
	}
	texts := []string{"hello", "  ", " two  words ", "bob hi", "talk m bob"}
	text := ""
	if n := zkv.Choose("text", len(texts)+1); n < len(texts) {
		text = texts[n]
	} else {
		text = zkv.Str("typed", 2)
		zkv.Assume(zkv.And(text[0] >= ' ', text[0] < 127))
		zkv.Assume(zkv.And(text[1] > ' ', text[1] < 127))
		zkv.Assume(text[0] != leader[0])
	}
	action := ""
	mode := rpc.MessageMode(rpc.MessageModeNormal)
	if zkv.Bool("me") {
		action, mode = cmdMe+" ", rpc.MessageModeMe
		text = strings.TrimSpace(text)
	} else {
		text = strings.TrimRight(text, " ")
	}
	if text == "" && action != "" {
		return
	}
	d.types(action + text)
	if text == "" {
		d.told(text, mode, false)
		return
	}
	switch to {
	case "c":
		d.told(text, mode, false)
	case "g":
		d.told(text, mode, true, d.x, d.y)
	case "x":
		d.told(text, mode, false, d.x)
	case "y":
		d.told(text, mode, false, d.y)
	}
	zkv.Reach("typed")
}

// ZkvH_C10Named: a command is for the contact, or the group, that it names.
//
//zkv:prop C10
func ZkvH_C10Named() {
	me := []string{"me", consoleText}[zkv.Choose("self", 2)]
	d := zkAnyDesk(me, []string{"bob", "bob_", zkRoom, consoleText, "m", "Bob"})
	command := zkv.Choose("command", 10)
	if k := zkv.Choose("open", zkv.Pick(2, 4)); k > 0 {
		d.open(k % 3)
		d.look([]string{"x", "y", "g"}[zkv.Choose("window", zkv.Pick(2, 3))])
	}
	p := d.x
	if zkv.Bool("other") {
		p = d.y
	}
	n := d.nick(p)
	self := n == me // a contact who has the user's nick can't be named
	switch command {
	case 0:
		d.types(cmdM + " " + n + " hello " + n)
		if self && len(d.z.hi) == 0 {
			break
		}
		d.told("hello "+n, rpc.MessageModeNormal, false, p)
	case 1:
		d.types(cmdMsg + " " + n + "  hello ")
		if self && len(d.z.hi) == 0 {
			break
		}
		d.told(" hello", rpc.MessageModeNormal, false, p)
	case 2:
		d.types(cmdM + " " + n + " ")
		d.told("", 0, false)
	case 3:
		d.types(cmdM + " nobody hello")
		d.types(cmdM + " " + me + " hello")
		d.types(cmdM + "  hello")
		if d.nick(d.x) != zkRoom {
			d.types(cmdM + " " + zkRoom + " hello")
		}
		if x := d.nick(d.x); x == me || x == "nobody" {
			d.sent()
			break
		}
		d.told("", 0, false)
	case 4:
		d.types(cmdGc + " m " + zkRoom + " hello " + zkRoom)
		d.told("hello "+zkRoom, rpc.MessageModeNormal, true, d.x, d.y)
		d.types(cmdGc + " m " + zkRoom + " ")
		d.types(cmdGc + " m other hello")
		d.told("", 0, false)
	case 5:
		d.types(cmdGc + " me " + zkRoom + " me waves")
		d.told("me waves", rpc.MessageModeMe, true, d.x, d.y)
	case 6:
		d.types(cmdAB + " del " + n)
		sent := d.sent()
		zkv.Assert(len(sent) == 1 && *sent[0].id == p.Public.Identity, "the contact that is named is deleted")
		sent[0].callback()
		_, err := d.z.ab.FindIdentity(p.Public.Identity)
		zkv.Assert(err != nil, "the contact that is named is deleted")
		q := d.x
		if p == d.x {
			q = d.y
		}
		had := d.nick(q)
		if zkv.Bool("again") {
			z := d.z
			d.z = &ZKC{Debug: z.Debug, settings: z.settings, id: z.id, ab: addressbook.New(), mw: z.mw, conversation: z.conversation}
			zkNo(d.z.loadIdentities(), "the contacts can be loaded")
			_, err = d.z.ab.FindIdentity(p.Public.Identity)
			zkv.Assert(err != nil, "the contact that is named is deleted")
		}
		zkv.Assert(d.nick(q) == had, "contacts keep their nicks")
	case 7:
		name := path.Join(d.z.settings.Root, "file")
		zkPutFile(name, "data")
		d.z.chunkSize, d.z.attachmentSize = 3, 1000
		d.types(cmdSend + " " + n + " " + name + " some  words ")
		sent := d.sent()
		if self && len(sent) == 0 {
			break
		}
		zkv.Assert(len(sent) == 3, "a file goes to the contact that is named")
		for _, m := range sent {
			zkv.Assert(*m.id == p.Public.Identity, "a file goes to the contact that is named")
		}
		cn, ok := sent[0].payload.(rpc.ChunkNew)
		zkv.Assert(ok && cn.Filename == "file" && cn.Description == "some  words" && cn.Size == 4, "a file is sent with its name and description")
	case 8:
		d.z.online = true
		d.types(cmdResetRatchet + " " + n)
		var to []zkID
		for _, m := range d.sent() {
			switch p := m.payload.(type) {
			case rpc.Cache:
				to = append(to, p.To)
			case rpc.Proxy:
				to = append(to, p.To)
			}
			if m.id != nil {
				to = append(to, *m.id)
			}
		}
		for _, v := range to {
			zkv.Assert(v == p.Public.Identity, "a reset is sent to the contact that is named")
		}
	case 9:
		d.types(cmdQ + " " + n)
		k := d.z.active
		c := d.z.conversation[k]
		zkv.Assert(k == 0 || c.nick == n, "the window that is asked for is opened")
		if c.group || k == 0 {
			break // a group may have the same name
		}
		d.types("hello")
		d.told("hello", rpc.MessageModeNormal, false, p)
	}
	zkv.Reach("done")
}

// ZkvH_C10Shown: a message is shown in the window of its sender, under the
// nick by which the user knows the sender.
//
//zkv:prop C10
func ZkvH_C10Shown() {
	d := zkAnyDesk("me", []string{"bob", "bob x", "bob_", zkRoom, consoleText, "m", "me", "x bob"})
	if k := zkv.Choose("open", 4); k > 0 {
		d.open(k - 1)
	}
	p, q := d.x, d.y
	if zkv.Bool("other") {
		p, q = q, p
	}
	z := d.z
	z.conversation[0].console.Content = nil
	push := rpc.Push{From: p.Public.Identity, Received: 1000}
	switch zkv.Choose("kind", 3) {
	case 0:
		zkNo(z.handlePm(rpc.Message{}, push, rpc.PrivateMessage{Text: "quux", Mode: rpc.MessageModeNormal}), "a message arrives")
		_, k, err := z.getConversation(p.Public.Identity)
		zkNo(err, "a window can be opened")
		zkv.Assert(strings.Contains(zkSays(z, k), "<"+d.nick(p)+"> quux"), "a message is shown under the sender's nick")
		d.only(k)
	case 1:
		zkNo(z.handlePm(rpc.Message{}, push, rpc.PrivateMessage{Text: "quux", Mode: rpc.MessageModeMe}), "a message arrives")
		_, k, err := z.getConversation(p.Public.Identity)
		zkNo(err, "a window can be opened")
		zkv.Assert(strings.Contains(zkSays(z, k), "* "+d.nick(p)+" quux"), "a message is shown under the sender's nick")
		d.only(k)
	case 2:
		zkNo(z.handleGroupMessage(rpc.Message{}, push, rpc.GroupMessage{Name: zkRoom, Generation: 1, Message: "quux", Mode: rpc.MessageModeNormal}), "a message arrives")
		_, k, err := z.groupConversation(zkRoom)
		zkNo(err, "a window can be opened")
		zkv.Assert(strings.Contains(zkSays(z, k), "<"+d.nick(p)+"> quux"), "a message is shown under the sender's nick")
		d.only(k)
	}
	_ = q
	zkv.Reach("shown")
}

// zkSays is the line with the message that window k shows.
func zkSays(z *ZKC, k int) string {
	zkv.Quiesce()
	for _, l := range z.conversation[k].console.Content {
		if strings.Contains(l, "quux") {
			return ttk.Unescape(l)
		}
	}
	return ""
}

// only checks that no other window shows the text.
func (d *zkDesk) only(k int) {
	for i := range d.z.conversation {
		if i != k {
			zkv.Assert(!strings.Contains(zkShown(d.z, i), "quux"), "a message is shown in no other window")
		}
	}
}

// ZkvH_C10Restored: the windows that are restored are those that were saved.
//
//zkv:prop C10
func ZkvH_C10Restored() {
	nicks := []string{"bob", "bob x", "bob_", zkRoom, consoleText}
	d := zkNewDesk("me", nicks[zkv.Choose("nick", len(nicks))], true)
	n := zkv.Choose("windows", 8)
	for i, w := range []string{"x", "y", "g"} {
		if n&(1<<uint(i)) != 0 {
			d.openOne(w)
		}
	}
	zkv.Quiesce()
	d.types(cmdSave)
	switch zkv.Choose("between", 3) {
	case 1:
		d.restart()
	case 2:
		if len(d.z.conversation) > 1 {
			d.z.focus(len(d.z.conversation) - 1)
			zkv.Quiesce()
			d.types(cmdWc)
		}
	}
	d.types(cmdRestore)
	z := d.z
	zkv.Assert(z.active == 0, "the console is shown after the windows were restored")
	k := 1
	for i, w := range []string{"x", "y", "g"} {
		if n&(1<<uint(i)) == 0 {
			continue
		}
		zkv.Assert(k < len(z.conversation), "the windows that were saved are restored")
		z.focus(k)
		zkv.Quiesce()
		d.types("hello")
		switch w {
		case "g":
			d.told("hello", rpc.MessageModeNormal, true, d.x, d.y)
		case "x":
			d.told("hello", rpc.MessageModeNormal, false, d.x)
		case "y":
			d.told("hello", rpc.MessageModeNormal, false, d.y)
		}
		k++
	}
	zkv.Assert(k == len(z.conversation), "the windows that were saved are restored")
	zkv.Reach("restored")
}

// ZkvH_C10Any: whatever is typed, the client goes on: it does not crash, it
// does not hang, and it says nothing to anybody unless asked to.
//
//zkv:prop C10
func ZkvH_C10Any() {
	d := zkNewDesk("me", "alice", true)
	z := d.z
	if zkv.Bool("open") {
		d.open(0)
		d.look([]string{"x", "g"}[zkv.Choose("window", 2)])
	}
	z.directory = zkv.Tier() > 0 && zkv.Bool("directory")
	cmds := []string{cmdAcceptnewcert, cmdFetch, cmdGc, cmdInfo, cmdKx, cmdList, cmdM, cmdMe, cmdMsg, cmdOffline, cmdQ, cmdQuery, cmdQuit,
		cmdSend, cmdWc, cmdW, cmdWin, cmdAddressBook, cmdAB, cmdSave, cmdRestore, cmdFind, cmdResetRatchet, cmdHelp, cmdVersion, "/", "/nonsense", " ", "/gc "}
	args := []string{"", "alice", zkRoom, "me", "-1", "1", "99", "del", "a", "c", "gc", "invites", "joins", "force", "new", "invite", "join",
		"kick", "update", "m", "part", "kill"}
	if zkv.Tier() > 0 {
		args = append(args, hex.EncodeToString(d.x.Public.Identity[:]))
	}
	line := cmds[zkv.Choose("command", len(cmds))]
	if k := zkv.Choose("one", len(args)+1); k < len(args) {
		line += " " + args[k]
		more := []string{"alice", zkRoom, "nobody", ""}
		more = more[:zkv.Pick(2, 4)]
		if k := zkv.Choose("two", len(more)+1); k < len(more) {
			line += " " + more[k]
			if zkv.Tier() > 0 && zkv.Bool("three") {
				line += " bob"
			}
		}
	}
	d.types(line)
	for _, m := range d.sent() {
		if _, ok := m.payload.(rpc.PrivateMessage); ok {
			ok = strings.HasPrefix(line, cmdM) || strings.HasPrefix(line, cmdMsg) || strings.HasPrefix(line, cmdMe)
			ok = ok || !strings.HasPrefix(line, leader)
			zkv.Assert(ok, "a text is sent only when asked to")
		}
	}
	z.Lock()
	z.Unlock()
	z.prevConversation()
	z.nextConversation()
	z.focus(0)
	zkv.Quiesce()
	if _, err := z.ab.FindIdentity(d.x.Public.Identity); err == nil {
		d.openOne("x")
		d.look("x")
		d.types("hello")
		d.told("hello", rpc.MessageModeNormal, false, d.x)
	}
	zkv.Reach("goes on")
}

// ZkvH_C10Closing: windows can be closed while messages arrive.
//
//zkv:prop C10
func ZkvH_C10Closing() {
	d := zkNewDesk("me", "alice", true)
	z := d.z
	d.open(0)
	d.types(cmdSave)
	d.look([]string{"x", "y", "g"}[zkv.Choose("window", 3)])
	zkv.Delays(zkv.Pick(1, 2))
	done := make(chan bool, 2)
	what := zkv.Choose("what", 3)
	go func() {
		switch what {
		case 0:
			zkNo(z.handlePm(rpc.Message{}, rpc.Push{From: d.x.Public.Identity, Received: 1000}, rpc.PrivateMessage{Text: "quux"}), "a message arrives")
		case 1:
			ttk.Queue(func() {
				z.RLock()
				s := z.calculateStatus()
				z.mw.status.SetText(s)
				z.RUnlock()
			})
		case 2:
			z.mw.page(ttk.Current)
		}
		done <- true
	}()
	keys := func() {
		z.mw.cmd = []string{cmdWc, cmdRestore}[zkv.Choose("command", 2)]
		z.mw.KeyHandler(z.ttkMW, ttk.Key{Key: termbox.KeyEnter, Widget: z.mw.cmdEdit})
		z.mw.cmd = "hello"
		z.mw.KeyHandler(z.ttkMW, ttk.Key{Key: termbox.KeyEnter, Widget: z.mw.cmdEdit})
	}
	keys()
	<-done
	zkv.Quiesce()
	d.told("", 0, false)
	zkv.Assert(z.active == 0, "the console is shown after a window was closed")
	zkv.Reach("closed")
}
