package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

// zkBook is what the histories of the conversations ought to hold.
type zkBook struct {
	d     *zkDesk
	main  string
	said  map[string][]string // conversation to the ends of its lines
	n     int
	files map[string]int // what was there before, and its size
}

func zkNewBook(d *zkDesk) *zkBook {
	b := &zkBook{d: d, said: map[string][]string{}, files: map[string]int{}}
	b.main = path.Join(d.z.settings.Root, "zkclient.log")
	zkv.Quiesce()
	b.start()
	for _, f := range zkos.Files("/") {
		c, _ := zkos.Peek(f)
		b.files[f] = len(c)
	}
	return b
}

func (b *zkBook) start() {
	z := b.d.z
	var err error
	z.Debug, err = debug.New(b.main, z.settings.TimeFormat)
	zkNo(err, "logging starts")
	z.Register(idZKC, "")
	z.Register(idRPC, "[RPC]")
	z.Register(idSnd, "[SND]")
}

// happens lets something be said in a conversation.
func (b *zkBook) happens(text string) {
	d, z := b.d, b.d.z
	b.n++
	text = fmt.Sprintf("#%d%s.", b.n, text)
	what := zkv.Choose("what", 5)
	p := d.x
	if what < 3 && zkv.Bool("other") {
		p = d.y
	}
	name := map[*zkidentity.FullIdentity]string{d.x: "x", d.y: "y"}[p]
	push := rpc.Push{From: p.Public.Identity, Received: 1000}
	switch what {
	case 0:
		zkNo(z.handlePm(rpc.Message{}, push, rpc.PrivateMessage{Text: text, Mode: rpc.MessageModeNormal}), "a message arrives")
		b.said[name] = append(b.said[name], "<"+d.nick(p)+"> "+text)
	case 1:
		zkNo(z.handleGroupMessage(rpc.Message{}, push, rpc.GroupMessage{Name: zkRoom, Generation: 1, Message: text, Mode: rpc.MessageModeNormal}), "a message arrives")
		b.said["g"] = append(b.said["g"], "<"+d.nick(p)+"> "+text)
	case 2:
		d.openOne(name)
		d.look(name)
		d.types(text)
		d.sent()
		b.said[name] = append(b.said[name], text)
	case 3:
		d.openOne("g")
		d.look("g")
		d.types(text)
		d.sent()
		b.said["g"] = append(b.said["g"], text)
	case 4:
		z.PrintfT(0, "%v", text)
		b.said["c"] = append(b.said["c"], text)
	}
	zkv.Quiesce()
}

// check compares the files with what was said.
func (b *zkBook) check() {
	root := b.d.z.settings.Root
	of := map[string]string{}
	for _, f := range zkos.Files("/") {
		c, _ := zkos.Peek(f)
		if n, ok := b.files[f]; ok && n == len(c) && f != b.main {
			continue // of the contacts and groups
		}
		var lines []string
		for _, l := range strings.Split(string(c), "\n") {
			if strings.Contains(l, "#") {
				lines = append(lines, l)
			}
		}
		if f != b.main {
			zkv.Assert(path.Dir(f) == path.Join(root, logsDir), "histories are kept in their directory")
		}
		if len(lines) == 0 {
			continue
		}
		who := ""
		for _, k := range []string{"x", "y", "g", "c"} {
			if s := b.said[k]; len(s) > 0 && strings.HasSuffix(lines[0], s[0]) {
				who = k
			}
		}
		zkv.Assert(who != "", "a history holds what was said in its conversation and nothing else")
		zkv.Assert(of[who] == "", "a conversation has one history")
		of[who] = f
		zkv.Assert((who == "c") == (f == b.main), "the console has its own history")
		zkv.Assert(len(lines) == len(b.said[who]), "a history holds what was said in its conversation, once")
		for i, l := range lines {
			zkv.Assert(strings.HasSuffix(l, b.said[who][i]), "a history holds what was said in its conversation, in order")
		}
	}
	for k := range b.said {
		zkv.Assert(of[k] != "", "what was said is in the history")
	}
}

// ZkvH_H01Said: contacts with any nicks, a group and the console; all that is
// said goes to the history of its conversation.
//
//zkv:prop H01
//zkv:opt logs
func ZkvH_H01Said() {
	nicks := []string{"bob", "groupchat." + zkRoom, "../x", "a/b", "/", "..", "x y", "%d"}
	b := zkNewBook(zkNewDesk("me", nicks[zkv.Choose("nick", len(nicks))], false))
	b.happens("")
	if zkv.Bool("restart") {
		b.d.restart()
		b.start()
	}
	for i := 0; i < zkv.Pick(1, 2); i++ {
		b.happens("")
	}
	b.check()
	zkv.Reach("end")
}

// zkPrint is a string of n printable characters other than a number sign.
func zkPrint(name string, n int) string {
	s := zkv.Str(name, n)
	for i := 0; i < n; i++ {
		zkv.Assume(zkv.And(s[i] >= ' ', s[i] < 127))
		zkv.Assume(s[i] != '#')
	}
	return s
}

// ZkvH_H01Nick: a contact with an arbitrary nick.
//
//zkv:prop H01
//zkv:opt logs
func ZkvH_H01Nick() {
	b := zkNewBook(zkNewDesk("me", zkPrint("nick", zkv.Pick(2, 3)), false))
	b.happens("")
	b.check()
	zkv.Reach("end")
}

// ZkvH_H01Text: any text is kept as it was said.
//
//zkv:prop H01
//zkv:opt logs
func ZkvH_H01Text() {
	b := zkNewBook(zkNewDesk("me", "x", false))
	b.happens(zkPrint("text", zkv.Pick(2, 3)))
	b.check()
	zkv.Reach("end")
}
