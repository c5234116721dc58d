package main

import (
	"bytes"
	"fmt"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkv"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zkOut is a message that the server got from the client.
type zkOut struct {
	cmd  string
	tag  uint32
	text string // of a message to the contact
}

// zkTaken reads what the client has sent.
func (p *zkPeer) zkTaken(rb *ratchet.Ratchet) (r []zkOut) {
	for p.more() {
		m, br := p.recv()
		o := zkOut{cmd: m.Command, tag: m.Tag}
		if m.Command == rpc.TaggedCmdCache {
			var c rpc.Cache
			_, err := xdr.Unmarshal(br, &c)
			zkNo(err, "a message can be decoded")
			b, err := rb.Decrypt(c.Payload)
			zkNo(err, "the contact can decrypt a message")
			var crpc rpc.CRPC
			br = bytes.NewReader(b)
			_, err = xdr.Unmarshal(br, &crpc)
			zkNo(err, "a message can be decoded")
			var pm rpc.PrivateMessage
			_, err = xdr.Unmarshal(br, &pm)
			zkNo(err, "a message can be decoded")
			o.text = pm.Text
		}
		r = append(r, o)
	}
	return
}

// zkSched is a client with a running scheduler.
func zkSched() (*ZKC, *ratchet.Ratchet, zkID) {
	z, rb, who := zkFrom()
	z.done = make(chan struct{})
	z.scheduler()
	return z, rb, who
}

// zkInOrder checks what of n messages was sent.
func zkInOrder(got []zkOut, n int, hi []bool, stream func(i int) int) {
	last := map[int]int{}
	seen := make([]bool, n)
	for _, o := range got {
		if o.cmd != rpc.TaggedCmdCache {
			continue
		}
		i := int(o.text[0] - '0')
		zkv.Assert(!seen[i], "every message is sent once")
		seen[i] = true
		w := 2 * stream(i)
		if hi[i] {
			w++
		}
		zkv.Assert(last[w] <= i, "messages of a kind are sent in order")
		last[w] = i
		for j := 0; j < i; j++ {
			zkv.Assert(hi[i] || !hi[j] || seen[j] || stream(i) != stream(j), "what has priority and was queued before is sent before")
		}
	}
	for i := range seen {
		zkv.Assert(seen[i], "every message is sent")
	}
}

// zkTags checks that no two messages have the same tag.
func zkTags(got []zkOut) {
	tag := map[uint32]bool{}
	for _, o := range got {
		if o.cmd != rpc.TaggedCmdAcknowledge {
			zkv.Assert(!tag[o.tag], "messages that are not answered have different tags")
			tag[o.tag] = true
		}
	}
}

// ZkvH_C05Order: messages of both kinds are queued by one or two.
//
//zkv:prop C05
func ZkvH_C05Order() {
	z, rb, who := zkSched()
	p := zkOnline(z)
	go z.handleRPC()
	zkv.Quiesce()
	n := zkv.Pick(3, 4)
	hi := make([]bool, n)
	for i := 0; i < n; i++ {
		hi[i] = zkv.Bool("hi")
	}
	two := zkv.Bool("two")
	queue := func(i int) {
		z.scheduleCRPC(hi[i], &who, rpc.PrivateMessage{Text: fmt.Sprint(i), Mode: rpc.MessageModeNormal})
	}
	zkv.Interleave(1)
	if two {
		go func() {
			queue(0)
			queue(1)
		}()
		for i := 2; i < n; i++ {
			queue(i)
		}
	} else {
		for i := 0; i < n; i++ {
			queue(i)
		}
	}
	zkv.Quiesce()
	zkv.Interleave(0)
	got := p.zkTaken(rb)
	zkTags(got)
	zkInOrder(got, n, hi, func(i int) int {
		if two && i > 1 {
			return 1
		}
		return 0
	})
	zkv.Reach("end")
}

// ZkvH_C05Answers: messages are acknowledged in any order, some with errors,
// while others are sent.
//
//zkv:prop C05
func ZkvH_C05Answers() {
	z, rb, who := zkSched()
	p := zkOnline(z)
	go z.handleRPC()
	z.find("bob")
	n := zkv.Pick(3, 4)
	called := make([]int, n+1)
	queue := func(i int) {
		z.scheduleCRPCCB(zkv.Choose("hi", zkv.Pick(1, 2)) == 1, &who, rpc.PrivateMessage{Text: fmt.Sprint(i), Mode: rpc.MessageModeNormal}, func() { called[i]++ })
	}
	for i := 0; i < n; i++ {
		queue(i)
		zkv.Quiesce()
	}
	by := map[int]uint32{}
	take := func() {
		for _, o := range p.zkTaken(rb) {
			if o.cmd == rpc.TaggedCmdCache {
				i := int(o.text[0] - '0')
				for j := range by {
					zkv.Assert(called[j] > 0 || by[j] != o.tag, "messages that are not answered have different tags")
				}
				by[i] = o.tag
			}
		}
	}
	take()
	left := []int{}
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	want := make([]int, n+1)
	more := zkv.Choose("more after", n)
	for len(left) > 0 {
		k := zkv.Choose("acknowledge", len(left))
		i := left[k]
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
		a := rpc.Acknowledge{}
		if zkv.Bool("error") {
			a.Error, a.ErrorCode = "error", rpc.ErrorCodeInvalid
		}
		p.send(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: by[i]}, a)
		zkv.Quiesce()
		want[i] = 1
		for j := range want {
			zkv.Assert(called[j] == want[j], "a callback is called when its message is acknowledged")
		}
		if more == n-len(left)-1 {
			queue(n)
			zkv.Quiesce()
			take()
			left = append(left, n)
			more = -1
		}
	}
	zkv.Assert(z.isOnline(), "the connection stays")
	zkv.Reach("end")
}

// ZkvH_C05Reconnect: the connection ends while messages are queued, and there
// is another one later.
//
//zkv:prop C05
func ZkvH_C05Reconnect() {
	z, rb, who := zkSched()
	z.directory = true
	p := zkOnline(z)
	go z.handleRPC()
	zkv.Quiesce()
	n := zkv.Pick(2, 3)
	hi := make([]bool, n)
	called := make([]int, n)
	for i := 0; i < n; i++ {
		hi[i] = zkv.Choose("hi", zkv.Pick(1, 2)) == 0
	}
	queue := func(i int) {
		z.scheduleCRPCCB(hi[i], &who, rpc.PrivateMessage{Text: fmt.Sprint(i), Mode: rpc.MessageModeNormal}, func() { called[i]++ })
	}
	what := zkv.Choose("what", zkv.Pick(2, 3))
	found := error(nil)
	zkv.Delays(zkv.Pick(1, 2))
	go func() {
		queue(0)
		if what != 1 {
			found = z.find("carol")
		}
		if n > 2 {
			queue(1)
		}
	}()
	if what > 0 {
		p.send(rpc.Message{Command: rpc.TaggedCmdPush, Tag: uint32(3 * zkv.Choose("old tag", 2))}, rpc.Push{From: zkA.Identity, Payload: []byte{1}})
	}
	p.c.Close()
	zkv.Quiesce()
	zkv.Delays(0)
	zkv.Assert(!z.isOnline(), "the end of the connection is seen")
	got := p.zkTaken(rb)
	zkTags(got)
	q := zkOnline(z)
	go z.handleRPC()
	zkv.Quiesce()
	queue(n - 1)
	zkv.Quiesce()
	pushed := zkv.Choose("pushed", zkv.Pick(1, 2)) == 0
	if pushed {
		q.send(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 3}, rpc.Push{From: zkA.Identity, Payload: []byte{1}})
		zkv.Quiesce()
	}
	late := q.zkTaken(rb)
	zkTags(late)
	zkInOrder(append(append([]zkOut{}, got...), late...), n, hi, func(int) int { return 0 })
	finds, acks := 0, 0
	for _, o := range append(append([]zkOut{}, got...), late...) {
		if o.cmd == rpc.TaggedCmdIdentityFind {
			finds++
		}
	}
	if found == nil && what != 1 {
		zkv.Assert(finds == 1, "every message is sent once")
	} else {
		zkv.Assert(finds == 0, "what is refused is not sent")
	}
	want := make([]int, n)
	for _, o := range late {
		switch o.cmd {
		case rpc.TaggedCmdAcknowledge:
			acks++
		case rpc.TaggedCmdCache:
			zkv.Reach("late")
			q.send(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: o.tag}, rpc.Acknowledge{})
			zkv.Quiesce()
			want[o.text[0]-'0'] = 1
		}
		for i := range called {
			zkv.Assert(called[i] == want[i], "a callback is called when its message is acknowledged")
		}
	}
	if pushed {
		zkv.Assert(acks == 1, "what arrives is acknowledged once")
	} else {
		zkv.Assert(acks == 0, "what arrived over another connection is not acknowledged")
	}
	zkv.Assert(z.isOnline(), "the connection stays")
	zkv.Reach("end")
}

// ZkvH_C05Reuse: all tags but one are in use, the answer to a message is
// followed by the answer to the next one, which has the same tag.
//
//zkv:prop C05
func ZkvH_C05Reuse() {
	z, rb, who := zkSched()
	p := zkOnline(z)
	go z.handleRPC()
	zkv.Quiesce()
	for {
		_, err := z.tagStack.Pop()
		if err != nil {
			break
		}
	}
	zkNo(z.tagStack.Push(5), "a tag can be returned")
	n := zkv.Pick(2, 3)
	called := make([]int, n)
	queue := func(i int) {
		z.scheduleCRPCCB(true, &who, rpc.PrivateMessage{Text: fmt.Sprint(i), Mode: rpc.MessageModeNormal}, func() { called[i]++ })
	}
	queue(0)
	zkv.Quiesce()
	got := p.zkTaken(rb)
	zkv.Assert(len(got) == 1 && got[0].tag == 5, "every message is sent")
	zkv.Delays(zkv.Pick(1, 2))
	go func() {
		for i := 1; i < n; i++ {
			queue(i)
		}
	}()
	p.send(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: 5}, rpc.Acknowledge{})
	zkv.Quiesce()
	zkv.Delays(0)
	zkv.Assert(called[0] == 1, "a callback is called when its message is acknowledged")
	for i := 1; i < n; i++ {
		zkv.Assert(called[i] == 0, "a callback is called when its message is acknowledged")
		got = p.zkTaken(rb)
		if len(got) == 0 {
			// the tag was not free yet, the next message makes it try again
			zkv.Reach("no tag")
			break
		}
		zkv.Reach("sent")
		zkv.Assert(len(got) == 1 && got[0].tag == 5 && got[0].text == fmt.Sprint(i), "every message is sent")
		p.send(rpc.Message{Command: rpc.TaggedCmdAcknowledge, Tag: 5}, rpc.Acknowledge{})
		zkv.Quiesce()
		zkv.Assert(called[i] == 1, "a callback is called when its message is acknowledged")
	}
	zkv.Assert(z.isOnline(), "the connection stays")
	zkv.Reach("end")
}
