package main

import (
	"bytes"
	"crypto/sha256"
	"path"
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
)

const (
	zkInside = "received files stay in the download area and leave other files alone"
	zkWhole  = "a file is presented exactly when all of it has arrived in order"
)

// zkBoth are the people who send files.
var zkBoth = []zkidentity.PublicIdentity{zkB, zkC}

// zkReceiver is a client with two contacts and something in the download area.
func zkReceiver() *ZKC {
	z := zkMe(zkM)
	for _, p := range zkBoth {
		zkKnow(z, p)
	}
	zkHas(z, zkGroup("g", 3, zkA.Identity, zkM.Identity))
	zkos.Put(z.spool("a"), []byte("mine"))
	zkos.Put(z.spool("1a"), []byte("mine too"))
	zkos.Put(path.Join(z.settings.Root, "a"), []byte("settings"))
	return z
}

func (z *ZKC) spool(name string) string { return path.Join(z.settings.Root, spoolDir, name) }

// zkFiles is every file and what is in it.
func zkFiles() (names []string, data map[string][]byte) {
	data = make(map[string][]byte)
	for _, n := range zkos.Files("/") {
		if b, ok := zkos.Peek(n); ok {
			names = append(names, n)
			data[n] = b
		}
	}
	return
}

// zkNewFiles are the files that have appeared, but for those that belong to
// unfinished transfers.  All others must be as they were.
func zkNewFiles(z *ZKC, names []string, data map[string][]byte) (added []string) {
	now, cur := zkFiles()
	for _, n := range names {
		b, ok := cur[n]
		zkv.Assert(ok && zkv.BytesEq(b, data[n]), zkInside)
	}
	for _, n := range now {
		if _, had := data[n]; had {
			continue
		}
		zkv.Assert(strings.HasPrefix(n, z.spool("")+"/"), zkInside)
		rest := n[len(z.spool(""))+1:]
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			zkv.Assert(i == 64, zkInside)
			continue
		}
		added = append(added, n)
	}
	return
}

// ZkvH_C03Name: a contact sends a file under any name.
//
//zkv:prop C03,C04
func ZkvH_C03Name() {
	z := zkReceiver()
	names, data := zkFiles()
	content := []byte("abc")
	var name string
	if zkv.Bool("free") {
		name = zkv.Str("name", zkv.Choose("length", zkv.Pick(3, 5)))
		for i := range []byte(name) {
			zkv.Assume(name[i] < 128)
		}
	} else {
		name = [16]string{"f", "a", "1a", "./1a", "../a", "../x", "../groupchat/g", "..", ".", "/", "/etc/passwd", "/home/me/a", "x/../../a", "a/", "../../x", "d/x"}[zkv.Choose("name", 16)]
	}
	d := sha256.Sum256(content)
	psh := rpc.Push{From: zkB.Identity, Received: 1000}
	zkNo(z.handleChunkNew(rpc.Message{}, psh, rpc.ChunkNew{Size: 3, ChunkSize: 3, Filename: name, Digest: d}), "a file can be announced")
	zkv.Assert(len(zkNewFiles(z, names, data)) == 0, zkWhole)
	zkNo(z.handleChunk(rpc.Message{}, psh, rpc.Chunk{Digest: d, Payload: content}), "a file can be received")
	added := zkNewFiles(z, names, data)
	zkv.Assert(len(added) <= 1, zkWhole)
	if len(added) == 1 {
		zkv.Reach("received")
		b, _ := zkos.Peek(added[0])
		zkv.Assert(zkv.BytesEq(b, content), zkWhole)
	} else {
		// only a name that no file can have may be refused
		zkv.Assert(strings.IndexByte(name, 0) >= 0, zkWhole)
	}
	zkv.Reach("end")
}

// ZkvH_C03Order: contacts send announcements and pieces of files in any order.
//
//zkv:prop C03,C04
func ZkvH_C03Order() {
	z := zkReceiver()
	names, data := zkFiles()
	files := []string{"ab", "cde"}
	type transfer struct {
		size uint64
		got  []byte
		name string
	}
	var open [2][2]*transfer
	var done [][]byte
	n := zkv.Pick(3, 4) // pieces, after an announcement
	for i := 0; i <= n; i++ {
		who, file := 0, 0
		if i > 0 {
			// the other contact sends the same file
			switch zkv.Choose("which", 3) {
			case 1:
				file = 1
			case 2:
				who = 1
			}
		}
		d := sha256.Sum256([]byte(files[file]))
		psh := rpc.Push{From: zkBoth[who].Identity, Received: 1000}
		if i == 0 || zkv.Bool("announced") {
			size := uint64(len(files[file]))
			if i == 0 {
				switch zkv.Choose("size", 3) {
				case 1:
					size--
				case 2:
					size += 1 << 63
				}
			}
			zkNo(z.handleChunkNew(rpc.Message{}, psh, rpc.ChunkNew{Size: size, ChunkSize: 2, Filename: "f", Digest: d}), "a file can be announced")
			open[who][file] = &transfer{size: size}
		} else {
			c := rpc.Chunk{Offset: zkv.U64("offset"), Digest: d, Payload: zkv.Bytes("piece", 1+zkv.Choose("length", 3))}
			zkNo(z.handleChunk(rpc.Message{}, psh, c), "a piece is handled")
			t := open[who][file]
			if t != nil && c.Offset == uint64(len(t.got)) {
				t.got = append(append([]byte{}, t.got...), c.Payload...)
				if uint64(len(t.got)) == t.size && len(t.got) == len(files[file]) && bytes.Equal(t.got, []byte(files[file])) {
					zkv.Reach("received")
					done = append(done, []byte(files[file]))
					open[who][file] = nil
				}
			}
		}
		added := zkNewFiles(z, names, data)
		zkv.Assert(len(added) == len(done), zkWhole)
		for _, a := range added {
			b, _ := zkos.Peek(a)
			for _, w := range done {
				if len(w) == len(b) {
					zkv.Assert(bytes.Equal(b, w), zkWhole)
				}
			}
		}
	}
	zkv.Reach("end")
}

// ZkvH_C03Send: somebody sends two files at the same time.
//
//zkv:prop C03
func ZkvH_C03Send() {
	bob := zkMe(zkB)
	bob.online = true
	bob.attachmentSize = 1000
	bob.chunkSize = [4]uint64{1, 2, 4, 1 << 62}[zkv.Choose("chunk size", 4)]
	zkKnow(bob, zkM)
	z := zkReceiver()
	names, data := zkFiles()
	content := "abcd"[:1+zkv.Choose("length", zkv.Pick(3, 4))]
	other := "xyz"
	zkos.Put("/tmp/f", []byte(content))
	zkos.Put("/tmp/g", []byte(other))
	for _, n := range []string{"/tmp/f", "/tmp/g"} {
		names = append(names, n)
		data[n], _ = zkos.Peek(n)
	}
	zkNo(bob.send(zkM.Identity, "me", "/tmp/f", "d"), "a file can be sent")
	zkNo(bob.send(zkM.Identity, "me", "/tmp/g", "d"), "a file can be sent")
	zkv.Quiesce()
	// each file's pieces stay in order, and follow its announcement
	var way [2][]wireMsg
	for len(bob.hi) > 0 {
		m := <-bob.hi
		k := 0
		if m.payload.(rpc.ChunkNew).Filename == "g" {
			k = 1
		}
		way[k] = append(way[k], m)
	}
	zkv.Assert(len(way[0]) == 1 && len(way[1]) == 1, "a file is announced")
	for len(bob.lo) > 0 {
		m := <-bob.lo
		k := 0
		if m.payload.(rpc.Chunk).Digest == way[1][0].payload.(rpc.ChunkNew).Digest {
			k = 1
		}
		way[k] = append(way[k], m)
	}
	for len(way[0])+len(way[1]) > 0 {
		k := 0
		if len(way[0]) == 0 || len(way[1]) > 0 && zkv.Bool("next") {
			k = 1
		}
		m := way[k][0]
		way[k] = way[k][1:]
		psh := rpc.Push{From: zkB.Identity, Received: 1000}
		switch v := m.payload.(type) {
		case rpc.ChunkNew:
			zkNo(z.handleChunkNew(rpc.Message{}, psh, v), "a file can be announced")
		case rpc.Chunk:
			zkv.Assert(uint64(len(v.Payload)) <= bob.chunkSize, "no piece is larger than the server takes")
			zkNo(z.handleChunk(rpc.Message{}, psh, v), "a piece is handled")
		}
	}
	added := zkNewFiles(z, names, data)
	zkv.Assert(len(added) == 2, "files arrive")
	for _, n := range added {
		b, _ := zkos.Peek(n)
		if path.Base(n) == "f" {
			zkv.Assert(string(b) == content, "what arrives is what was sent")
		} else {
			zkv.Assert(path.Base(n) == "g" && string(b) == other, "what arrives is what was sent")
		}
	}
	zkv.Reach("end")
}

// ZkvH_C03Fault: one operation on the disk fails, or the client dies, while a
// file arrives; afterwards the sender sends it again.
//
//zkv:prop C03
func ZkvH_C03Fault() {
	z := zkReceiver()
	names, data := zkFiles()
	content := "abcd"
	d := sha256.Sum256([]byte(content))
	psh := rpc.Push{From: zkB.Identity, Received: 1000}
	send := func() {
		z.handleChunkNew(rpc.Message{}, psh, rpc.ChunkNew{Size: 4, ChunkSize: 2, Filename: "f", Digest: d})
		z.handleChunk(rpc.Message{}, psh, rpc.Chunk{Offset: 0, Digest: d, Payload: []byte("ab")})
		z.handleChunk(rpc.Message{}, psh, rpc.Chunk{Offset: 2, Digest: d, Payload: []byte("cd")})
	}
	at := zkv.Choose("at", 40)
	died := zkv.Bool("dies")
	if died {
		zkos.Arm(at, -1)
	} else {
		zkos.Arm(-1, at)
	}
	p := zkv.Catch(send)
	if !zkos.Crashed && !zkos.Faulted {
		zkv.Reach("beyond the last operation")
	}
	zkv.Assert(p == nil || zkos.Crashed, "an error is reported")
	zkos.Disarm()
	check := func() int {
		added := zkNewFiles(z, names, data)
		for _, n := range added {
			b, _ := zkos.Peek(n)
			zkv.Assert(string(b) == content, "what arrives is what was sent")
		}
		return len(added)
	}
	check()
	if died {
		z = zkMe(zkM)
		for _, p := range zkBoth {
			zkKnow(z, p)
		}
	}
	before := check()
	send()
	zkv.Assert(check() == before+1, "a file that is sent again arrives")
	zkv.Reach("end")
}
