package main

import (
	"bytes"
	"encoding/base64"
	"fmt"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zkNo(err error, msg string) { zkv.Assert(err == nil, msg) }

func zkIdentity(nick string) zkidentity.PublicIdentity {
	fi, err := zkidentity.New("name "+nick, nick)
	zkNo(err, "an identity can be made")
	return fi.Public
}

func zkSame(a, b zkidentity.PublicIdentity) bool {
	k := zkv.And(zkv.BytesEq(a.Key[:], b.Key[:]), zkv.BytesEq(a.SigKey[:], b.SigKey[:]))
	k = zkv.And(k, zkv.And(zkv.BytesEq(a.Identity[:], b.Identity[:]), zkv.BytesEq(a.Digest[:], b.Digest[:])))
	return zkv.And(k, zkv.BytesEq(a.Signature[:], b.Signature[:])) && a.Name == b.Name && a.Nick == b.Nick
}

// zkAlter perhaps alters an identity, and tells if it did not.
func zkAlter(p *zkidentity.PublicIdentity) bool {
	f := [][]byte{nil, p.Key[:], p.SigKey[:], p.Digest[:], p.Signature[:]}[zkv.Choose("altered", 5)]
	if f == nil {
		return true
	}
	x := zkv.U8("by")
	zkv.Assume(x != 0)
	f[zkv.Choose("where", 2)*(len(f)-1)] ^= x
	return false
}

// zkContent is the names and sizes of all files below a directory.
func zkContent(dir string) string {
	r := ""
	for _, f := range zkos.Files(dir) {
		b, _ := zkos.Peek(f)
		r += fmt.Sprintf("%s %d\n", f, len(b))
	}
	return r
}

// zkBlob stores a record as zkexport prints it.
func zkBlob(file string, v interface{}) []byte {
	var b bytes.Buffer
	_, err := xdr.Marshal(&b, v)
	zkNo(err, "a record can be encoded")
	t := append([]byte(base64.StdEncoding.EncodeToString(b.Bytes())), '\n')
	zkos.Put(file, t)
	return t
}

// zkAnswer is what a user may type: few arbitrary characters, or what accepts
// and the like with one of its characters replaced.
func zkAnswer() []byte {
	t := [][]byte{nil, []byte("yes\n"), []byte("y\n"), []byte("yes"), []byte("yyes\n"), []byte("yess\n"), []byte("y\nno\n"), []byte("yes\nn\n")}[zkv.Choose("answer", 8)]
	if t == nil {
		t = zkv.BytesUpTo("typed", 2)
	} else if i := zkv.Choose("replaced", 1+len(t)); i > 0 {
		t[i-1] = zkv.U8("typed")
	}
	for _, c := range t {
		zkv.Assume(c < 128)
	}
	return t
}

// ZkvH_T01Server: the record of a server is imported by a client that has or
// has not a server already.
//
//zkv:prop T01
func ZkvH_T01Server() {
	const root, ini = "/zkc", "/zkc/" + tools.ZKCServerFilename
	zkNo(zkos.MkdirAll(root+"/myserver", 0700), "a directory can be made")
	had := zkv.Bool("has a server")
	if had {
		s, err := inidb.New(ini, true, 10)
		zkv.Assert(err == inidb.ErrCreated, "a file can be made")
		zkNo(s.Set("", "server", "old:1"), "a record can be set")
		zkNo(s.Set("", "myidentity", "me"), "a record can be set")
		zkNo(s.Save(), "a file can be saved")
	}
	sr := tools.ServerRecord{PublicIdentity: zkIdentity("srv")}
	n := [3]int{0, 1, 5}[zkv.Choose("certificate", 3)]
	sr.Certificate = zkv.Bytes("certificate", n)
	at := "host:1234"
	sr.IPandPort = []byte(at)
	sr.Directory = zkv.Bool("directory")
	good := zkAlter(&sr.PublicIdentity)
	zkBlob("/blob", sr)
	v, err := readBlob("/blob")
	zkNo(err, "an exported record can be read")
	r, ok := v.(tools.ServerRecord)
	zkv.Assert(ok, "the record of a server is read as such")
	zkv.Assert(zkSame(r.PublicIdentity, sr.PublicIdentity) && zkv.BytesEq(r.Certificate, sr.Certificate) && string(r.IPandPort) == at && r.Directory == sr.Directory,
		"a record is read as it was exported")

	force := zkv.Bool("force")
	in := zkAnswer()
	zkos.Put("/in", in)
	zkos.Stdin, err = zkos.Open("/in")
	zkNo(err, "a file can be opened")
	yes := zkv.Or(string(in) == "y\n", string(in) == "yes\n")
	for i := 1; i < len(in); i++ { // more lines may follow
		if len(in) > 2 {
			yes = zkv.Or(yes, string(in[:2]) == "y\n")
		}
		if len(in) > 4 {
			yes = zkv.Or(yes, string(in[:4]) == "yes\n")
		}
	}
	before, _ := zkos.Peek(ini)
	err = importServerRecord(root, force, r)
	may := zkv.And(good, zkv.Or(force, zkv.And(!had, yes)))
	if err != nil {
		zkv.Assert(!may, "a server that was accepted is imported")
		now, _ := zkos.Peek(ini)
		zkv.Assert(bytes.Equal(now, before) && zkos.Exists(ini) == had, "what is refused changes nothing")
		zkv.Reach("refused")
		return
	}
	zkv.Assert(may, "a server is imported only if the user accepts it, and replaces another only by force")
	s, err := inidb.New(ini, false, 10)
	zkNo(err, "the file can be opened")
	get := func(k string) string {
		x, err := s.Get("", k)
		zkNo(err, "an imported server is complete")
		return x
	}
	zkv.Assert(get("server") == at, "the address is imported")
	zkv.Assert(get("directory") == map[bool]string{true: "true", false: "false"}[sr.Directory], "the kind of server is imported")
	c, err := base64.StdEncoding.DecodeString(get("servercert"))
	zkNo(err, "the certificate can be decoded")
	zkv.Assert(zkv.BytesEq(c, sr.Certificate), "the certificate is imported")
	b, err := base64.StdEncoding.DecodeString(get("serveridentity"))
	zkNo(err, "the identity can be decoded")
	id, err := zkidentity.UnmarshalPublicIdentity(b)
	zkNo(err, "the identity can be decoded")
	zkv.Assert(zkSame(*id, sr.PublicIdentity), "the identity is imported")
	if had {
		zkv.Assert(get("myidentity") == "me", "the user's own identity is kept")
	}
	zkv.Reach("imported")
}

// ZkvH_T01Client: the record of a client is imported by a server that has some
// accounts.
//
//zkv:prop T01
func ZkvH_T01Client() {
	const root = "/zks"
	for _, f := range []string{tools.ZKSCertFilename, tools.ZKSKeyFilename, tools.ZKSIdentityFilename} {
		zkos.Put(root+"/"+f, []byte("x"))
	}
	a, b := zkIdentity("a"), zkIdentity("b")
	acc, err := account.New(root + "/" + tools.ZKSHome)
	zkNo(err, "the account service starts")
	other, same, off := zkv.Bool("other"), zkv.Bool("same"), false
	if other {
		zkNo(acc.Create(a, false), "an account can be created")
	}
	if same {
		zkNo(acc.Create(b, false), "an account can be created")
		_, err = acc.Deliver(b.Identity, a.Identity, []byte("mail"), false)
		zkNo(err, "a message can be stored")
		off = zkv.Bool("disabled")
		if off {
			zkNo(acc.Disable(b.Identity), "an account can be disabled")
		}
	}
	good := zkAlter(&b)
	zkBlob("/blob", tools.ClientRecord{PublicIdentity: b})
	v, err := readBlob("/blob")
	zkNo(err, "an exported record can be read")
	r, ok := v.(tools.ClientRecord)
	zkv.Assert(ok, "the record of a client is read as such")
	zkv.Assert(zkSame(r.PublicIdentity, b), "a record is read as it was exported")
	before := zkContent(root)
	err = importClientRecord(root, false, r)
	zkv.Assert((err == nil) == (!same && good), "a client that has no account gets one")
	if err != nil {
		zkv.Assert(zkContent(root) == before, "what is refused changes nothing")
		zkv.Assert(acc.Enabled(b.Identity) == (same && !off), "what is refused changes nothing")
		zkv.Reach("refused")
	} else {
		zkv.Assert(acc.Enabled(b.Identity), "an imported account is enabled")
		zkNo(acc.Push(b.Identity), "an imported account can be listed")
		id, err := acc.Find("b")
		zkNo(err, "an imported account can be found")
		zkv.Assert(zkSame(*id, b), "the identity is imported")
		zkv.Reach("imported")
	}
	if other {
		zkv.Assert(acc.Enabled(a.Identity), "other accounts stay")
	}
}
