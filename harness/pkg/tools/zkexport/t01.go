package main

import (
	"bytes"
	"encoding/base64"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zkos"
	"github.com/companyzero/zkc/zkv/zktls"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func zkNo(err error, msg string) { zkv.Assert(err == nil, msg) }

func zkFull(nick string) *zkidentity.FullIdentity {
	fi, err := zkidentity.New("name "+nick, nick)
	zkNo(err, "an identity can be made")
	return fi
}

func zkSame(a, b zkidentity.PublicIdentity) bool {
	k := zkv.And(zkv.BytesEq(a.Key[:], b.Key[:]), zkv.BytesEq(a.SigKey[:], b.SigKey[:]))
	k = zkv.And(k, zkv.And(zkv.BytesEq(a.Identity[:], b.Identity[:]), zkv.BytesEq(a.Digest[:], b.Digest[:])))
	return zkv.And(k, zkv.BytesEq(a.Signature[:], b.Signature[:])) && a.Name == b.Name && a.Nick == b.Nick
}

// ZkvH_T01Export: a server's record is made from its files, whatever of them
// is there.
//
//zkv:prop T01
func ZkvH_T01Export() {
	const root = "/zks"
	fi := zkFull("srv")
	missing := zkv.Choose("missing", 5)
	if missing != 1 {
		b, err := fi.Marshal()
		zkNo(err, "an identity can be encoded")
		zkos.Put(root+"/"+tools.ZKSIdentityFilename, b)
	}
	der := []byte("certificate")
	cert, key := []byte("cert pem"), []byte("key pem")
	zktls.KeyPair = func(c, k []byte) (zktls.Certificate, error) {
		zkv.Assert(bytes.Equal(c, cert) && bytes.Equal(k, key), "the server's own files are read")
		return zktls.Certificate{Certificate: [][]byte{der}}, nil
	}
	if missing != 2 {
		zkos.Put(root+"/"+tools.ZKSCertFilename, cert)
	}
	if missing != 3 {
		zkos.Put(root+"/"+tools.ZKSKeyFilename, key)
	}
	listen, dir := zkv.Bool("listen"), zkv.Choose("directory", 3)
	conf := "# server\n"
	if listen {
		conf += "listen = host:1\n"
	}
	conf += []string{"", "directory = yes\n", "directory = no\n"}[dir]
	if missing != 4 {
		zkos.Put(root+"/zkserver.conf", []byte(conf))
	}
	ip := [2]string{"", "other:2"}[zkv.Choose("given", 2)]
	r, err := fetchServerRecord(root, ip)
	if err != nil {
		zkv.Assert(missing > 0 || ip == "" && !listen, "the record of a complete server can be made")
		zkv.Reach("refused")
		return
	}
	zkv.Assert(missing == 0 && (ip != "" || listen), "a record is made only for a complete server")
	zkv.Assert(zkSame(r.PublicIdentity, fi.Public), "the record has the server's identity")
	zkv.Assert(bytes.Equal(r.Certificate, der), "the record has the server's certificate")
	at := ip
	if at == "" {
		at = "host:1"
	}
	zkv.Assert(string(r.IPandPort) == at, "the record has the server's address")
	zkv.Assert(r.Directory == (dir == 1), "the record tells if the server keeps a directory")
	zkv.Reach("exported")
}

// ZkvH_T01Me: a client's record is made from its files.
//
//zkv:prop T01
func ZkvH_T01Me() {
	const root = "/zkc"
	fi := zkFull("me")
	zkNo(zkos.MkdirAll(root+"/myserver", 0700), "a directory can be made")
	s, err := inidb.New(root+"/"+tools.ZKCServerFilename, true, 10)
	zkv.Assert(err == inidb.ErrCreated, "a file can be made")
	have := zkv.Choose("identity", 3)
	if have > 0 {
		var b bytes.Buffer
		_, err = xdr.Marshal(&b, fi)
		zkNo(err, "an identity can be encoded")
		x := b.Bytes()
		if have == 2 {
			x = x[:zkv.Choose("cut", 3)*7]
		}
		zkNo(s.Set("", "myidentity", base64.StdEncoding.EncodeToString(x)), "a record can be set")
	}
	zkNo(s.Set("", "server", "host:1"), "a record can be set")
	zkNo(s.Save(), "a file can be saved")
	r, err := fetchClientRecord(root)
	zkv.Assert((err == nil) == (have == 1), "a record is made exactly if there is an identity")
	if err == nil {
		zkv.Assert(zkSame(r.PublicIdentity, fi.Public), "the record has the client's identity")
		zkv.Reach("exported")
	}
	zkv.Reach("end")
}
