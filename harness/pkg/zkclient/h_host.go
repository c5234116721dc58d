package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"os"
	"path"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkv"
	"github.com/companyzero/zkc/zkv/zknet"
	"github.com/companyzero/zkc/zkv/zktls"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// zkHost is what answers at the server's address.
type zkHost struct {
	id      *zkidentity.FullIdentity  // whose keys it holds
	shows   zkidentity.PublicIdentity // as whom it identifies itself
	certs   [][]byte
	refuse  string // answer to account creation
	got     []string
	created []rpc.CreateAccount
	conns   []*zknet.Conn
}

// listen makes h the one that the client reaches.
func (h *zkHost) listen() {
	session.Init()
	zktls.Dialer = func(addr string) (*zktls.Conn, error) {
		c, s := zknet.Pipe()
		h.conns = append(h.conns, s)
		var cs tls.ConnectionState
		for _, v := range h.certs {
			cs.PeerCertificates = append(cs.PeerCertificates, &x509.Certificate{Raw: v})
		}
		go h.serve(s)
		return &zktls.Conn{Conn: c, State: cs}, nil
	}
}

func (h *zkHost) serve(c *zknet.Conn) {
	for {
		cmd := ""
		if _, err := xdr.Unmarshal(c, &cmd); err != nil {
			return
		}
		h.got = append(h.got, cmd)
		switch cmd {
		case rpc.InitialCmdIdentify:
			xdr.Marshal(c, h.shows)
		case rpc.InitialCmdCreateAccount:
			var ca rpc.CreateAccount
			_, err := xdr.Unmarshal(c, &ca)
			zkNo(err, "a request to create an account is well-formed")
			h.created = append(h.created, ca)
			xdr.Marshal(c, rpc.CreateAccountReply{Error: h.refuse})
		case rpc.InitialCmdSession:
			kx := &session.KX{Conn: c, MaxMessageSize: uint(rpc.PropMaxMsgSizeDefault), OurPublicKey: &h.id.Public.Key, OurPrivateKey: &h.id.PrivateKey}
			if kx.Respond() != nil {
				c.Close()
				return
			}
			var bb bytes.Buffer
			xdr.Marshal(&bb, rpc.Message{Command: rpc.SessionCmdWelcome})
			w := rpc.Welcome{Version: rpc.ProtocolVersion}
			for _, p := range [][2]string{{rpc.PropTagDepth, "5"}, {rpc.PropServerTime, "1500000000"}, {rpc.PropMaxChunkSize, "4"}, {rpc.PropMaxMsgSize, fmt.Sprint(rpc.PropMaxMsgSizeDefault)}, {rpc.PropMaxAttachmentSize, "1000"}} {
				w.Properties = append(w.Properties, rpc.ServerProperty{Key: p[0], Value: p[1], Required: true})
			}
			xdr.Marshal(&bb, w)
			kx.Write(bb.Bytes())
			for {
				if _, err := kx.Read(); err != nil {
					return
				}
			}
		}
	}
}

// zkStored makes z a client that knows its server.
func zkStored(z *ZKC, srv *zkidentity.PublicIdentity, cert []byte) {
	zkServerDir(z)
	z.serverIdentity, z.cert = srv, cert
	zkNo(z.saveServerRecord(srv, cert), "a server record can be saved")
}

func zkServerDir(z *ZKC) {
	zkNo(os.MkdirAll(path.Dir(path.Join(z.settings.Root, tools.ZKCServerFilename)), 0700), "a directory can be made")
}

// zkRestarted is z after a restart; it is nil if it has no complete record of
// its server.
func zkRestarted(z *ZKC) *ZKC {
	y := zkClient(z.id)
	zkv.Quiesce()
	y.id, y.serverAddress = nil, ""
	db, err := inidb.New(path.Join(z.settings.Root, tools.ZKCServerFilename), false, 10)
	if err != nil || y.parseMyServer(db) != nil || y.parseMyIdentity(db) != nil {
		return nil
	}
	zkv.Assert(*y.id == *z.id, "the own identity is kept")
	zkv.Assert(y.serverAddress == z.serverAddress, "the server's address is kept")
	return y
}
