// Package zktls stands in for crypto/tls: connections are in memory, and the
// harness says which certificates the other end shows.
package zktls

import (
	"crypto/tls"
	"errors"
	"net"

	"github.com/companyzero/zkc/zkv/zkioutil"
	"github.com/companyzero/zkc/zkv/zknet"
)

type (
	Config                       = tls.Config
	Certificate                  = tls.Certificate
	ConnectionState              = tls.ConnectionState
	RecordHeaderError            = tls.RecordHeaderError
	CurveID                      = tls.CurveID
	ClientAuthType               = tls.ClientAuthType
	CertificateRequestInfo       = tls.CertificateRequestInfo
	ClientHelloInfo              = tls.ClientHelloInfo
	RenegotiationSupport         = tls.RenegotiationSupport
	ClientSessionCache           = tls.ClientSessionCache
	CertificateVerificationError = tls.CertificateVerificationError
)

const (
	VersionTLS10 = tls.VersionTLS10
	VersionTLS11 = tls.VersionTLS11
	VersionTLS12 = tls.VersionTLS12
	VersionTLS13 = tls.VersionTLS13

	CurveP256 = tls.CurveP256
	CurveP384 = tls.CurveP384
	CurveP521 = tls.CurveP521
	X25519    = tls.X25519

	NoClientCert               = tls.NoClientCert
	RequestClientCert          = tls.RequestClientCert
	RequireAnyClientCert       = tls.RequireAnyClientCert
	VerifyClientCertIfGiven    = tls.VerifyClientCertIfGiven
	RequireAndVerifyClientCert = tls.RequireAndVerifyClientCert

	TLS_RSA_WITH_AES_128_CBC_SHA                  = tls.TLS_RSA_WITH_AES_128_CBC_SHA
	TLS_RSA_WITH_AES_256_CBC_SHA                  = tls.TLS_RSA_WITH_AES_256_CBC_SHA
	TLS_RSA_WITH_AES_128_GCM_SHA256               = tls.TLS_RSA_WITH_AES_128_GCM_SHA256
	TLS_RSA_WITH_AES_256_GCM_SHA384               = tls.TLS_RSA_WITH_AES_256_GCM_SHA384
	TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA          = tls.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA
	TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA          = tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA
	TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256         = tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
	TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256       = tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256
	TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384         = tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
	TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384       = tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384
	TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256   = tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
	TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 = tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256
	TLS_AES_128_GCM_SHA256                        = tls.TLS_AES_128_GCM_SHA256
	TLS_AES_256_GCM_SHA384                        = tls.TLS_AES_256_GCM_SHA384
	TLS_CHACHA20_POLY1305_SHA256                  = tls.TLS_CHACHA20_POLY1305_SHA256
)

// Conn is a connection whose other end showed the certificates of State.
type Conn struct {
	*zknet.Conn
	State ConnectionState
}

func (c *Conn) ConnectionState() ConnectionState { return c.State }
func (c *Conn) Handshake() error                 { return nil }
func (c *Conn) OCSPResponse() []byte             { return nil }
func (c *Conn) VerifyHostname(host string) error { return nil }
func (c *Conn) NetConn() net.Conn                { return c.Conn }
func (c *Conn) CloseWrite() error                { c.Conn.CloseWrite(); return nil }

// Dialer makes the connections; the harness sets it.
var Dialer func(addr string) (*Conn, error)

// KeyPair is what the key files hold; the harness sets it.
var KeyPair func(cert, key []byte) (Certificate, error)

var errNo = errors.New("connection refused")

func Dial(network, addr string, c *Config) (*Conn, error) {
	if Dialer == nil {
		return nil, errNo
	}
	return Dialer(addr)
}

func DialWithDialer(d *net.Dialer, network, addr string, c *Config) (*Conn, error) {
	return Dial(network, addr, c)
}

func wrap(c net.Conn) *Conn {
	switch c := c.(type) {
	case *Conn:
		return c
	case *zknet.Conn:
		return &Conn{Conn: c}
	}
	panic("zktls: not a connection of the model")
}

func Client(c net.Conn, config *Config) *Conn { return wrap(c) }
func Server(c net.Conn, config *Config) *Conn { return wrap(c) }

func Listen(network, laddr string, c *Config) (net.Listener, error) { return nil, errNo }
func NewListener(l net.Listener, c *Config) net.Listener            { return l }

func X509KeyPair(cert, key []byte) (Certificate, error) {
	if KeyPair == nil {
		return Certificate{}, errNo
	}
	return KeyPair(cert, key)
}

func LoadX509KeyPair(certFile, keyFile string) (Certificate, error) {
	c, err := zkioutil.ReadFile(certFile)
	if err != nil {
		return Certificate{}, err
	}
	k, err := zkioutil.ReadFile(keyFile)
	if err != nil {
		return Certificate{}, err
	}
	return X509KeyPair(c, k)
}

func CipherSuiteName(id uint16) string         { return tls.CipherSuiteName(id) }
func InsecureCipherSuites() []*tls.CipherSuite { return nil }
