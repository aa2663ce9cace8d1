package props

import (
	"crypto/tls"
	"crypto/x509"
	"io"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// secureSpec is a dialing server on a scripted network with a scripted TLS peer.
type secureSpec struct {
	*spec
	hs []*env.Handshake
	// peer is the result of the k-th handshake
	peer func(k int) error
}

func newSecure(setup func(s *modbus.TCPServerSpecial)) *secureSpec {
	x := &secureSpec{spec: newSpec(setup)}
	x.d.Setup = func(k int, c *env.Conn) { c.Secure = true }
	env.InstallTLS(func(h *env.Handshake) error {
		x.hs = append(x.hs, h)
		if x.peer != nil {
			return x.peer(len(x.hs) - 1)
		}
		return nil
	})
	return x
}

func (x *secureSpec) clear() int {
	n := 0
	for _, c := range x.d.Conns {
		n += c.Clear
	}
	return n
}

func secureScheme() string {
	return []string{"ssl", "tls", "tcps", "TLS", "Tcps"}[v.Choose("scheme", 0, 4)]
}

// tlsConfig is any of a few configurations, with symbolic versions.
func tlsConfig() *tls.Config {
	c := &tls.Config{}
	if v.Choose("name", 0, 1) == 1 {
		c.ServerName = "plc.example"
	}
	c.InsecureSkipVerify = v.Choose("insecure", 0, 1) == 1
	c.MinVersion = v.U16("min")
	c.MaxVersion = v.U16("max")
	if v.Choose("roots", 0, 1) == 1 {
		c.RootCAs = &x509.CertPool{}
		c.Certificates = make([]tls.Certificate, 1)
	}
	return c
}

// sameTLS checks that a handshake uses the configuration given.
func sameTLS(h *env.Handshake, c *tls.Config, host string) {
	name := c.ServerName
	if name == "" {
		name = host
	}
	v.Assert(h.IsClient, "the server is the TLS client")
	v.Assert(h.Config.ServerName == name, "the peer must prove the configured name, or that of the address")
	v.Assert(h.Config.InsecureSkipVerify == c.InsecureSkipVerify, "the peer is verified as configured")
	v.Assert(v.And(h.Config.MinVersion == c.MinVersion, h.Config.MaxVersion == c.MaxVersion), "with the configured versions")
	v.Assert(h.Config.RootCAs == c.RootCAs, "with the configured authorities")
	v.Assert(len(h.Config.Certificates) == len(c.Certificates), "with the configured certificates")
}

// P38_Dial: with a secure scheme the server dials the address within the connect timeout, makes
// a TLS connection under the configuration given, and serves requests over it only.
func P38_Dial() {
	n, s := srvStore(1, srvSizes)
	cfg := tlsConfig()
	x := newSecure(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetReadTimeout(5 * time.Second).SetConnectTimeout(3 * time.Second)
		if v.Choose("twice", 0, 1) == 1 {
			srv.SetTLSConfig(&tls.Config{InsecureSkipVerify: true, ServerName: "other.example"})
		}
		srv.SetTLSConfig(cfg)
	})
	host := []string{"gateway.example", "10.0.0.7", "localhost"}[v.Choose("host", 0, 2)]
	v.Assert(x.s.AddRemoteServer(secureScheme()+"://"+host+":802") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	v.Assert(v.And(x.d.Dials == 1, len(x.hs) == 1), "one connection is made, with one handshake")
	v.Assert(v.And(x.d.Network[0] == "tcp", x.d.Address[0] == host+":802"), "the given address is dialled")
	v.Assert(x.d.Timeout[0] == 3*time.Second, "with the connect timeout")
	sameTLS(x.hs[0], cfg, host)
	v.Assert(v.And(x.s.IsConnected(), x.connects == 1), "connected")
	c := x.d.Conns[0]
	v.Assert(v.And(c.Writes == 0, x.clear() == 0), "nothing is sent in the clear")
	pdu := []byte{6, 0, v.Byte("addr"), v.Byte("hi"), v.Byte("lo")}
	want, _ := s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(c, tcpFrame(7, 1, pdu)), tcpFrame(7, 1, want)), "requests are answered")
	sameStore(n, s, "and carried out")
	v.Assert(x.clear() == 0, "over the secured connection only")
	v.Assert(x.s.Close() == nil, "Close works")
	time.Sleep(6 * time.Second)
	v.Assert(x.open() == 0, "and hangs up")
	v.Cover("end")
}

// P38_Refuse: a peer that does not pass the handshake is hung up on and never served, and the
// server tries again; connections that are lost are replaced by secured ones.
func P38_Refuse() {
	n, s := srvStore(1, srvSizes)
	cfg := &tls.Config{MinVersion: v.U16("min")}
	x := newSecure(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetReadTimeout(time.Minute).SetConnectTimeout(3 * time.Second).SetReconnectInterval(10 * time.Second)
		srv.SetTLSConfig(cfg)
	})
	silent := v.Choose("silent", 0, 1) == 1
	bad := pick("refused", 1, 2, 3, 12)
	x.peer = func(k int) error {
		switch {
		case k >= bad:
			return nil
		case silent:
			return env.Silent
		}
		return x509.UnknownAuthorityError{}
	}
	// what an unverified peer sends is not taken for requests
	x.d.Setup = func(k int, c *env.Conn) {
		c.Secure = true
		if !silent && k < bad {
			c.Feed(tcpFrame(1, 1, []byte{6, 0, 0, 0x12, 0x34}))
		}
	}
	v.Assert(x.s.AddRemoteServer(secureScheme()+"://gateway.example:802") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	for i := 0; i < bad; i++ {
		time.Sleep(5 * time.Second)
		v.Assert(v.And(x.d.Dials == i+1, len(x.hs) == i+1), "one attempt per interval")
		v.Assert(!x.s.IsConnected(), "not connected")
		v.Assert(x.open() == 0, "the peer is hung up on within the connect timeout")
		v.Assert(v.And(x.connects == 0, x.lost == 0), "no connection is reported")
		time.Sleep(5*time.Second + 1500*time.Millisecond*time.Duration(btoi(silent)*2))
		v.Wait()
	}
	v.Assert(v.And(x.s.IsConnected(), x.connects == 1, x.d.Dials == bad+1), "connected in the end")
	sameStore(n, s, "nothing a refused peer sent is carried out")
	for _, h := range x.hs {
		sameTLS(h, cfg, "gateway.example")
	}
	// lost connections are replaced under the same rules
	x.d.Conns[bad].FeedErr(io.EOF)
	time.Sleep(2 * time.Second)
	v.Assert(v.And(x.d.Dials == bad+2, len(x.hs) == bad+2, x.connects == 2), "a lost connection is replaced")
	sameTLS(x.hs[bad+1], cfg, "gateway.example")
	v.Assert(x.clear() == 0, "nothing is read or sent in the clear")
	v.Cover("end")
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// P38_None: without a configuration the peer is verified against the address with the defaults,
// and with a plain scheme there is no TLS at all.
func P38_None() {
	x := newSecure(nil)
	plain := v.Choose("plain", 0, 1) == 1
	scheme := "tcp"
	if !plain {
		scheme = secureScheme()
	} else if v.Choose("config", 0, 1) == 1 {
		x.s.SetTLSConfig(&tls.Config{ServerName: "plc.example"})
	}
	host := []string{"gateway.example", "127.0.0.1", "localhost", "10.0.0.7"}[v.Choose("host", 0, 3)]
	port := []string{":802", ":502", ":443"}[v.Choose("port", 0, 2)]
	v.Assert(x.s.AddRemoteServer(scheme+"://"+host+port) == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	v.Assert(v.And(x.d.Dials == 1, x.s.IsConnected()), "connected")
	v.Assert(v.And(x.d.Network[0] == "tcp", x.d.Address[0] == host+port), "the given address is dialled")
	if plain {
		v.Assert(len(x.hs) == 0, "no TLS without a secure scheme")
		v.Cover("plain")
		return
	}
	v.Assert(len(x.hs) == 1, "one handshake")
	sameTLS(x.hs[0], &tls.Config{}, host)
	v.Assert(x.clear() == 0, "nothing is sent in the clear")
	v.Cover("secure")
}

// P38_Moved: with each address, the peer has to prove the name of that address, whatever was
// dialled before.
func P38_Moved() {
	n, s := srvStore(1, srvSizes)
	var cfg *tls.Config
	if v.Choose("config", 0, 1) == 1 {
		cfg = &tls.Config{MinVersion: v.U16("min")}
	}
	x := newSecure(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetReadTimeout(time.Second).SetConnectTimeout(3 * time.Second)
		if cfg != nil {
			srv.SetTLSConfig(cfg)
		}
	})
	hosts := []string{"gateway.example", "10.0.0.7", "other.example"}
	for i := 0; i < 3; i++ {
		host := hosts[v.Choose("host", 0, 2)]
		v.Assert(x.s.AddRemoteServer("tls://"+host+":802") == nil, "the address is accepted")
		v.Assert(x.s.Start() == nil, "Start works")
		v.Wait()
		v.Assert(v.And(x.d.Dials == i+1, len(x.hs) == i+1), "one connection is made, with one handshake")
		v.Assert(x.d.Address[i] == host+":802", "the given address is dialled")
		if cfg == nil {
			sameTLS(x.hs[i], &tls.Config{}, host)
		} else {
			sameTLS(x.hs[i], cfg, host)
			v.Assert(cfg.ServerName == "", "the configuration given is not changed")
		}
		c := x.d.Conns[i]
		want, _ := s.refAnswer(3, []byte{2, 0, 0, 3})
		v.Assert(v.EqBytes(ask(c, tcpFrame(7, 1, []byte{3, 2, 0, 0, 3})), tcpFrame(7, 1, want)), "requests are answered")
		v.Assert(x.s.Close() == nil, "Close works")
		time.Sleep(3 * time.Second)
		v.Assert(v.And(x.s.IsClosed(), c.IsClosed()), "closed")
	}
	v.Cover("end")
}

// P38_Slow: the connect timeout covers dialing and handshake together.
func P38_Slow() {
	n, _ := srvStore(1, srvSizes)
	to := pickD("timeout", 50*time.Millisecond, 3*time.Second, time.Hour)
	x := newSecure(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetConnectTimeout(to).SetReconnectInterval(to)
		if v.Choose("config", 0, 1) == 1 {
			srv.SetTLSConfig(&tls.Config{ServerName: "plc.example"})
		}
	})
	x.d.Delay = to * time.Duration(pick("dial", 0, 5, 9)) / 10
	x.peer = func(int) error { return env.Silent }
	v.Assert(x.s.AddRemoteServer("tls://gateway.example:802") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	time.Sleep(to - to/50)
	v.Wait()
	v.Assert(v.And(len(x.hs) == 1, x.open() == 1), "the handshake is waited for")
	v.Assert(!x.s.IsConnected(), "not connected without a handshake")
	time.Sleep(to / 25)
	v.Wait()
	v.Assert(x.open() == 0, "hung up on within the connect timeout")
	v.Assert(x.s.Close() == nil, "Close works")
	v.Cover("end")
}
