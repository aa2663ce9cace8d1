package props

import (
	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// sink counts log messages.
type sink struct{ errs, debugs int }

func (s *sink) Errorf(format string, a ...interface{}) { s.errs++ }
func (s *sink) Debugf(format string, a ...interface{}) { s.debugs++ }

// P33_Gate: a client logs to its provider exactly while logging is enabled, and logging changes
// neither what is sent nor what is returned.
func P33_Gate() {
	kind := v.Choose("kind", 0, 2)
	outcome := v.Choose("outcome", 0, 3)
	x := v.Bytes("x", 2)
	run := func(opts ...modbus.ClientProviderOption) (*rig, []byte, error, func() ([]byte, error)) {
		var r *rig
		r = newRigOpts(kind, func(k int, c *env.Conn) {
			c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
				switch outcome {
				case 0:
					c.Feed(r.frame(b, 1, cat([]byte{3, 2}, x)))
				case 1:
					c.Feed(r.frame(b, 1, []byte{0x83, 2}))
				case 2:
					return 0, env.ErrReset
				case 3:
					c.FeedErr(serial.ErrTimeout)
				}
				return len(b), nil
			}
		}, opts...)
		call := func() ([]byte, error) { return r.p.SendPdu(1, []byte{3, 0, 0, 0, 1}) }
		b, err := call()
		return r, b, err, call
	}
	_, b0, err0, _ := run()
	s := &sink{}
	r, b1, err1, call := run(modbus.WithLogProvider(s))
	same := func(b []byte, err error) {
		v.Assert(v.EqBytes(b, b0), "logging does not change the result")
		v.Assert((err == nil) == (err0 == nil), "logging does not change the error")
		v.Assert(excCode(err) == excCode(err0), "logging does not change the exception")
	}
	same(b1, err1)
	v.Assert(v.And(s.errs == 0, s.debugs == 0), "nothing is logged unless enabled")
	r.p.LogMode(true)
	same(call())
	v.Assert(s.errs+s.debugs > 0, "a request is logged when enabled")
	n := s.errs + s.debugs
	r.p.LogMode(false)
	same(call())
	v.Assert(s.errs+s.debugs == n, "nothing is logged after disabling")
	t := &sink{}
	opts := []modbus.ClientProviderOption{modbus.WithLogProvider(t), modbus.WithEnableLogger(), modbus.WithLogProvider(nil)}
	i := v.Choose("order", 0, 2)
	opts[0], opts[i] = opts[i], opts[0]
	if v.Choose("swap", 0, 1) == 1 {
		opts[1], opts[2] = opts[2], opts[1]
	}
	r2, b2, err2, _ := run(opts...)
	same(b2, err2)
	v.Assert(t.errs+t.debugs > 0, "the option enables logging, and a nil provider is ignored")
	first, logged := r.conns()[0].Wrote, r2.wrote()
	if len(logged) > 0 {
		skip := 0
		if kind == kTCP {
			skip = 2 // transaction ids differ
		}
		v.Assert(len(first) >= len(logged), "the same is sent")
		v.Assert(v.EqBytes(logged[skip:], first[skip:len(logged)]), "the same is sent")
	}
	v.Cover("end")
}

// P33_Switch: switching the logging of a client while a request is under way is free of data
// races and changes nothing but the logging.
func P33_Switch() {
	kind := v.Choose("kind", 0, 2)
	r := shared(kind, 0)
	a := v.Bytes("a", 2)
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		r.p.LogMode(true)
		r.p.LogMode(false)
		close(done)
	}()
	ownAnswer(r.p, 1, 0, a)
	<-done
	v.Sequential()
	v.Cover("end")
}

// P33_Own: the logging of one client is its own: other clients, made before or after, of the same
// kind or another, neither log on its account nor stop it.
func P33_Own() {
	kind, other := v.Choose("kind", 0, 2), v.Choose("other", 0, 2)
	x := v.Bytes("x", 2)
	mk := func(kind int, s *sink, opts ...modbus.ClientProviderOption) *rig {
		var r *rig
		r = newRigOpts(kind, func(k int, c *env.Conn) {
			c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
				c.Feed(r.frame(b, 1, cat([]byte{3, 2}, x)))
				return len(b), nil
			}
		}, append(opts, modbus.WithLogProvider(s))...)
		b, err := r.p.SendPdu(1, []byte{3, 0, 0, 0, 1})
		v.Assert(err == nil, "requests are answered")
		v.Assert(v.EqBytes(b, cat([]byte{3, 2}, x)), "requests are answered")
		return r
	}
	use := func(r *rig) {
		_, err := r.p.SendPdu(1, []byte{3, 0, 0, 0, 1})
		v.Assert(err == nil, "requests are answered")
	}
	var s [3]sink
	first := mk(other, &s[0])
	var on *rig
	byOption := v.Choose("option", 0, 1) == 1
	if byOption {
		on = mk(kind, &s[1], modbus.WithEnableLogger())
	} else {
		on = mk(kind, &s[1])
		on.p.LogMode(true)
	}
	last := mk(other, &s[2])
	use(first)
	use(last)
	v.Assert(s[0] == sink{}, "an earlier client does not log")
	v.Assert(s[2] == sink{}, "a later client does not log")
	n := s[1].errs + s[1].debugs
	v.Assert((n > 0) == byOption, "only its own requests are logged")
	last.p.LogMode(false)
	use(on)
	v.Assert(s[1].errs+s[1].debugs > n, "another client does not end the logging")
	v.Assert(v.And(s[0] == sink{}, s[2] == sink{}), "others do not log")
	v.Cover("end")
}

// P33_Server: the same for servers, while sessions come and are served; and with logging on
// requests are answered as with logging off.
func P33_Server() {
	n, s := srvStore(1, srvSizes)
	var srv *modbus.TCPServer
	r := serve(func(x *modbus.TCPServer) { srv = x; x.AddNodes(n) })
	if v.Choose("on", 0, 1) == 1 {
		srv.LogMode(true)
	}
	c := r.connect()
	pdu := []byte{6, 0, v.Byte("addr"), v.Byte("hi"), v.Byte("lo")}
	v.Interleave(1)
	go func() {
		srv.LogMode(true)
		srv.LogMode(false)
	}()
	c.Feed(tcpFrame(7, 1, pdu))
	d := r.connect()
	v.Wait()
	v.Sequential()
	want, _ := s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(c.Take(), tcpFrame(7, 1, want)), "requests are answered")
	srv.LogMode(v.Choose("on2", 0, 1) == 1)
	want, _ = s.refAnswer(3, []byte{0, 0, 0, 1})
	v.Assert(v.EqBytes(ask(d, tcpFrame(8, 1, []byte{3, 0, 0, 0, 1})), tcpFrame(8, 1, want)), "requests are answered")
	sameStore(n, s, "and carried out")
	v.Cover("end")
}

// P33_Dialing: the same for the dialing server.
func P33_Dialing() {
	n, s := srvStore(1, srvSizes)
	x := newSpec(func(srv *modbus.TCPServerSpecial) { srv.AddNodes(n) })
	if v.Choose("on", 0, 1) == 1 {
		x.s.LogMode(true)
	}
	v.Assert(x.s.AddRemoteServer("127.0.0.1:502") == nil, "the address is accepted")
	v.Interleave(1)
	go func() {
		x.s.LogMode(true)
		x.s.LogMode(false)
	}()
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	v.Sequential()
	want, _ := s.refAnswer(3, []byte{0, 0, 0, 1})
	v.Assert(v.EqBytes(ask(x.d.Conns[0], tcpFrame(8, 1, []byte{3, 0, 0, 0, 1})), tcpFrame(8, 1, want)), "requests are answered")
	v.Cover("end")
}

// P33_Long: with logging on, long requests and responses are sent and returned as with logging off.
func P33_Long() {
	kind := v.Choose("kind", 0, 2)
	n := pick("n", 20, 30, 60, 123)
	x := v.Byte("x")
	data := make([]byte, 2*n)
	for i := range data {
		data[i] = byte(3 * i)
	}
	data[3*n/2] = x
	opts := []modbus.ClientProviderOption{modbus.WithLogProvider(&sink{})}
	if v.Choose("on", 0, 1) == 1 {
		opts = append(opts, modbus.WithEnableLogger())
	}
	req := []byte{3, 0, 0, 0, byte(n)}
	rsp := cat([]byte{3, byte(2 * n)}, data)
	write := v.Choose("write", 0, 1) == 1
	if write {
		req, rsp = cat([]byte{16, 0, 0, 0, byte(n), byte(2 * n)}, data), []byte{16, 0, 0, 0, byte(n)}
	}
	var r *rig
	r = newRigOpts(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			v.Assert(v.EqBytes(b, r.frame(b, 1, req)), "the request is sent")
			c.Feed(r.frame(b, 1, rsp))
			return len(b), nil
		}
	}, opts...)
	got, err := r.p.SendPdu(1, clone(req))
	v.Assert(err == nil, "the request works")
	v.Assert(v.EqBytes(got, rsp), "the response is returned")
	v.Cover("end")
}

// P33_LongServer: the same for a server.
func P33_LongServer() {
	n := pick("n", 20, 30, 60, 120)
	node := modbus.NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 125)
	x := v.Byte("x")
	data := make([]byte, 2*n)
	for i := range data {
		data[i] = byte(3*i) ^ x
	}
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(node)
		srv.LogMode(v.Choose("on", 0, 1) == 1)
	})
	c := r.connect()
	q := []byte{0, 0, 0, byte(n)}
	v.Assert(v.EqBytes(ask(c, tcpFrame(1, 1, cat([]byte{16}, q, []byte{byte(2 * n)}, data))), tcpFrame(1, 1, cat([]byte{16}, q))), "a long request is answered")
	v.Assert(v.EqBytes(ask(c, tcpFrame(2, 1, cat([]byte{3}, q))), tcpFrame(2, 1, cat([]byte{3, byte(2 * n)}, data))), "and carried out, and its long answer is sent")
	v.Cover("end")
}

// P33_Many: logging does not end: every one of a client's many requests is logged.
func P33_Many() {
	kind := v.Choose("kind", 0, 2)
	x := v.Bytes("x", 2)
	s := &sink{}
	var r *rig
	r = newRigOpts(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.Feed(r.frame(b, 1, cat([]byte{3, 2}, x)))
			return len(b), nil
		}
	}, modbus.WithLogProvider(s), modbus.WithEnableLogger())
	each := 0
	for i := 0; i < 300; i++ {
		n := s.errs + s.debugs
		b, err := r.p.SendPdu(1, []byte{3, 0, 0, 0, 1})
		v.Assert(err == nil, "requests are answered")
		v.Assert(v.EqBytes(b, cat([]byte{3, 2}, x)), "with the response")
		n = s.errs + s.debugs - n
		if i == 1 {
			each = n
		}
		v.Assert(i < 2 || n == each, "every request is logged alike")
		v.Assert(n > 0, "every request is logged")
	}
	r.p.LogMode(false)
	n := s.errs + s.debugs
	r.p.SendPdu(1, []byte{3, 0, 0, 0, 1})
	v.Assert(s.errs+s.debugs == n, "nothing is logged after disabling")
	v.Cover("end")
}
