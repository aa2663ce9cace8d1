package props

import (
	"io"
	"net"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// spec is a dialing server on a scripted network.
type spec struct {
	s         *modbus.TCPServerSpecial
	d         *env.Dialer
	connects  int // calls of the connect handler
	lost      int // calls of the connection-lost handler
	alive     int // calls of the keep-alive handler
	connectAt []int64
	under     net.Conn
	fail      func(k int) error // result of the k-th connect handler call
}

func newSpec(setup func(s *modbus.TCPServerSpecial)) *spec {
	x := &spec{s: modbus.NewTCPServerSpecial(), d: &env.Dialer{}}
	env.InstallDialer(x.d)
	x.s.SetOnConnectHandler(func(c *modbus.TCPServerSpecial) error {
		v.Assert(c == x.s, "the handler gets the server")
		v.Assert(x.fresh(c), "the handler can use the new connection")
		x.connects++
		x.connectAt = append(x.connectAt, v.Now())
		if x.fail != nil {
			return x.fail(x.connects - 1)
		}
		return nil
	})
	x.s.SetConnectionLostHandler(func(c *modbus.TCPServerSpecial) {
		v.Assert(!x.s.IsConnected(), "a server that reports a lost connection does not report being connected")
		x.lost++
	})
	if setup != nil {
		setup(x.s)
	}
	return x
}

// fresh tells whether the server's connection is the one dialled last.
func (x *spec) fresh(c *modbus.TCPServerSpecial) bool {
	u := c.UnderlyingConn()
	last := x.under
	x.under = u
	if k, ok := u.(*env.Conn); ok {
		return k == x.d.Conns[len(x.d.Conns)-1]
	}
	return u != nil && u != last // secured
}

func (x *spec) open() int {
	n := 0
	for _, c := range x.d.Conns {
		if !c.IsClosed() {
			n++
		}
	}
	return n
}

// P30_Serve: a started server dials the master, answers its requests like any server, and after
// Close hangs up and stays away.
func P30_Serve() {
	n, s := srvStore(1, srvSizes)
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetReadTimeout(5 * time.Second).SetConnectTimeout(3 * time.Second)
	})
	v.Assert(x.s.Start() != nil, "a server without an address does not start")
	v.Assert(x.s.IsClosed(), "and stays closed")
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.IsClosed(), "not started yet")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Assert(!x.s.IsClosed(), "started")
	v.Wait()
	v.Assert(x.s.IsConnected(), "connected")
	v.Assert(v.And(x.d.Dials == 1, x.connects == 1), "one connection, one call of the connect handler")
	v.Assert(v.And(x.d.Network[0] == "tcp", x.d.Address[0] == "10.1.2.3:1502"), "the given address is dialled")
	v.Assert(x.d.Timeout[0] == 3*time.Second, "with the connect timeout")
	v.Assert(x.s.Start() == nil, "starting twice is harmless")
	v.Wait()
	v.Assert(x.d.Dials == 1, "no second connection")
	c := x.d.Conns[0]
	for i := 0; i < 2; i++ {
		pdu := pickPDU()
		want, _ := s.refAnswer(pdu[0], pdu[1:])
		v.Assert(v.EqBytes(ask(c, tcpFrame(7, 1, pdu)), tcpFrame(7, 1, want)), "requests are answered")
	}
	sameStore(n, s, "and carried out")
	v.Assert(x.s.Close() == nil, "Close works")
	time.Sleep(5*time.Second + time.Millisecond)
	v.Wait()
	v.Assert(c.IsClosed(), "the connection is closed within the read timeout")
	v.Assert(x.s.IsClosed(), "closed")
	v.Assert(!x.s.IsConnected(), "not connected")
	time.Sleep(10 * time.Minute)
	v.Assert(x.d.Dials == 1, "no connection is made after Close")
	v.Assert(x.s.Close() == nil, "closing twice is harmless")
	if v.Choose("again", 0, 1) == 1 {
		v.Assert(x.s.Start() == nil, "a closed server starts again")
		v.Wait()
		v.Assert(v.And(x.d.Dials == 2, x.s.IsConnected()), "and connects again")
		v.Cover("again")
	}
	v.Cover("end")
}

// P30_Reconnect: a lost connection is reported once and replaced within a second; the connect
// handler runs for every new connection, and at most one connection is open.
func P30_Reconnect() {
	n, s := srvStore(1, srvSizes)
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetReadTimeout(5 * time.Second)
	})
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	rounds := 2
	for i := 0; i < rounds; i++ {
		c := x.d.Conns[i]
		want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
		v.Assert(v.EqBytes(ask(c, tcpFrame(7, 1, []byte{3, 2, 0, 0, 2})), tcpFrame(7, 1, want)), "requests are answered")
		v.Assert(x.s.IsConnected(), "connected")
		switch v.Choose("how", 0, 3) {
		case 0:
			c.FeedErr(io.EOF)
		case 1:
			c.FeedErr(env.ErrReset)
		case 2:
			time.Sleep(5*time.Second + time.Millisecond) // idle
		case 3:
			c.Feed([]byte{0, 0, 0, 0, 0xFF, 0xFF, 1}) // garbage
		}
		v.Wait()
		v.Assert(c.IsClosed(), "the lost connection is closed")
		v.Assert(x.lost == i+1, "the loss is reported once")
		v.Assert(!x.s.IsConnected(), "not connected")
		v.Assert(!x.s.IsClosed(), "not closed either")
		time.Sleep(time.Second + time.Millisecond)
		v.Wait()
		v.Assert(v.And(x.d.Dials == i+2, x.connects == i+2), "a new connection is made within a second")
		v.Assert(x.open() == 1, "one connection is open")
	}
	v.Cover("end")
}

// P30_Refused: while the master cannot be reached, dialling is repeated at the reconnect
// interval, or given up at once without auto-reconnect.
func P30_Refused() {
	k := pick("refused", 1, 2, 3, 7)
	auto := v.Choose("auto", 0, 1) == 1
	iv := time.Duration(pick("interval", 1, 2, 3, 9)) * 10 * time.Second
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.EnableAutoReconnect(auto).SetReconnectInterval(iv)
	})
	x.d.Fail = func(i int) error {
		if i < k {
			return env.ErrRefused
		}
		return nil
	}
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	v.Assert(x.d.Dials == 1, "dialled at once")
	v.Assert(!x.s.IsConnected(), "not connected")
	if !auto {
		v.Assert(x.s.IsClosed(), "given up")
		time.Sleep(4 * iv)
		v.Assert(x.d.Dials == 1, "given up")
		v.Assert(x.connects == 0, "no handler is called")
		v.Cover("given up")
		return
	}
	time.Sleep(time.Millisecond)
	for i := 1; i <= k; i++ {
		v.Assert(!x.s.IsClosed(), "still trying")
		v.Assert(!x.s.IsConnected(), "not connected")
		time.Sleep(iv)
		v.Wait()
		v.Assert(x.d.Dials == i+1, "dialled again after the interval")
		v.Assert(time.Duration(x.d.DialAt[i]-x.d.DialAt[i-1]) >= iv, "not before the interval")
	}
	v.Assert(x.s.IsConnected(), "connected in the end")
	v.Assert(v.And(x.connects == 1, x.lost == 0), "one call of the connect handler")
	v.Cover("connected")
}

// P30_Handler: when the connect handler fails, its connection is closed unserved and the next is
// made after the reconnect interval.
func P30_Handler() {
	k := pick("failures", 1, 2, 6)
	auto := v.Choose("auto", 0, 1) == 1
	iv := time.Duration(pick("interval", 20, 90)) * time.Second
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.EnableAutoReconnect(auto).SetReconnectInterval(iv)
	})
	x.fail = func(i int) error {
		if i < k {
			return env.ErrNotModbus
		}
		return nil
	}
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	for i := 0; i < k; i++ {
		v.Assert(x.connects == i+1, "the handler is called per connection")
		v.Assert(x.open() == 0, "a rejected connection is closed")
		if !auto { // whether it is tried again is not this property's concern
			v.Cover("no auto-reconnect")
			return
		}
		v.Assert(x.lost == 0, "a rejected connection is not one that is lost")
		v.Assert(x.d.Conns[i].Reads == 0, "a rejected connection is not served")
		v.Assert(!x.s.IsConnected(), "not connected")
		time.Sleep(iv + time.Millisecond)
		v.Wait()
		v.Assert(x.d.Dials == i+2, "dialled again after the interval")
		v.Assert(time.Duration(x.d.DialAt[i+1]-x.d.DialAt[i]) >= iv, "not before the interval")
	}
	v.Assert(v.And(x.d.Dials == k+1, x.connects == k+1), "another connection each time")
	v.Assert(x.s.IsConnected(), "connected in the end")
	v.Assert(x.open() == 1, "one connection is open")
	v.Cover("end")
}

// P30_KeepAlive: the keep-alive handler runs at its interval while connected and only then.
func P30_KeepAlive() {
	iv := time.Duration(v.Choose("interval", 1, 3)) * time.Second
	on := v.Choose("on", 0, 1) == 1
	x := newSpec(func(srv *modbus.TCPServerSpecial) { srv.SetReadTimeout(time.Hour) })
	x.s.SetKeepAlive(on, iv, func(c *modbus.TCPServerSpecial) {
		v.Assert(c == x.s, "the handler gets the server")
		v.Assert(x.s.IsConnected(), "keep-alives are for connected servers")
		x.alive++
	})
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	k := pick("ticks", 0, 1, 2, 3, 300)
	time.Sleep(iv / 2)
	for i := 0; i < k; i++ {
		v.Assert(x.alive == btoi(on)*i, "a keep-alive per interval")
		time.Sleep(iv)
	}
	if !on {
		k = 0
	}
	v.Assert(x.alive == k, "a keep-alive per interval")
	x.d.Conns[0].FeedErr(io.EOF)
	v.Wait()
	time.Sleep(499 * time.Millisecond)
	v.Assert(x.alive == k, "no keep-alive without a connection")
	time.Sleep(502 * time.Millisecond)
	v.Assert(x.d.Dials == 2, "reconnected")
	at := x.alive
	time.Sleep(2*iv + time.Second)
	if on {
		v.Assert(v.And(x.alive >= at+2, x.alive <= at+4), "keep-alives go on with the new connection")
	} else {
		v.Assert(x.alive == 0, "no keep-alives")
	}
	v.Assert(x.s.Close() == nil, "Close works")
	at = x.alive
	time.Sleep(time.Minute)
	v.Assert(x.alive == at, "no keep-alive after Close")
	v.Cover("end")
}

// P30_KeepLong: the same for long intervals: the other settings do not matter as long as the
// connection is in use.
func P30_KeepLong() {
	iv := pick("interval", 45, 70, 150, 4000)
	set := v.Choose("timeouts", 0, 1) == 1
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(modbus.NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 1))
		if set {
			srv.SetReadTimeout(20 * time.Second).SetWriteTimeout(3 * time.Second)
			srv.SetConnectTimeout(5 * time.Second).SetReconnectInterval(7 * time.Second)
		}
	})
	x.s.SetKeepAlive(true, time.Duration(iv)*time.Second, func(*modbus.TCPServerSpecial) { x.alive++ })
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	time.Sleep(time.Second)
	for at := 1; at < 3*iv; at += 15 {
		v.Assert(x.alive == (at-1)/iv || x.alive == at/iv, "a keep-alive per interval")
		x.d.Conns[0].Feed(tcpFrame(uint16(at), 1, []byte{3, 0, 0, 0, 1}))
		time.Sleep(15 * time.Second)
	}
	v.Assert(v.And(x.d.Dials == 1, x.s.IsConnected()), "a connection in use stays")
	v.Assert(v.And(x.alive >= 2, x.alive <= 3), "a keep-alive per interval")
	v.Cover("end")
}

// P30_CloseAny: a server closed at any moment ends, hangs up and stays away, however soon after
// Start and whatever it is doing.
func P30_CloseAny() {
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.SetReadTimeout(time.Second).SetReconnectInterval(2 * time.Second)
	})
	mode := v.Choose("mode", 0, 2)
	switch mode {
	case 1:
		x.d.Fail = func(int) error { return env.ErrRefused }
	case 2:
		x.d.Delay = time.Second
	}
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	after := v.Choose("after", 0, 4)
	if after > 0 {
		time.Sleep(time.Duration(after-1) * 700 * time.Millisecond)
	}
	v.Assert(x.s.Close() == nil, "Close works")
	time.Sleep(5 * time.Second)
	v.Assert(x.s.IsClosed(), "closed")
	v.Assert(x.open() == 0, "no connection is left open")
	n := x.d.Dials
	time.Sleep(time.Minute)
	v.Assert(x.d.Dials == n, "no connection is made after Close")
	if v.Symbolic() {
		v.Assert(v.Live() == 1, "no goroutine is left behind")
	}
	v.Cover("end")
}

// P30_Races: starting, closing and asking for the status at the same time is safe.
func P30_Races() {
	x := newSpec(func(srv *modbus.TCPServerSpecial) { srv.SetReadTimeout(time.Second) })
	x.d.Setup = func(k int, c *env.Conn) { c.FeedErr(io.EOF) }
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	op := v.Choose("op", 0, 2)
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		switch op {
		case 0:
			x.s.Close()
		case 1:
			x.s.IsConnected()
			x.s.IsClosed()
		case 2:
			x.s.Start()
		}
		close(done)
	}()
	x.s.Start()
	<-done
	x.s.Close()
	v.Sequential()
	time.Sleep(10 * time.Second)
	v.Assert(x.s.IsClosed(), "closed in the end")
	v.Assert(x.open() == 0, "no connection is left open")
	v.Cover("end")
}

// P30_Wide: the durations a user sets are honoured whatever their scale, on every connection.
func P30_Wide() {
	ct := pickD("connect", 50*time.Millisecond, 1500*time.Millisecond, 45*time.Second, 2*time.Hour)
	iv := pickD("interval", 300*time.Millisecond, 90*time.Second, time.Hour, 25*time.Hour)
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.SetReadTimeout(1000 * time.Hour).SetConnectTimeout(ct).SetReconnectInterval(iv)
	})
	x.s.SetKeepAlive(true, iv, func(*modbus.TCPServerSpecial) { x.alive++ })
	refused := v.Choose("refused", 0, 2)
	x.d.Fail = func(i int) error {
		if i < refused {
			return env.ErrRefused
		}
		return nil
	}
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	for i := 1; i <= refused; i++ {
		time.Sleep(iv - 5*time.Millisecond)
		v.Wait()
		v.Assert(x.d.Dials == i, "not dialled before the interval")
		time.Sleep(6 * time.Millisecond)
		v.Wait()
		v.Assert(x.d.Dials == i+1, "dialled again after the interval")
	}
	for round := 0; round < 3; round++ {
		v.Assert(x.s.IsConnected(), "connected")
		at := x.alive
		time.Sleep(3*iv - 250*time.Millisecond) // the connection may be half a second old
		v.Wait()
		v.Assert(v.And(x.alive >= at+2, x.alive <= at+3), "a keep-alive per interval")
		x.d.Conns[round].FeedErr(io.EOF)
		time.Sleep(time.Second + time.Millisecond)
		v.Wait()
		v.Assert(v.And(x.lost == round+1, x.connects == round+2), "lost and connected again")
	}
	for _, t := range x.d.Timeout {
		v.Assert(t == ct, "dialled with the connect timeout")
	}
	v.Cover("end")
}

// P30_Lost: the loss of a connection is reported once, with auto-reconnect or without, however
// the connection ends.
func P30_Lost() {
	auto := v.Choose("auto", 0, 1) == 1
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.EnableAutoReconnect(auto).SetReadTimeout(5 * time.Second)
	})
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	c := x.d.Conns[0]
	switch v.Choose("how", 0, 3) {
	case 0:
		c.FeedErr(io.EOF)
	case 1:
		c.FeedErr(env.ErrReset)
	case 2:
		time.Sleep(5*time.Second + time.Millisecond) // idle
	case 3:
		v.Assert(x.s.Close() == nil, "Close works")
		time.Sleep(5*time.Second + time.Millisecond)
	}
	v.Wait()
	v.Assert(x.lost == 1, "the loss is reported once")
	v.Assert(x.open() == 0, "the lost connection is closed")
	v.Assert(!x.s.IsConnected(), "not connected")
	v.Cover("end")
}

// P30_Again: closing and starting in any order and at any pace never leaves two connections open,
// and a server that reports being closed has none.
func P30_Again() {
	x := newSpec(func(srv *modbus.TCPServerSpecial) { srv.SetReadTimeout(3 * time.Second) })
	mode := v.Choose("mode", 0, 2)
	switch mode {
	case 1:
		x.d.Delay = 700 * time.Millisecond
	case 2:
		x.fail = func(i int) error {
			time.Sleep(700 * time.Millisecond) // a handler that takes its time
			return nil
		}
	}
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	check := func() {
		v.Wait()
		v.Assert(x.open() <= 1, "at most one connection is open")
		if x.s.IsClosed() {
			v.Assert(x.open() == 0, "a closed server has no connection")
		}
		if x.s.IsConnected() {
			v.Assert(x.open() == 1, "a connected server has a connection")
		}
	}
	for i := 0; i < 2; i++ {
		v.Assert(x.s.Start() == nil, "Start works")
		if p := pick("up", 0, 500, 2000); p > 0 {
			time.Sleep(time.Duration(p) * time.Millisecond)
		}
		check()
		v.Assert(x.s.Close() == nil, "Close works")
		if p := pick("down", 0, 500, 4000); p > 0 {
			time.Sleep(time.Duration(p) * time.Millisecond)
		}
		check()
	}
	v.Assert(x.s.Start() == nil, "Start works")
	for i := 0; i < 10; i++ {
		time.Sleep(500 * time.Millisecond)
		check()
	}
	v.Assert(x.s.Close() == nil, "Close works")
	time.Sleep(10 * time.Second)
	check()
	v.Assert(x.s.IsClosed(), "closed in the end")
	if v.Symbolic() {
		v.Assert(v.Live() == 1, "no goroutine is left behind")
	}
	v.Cover("end")
}

// P30_CloseInside: Close works from within the server's own handlers.
func P30_CloseInside() {
	where := v.Choose("where", 0, 3)
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.SetReadTimeout(2 * time.Second).SetReconnectInterval(time.Second)
	})
	x.fail = func(i int) error {
		if where <= 1 {
			v.Assert(x.s.Close() == nil, "Close works")
		}
		if where == 0 {
			return env.ErrNotModbus
		}
		return nil
	}
	x.s.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) {
		if where == 2 {
			v.Assert(x.s.Close() == nil, "Close works")
		}
	})
	x.s.SetKeepAlive(true, 500*time.Millisecond, func(*modbus.TCPServerSpecial) {
		if where == 3 {
			v.Assert(x.s.Close() == nil, "Close works")
		}
	})
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	time.Sleep(6 * time.Second)
	v.Wait()
	v.Assert(x.s.IsClosed(), "closed")
	v.Assert(x.open() == 0, "no connection is left open")
	v.Assert(x.d.Dials == 1, "no connection is made after Close")
	if v.Symbolic() {
		v.Assert(v.Live() == 1, "no goroutine is left behind")
	}
	v.Cover("end")
}

// P30_Busy: a master that keeps sending requests does not keep a closed server alive.
func P30_Busy() {
	n, s := srvStore(1, srvSizes)
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.AddNodes(n)
		srv.SetReadTimeout(5 * time.Second)
	})
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	c := x.d.Conns[0]
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	for i := v.Choose("before", 0, 2); i > 0; i-- {
		v.Assert(v.EqBytes(ask(c, tcpFrame(7, 1, []byte{3, 2, 0, 0, 2})), tcpFrame(7, 1, want)), "requests are answered")
	}
	v.Assert(x.s.Close() == nil, "Close works")
	answered := 0
	for i := 0; i < 4; i++ {
		if c.IsClosed() {
			break
		}
		time.Sleep(time.Second)
		if len(ask(c, tcpFrame(7, 1, []byte{3, 2, 0, 0, 2}))) > 0 {
			answered++
		}
	}
	v.Wait()
	v.Assert(c.IsClosed(), "the connection is closed")
	v.Assert(answered <= 1, "no more than the request it was waiting for is answered")
	v.Assert(x.s.IsClosed(), "closed")
	v.Cover("end")
}

// P30_Unset: handlers that are nil and intervals that are not positive leave the handlers and the
// interval as they were.
func P30_Unset() {
	own := v.Choose("own", 0, 1) == 1 // whether handlers and interval were set before
	none := time.Duration(-v.Choose("none", 0, 1)) * time.Hour
	connects, lost, alive := 0, 0, 0
	s := modbus.NewTCPServerSpecial()
	d := &env.Dialer{}
	env.InstallDialer(d)
	iv := 30 * time.Second // the documented default
	if own {
		iv = 7 * time.Second
		s.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { connects++; return nil })
		s.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { lost++ })
		s.SetKeepAlive(false, iv, func(*modbus.TCPServerSpecial) { alive++ })
	}
	s.SetOnConnectHandler(nil)
	s.SetConnectionLostHandler(nil)
	if own {
		s.SetKeepAlive(true, none, nil)
	} else {
		s.SetKeepAlive(true, none, func(*modbus.TCPServerSpecial) { alive++ })
		if v.Choose("nil", 0, 1) == 1 {
			s.SetKeepAlive(true, 0, nil)
		}
	}
	s.SetReadTimeout(time.Hour)
	v.Assert(s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(s.Start() == nil, "Start works")
	v.Wait()
	v.Assert(s.IsConnected(), "connected")
	time.Sleep(iv - 10*time.Millisecond)
	v.Wait()
	v.Assert(alive == 0, "no keep-alive before the interval")
	time.Sleep(520 * time.Millisecond)
	v.Wait()
	v.Assert(alive == 1, "a keep-alive after the interval")
	d.Conns[0].FeedErr(io.EOF)
	time.Sleep(2 * time.Second)
	v.Wait()
	v.Assert(v.And(s.IsConnected(), d.Dials == 2), "connected again")
	if own {
		v.Assert(v.And(connects == 2, lost == 1), "the handlers set before are called")
	}
	v.Cover("end")
}

// P30_Many: the server does not tire, however many attempts fail or connections are lost.
func P30_Many() {
	what := v.Choose("what", 0, 3)
	many := 300
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.SetReadTimeout(time.Hour).SetReconnectInterval(2 * time.Second)
	})
	switch what {
	case 0:
		x.d.Fail = func(i int) error {
			if i < many {
				return env.ErrRefused
			}
			return nil
		}
	case 1:
		x.fail = func(i int) error {
			if i < many {
				return env.ErrNotModbus
			}
			return nil
		}
	}
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	v.Assert(x.s.Start() == nil, "Start works")
	v.Wait()
	switch what {
	case 0, 1:
		for i := 1; i <= many; i++ {
			v.Assert(x.d.Dials == i, "one attempt per interval")
			v.Assert(!x.s.IsConnected(), "not connected")
			time.Sleep(2*time.Second + time.Millisecond)
			v.Wait()
		}
		v.Assert(x.d.Dials == many+1, "one attempt per interval")
	case 2: // losses
		for i := 0; i < many; i++ {
			v.Assert(v.And(x.s.IsConnected(), x.connects == i+1, x.lost == i), "connected")
			x.d.Conns[i].FeedErr(io.EOF)
			time.Sleep(time.Second + time.Millisecond)
			v.Wait()
		}
	case 3: // the user stops and starts
		for i := 0; i < many; i++ {
			v.Assert(v.And(x.s.IsConnected(), x.connects == i+1), "connected")
			v.Assert(x.s.Close() == nil, "Close works")
			x.d.Conns[i].FeedErr(io.EOF)
			time.Sleep(time.Second + time.Millisecond)
			v.Wait()
			v.Assert(x.s.IsClosed(), "closed")
			v.Assert(x.s.Start() == nil, "Start works")
			v.Wait()
		}
	}
	v.Assert(v.And(x.s.IsConnected(), x.open() == 1), "connected in the end")
	v.Cover("end")
}

// P30_Settings: the settings hold for every run of the server and are not changed by it.
func P30_Settings() {
	ct, ri, ka, rt := 2*time.Second, 4*time.Second, 3*time.Second, 20*time.Second
	x := newSpec(func(srv *modbus.TCPServerSpecial) {
		srv.SetConnectTimeout(ct).SetReconnectInterval(ri).SetReadTimeout(rt)
	})
	x.s.SetKeepAlive(true, ka, func(*modbus.TCPServerSpecial) { x.alive++ })
	v.Assert(x.s.AddRemoteServer("10.1.2.3:1502") == nil, "the address is accepted")
	refuse := 0
	x.d.Fail = func(i int) error {
		if refuse > 0 {
			refuse--
			return env.ErrRefused
		}
		return nil
	}
	for run := 0; run < 4; run++ {
		dials := x.d.Dials
		refuse = v.Choose("refuse", 0, 1)
		k := refuse
		v.Assert(x.s.Start() == nil, "Start works")
		v.Wait()
		if k > 0 {
			time.Sleep(ri - 5*time.Millisecond)
			v.Wait()
			v.Assert(v.And(x.d.Dials == dials+1, !x.s.IsConnected()), "not dialled before the interval")
			time.Sleep(6 * time.Millisecond)
			v.Wait()
		}
		v.Assert(v.And(x.d.Dials == dials+1+k, x.s.IsConnected()), "dialled after the interval")
		at := x.alive
		time.Sleep(ka - 5*time.Millisecond)
		v.Wait()
		v.Assert(x.alive == at, "no keep-alive before its interval")
		time.Sleep(6 * time.Millisecond)
		v.Wait()
		v.Assert(x.alive == at+1, "a keep-alive at its interval")
		c := x.d.Conns[len(x.d.Conns)-1]
		switch v.Choose("end", 0, 1) {
		case 0: // closed, then idle
			v.Assert(x.s.Close() == nil, "Close works")
			time.Sleep(rt)
			v.Wait()
		case 1: // closed and lost
			v.Assert(x.s.Close() == nil, "Close works")
			c.FeedErr(io.EOF)
			v.Wait()
		}
		v.Assert(v.And(c.IsClosed(), x.s.IsClosed()), "closed")
	}
	for _, t := range x.d.Timeout {
		v.Assert(t == ct, "dialled with the connect timeout")
	}
	v.Cover("end")
}
