package props

import (
	"io"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P26_Close: after Close the listener and all sessions are closed, the serving call has ended,
// and nothing is answered any more.
func P26_Close() {
	n, s := srvStore(1, srvSizes)
	_ = s
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.SetReadTimeout(time.Second)
	})
	k := v.Choose("sessions", 0, 3)
	busy := false
	var cs []*env.Conn
	for i := 0; i < k; i++ {
		c := r.connect()
		cs = append(cs, c)
		switch v.Choose("state", 0, 3) {
		case 0: // idle
		case 1: // used
			v.Assert(len(ask(c, tcpFrame(1, 1, []byte{3, 2, 0, 0, 1}))) == 11, "answered")
		case 2: // in the middle of a request
			c.Feed([]byte{0, 1, 0, 0})
			v.Wait()
		case 3: // sends requests all the time
			busy = true
			go func() {
				for i := 0; i < 8; i++ {
					time.Sleep(300 * time.Millisecond)
					c.Feed(tcpFrame(1, 1, []byte{3, 2, 0, 0, 1}))
				}
			}()
		}
	}
	if busy {
		time.Sleep(time.Second)
	}
	t0 := time.Now()
	v.Assert(r.s.Close() == nil, "Close works")
	v.Assert(time.Since(t0) <= time.Second, "Close takes no longer than the read timeout")
	v.Assert(r.l.IsClosed(), "the listener is closed")
	for _, c := range cs {
		v.Assert(c.IsClosed(), "every session is closed when Close returns")
		c.Take()
		c.Feed(tcpFrame(2, 1, []byte{3, 2, 0, 0, 1}))
	}
	<-r.done
	v.Assert(r.err != nil, "ListenAndServe ends with an error")
	v.Wait()
	for _, c := range cs {
		w := c.Take()
		v.Assert(len(w) == 0, "nothing is answered after Close")
		v.Assert(c.Closes == 1, "a session is closed once")
	}
	v.Assert(r.s.Close() == nil, "closing twice is harmless")
	if busy {
		time.Sleep(2 * time.Second)
	}
	if v.Symbolic() {
		v.Assert(v.Live() == 1, "no goroutine is left behind")
	}
	v.Cover("end")
}

// P26_Listen: a failure to listen is reported and leaves nothing behind.
func P26_Listen() {
	s := modbus.NewTCPServer()
	l := env.NewListener()
	env.InstallListener(l, env.ErrRefused)
	v.Assert(s.ListenAndServe(":502") != nil, "a failure to listen is an error")
	v.Assert(s.Close() == nil, "Close works")
	env.InstallListener(l, nil)
	done := make(chan struct{})
	go func() {
		s.ListenAndServe("1.2.3.4:5020")
		close(done)
	}()
	v.Wait()
	v.Assert(l.Address == "1.2.3.4:5020", "the given address is listened on")
	v.Assert(s.Close() == nil, "Close works")
	<-done
	v.Cover("end")
}

// P26_Again: a closed server can serve again.
func P26_Again() {
	n, s := srvStore(1, srvSizes)
	srv := modbus.NewTCPServer()
	srv.AddNodes(n)
	for i := 0; i < 2; i++ {
		l := env.NewListener()
		env.InstallListener(l, nil)
		done := make(chan struct{})
		go func() {
			srv.ListenAndServe(":502")
			close(done)
		}()
		v.Wait()
		c := env.NewConn()
		l.Push(c, nil)
		v.Wait()
		want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
		v.Assert(v.EqBytes(ask(c, tcpFrame(1, 1, []byte{3, 2, 0, 0, 2})), tcpFrame(1, 1, want)), "requests are answered")
		c.FeedErr(io.EOF)
		v.Assert(srv.Close() == nil, "Close works")
		<-done
		v.Assert(l.IsClosed(), "the listener is closed")
		v.Assert(c.IsClosed(), "the session is closed")
	}
	v.Cover("end")
}

// P26_Accept: transient accept errors are survived, with pauses of at most a second; a permanent
// one ends the server and its sessions.
func P26_Accept() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
	})
	c := r.connect()
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	req, rsp := tcpFrame(1, 1, []byte{3, 2, 0, 0, 2}), tcpFrame(1, 1, want)
	v.Assert(v.EqBytes(ask(c, req), rsp), "requests are answered")
	k := v.Choose("errors", 0, 10)
	first := len(r.l.AcceptAt)
	for i := 0; i < k; i++ {
		r.l.Push(nil, env.ErrTemp)
	}
	d := env.NewConn()
	r.l.Push(d, nil)
	time.Sleep(time.Duration(k)*time.Second + time.Millisecond)
	v.Assert(v.EqBytes(ask(d, req), rsp), "connections are accepted after transient errors")
	for i := first; i < len(r.l.AcceptAt); i++ {
		pause := time.Duration(r.l.AcceptAt[i] - r.l.AcceptAt[i-1])
		v.Assert(pause <= time.Second+time.Millisecond, "the pauses are bounded")
		if i < first+k {
			v.Assert(pause > 0, "there is a pause after an error")
		}
	}
	r.l.Push(nil, env.ErrReset)
	<-r.done
	v.Assert(r.err == env.ErrReset, "a permanent error is reported")
	v.Assert(r.l.IsClosed(), "the listener is closed")
	v.Assert(v.And(c.IsClosed(), d.IsClosed()), "all sessions are closed")
	v.Cover("end")
}

// P26_Ends: a session ends, and its connection is closed, when the peer closes or breaks the
// connection, or cannot be answered; the server goes on.
func P26_Ends() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := env.NewConn()
	how := v.Choose("how", 0, 4)
	k := 0
	if how == 3 {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) { return v.Choose("sent", 0, 3), env.ErrReset }
	}
	if how == 4 {
		c.DeadErr = env.ErrReset
	}
	r.l.Push(c, nil)
	v.Wait()
	k = v.Choose("before", 0, 11)
	req := tcpFrame(1, 1, []byte{3, 2, 0, 0, 1})
	c.Feed(req[:k])
	v.Wait()
	switch how {
	case 0:
		c.FeedErr(io.EOF)
	case 1:
		c.FeedErr(env.ErrReset)
	case 2:
		c.FeedSeg(env.Seg{Data: req[k:], Err: io.EOF})
	case 3:
		c.Feed(req[k:])
		c.Feed(req)
	}
	v.Wait()
	v.Assert(c.IsClosed(), "the session's connection is closed")
	if how < 2 {
		v.Assert(len(c.Take()) == 0, "an incomplete request is not answered")
	}
	if how == 3 {
		v.Assert(c.Writes == 1, "nothing more is sent on a broken connection")
	}
	d := r.connect()
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	v.Assert(v.EqBytes(ask(d, tcpFrame(1, 1, []byte{3, 2, 0, 0, 2})), tcpFrame(1, 1, want)), "the server goes on")
	sameStore(n, s, "the registers are as before")
	v.Cover("end")
}

// P26_Race: closing the server while a connection arrives or a request is being carried out
// never leaves a session open, under all interleavings.
func P26_Race() {
	n := modbus.NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 1)
	srv := modbus.NewTCPServer()
	srv.AddNodes(n)
	l := env.NewListener()
	env.InstallListener(l, nil)
	done := make(chan struct{})
	go func() {
		srv.ListenAndServe(":502")
		close(done)
	}()
	v.Wait()
	c := env.NewConn()
	if v.Choose("request", 0, 1) == 1 {
		c.Feed(tcpFrame(1, 1, []byte{3, 0, 0, 0, 1}))
	}
	c.FeedErr(io.EOF)
	v.Interleave(2)
	l.Push(c, nil)
	v.Assert(srv.Close() == nil, "Close works")
	reads := c.ReadCalls()
	<-done
	v.Sequential()
	v.Wait()
	v.Assert(c.ReadCalls() == reads, "when Close returns, no session is served any more")
	v.Assert(l.IsClosed(), "the listener is closed")
	v.Assert(v.Or(c.IsClosed(), l.Queued() == 1), "no session is left open")
	v.Cover("end")
}

// P26_Many: the server does not wear out: hundreds of sessions one after the other, dozens at the
// same time, hundreds of requests on one, dozens of accept errors.
func P26_Many() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	req, rsp := tcpFrame(1, 1, []byte{3, 2, 0, 0, 2}), tcpFrame(1, 1, want)
	answered := func(c *env.Conn) {
		v.Assert(v.EqBytes(ask(c, req), rsp), "requests are answered")
	}
	var cs []*env.Conn
	switch v.Choose("what", 0, 3) {
	case 0: // one session after the other
		for i := 0; i < 300; i++ {
			c := r.connect()
			answered(c)
			switch i % 3 {
			case 0:
				c.FeedErr(io.EOF)
			case 1:
				c.FeedErr(env.ErrReset)
			case 2:
				c.Feed([]byte{0, 1, 0, 0, 0xFF, 0xFF, 1})
			}
			v.Wait()
			v.Assert(c.IsClosed(), "a session that ended is closed")
		}
	case 1: // all at the same time
		for i := 0; i < 140; i++ {
			cs = append(cs, r.connect())
		}
		for _, c := range cs {
			answered(c)
		}
	case 2: // on one session
		c := r.connect()
		for i := 0; i < 600; i++ {
			answered(c)
		}
		v.Assert(!c.IsClosed(), "the session goes on")
	case 3:
		for i := 0; i < 70; i++ {
			r.l.Push(nil, env.ErrTemp)
		}
		time.Sleep(71 * time.Second)
	}
	c := r.connect()
	answered(c)
	v.Assert(!r.l.IsClosed(), "the server goes on")
	c.FeedErr(io.EOF)
	for _, c := range cs {
		v.Assert(!c.IsClosed(), "the sessions go on")
		c.FeedErr(io.EOF)
	}
	v.Wait()
	r.close()
	for _, c := range cs {
		v.Assert(v.And(c.IsClosed(), c.Closes == 1), "every session is closed once")
	}
	if v.Symbolic() {
		v.Assert(v.Live() == 1, "no goroutine is left behind")
	}
	v.Cover("end")
}

// P26_CloseBoth: Close returns when the sessions are closed, also when the server is being closed
// already.
func P26_CloseBoth() {
	n, _ := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.SetReadTimeout(time.Second)
	})
	c, d := r.connect(), r.connect()
	if v.Choose("used", 0, 1) == 1 {
		v.Assert(len(ask(c, tcpFrame(1, 1, []byte{3, 2, 0, 0, 1}))) == 11, "answered")
	}
	ask(d, []byte{0, 1, 0})
	done := make(chan struct{}, 3)
	closing := func() {
		v.Assert(r.s.Close() == nil, "Close works")
		v.Assert(v.And(c.IsClosed(), d.IsClosed()), "every session is closed when Close returns")
		done <- struct{}{}
	}
	wait := time.Duration(pick("wait", 0, 1, 500)) * time.Millisecond
	for i := 0; i < 3; i++ {
		go closing()
		time.Sleep(wait)
	}
	for i := 0; i < 3; i++ {
		<-done
	}
	<-r.done
	v.Cover("end")
}
