package props

import (
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P27_Idle: a session that receives nothing for the read timeout is closed, at any point of a
// request; one that keeps sending requests is not.
func P27_Idle() {
	n, s := srvStore(1, srvSizes)
	to := pickD("timeout", 0, 50*time.Millisecond, 300*time.Millisecond, time.Second, 1500*time.Millisecond, 10*time.Minute, 30*time.Hour)
	other := v.Choose("write", 0, 2) // the write timeout is another matter, set before or after
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		if other == 1 {
			srv.SetWriteTimeout(77 * time.Second)
		}
		if to == 0 {
			to = 60 * time.Second
		} else {
			v.Assert(srv.SetReadTimeout(to) == srv, "SetReadTimeout chains")
		}
		if other == 2 {
			srv.SetWriteTimeout(20 * time.Millisecond)
		}
	})
	c := r.connect()
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	req, rsp := tcpFrame(1, 1, []byte{3, 2, 0, 0, 2}), tcpFrame(1, 1, want)
	busy := pick("requests", 0, 1, 3)
	for i := 0; i < busy; i++ {
		time.Sleep(to * 9 / 10)
		v.Assert(v.EqBytes(ask(c, req), rsp), "a session in use stays open")
	}
	if v.Choose("burst", 0, 1) == 1 {
		time.Sleep(to / 20)
		v.Assert(v.EqBytes(ask(c, req), rsp), "a session in use stays open")
	}
	k := v.Choose("partial", 0, len(req)-1)
	c.Feed(req[:k])
	v.Wait()
	v.Assert(!c.IsClosed(), "not closed before the timeout")
	time.Sleep(to - time.Millisecond)
	v.Wait()
	v.Assert(!c.IsClosed(), "not closed before the timeout")
	time.Sleep(2 * time.Millisecond)
	v.Wait()
	v.Assert(c.IsClosed(), "an idle session is closed")
	v.Assert(len(c.Take()) == 0, "nothing more is sent")
	v.Assert(c.UnboundRd == 0, "every read is bounded")
	d := r.connect()
	v.Assert(v.EqBytes(ask(d, req), rsp), "the server goes on")
	v.Cover("end")
}

// P27_Slow: a request whose header and rest arrive after pauses, each shorter than the read
// timeout, is answered.
func P27_Slow() {
	n, s := srvStore(1, srvSizes)
	to := 10 * time.Second
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.SetReadTimeout(to)
	})
	c := r.connect()
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	req := tcpFrame(1, 1, []byte{3, 2, 0, 0, 2})
	for i := 0; i < 3; i++ {
		time.Sleep(time.Duration(pick("pause", 0, 600, 5000, 9900)) * time.Millisecond)
		c.Feed(req[:7])
		v.Wait()
		time.Sleep(time.Duration(pick("pause", 0, 600, 5000, 9900)) * time.Millisecond)
		v.Assert(v.EqBytes(ask(c, req[7:]), tcpFrame(1, 1, want)), "a session in use stays open")
	}
	v.Cover("end")
}

// P27_Write: every response is sent under the write timeout, counted from the moment it is sent.
func P27_Write() {
	n, s := srvStore(1, srvSizes)
	to := pickD("timeout", 0, 40*time.Millisecond, 300*time.Millisecond, 1500*time.Millisecond, 3*time.Second, 10*time.Minute)
	other := v.Choose("read", 0, 2)                  // the read timeout is another matter, set before or after
	res := v.Bytes("result", pick("size", 0, 2, 60)) // of the handler
	busy := time.Duration(v.Choose("busy", 0, 3)) * 900 * time.Millisecond
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.RegisterFunctionHandler(70, func(_ *modbus.NodeRegister, data []byte) ([]byte, error) {
			time.Sleep(busy) // a handler that takes its time
			return clone(res), nil
		})
		if other == 1 {
			srv.SetReadTimeout(20 * time.Second)
		}
		if to == 0 {
			to = time.Second
		} else {
			v.Assert(srv.SetWriteTimeout(to) == srv, "SetWriteTimeout chains")
		}
		if other == 2 {
			srv.SetReadTimeout(70 * time.Minute)
		}
	})
	c := env.NewConn()
	writes := 0
	c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
		writes++
		left := c.WDL.Sub(time.Now())
		v.Assert(left == to, "a response has the write timeout to be sent")
		return len(b), nil
	}
	r.l.Push(c, nil)
	v.Wait()
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 2})
	k := v.Choose("requests", 1, 3)
	for i := 0; i < k; i++ {
		time.Sleep(700 * time.Millisecond)
		v.Assert(v.EqBytes(ask(c, tcpFrame(1, 1, []byte{3, 2, 0, 0, 2})), tcpFrame(1, 1, want)), "answered")
	}
	v.Assert(v.EqBytes(ask(c, tcpFrame(1, 1, []byte{70})), []byte(nil)) || busy == 0, "answered when the handler is done")
	time.Sleep(busy)
	v.Wait()
	v.Assert(writes == k+1, "a response is sent in one piece")
	v.Assert(c.UnboundWr == 0, "every write is bounded")
	v.Cover("end")
}

// P27_Stuck: a client that does not take its responses is dropped after the write timeout.
func P27_Stuck() {
	n, s := srvStore(1, srvSizes)
	_ = s
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.SetWriteTimeout(2 * time.Second)
	})
	c := env.NewConn()
	c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
		time.Sleep(c.WDL.Sub(time.Now()))
		return v.Choose("sent", 0, 2), env.ErrTimeoutNet
	}
	r.l.Push(c, nil)
	c.Feed(tcpFrame(1, 1, []byte{3, 2, 0, 0, 2}))
	time.Sleep(1999 * time.Millisecond)
	d := r.connect()
	v.Assert(len(ask(d, tcpFrame(1, 1, []byte{3, 2, 0, 0, 2}))) == 13, "other sessions are served meanwhile")
	time.Sleep(2 * time.Second)
	v.Wait()
	v.Assert(c.IsClosed(), "the session is dropped")
	v.Cover("end")
}
