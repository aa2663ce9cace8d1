package props

import (
	"io"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// open is the number of connections opened and not closed.
func (r *rig) open() int {
	n := 0
	for _, c := range r.conns() {
		if !c.IsClosed() {
			n++
		}
	}
	return n
}

// P15_History: over any history of connecting, closing and (failing) requests, the client holds
// exactly one connection when it says so and none otherwise, and never leaks or reuses one.
func P15_History() {
	kind := v.Choose("kind", 0, 2)
	steps := 3
	if v.Tier() == 1 {
		steps = 5
	}
	outcome := 0
	var r *rig
	closeErr := v.Choose("closeErr", 0, 1) == 1
	r = newRig(kind, func(k int, c *env.Conn) {
		if closeErr { // closing complains, though it closes
			c.CloseErr = env.ErrReset
		}
		if outcome == 6 {
			c.DeadErr = env.ErrReset
		}
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			switch outcome {
			case 0:
				c.Feed(r.frame(b, 1, []byte{3, 2, 1, 2}))
			case 1:
				return 0, env.ErrReset // write failure
			case 2:
				c.FeedErr(serial.ErrTimeout) // no response
			case 3:
				if kind == kTCP {
					c.FeedErr(io.EOF) // peer hung up
				} else {
					c.FeedErr(env.ErrTemp) // line error
				}
			case 5:
				f := r.frame(b, 1, []byte{3, 2, 1, 2})
				c.FeedSeg(env.Seg{Data: f[:pick("part", 3, 8)], Err: io.EOF}) // peer hung up in the middle
			}
			return len(b), nil
		}
	})
	refuse := false
	r2 := func(k int) error {
		if refuse {
			return env.ErrRefused
		}
		return nil
	}
	if kind == kTCP {
		r.dial.Fail = r2
	} else {
		r.line.Fail = r2
	}
	p := r.p
	for i := 0; i < steps; i++ {
		was := p.IsConnected()
		opens := r.opens()
		op := v.Choose("op", 0, 3)
		refuse = false
		switch op {
		case 0, 1:
			refuse = op == 1
			err := p.Connect()
			if was {
				v.Assert(err == nil, "connecting twice is harmless")
				v.Assert(r.opens() == opens, "no second connection is opened")
				v.Assert(p.IsConnected(), "still connected")
			} else {
				v.Assert((err != nil) == refuse, "Connect reports whether it worked")
				v.Assert(p.IsConnected() == !refuse, "connected iff Connect worked")
				v.Assert(r.opens() == opens+1, "one attempt")
			}
			v.Cover("connect")
		case 2:
			err := p.Close()
			v.Assert(closeErr || err == nil, "Close works")
			v.Assert(!p.IsConnected(), "not connected after Close")
			v.Cover("close")
		case 3:
			outcome = v.Choose("outcome", 0, 4+kind/kTCP*2)
			refuse = outcome == 4
			for _, c := range r.conns() {
				if outcome == 6 && !c.IsClosed() { // broken before anything is sent
					c.DeadErr = env.ErrReset
				}
			}
			_, err := p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
			if was {
				v.Assert(r.opens() == opens, "an open connection is used")
			} else {
				v.Assert(r.opens() == opens+1, "a closed client connects by itself, once")
			}
			switch {
			case outcome == 0, outcome == 4 && was:
				v.Assert((err == nil) == (outcome == 0), "the request is answered")
				if outcome == 0 {
					v.Assert(p.IsConnected(), "connected after a successful request")
					v.Cover("answered")
				}
			default:
				v.Assert(err != nil, "a failed request is an error")
				if outcome == 4 {
					v.Assert(!p.IsConnected(), "not connected when connecting failed")
				}
				if kind == kTCP {
					v.Assert(!p.IsConnected(), "a TCP connection is given up after a failed request")
				}
				if outcome == 1 {
					v.Assert(!p.IsConnected(), "a port that cannot be written is given up")
				}
				v.Cover("failed")
			}
		}
		outcome = 0
		want := 0
		if p.IsConnected() {
			want = 1
		}
		v.Assert(r.open() == want, "exactly the connection in use is open")
		for _, c := range r.conns() {
			v.Assert(c.Closes <= 1, "no connection is closed twice")
		}
	}
	err := p.Close()
	v.Assert(closeErr || err == nil, "Close works")
	v.Assert(r.open() == 0, "nothing is left open")
}

// P15_Recover: after any failed request the next one works again on a healthy device.
func P15_Recover() {
	kind := v.Choose("kind", 0, 2)
	last := 4
	if kind != kTCP {
		last = 3 // bytes that arrive after a request was given up stay on a serial line
	}
	fail := v.Choose("fail", 0, last)
	junk := v.Bytes("junk", 4)
	n := 0
	want := v.Bytes("x", 2)
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			n++
			if n == 1 {
				switch fail {
				case 0:
					return 0, env.ErrReset
				case 1:
					c.FeedErr(serial.ErrTimeout)
				case 2:
					c.FeedErr(env.ErrReset)
				case 3:
					return 2, io.ErrShortWrite
				case 4:
					c.FeedSeg(env.Seg{Data: clone(junk), Err: serial.ErrTimeout})
				}
				return len(b), nil
			}
			c.Feed(r.frame(b, 1, cat([]byte{3, 2}, want)))
			return len(b), nil
		}
	})
	req := modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}}
	_, err := r.p.Send(1, req)
	v.Assert(err != nil, "a failed request is an error")
	if kind != kTCP && fail == 2 {
		// a broken serial port has to be closed by its user
		v.Assert(r.p.Close() == nil, "Close works")
	}
	rsp, err := r.p.Send(1, req)
	v.Assert(err == nil, "the next request works")
	v.Assert(v.EqBytes(rsp.Data, cat([]byte{2}, want)), "and gets its response")
	v.Cover("end")
}

// P15_Late: the answer to a TCP request that was given up is never taken for the answer to a
// later request.
func P15_Late() {
	n := 0
	late := v.Bytes("late", 2)
	want := v.Bytes("x", 2)
	how := v.Choose("how", 0, 3)
	var r *rig
	r = newRig(kTCP, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			n++
			if n == 1 {
				f := tcpFrame(be(b), 1, cat([]byte{3, 2}, late))
				switch how {
				case 0: // arrives after the time-out
					go func() {
						time.Sleep(1500 * time.Millisecond)
						c.Feed(f)
					}()
				case 1: // preceded by a stray frame
					c.Feed(cat(tcpFrame(be(b)+7, 1, []byte{3, 2, 9, 9}), f))
				case 3: // part of a run of nonsense
					c.Feed(cat([]byte{0, 1, 0, 0, 0, 0, 1}, f, f))
				case 2: // half of it late
					c.Feed(f[:v.Choose("half", 1, len(f)-1)])
					go func() {
						time.Sleep(1500 * time.Millisecond)
						c.Feed(f)
					}()
				}
				return len(b), nil
			}
			go func() {
				time.Sleep(700 * time.Millisecond)
				c.Feed(tcpFrame(be(b), 1, cat([]byte{3, 2}, want)))
			}()
			return len(b), nil
		}
	})
	req := modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}}
	rsp, err := r.p.Send(1, req)
	v.Assert(err != nil, "given up")
	rsp, err = r.p.Send(1, req)
	if how != 1 { // (a connection that carries stray frames need not recover)
		v.Assert(err == nil, "the next request works")
	}
	if err == nil {
		v.Assert(v.EqBytes(rsp.Data, cat([]byte{2}, want)), "and gets its own response")
	}
	v.Cover("end")
}

// P15_Tireless: the client does not wear out: request after request, failure after failure,
// opening after opening.
func P15_Tireless() {
	kind := v.Choose("kind", 0, 2)
	how := v.Choose("how", 0, 4)
	x := v.Bytes("x", 2)
	n := 0
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			n++
			if how == 1 && n%2 == 1 {
				return 0, env.ErrReset
			}
			if how == 2 && n <= 300 {
				if kind == kTCP {
					c.FeedErr(env.ErrReset)
				} else {
					c.FeedErr(serial.ErrTimeout)
				}
				return len(b), nil
			}
			if how == 4 && n <= 300 { // the device refuses
				c.Feed(r.frame(b, 1, []byte{0x83, 2}))
				return len(b), nil
			}
			c.Feed(r.frame(b, 1, cat([]byte{3, 2}, x)))
			return len(b), nil
		}
	})
	for i := 1; i <= 302; i++ {
		b, err := r.p.SendPdu(1, []byte{3, 0, 0, 0, 1})
		if how == 1 && i%2 == 1 || (how == 2 || how == 4) && i <= 300 {
			v.Assert(err != nil, "a failure is reported")
		} else {
			v.Assert(err == nil, "requests are answered")
			v.Assert(v.EqBytes(b, cat([]byte{3, 2}, x)), "with the response")
		}
		if how == 3 {
			v.Assert(r.p.Close() == nil, "Close works")
			v.Assert(r.opens() == i, "opened again")
		}
		open := 0
		for _, c := range r.conns() {
			if !c.IsClosed() {
				open++
			}
		}
		v.Assert(open == btoi(r.p.IsConnected()), "one connection while connected, none otherwise")
	}
	if how == 0 || how == 4 {
		v.Assert(r.opens() == 1, "one connection is kept")
	}
	v.Cover("end")
}
