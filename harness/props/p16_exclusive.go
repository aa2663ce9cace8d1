package props

import (
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// shared is a device that answers a read with data derived from the address asked for, and that
// notices requests sent before the previous one was answered and read.
func shared(kind int, delay time.Duration) *rig {
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		for _, x := range r.conns() {
			v.Assert(x == c || x.IsClosed() || kind == kTCP, "a port is opened only when it is not open already")
		}
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			v.Assert(c.Pending() == 0, "no request is sent before the previous response is read")
			id, pdu := r.reqPDU(b)
			resp := []byte{3, 2, pdu[1] ^ 0x55, pdu[2] ^ 0xAA}
			f := asciiFrame(id, resp)
			if kind != kASCII {
				f = r.frame(b, id, resp)
			}
			if delay == 0 {
				c.Feed(f)
			} else {
				c.InOp++
				v.Assert(c.InOp == 1, "no request is sent before the previous one is answered")
				go func() {
					time.Sleep(delay)
					c.InOp--
					c.Feed(f)
				}()
			}
			return len(b), nil
		}
	})
	return r
}

func ownAnswer(p modbus.ClientProvider, id byte, how int, a []byte) {
	pdu := cat([]byte{3}, a, []byte{0, 1})
	want := []byte{2, a[0] ^ 0x55, a[1] ^ 0xAA}
	if how == 0 {
		rsp, err := p.Send(id, modbus.ProtocolDataUnit{FuncCode: 3, Data: pdu[1:]})
		v.Assert(err == nil, "every caller gets a response")
		v.Assert(v.EqBytes(rsp.Data, want), "every caller gets its own response")
		return
	}
	rsp, err := p.SendPdu(id, pdu)
	v.Assert(err == nil, "every caller gets a response")
	v.Assert(v.EqBytes(rsp, cat([]byte{3}, want)), "every caller gets its own response")
}

// P16_Exclusive: requests of several goroutines on one client do not mix on the wire, and every
// caller gets its own response, under all interleavings.
func P16_Exclusive() {
	kind := v.Choose("kind", 0, 2)
	how := v.Choose("how", 0, 1)
	r := shared(kind, 0)
	a, b := v.Bytes("a", 2), v.Bytes("b", 2)
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		ownAnswer(r.p, 1, how, a)
		close(done)
	}()
	ownAnswer(r.p, 2, 1-how, b)
	<-done
	v.Sequential()
	v.Assert(r.opens() == 1, "one connection is shared")
	v.Cover("end")
}

// P16_Slow: the same with a device that takes a while, three callers, and callers that arrive
// while a request is under way.
func P16_Slow() {
	kind := v.Choose("kind", 0, 2)
	r := shared(kind, 100*time.Millisecond)
	var x [3][]byte
	n := 0
	for i := range x {
		x[i] = v.Bytes("x", 2)
		i := i
		lag := time.Duration(pick("lag", 0, 50)) * time.Millisecond
		go func() {
			time.Sleep(lag)
			ownAnswer(r.p, byte(i+1), i%2, x[i])
			n++
		}()
	}
	time.Sleep(20 * time.Second)
	v.Assert(n == 3, "every request is completed")
	v.Assert(r.opens() == 1, "one connection is shared")
	v.Cover("end")
}

// P16_Two: two clients of the same kind do not disturb each other (they share buffers).
func P16_Two() {
	kind := v.Choose("kind", 0, 2)
	r1 := shared(kind, 0)
	x, y := v.Bytes("a", 2), v.Bytes("b", 2)
	v.Assert(r1.p.Connect() == nil, "Connect works")
	r2 := shared(kind, 0)
	v.Assert(r2.p.Connect() == nil, "Connect works")
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		ownAnswer(r1.p, 1, 0, x)
		close(done)
	}()
	ownAnswer(r2.p, 2, 0, y)
	<-done
	v.Sequential()
	v.Cover("end")
}

// P16_Close: closing and connecting while a request is under way never yields a wrong response,
// a crash or a leaked connection.
func P16_Close() {
	kind := v.Choose("kind", 0, 2)
	r := shared(kind, 0)
	a := v.Bytes("a", 2)
	op := v.Choose("op", 0, 2)
	if v.Choose("connected", 0, 1) == 1 {
		v.Assert(r.p.Connect() == nil, "Connect works")
	}
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		switch op {
		case 0:
			r.p.Close()
		case 1:
			r.p.Connect()
		case 2:
			r.p.IsConnected()
			r.p.Close()
		}
		close(done)
	}()
	ownAnswer(r.p, 1, 0, a)
	if kind == kTCP {
		ownAnswer(r.p, 1, 0, a)
	}
	<-done
	v.Sequential()
	want := 0
	if r.p.IsConnected() {
		want = 1
	}
	v.Assert(r.open() == want, "exactly the connection in use is open")
	r.p.Close()
	v.Assert(r.open() == 0, "nothing is left open")
	v.Cover("end")
}

// P16_Client: the same through the client's methods, with one connection or with two.
func P16_Client() {
	kind := v.Choose("kind", 0, 2)
	x, y := v.Bytes("a", 2), v.Bytes("b", 2)
	r1 := shared(kind, 0)
	v.Assert(r1.p.Connect() == nil, "Connect works")
	c1 := modbus.NewClient(r1.p)
	c2 := c1
	if v.Choose("two", 0, 1) == 1 {
		r2 := shared(kind, 0)
		v.Assert(r2.p.Connect() == nil, "Connect works")
		c2 = modbus.NewClient(r2.p)
	}
	read := func(c modbus.Client, id byte, a []byte) {
		got, err := c.ReadHoldingRegisters(id, be(a), 1)
		v.Assert(err == nil, "every caller gets a response")
		v.Assert(v.And(len(got) == 1, got[0] == be([]byte{a[0] ^ 0x55, a[1] ^ 0xAA})), "every caller gets its own response")
	}
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		read(c1, 1, x)
		close(done)
	}()
	read(c2, 2, y)
	<-done
	v.Sequential()
	v.Cover("end")
}
