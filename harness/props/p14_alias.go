package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P14_Results: what one request returned is not changed by later requests, on the same or on
// another client of the same kind.
func P14_Results() {
	kind := v.Choose("kind", 0, 2)
	x, y := v.Bytes("x", 5), v.Bytes("y", 5)
	x[0], y[0] = 4, 4
	mk := func() (*rig, *int) {
		n := new(int)
		var r *rig
		r = newRig(kind, func(k int, c *env.Conn) {
			c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
				*n++
				if *n == 1 {
					c.Feed(r.frame(b, 1, cat([]byte{3}, x)))
				} else {
					c.Feed(r.frame(b, 1, cat([]byte{3}, y)))
				}
				return len(b), nil
			}
		})
		return r, n
	}
	r, _ := mk()
	call := func(r *rig) []byte {
		switch v.Choose("entry", 0, 2) {
		case 0:
			p, err := r.p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 2}})
			v.Assert(err == nil, "answered")
			return p.Data[1:]
		case 1:
			p, err := r.p.SendPdu(1, []byte{3, 0, 0, 0, 2})
			v.Assert(err == nil, "answered")
			return p[2:]
		}
		b, err := modbus.NewClient(r.p).ReadHoldingRegistersBytes(1, 0, 2)
		v.Assert(err == nil, "answered")
		return b
	}
	a := call(r)
	v.Assert(v.EqBytes(a, x[1:]), "first result")
	var b []byte
	if v.Choose("other", 0, 1) == 0 {
		b = call(r)
		v.Assert(v.EqBytes(b, y[1:]), "second result")
	} else {
		r2, n := mk()
		*n = 1
		b = call(r2)
		v.Assert(v.EqBytes(b, y[1:]), "second result")
	}
	v.Assert(v.EqBytes(a, x[1:]), "the first result is not changed by a later request")
	for i := range a {
		a[i] = ^a[i]
	}
	v.Assert(v.EqBytes(b, y[1:]), "results do not share memory")
	v.Cover("end")
}

// P14_Raw: the same for raw frames.
func P14_Raw() {
	kind := v.Choose("kind", 0, 2)
	x, y := v.Bytes("x", 4), v.Bytes("y", 4)
	n := 0
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			n++
			if n == 1 {
				c.Feed(r.frame(b, 1, cat([]byte{6}, x)))
			} else {
				c.Feed(r.frame(b, 1, cat([]byte{6}, y)))
			}
			return len(b), nil
		}
	})
	req := r.frame([]byte{0, 7}, 1, cat([]byte{6}, v.Bytes("d", 4)))
	keep := clone(req)
	a, err := r.p.SendRawFrame(req)
	v.Assert(err == nil, "answered")
	a0 := clone(a)
	v.Assert(v.EqBytes(a, r.frame([]byte{0, 7}, 1, cat([]byte{6}, x))), "first response")
	b, err := r.p.SendRawFrame(req)
	v.Assert(err == nil, "answered")
	v.Assert(v.EqBytes(b, r.frame([]byte{0, 7}, 1, cat([]byte{6}, y))), "second response")
	v.Assert(v.EqBytes(a, a0), "the first response is not changed by a later request")
	v.Assert(v.EqBytes(req, keep), "the request is not modified")
	v.Cover("end")
}

// P14_Arguments: arguments are not modified, and changing them or a result afterwards has no
// effect on what later requests send.
func P14_Arguments() {
	kind := v.Choose("kind", 0, 2)
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			_, pdu := r.reqPDU(b)
			n := 5
			if len(pdu) < n {
				n = len(pdu)
			}
			c.Feed(r.frame(b, 1, clone(pdu[:n])))
			return len(b), nil
		}
	})
	c := modbus.NewClient(r.p)
	val := make([]byte, 4, 16)
	for i := range val {
		val[i] = v.Byte("val")
	}
	tail := val[4:16]
	for i := range tail {
		tail[i] = 0x5A
	}
	keep := clone(val)
	send := func() {
		var err error
		switch v.Choose("entry", 0, 3) {
		case 0:
			err = c.WriteMultipleRegistersBytes(1, 0, 2, val)
		case 1:
			err = c.WriteMultipleCoils(1, 0, 20, val)
		case 2:
			_, err = r.p.Send(1, modbus.ProtocolDataUnit{FuncCode: 6, Data: val})
		case 3:
			req := append([]byte{byte(pick("fc", 5, 0x41, 0x85))}, val...)
			keep := clone(req)
			_, err = r.p.SendPdu(1, req)
			v.Assert(v.EqBytes(req, keep), "the argument is not modified")
		}
		v.Assert(err == nil, "answered")
	}
	send()
	v.Assert(v.EqBytes(val, keep), "the argument is not modified")
	for i := range tail {
		v.Assert(tail[i] == 0x5A, "memory behind the argument is not touched")
	}
	w := r.wrote()
	for i := range val {
		val[i] ^= 0xFF
	}
	keep = clone(val)
	send()
	v.Assert(v.EqBytes(r.wrote()[:len(w)], w), "the first request stays as it was")
	v.Assert(v.EqBytes(val, keep), "the argument is not modified")
	v.Cover("end")
}
