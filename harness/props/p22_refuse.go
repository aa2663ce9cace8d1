package props

import (
	"errors"
	"fmt"

	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// P22_Unknown: a request for a function the server does not have gets "illegal function".
func P22_Unknown() {
	fc := v.Byte("fc")
	for _, f := range fcs {
		v.Assume(fc != f)
	}
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	tid := v.U16("tid")
	got := ask(c, tcpFrame(tid, 1, cat([]byte{fc}, v.Bytes("data", pick("len", 0, 1, 4, 7)))))
	v.Assert(v.EqBytes(got, tcpFrame(tid, 1, []byte{fc | 0x80, 1})), "an unknown function is answered with illegal function")
	sameStore(n, s, "an unknown function changes nothing")
	v.Assert(!c.IsClosed(), "the connection stays open")
	v.Cover("end")
}

// P22_Malformed: a request of the wrong size, quantity, value or byte count gets "illegal data
// value", one that leaves the table "illegal data address", and neither changes anything.
func P22_Malformed() {
	fc := fcs[v.Choose("fc", 0, len(fcs)-1)]
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	max := 7
	if fc == 23 {
		max = 12
	}
	if v.Tier() == 1 {
		max += 4
	}
	d := v.Bytes("data", v.Choose("len", 0, max))
	// what is wrong with it, written independently of the order of the checks
	var value, address bool
	l := len(d)
	switch fc {
	case 1, 2, 3, 4:
		if l != 4 {
			value = true
			break
		}
		lim := 2000
		if fc > 2 {
			lim = 125
		}
		q := int(be(d[2:]))
		value = v.Or(q < 1, q > lim)
		address = v.Not(s.covers(table(fc), be(d), q))
	case 5, 6:
		if l != 4 {
			value = true
			break
		}
		value = v.And(fc == 5, be(d[2:]) != 0, be(d[2:]) != 0xFF00)
		address = v.Not(s.covers(table(fc), be(d), 1))
	case 22:
		if l != 6 {
			value = true
			break
		}
		address = v.Not(s.covers(tHolding, be(d), 1))
	case 15, 16:
		if l < 5 {
			value = true
			break
		}
		q := int(be(d[2:]))
		lim, bytes := 1968, (q+7)/8
		if fc == 16 {
			lim, bytes = 123, 2*q
		}
		value = v.Or(q < 1, q > lim, int(d[4]) != bytes, int(d[4]) != l-5)
		address = v.Not(s.covers(table(fc), be(d), q))
	case 23:
		if l < 9 {
			value = true
			break
		}
		rq, wq := int(be(d[2:])), int(be(d[6:]))
		value = v.Or(rq < 1, rq > 125, wq < 1, wq > 121, int(d[8]) != 2*wq, int(d[8]) != l-9)
		address = v.Or(v.Not(s.covers(tHolding, be(d), rq)), v.Not(s.covers(tHolding, be(d[4:]), wq)))
	}
	v.Assume(v.Or(value, address))
	code := v.IteByte(value, 3, 2)
	tid := v.U16("tid")
	got := ask(c, tcpFrame(tid, 1, cat([]byte{fc}, d)))
	v.Assert(v.EqBytes(got, tcpFrame(tid, 1, []byte{fc | 0x80, code})), "a refused request is answered with the right exception")
	sameStore(n, s, "a refused request changes nothing")
	v.Assert(!c.IsClosed(), "the connection stays open")
	v.Cover("end")
}

// P22_Handler: an error returned by a user's handler becomes an exception response: its own
// code if it carries one, "server device failure" otherwise; the session goes on.
func P22_Handler() {
	n, s := srvStore(1, srvSizes)
	code := v.Byte("code")
	how := v.Choose("how", 0, 3)
	fc := v.Byte("fc")
	v.Assume(fc < 0x80)
	out := v.Bytes("out", pick("outlen", 0, 3))
	fail := true
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.RegisterFunctionHandler(fc, func(reg *modbus.NodeRegister, data []byte) ([]byte, error) {
			if !fail {
				return []byte{0x77}, nil
			}
			switch how {
			case 0:
				return out, &modbus.ExceptionError{ExceptionCode: code}
			case 1:
				return nil, fmt.Errorf("wrapped: %w", &modbus.ExceptionError{ExceptionCode: code})
			case 2:
				return out, errors.New("plain")
			}
			return nil, errors.New("plain")
		})
	})
	c := r.connect()
	tid := v.U16("tid")
	got := ask(c, tcpFrame(tid, 1, cat([]byte{fc}, v.Bytes("data", pick("len", 0, 2, 4)))))
	want := code
	if how >= 2 {
		want = 4
	}
	v.Assert(v.EqBytes(got, tcpFrame(tid, 1, []byte{fc | 0x80, want})), "a failing handler gets an exception response")
	sameStore(n, s, "a failing handler changes nothing by itself")
	fail = false
	got = ask(c, tcpFrame(tid+1, 1, []byte{fc, 1}))
	v.Assert(v.EqBytes(got, tcpFrame(tid+1, 1, []byte{fc, 0x77})), "the session goes on")
	v.Cover("end")
}

// P22_Repeat: requests are refused however many were refused before, and do no harm to the session.
func P22_Repeat() { repeated(3, 4, 5, 6, 7) }
