package props

import (
	"io"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P09_Send: an exception response yields an error carrying exactly the code on the wire.
func P09_Send() {
	kind := v.Choose("kind", 0, 2)
	fc, code, id := v.Byte("fc"), v.Byte("code"), v.Byte("slave")
	v.Assume(fc < 0x80)
	r := answering(kind, id, []byte{fc | 0x80, code})
	data := v.Bytes("d", 2)
	var err error
	if v.Choose("entry", 0, 1) == 0 {
		_, err = r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: data})
	} else {
		_, err = r.p.SendPdu(id, cat([]byte{fc}, data))
	}
	v.Assert(err != nil, "an exception response is an error")
	v.Assert(excCode(err) == int(code), "the error carries the exception code")
	_ = err.Error() // can be printed
	v.Cover("end")
}

// P09_Methods: the same through every client method; nothing else is returned.
func P09_Methods() {
	kind := v.Choose("kind", 0, 2)
	code, id := v.Byte("code"), v.Byte("slave")
	v.Assume(v.And(id >= 1, id <= 247))
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			_, pdu := r.reqPDU(b)
			c.Feed(r.frame(b, id, []byte{pdu[0] | 0x80, code}))
			return len(b), nil
		}
	})
	m := v.Choose("method", 0, 14)
	res, err := goodCall(modbus.NewClient(r.p), m, id)
	v.Assert(r.writes() == 1, "one request")
	v.Assert(excCode(err) == int(code), "the error carries the exception code")
	v.Assert(emptyResult(res), "no data together with an exception")
	v.Cover("end")
}

// goodCall invokes a client method with valid arguments.
func goodCall(c modbus.Client, m int, id byte) (any, error) {
	a := v.U16("a")
	switch m {
	case 0:
		return c.ReadCoils(id, a, 9)
	case 1:
		return c.ReadDiscreteInputs(id, a, 8)
	case 2:
		return nil, c.WriteSingleCoil(id, a, v.Bool("on"))
	case 3:
		return nil, c.WriteMultipleCoils(id, a, 9, v.Bytes("val", 2))
	case 4:
		return c.ReadInputRegistersBytes(id, a, 2)
	case 5:
		return c.ReadInputRegisters(id, a, 2)
	case 6:
		return c.ReadHoldingRegistersBytes(id, a, 2)
	case 7:
		return c.ReadHoldingRegisters(id, a, 2)
	case 8:
		return nil, c.WriteSingleRegister(id, a, v.U16("x"))
	case 9:
		return nil, c.WriteMultipleRegistersBytes(id, a, 1, v.Bytes("val", 2))
	case 10:
		return nil, c.WriteMultipleRegisters(id, a, 1, []uint16{v.U16("x")})
	case 11:
		return c.ReadWriteMultipleRegistersBytes(id, a, 1, v.U16("wa"), 1, v.Bytes("val", 2))
	case 12:
		return c.ReadWriteMultipleRegisters(id, a, 1, v.U16("wa"), 1, v.Bytes("val", 2))
	case 13:
		return nil, c.MaskWriteRegister(id, a, v.U16("and"), v.U16("or"))
	}
	return c.ReadFIFOQueue(id, a)
}

func emptyResult(res any) bool {
	switch t := res.(type) {
	case []byte:
		return len(t) == 0
	case []uint16:
		return len(t) == 0
	}
	return true
}

// P09_Only: an error carrying an exception code is returned only for an exception response to
// the function requested, coming from the addressed slave.
func P09_Only() {
	kind := pick("kind", kRTU, kTCP)
	n := 9
	if kind == kRTU {
		n = 5
	}
	rx := v.Bytes("rx", v.Choose("n", n-1, n+1))
	r := newRig(kind, func(k int, c *env.Conn) {
		err := serial.ErrTimeout
		if kind == kTCP {
			err = env.ErrReset
		}
		c.FeedSeg(env.Seg{Data: clone(rx), Err: err})
	})
	id, fc := v.Byte("slave"), v.Byte("fc")
	_, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 2)})
	e := excCode(err)
	if e < 0 {
		v.Cover("other")
		return
	}
	// the PDU of the frame that arrived
	var p []byte
	if kind == kTCP {
		v.Assert(len(rx) >= 8, "an exception response arrived")
		w := r.wrote()
		p = rx[7 : 6+v.Concrete(int(be(rx[4:])))]
		v.Assert(v.And(rx[0] == w[0], rx[1] == w[1], rx[2] == 0, rx[3] == 0, rx[6] == id), "it answers this request")
	} else {
		v.Assert(len(rx) >= 5, "an exception response arrived")
		p = rx[1 : len(rx)-2]
		crc := RefCRC(rx[:len(rx)-2])
		v.Assert(rx[0] == id, "it comes from the slave")
		v.Assert(v.And(rx[len(rx)-2] == byte(crc), rx[len(rx)-1] == byte(crc>>8)), "it is intact")
	}
	v.Assert(v.And(fc < 0x80, p[0] == fc|0x80), "the exception is for the function requested")
	if len(p) == 1 {
		v.Assert(e == 0, "no code received")
	} else {
		v.Assert(int(p[1]) == e, "the code is the one received")
	}
	v.Cover("exception")
}

// P09_After: the client stays in step after an exception: the next request is answered.
func P09_After() {
	kind := v.Choose("kind", 0, 2)
	id := v.Byte("slave")
	n := 0
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			n++
			if n == 1 {
				c.Feed(r.frame(b, id, []byte{0x83, v.Byte("code")}))
			} else {
				c.Feed(r.frame(b, id, []byte{3, 2, 0x12, 0x34}))
			}
			return len(b), nil
		}
	})
	req := modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}}
	_, err := r.p.Send(id, req)
	v.Assert(excCode(err) >= 0, "exception reported")
	rsp, err := r.p.Send(id, req)
	v.Assert(err == nil, "next request succeeds")
	v.Assert(v.EqBytes(rsp.Data, []byte{2, 0x12, 0x34}), "next request gets its own response")
	v.Cover("end")
}

// P09_Failures: a request that fails for any other reason does not fail with an exception code.
func P09_Failures() {
	kind := v.Choose("kind", 0, 2)
	var r *rig
	how := v.Choose("how", 0, 6)
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			f := r.frame(b, 1, []byte{0x83, 2})
			switch how {
			case 1:
				return 0, []error{env.ErrReset, env.ErrTimeoutNet, env.ErrTemp}[v.Choose("err", 0, 2)]
			case 2: // silence
				if kind != kTCP {
					c.FeedErr(serial.ErrTimeout)
				}
			case 3: // silence in the middle of an exception response
				c.Feed(f[:v.Choose("cut", 1, 3)])
				if kind != kTCP {
					c.FeedErr(serial.ErrTimeout)
				}
			case 4:
				c.FeedErr([]error{io.EOF, env.ErrReset, env.ErrTimeoutNet, env.ErrTemp}[v.Choose("err", 0, 3)])
			case 5: // another slave's exception
				c.Feed(r.frame(b, 2, []byte{0x83, 2}))
			case 6: // an exception for another function
				c.Feed(r.frame(b, 1, []byte{0x84, 2}))
			}
			return len(b), nil
		}
	})
	if how == 0 {
		if kind == kTCP {
			r.dial.Fail = func(int) error { return env.ErrRefused }
		} else {
			r.line.Fail = func(int) error { return env.ErrNotModbus }
		}
	}
	req := []byte{3, 0, 0, 0, 1}
	var err error
	switch v.Choose("through", 0, 2) {
	case 0:
		_, err = r.p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: req[1:]})
	case 1:
		_, err = r.p.SendPdu(1, req)
	case 2:
		_, err = modbus.NewClient(r.p).ReadHoldingRegisters(1, 0, 1)
	}
	v.Assert(err != nil, "the request fails")
	v.Assert(excCode(err) < 0, "without an exception there is no exception code")
	v.Cover("end")
}
