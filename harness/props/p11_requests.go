package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

func put16(x ...uint16) []byte {
	var b []byte
	for _, w := range x {
		b = append(b, byte(w>>8), byte(w))
	}
	return b
}

// P11_Request: every client method sends exactly the request PDU the protocol prescribes.
func P11_Request() {
	kind := v.Choose("kind", 0, 2)
	r := newRig(kind, func(k int, c *env.Conn) { c.FeedErr(env.ErrReset) })
	c := modbus.NewClient(r.p)
	id, a := v.Byte("id"), v.U16("a")
	v.Assume(v.And(id >= 1, id <= 247))
	var want []byte
	switch v.Choose("method", 0, 14) {
	case 0:
		q := v.U16("q")
		v.Assume(v.And(q >= 1, q <= 2000))
		want = cat([]byte{1}, put16(a, q))
		c.ReadCoils(id, a, q)
	case 1:
		q := v.U16("q")
		v.Assume(v.And(q >= 1, q <= 2000))
		want = cat([]byte{2}, put16(a, q))
		c.ReadDiscreteInputs(id, a, q)
	case 2:
		on := v.Bool("on")
		want = cat([]byte{5}, put16(a, v.IteU16(on, 0xFF00, 0)))
		c.WriteSingleCoil(id, a, on)
	case 3:
		n := v.Choose("n", 1, 3)
		q := uint16(v.Choose("q", 1, 8*n))
		val := v.Bytes("val", n)
		m := int(q+7) / 8
		want = cat([]byte{15}, put16(a, q), []byte{byte(m)}, clone(val[:m]))
		keep := clone(val)
		c.WriteMultipleCoils(id, a, q, val)
		v.Assert(v.EqBytes(val, keep), "the caller's data stays as it was")
	case 4, 5:
		q := v.U16("q")
		v.Assume(v.And(q >= 1, q <= 125))
		want = cat([]byte{4}, put16(a, q))
		if v.Choose("b", 0, 1) == 0 {
			c.ReadInputRegistersBytes(id, a, q)
		} else {
			c.ReadInputRegisters(id, a, q)
		}
	case 6, 7:
		q := v.U16("q")
		v.Assume(v.And(q >= 1, q <= 125))
		want = cat([]byte{3}, put16(a, q))
		if v.Choose("b", 0, 1) == 0 {
			c.ReadHoldingRegistersBytes(id, a, q)
		} else {
			c.ReadHoldingRegisters(id, a, q)
		}
	case 8:
		x := v.U16("x")
		want = cat([]byte{6}, put16(a, x))
		c.WriteSingleRegister(id, a, x)
	case 9:
		q := v.Choose("n", 1, 3)
		val := v.Bytes("val", 2*q)
		want = cat([]byte{16}, put16(a, uint16(q)), []byte{byte(2 * q)}, clone(val))
		keep := clone(val)
		c.WriteMultipleRegistersBytes(id, a, uint16(q), val)
		v.Assert(v.EqBytes(val, keep), "the caller's data stays as it was")
	case 10:
		val := make([]uint16, v.Choose("n", 1, 3))
		for i := range val {
			val[i] = v.U16("val")
		}
		want = cat([]byte{16}, put16(a, uint16(len(val))), []byte{byte(2 * len(val))}, put16(val...))
		keep := put16(val...)
		c.WriteMultipleRegisters(id, a, uint16(len(val)), val)
		v.Assert(v.EqBytes(put16(val...), keep), "the caller's data stays as it was")
	case 11, 12:
		wa, q := v.U16("wa"), v.U16("q")
		v.Assume(v.And(q >= 1, q <= 125))
		n := v.Choose("n", 1, 3)
		val := v.Bytes("val", 2*n)
		keep := clone(val)
		want = cat([]byte{23}, put16(a, q, wa, uint16(n)), []byte{byte(2 * n)}, clone(val))
		if v.Choose("b", 0, 1) == 0 {
			c.ReadWriteMultipleRegistersBytes(id, a, q, wa, uint16(n), val)
		} else {
			c.ReadWriteMultipleRegisters(id, a, q, wa, uint16(n), val)
		}
		v.Assert(v.EqBytes(val, keep), "the caller's data stays as it was")
	case 13:
		and, or := v.U16("and"), v.U16("or")
		want = cat([]byte{22}, put16(a, and, or))
		c.MaskWriteRegister(id, a, and, or)
	case 14:
		want = cat([]byte{24}, put16(a))
		c.ReadFIFOQueue(id, a)
	}
	v.Assert(r.writes() == 1, "one request sent")
	slave, pdu := r.reqPDU(r.wrote())
	v.Assert(slave == id, "addressed to the slave")
	v.Assert(len(pdu) == len(want), "request size")
	v.Assert(v.EqBytes(pdu, want), "request content")
	v.Cover("end")
}

// P11_Large: the largest writes.
func P11_Large() {
	r := newRig(pick("kind", kRTU, kASCII, kTCP), func(k int, c *env.Conn) { c.FeedErr(env.ErrReset) })
	c := modbus.NewClient(r.p)
	id, a := byte(9), v.U16("a")
	big := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*5 + 1)
		}
		b[n-1] = v.Byte("last")
		return b
	}
	var want []byte
	switch v.Choose("method", 0, 3) {
	case 0:
		q := uint16(pick("q", 1960, 1961, 1967, 1968))
		val := big(int(q+7) / 8)
		want = cat([]byte{15}, put16(a, q), []byte{byte(len(val))}, val)
		c.WriteMultipleCoils(id, a, q, val)
	case 1:
		val := big(246)
		want = cat([]byte{16}, put16(a, 123), []byte{246}, val)
		c.WriteMultipleRegistersBytes(id, a, 123, val)
	case 2:
		val := make([]uint16, 123)
		for i := range val {
			val[i] = uint16(i * 777)
		}
		val[122] = v.U16("x")
		want = cat([]byte{16}, put16(a, 123), []byte{246}, put16(val...))
		c.WriteMultipleRegisters(id, a, 123, val)
	case 3:
		val := big(242)
		want = cat([]byte{23}, put16(a, 125, a, 121), []byte{242}, val)
		c.ReadWriteMultipleRegistersBytes(id, a, 125, a, 121, val)
	}
	slave, pdu := r.reqPDU(r.wrote())
	v.Assert(slave == id, "addressed to the slave")
	v.Assert(len(pdu) == len(want), "request size")
	v.Assert(v.EqBytes(pdu, want), "request content")
	v.Cover("end")
}

// P11_Broadcast: writes may be addressed to slave 0, reads may not.
func P11_Broadcast() {
	r := newRig(kTCP, func(k int, c *env.Conn) { c.FeedErr(env.ErrReset) })
	m := v.Choose("method", 0, 14)
	_, err := goodCall(modbus.NewClient(r.p), m, 0)
	v.Assert(err != nil, "no response: an error")
	switch m {
	case 2, 3, 8, 9, 10, 13:
		v.Assert(r.writes() == 1, "write sent")
		slave, _ := r.reqPDU(r.wrote())
		v.Assert(slave == 0, "addressed to everyone")
		v.Cover("write")
	default:
		v.Assert(r.writes() == 0, "read refused")
		v.Cover("read")
	}
}
