package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P10_Args: every client method refuses exactly the arguments outside the protocol limits,
// before anything is sent.
func P10_Args() {
	r := newRig(kTCP, func(k int, c *env.Conn) {
		c.FeedErr(env.ErrReset)
	})
	var opts []modbus.Option
	min, max := byte(1), byte(247)
	switch v.Choose("opt", 0, 3) {
	case 1:
		min = v.Byte("min")
		opts = append(opts, modbus.WithAddressMin(min))
	case 2:
		max = v.Byte("max")
		opts = append(opts, modbus.WithAddressMax(max))
	case 3:
		min, max = v.Byte("min"), v.Byte("max")
		opts = append(opts, modbus.WithAddressMin(min), modbus.WithAddressMax(max))
	}
	c := modbus.NewClient(r.p, opts...)
	id, a, q := v.Byte("id"), v.U16("a"), v.U16("q")
	rdID := v.And(id >= min, id <= max)
	wrID := id <= max
	in := func(x uint16, lo, hi uint16) bool { return v.And(x >= lo, x <= hi) }
	var ok bool
	var err error
	switch v.Choose("method", 0, 14) {
	case 0:
		ok = v.And(rdID, in(q, 1, 2000))
		_, err = c.ReadCoils(id, a, q)
	case 1:
		ok = v.And(rdID, in(q, 1, 2000))
		_, err = c.ReadDiscreteInputs(id, a, q)
	case 2:
		ok = wrID
		err = c.WriteSingleCoil(id, a, v.Bool("on"))
	case 3:
		n := pick("n", 0, 1, 2, 246, 247)
		ok = v.And(wrID, in(q, 1, 1968), 8*n >= int(q))
		err = c.WriteMultipleCoils(id, a, q, make([]byte, n))
	case 4:
		ok = v.And(rdID, in(q, 1, 125))
		_, err = c.ReadInputRegistersBytes(id, a, q)
	case 5:
		ok = v.And(rdID, in(q, 1, 125))
		_, err = c.ReadInputRegisters(id, a, q)
	case 6:
		ok = v.And(rdID, in(q, 1, 125))
		_, err = c.ReadHoldingRegistersBytes(id, a, q)
	case 7:
		ok = v.And(rdID, in(q, 1, 125))
		_, err = c.ReadHoldingRegisters(id, a, q)
	case 8:
		ok = wrID
		err = c.WriteSingleRegister(id, a, v.U16("x"))
	case 9:
		n := pick("n", 0, 1, 2, 3, 246, 247, 248, 512)
		ok = v.And(wrID, in(q, 1, 123), n == 2*int(q))
		err = c.WriteMultipleRegistersBytes(id, a, q, make([]byte, n))
	case 10:
		n := pick("n", 0, 1, 2, 123, 124, 256)
		ok = v.And(wrID, in(q, 1, 123), n == int(q))
		err = c.WriteMultipleRegisters(id, a, q, make([]uint16, n))
	case 11, 12:
		wq := v.U16("wq")
		n := pick("n", 0, 1, 2, 242, 243, 244, 512)
		ok = v.And(rdID, in(q, 1, 125), in(wq, 1, 121), n == 2*int(wq))
		if v.Choose("b", 0, 1) == 0 {
			_, err = c.ReadWriteMultipleRegistersBytes(id, a, q, v.U16("wa"), wq, make([]byte, n))
		} else {
			_, err = c.ReadWriteMultipleRegisters(id, a, q, v.U16("wa"), wq, make([]byte, n))
		}
	case 13:
		ok = wrID
		err = c.MaskWriteRegister(id, a, v.U16("and"), v.U16("or"))
	case 14:
		ok = rdID
		_, err = c.ReadFIFOQueue(id, a)
	}
	v.Assert(err != nil, "no response: an error")
	if v.Split(ok) {
		v.Assert(r.writes() == 1, "valid arguments are sent")
		v.Cover("sent")
	} else {
		v.Assert(r.writes() == 0, "invalid arguments are refused before anything is sent")
		v.Cover("refused")
	}
}

// P10_Pdu: the providers refuse PDUs outside 1 to 253 bytes before anything is sent.
func P10_Pdu() {
	kind := v.Choose("kind", 0, 2)
	r := newRig(kind, func(k int, c *env.Conn) { c.FeedErr(env.ErrReset) })
	n := pick("n", 0, 1, 2, 3, 251, 252, 253, 254, 255, 256, 257, 400, 600)
	pdu := make([]byte, n)
	for i := 0; i < n && i < 6; i++ {
		pdu[i] = v.Byte("p")
	}
	var err error
	if n > 0 && v.Choose("entry", 0, 1) == 1 {
		_, err = r.p.Send(v.Byte("id"), modbus.ProtocolDataUnit{FuncCode: pdu[0], Data: pdu[1:]})
	} else {
		_, err = r.p.SendPdu(v.Byte("id"), pdu)
	}
	v.Assert(err != nil, "no response: an error")
	if n < 1 || n > 253 {
		v.Assert(r.writes() == 0, "nothing sent")
		v.Cover("refused")
		return
	}
	v.Assert(r.writes() == 1, "sent")
	v.Cover("sent")
}

// P10_Raw: a raw RTU request too short to be a frame is refused before anything is sent.
func P10_Raw() {
	r := newRig(kRTU, func(k int, c *env.Conn) { c.FeedErr(env.ErrReset) })
	n := v.Choose("n", 0, 8)
	_, err := r.p.SendRawFrame(v.Bytes("raw", n))
	v.Assert(err != nil, "an error")
	if n < 4 {
		v.Assert(r.writes() == 0, "nothing sent")
		v.Cover("refused")
		return
	}
	v.Assert(r.writes() == 1, "sent")
	v.Cover("sent")
}
