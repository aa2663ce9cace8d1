package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// P13_Echo: a write succeeds exactly when the response repeats what was requested.
func P13_Echo() {
	id := v.Byte("id")
	v.Assume(id <= 247)
	n := v.Choose("n", 1, 7)
	data := v.Bytes("rsp", n)
	a := v.U16("a")
	m := v.Choose("method", 0, 5)
	r := answering(kTCP, id, cat([]byte{[]byte{5, 6, 15, 16, 16, 22}[m]}, data))
	c := modbus.NewClient(r.p)
	var err error
	var want []byte
	switch m {
	case 0:
		on := v.Bool("on")
		want = put16(a, v.IteU16(on, 0xFF00, 0))
		err = c.WriteSingleCoil(id, a, on)
	case 1:
		x := v.U16("x")
		want = put16(a, x)
		err = c.WriteSingleRegister(id, a, x)
	case 2:
		q := uint16(v.Choose("q", 1, 9))
		want = put16(a, q)
		err = c.WriteMultipleCoils(id, a, q, v.Bytes("val", 2))
	case 3:
		q := uint16(v.Choose("q", 1, 3))
		want = put16(a, q)
		err = c.WriteMultipleRegistersBytes(id, a, q, make([]byte, 2*q))
	case 4:
		q := uint16(v.Choose("q", 1, 3))
		want = put16(a, q)
		err = c.WriteMultipleRegisters(id, a, q, make([]uint16, q))
	case 5:
		and, or := v.U16("and"), v.U16("or")
		want = put16(a, and, or)
		err = c.MaskWriteRegister(id, a, and, or)
	}
	if n == len(want) && v.Split(v.EqBytes(data, want)) {
		v.Assert(err == nil, "a correct confirmation is accepted")
		v.Cover("ok")
		return
	}
	v.Assert(err != nil, "anything but a correct confirmation is refused")
	v.Cover("refused")
}

// P13_Transports: a correct confirmation is accepted on every transport.
func P13_Transports() {
	id := v.Byte("id")
	v.Assume(v.And(id >= 1, id <= 247))
	a, x, y := w16("a"), w16("x"), w16("y")
	kind := v.Choose("kind", 0, 2)
	m := v.Choose("method", 0, 4)
	var err error
	switch m {
	case 0:
		on := v.Bool("on")
		err = modbus.NewClient(answering(kind, id, cat([]byte{5}, put16(a, v.IteU16(on, 0xFF00, 0)))).p).WriteSingleCoil(id, a, on)
	case 1:
		err = modbus.NewClient(answering(kind, id, cat([]byte{6}, put16(a, x))).p).WriteSingleRegister(id, a, x)
	case 2:
		err = modbus.NewClient(answering(kind, id, cat([]byte{15}, put16(a, 9))).p).WriteMultipleCoils(id, a, 9, put16(x))
	case 3:
		err = modbus.NewClient(answering(kind, id, cat([]byte{16}, put16(a, 2))).p).WriteMultipleRegisters(id, a, 2, []uint16{x, y})
	case 4:
		err = modbus.NewClient(answering(kind, id, cat([]byte{22}, put16(a, x, y))).p).MaskWriteRegister(id, a, x, y)
	}
	v.Assert(err == nil, "a correct confirmation is accepted")
	v.Cover("end")
}
