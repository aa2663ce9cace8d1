package props

import (
	"io"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// chaos is a device that accepts or fails the write and then delivers rx followed by an error.
func chaos(rx []byte) func(k int, c *env.Conn) {
	rerr := []error{serial.ErrTimeout, io.EOF, env.ErrReset}[v.Choose("rerr", 0, 2)]
	wn := v.Choose("wfail", 0, 1)
	return func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			if wn == 1 {
				return 0, env.ErrReset
			}
			c.FeedSeg(env.Seg{Data: clone(rx), Err: rerr})
			c.FeedSeg(env.Seg{Err: rerr})
			c.FeedSeg(env.Seg{Err: rerr})
			return len(b), nil
		}
	}
}

// anyCall sends an arbitrary request through one of the three provider entry points.
func anyCall(p modbus.ClientProvider, max int) error {
	switch v.Choose("entry", 0, 2) {
	case 0:
		_, err := p.Send(v.Byte("id"), modbus.ProtocolDataUnit{FuncCode: v.Byte("fc"), Data: v.Bytes("d", v.Choose("dn", 0, max))})
		return err
	case 1:
		_, err := p.SendPdu(v.Byte("id"), v.Bytes("pdu", v.Choose("pn", 0, max)))
		return err
	}
	_, err := p.SendRawFrame(v.Bytes("raw", v.Choose("rn", 0, max+3)))
	return err
}

func noPanic(kind, reqMax, rxMax int) {
	r := newRig(kind, chaos(v.Bytes("rx", v.Choose("n", 0, rxMax))))
	if anyCall(r.p, reqMax) != nil {
		v.Cover("error")
	} else {
		v.Cover("ok")
	}
	// the provider stays usable: no lock is left behind
	r.p.IsConnected()
	v.Assert(r.p.Close() == nil, "close works afterwards")
	v.Cover("end")
}

// P07_RTU: arbitrary request, arbitrary response bytes, any read or write error.
func P07_RTU() {
	if v.Tier() == 1 {
		noPanic(kRTU, 7, 11)
		return
	}
	noPanic(kRTU, 4, 7)
}

// P07_RTUQuantity: read requests with any quantity field.
func P07_RTUQuantity() {
	r := newRig(kRTU, chaos(v.Bytes("rx", v.Choose("n", 4, 6))))
	fc := byte(pick("fc", 1, 3, 4, 23))
	r.p.Send(v.Byte("id"), modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 4)})
	v.Assert(r.p.Close() == nil, "close works afterwards")
	v.Cover("end")
}

// P07_ASCII: as P07_RTU.
func P07_ASCII() {
	if v.Tier() == 1 {
		noPanic(kASCII, 3, 13)
		return
	}
	noPanic(kASCII, 2, 9)
}

// P07_TCP: as P07_RTU.
func P07_TCP() {
	if v.Tier() == 1 {
		noPanic(kTCP, 4, 16)
		return
	}
	noPanic(kTCP, 3, 11)
}

// P07_Large: requests and responses around the size limits.
func P07_Large() {
	kind := v.Choose("kind", 0, 2)
	rx := make([]byte, pick("n", 0, 255, 256, 257, 260, 261, 512, 513, 514, 600))
	for i := range rx {
		rx[i] = 0x30
	}
	for i := 0; i < 3 && i < len(rx); i++ {
		rx[i] = v.Byte("head")
	}
	r := newRig(kind, func(k int, c *env.Conn) {
		c.MaxChunk = pick("chunk", 0, 200)
		c.FeedSeg(env.Seg{Data: rx, Err: serial.ErrTimeout})
	})
	big := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 0x11
		}
		return b
	}
	id := v.Byte("id")
	switch v.Choose("entry", 0, 2) {
	case 0:
		r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: v.Byte("fc"), Data: big(pick("dn", 4, 251, 252, 253, 254, 300, 600))})
	case 1:
		r.p.SendPdu(id, big(pick("dn", 5, 252, 253, 254, 300, 600)))
	case 2:
		r.p.SendRawFrame(big(pick("dn", 8, 256, 260, 261, 513, 600)))
	}
	v.Assert(r.p.Close() == nil, "close works afterwards")
	v.Cover("end")
}

// callMethod invokes one of the client methods with arbitrary (small) arguments.
func callMethod(c modbus.Client, m int, id byte) (any, error) {
	a, q := v.U16("a"), v.U16("q")
	switch m {
	case 0:
		return c.ReadCoils(id, a, q)
	case 1:
		return c.ReadDiscreteInputs(id, a, q)
	case 2:
		return nil, c.WriteSingleCoil(id, a, v.Bool("on"))
	case 3:
		return nil, c.WriteMultipleCoils(id, a, q, v.Bytes("val", v.Choose("vn", 0, 2)))
	case 4:
		return c.ReadInputRegistersBytes(id, a, q)
	case 5:
		return c.ReadInputRegisters(id, a, q)
	case 6:
		return c.ReadHoldingRegistersBytes(id, a, q)
	case 7:
		return c.ReadHoldingRegisters(id, a, q)
	case 8:
		return nil, c.WriteSingleRegister(id, a, v.U16("x"))
	case 9:
		return nil, c.WriteMultipleRegistersBytes(id, a, q, v.Bytes("val", v.Choose("vn", 0, 4)))
	case 10:
		x := make([]uint16, v.Choose("vn", 0, 2))
		for i := range x {
			x[i] = v.U16("x")
		}
		return nil, c.WriteMultipleRegisters(id, a, q, x)
	case 11:
		return c.ReadWriteMultipleRegistersBytes(id, a, q, v.U16("wa"), v.U16("wq"), v.Bytes("val", v.Choose("vn", 0, 4)))
	case 12:
		return c.ReadWriteMultipleRegisters(id, a, q, v.U16("wa"), v.U16("wq"), v.Bytes("val", v.Choose("vn", 0, 4)))
	case 13:
		return nil, c.MaskWriteRegister(id, a, v.U16("and"), v.U16("or"))
	}
	return c.ReadFIFOQueue(id, a)
}

// P07_Methods: every client method against an arbitrary (well framed) response PDU.
func P07_Methods() {
	var r *rig
	rsp := v.Bytes("rsp", v.Choose("n", 0, 7))
	r = newRig(kTCP, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.FeedSeg(env.Seg{Data: tcpFrame(be(b), b[6], rsp), Err: env.ErrReset})
			return len(b), nil
		}
	})
	c := modbus.NewClient(r.p)
	_, err := callMethod(c, v.Choose("method", 0, 14), v.Byte("id"))
	if err != nil {
		v.Cover("error")
	} else {
		v.Cover("ok")
	}
}
