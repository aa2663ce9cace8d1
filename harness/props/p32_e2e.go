package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// bridge connects TCP clients to a server through scripted connections.
func bridge(r *srvRig) *env.Dialer {
	d := &env.Dialer{}
	d.Setup = func(k int, c *env.Conn) {
		s := env.NewConn()
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			s.Feed(clone(b))
			return len(b), nil
		}
		s.OnWrite = func(s *env.Conn, b []byte) (int, error) {
			c.Feed(clone(b))
			return len(b), nil
		}
		r.l.Push(s, nil)
	}
	env.InstallDialer(d)
	return d
}

// bytes16 makes 16-bit values out of big-endian bytes.
func words16(b []byte) []uint16 {
	var w []uint16
	for i := 0; i+1 < len(b); i += 2 {
		w = append(w, be(b[i:]))
	}
	return w
}

func sameWords(a, b []uint16, id string) {
	v.Assert(len(a) == len(b), id)
	for i := range a {
		v.Assert(a[i] == b[i], id)
	}
}

// P32_Roundtrip: through this library's TCP client and server, every call of the client has
// exactly the effect and result of the same access to the slave's registers.
func P32_Roundtrip() {
	id := v.Byte("id")
	v.Assume(v.And(id >= 1, id <= 247))
	n, s := srvStore(id, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	bridge(r)
	cl := modbus.NewClient(modbus.NewTCPClientProvider("10.0.0.1:502", modbus.WithTCPTimeout(rigTimeout)))
	steps := 1
	if v.Tier() == 1 {
		steps = 2
	}
	for i := 0; i < steps; i++ {
		e2eCall(cl, id, s)
		sameStore(n, s, "exactly the registers asked for changed")
	}
	v.Assert(cl.Close() == nil, "Close works")
}

func e2eCall(cl modbus.Client, id byte, s *refStore) {
	op := v.Choose("op", 0, 12)
	t := [13]int{0, 1, 2, 2, 3, 3, 0, 0, 3, 3, 3, 3, 3}[op]
	a := s.anyAddr(t)
	q := 0
	limit := 0
	switch op {
	case 0, 1, 7:
		q = pick("q", 1, 7, 8, 9, 10, 11)
	case 2, 3, 4, 5, 9, 10, 12:
		q = v.Choose("q", 1, 5)
	default:
		q = 1
	}
	_ = limit
	ok := s.covers(t, a, q)
	var err error
	switch op {
	case 0, 1:
		var b []byte
		if op == 0 {
			b, err = cl.ReadCoils(id, a, uint16(q))
		} else {
			b, err = cl.ReadDiscreteInputs(id, a, uint16(q))
		}
		if err == nil && ok {
			v.Assert(v.EqBytes(b, s.bits(t, a, q)), "the bits read are the slave's")
			v.Cover("bits")
		}
	case 2, 4:
		var b []byte
		if op == 2 {
			b, err = cl.ReadInputRegistersBytes(id, a, uint16(q))
		} else {
			b, err = cl.ReadHoldingRegistersBytes(id, a, uint16(q))
		}
		if err == nil && ok {
			v.Assert(v.EqBytes(b, s.words(t, a, q)), "the registers read are the slave's")
			v.Cover("bytes")
		}
	case 3, 5:
		var w []uint16
		if op == 3 {
			w, err = cl.ReadInputRegisters(id, a, uint16(q))
		} else {
			w, err = cl.ReadHoldingRegisters(id, a, uint16(q))
		}
		if err == nil && ok {
			sameWords(w, words16(s.words(t, a, q)), "the registers read are the slave's")
			v.Cover("words")
		}
	case 6:
		on := v.Bool("on")
		err = cl.WriteSingleCoil(id, a, on)
		s.set(t, a, ok, v.IteU16(on, 1, 0))
	case 7:
		b := v.Bytes("bits", (q+7)/8)
		err = cl.WriteMultipleCoils(id, a, uint16(q), b)
		if ok {
			s.putBits(t, a, q, b)
		}
	case 8:
		x := w16("x")
		err = cl.WriteSingleRegister(id, a, x)
		s.set(t, a, ok, x)
	case 9:
		b := v.Bytes("words", 2*q)
		if v.Choose("as", 0, 1) == 0 {
			err = cl.WriteMultipleRegisters(id, a, uint16(q), words16(b))
		} else {
			err = cl.WriteMultipleRegistersBytes(id, a, uint16(q), b)
		}
		if ok {
			s.putWords(t, a, q, b)
		}
	case 11:
		and, or := w16("and"), w16("or")
		err = cl.MaskWriteRegister(id, a, and, or)
		if ok {
			s.set(t, a, true, s.at(t, a)&and|or&^and)
		}
	case 10, 12:
		wa := s.start[t] + uint16(v.Choose("wcell", 0, len(s.cells[t])))
		wq := v.Choose("wq", 1, 2)
		ok = v.And(ok, s.covers(t, wa, wq))
		b := v.Bytes("words", 2*wq)
		if ok {
			s.putWords(t, wa, wq, b)
		}
		if op == 10 {
			var w []byte
			w, err = cl.ReadWriteMultipleRegistersBytes(id, a, uint16(q), wa, uint16(wq), b)
			if err == nil && ok {
				v.Assert(v.EqBytes(w, s.words(t, a, q)), "the registers read are the slave's after the write")
			}
		} else {
			var w []uint16
			w, err = cl.ReadWriteMultipleRegisters(id, a, uint16(q), wa, uint16(wq), b)
			if err == nil && ok {
				sameWords(w, words16(s.words(t, a, q)), "the registers read are the slave's after the write")
			}
		}
	}
	v.Assert((err == nil) == ok, "a call works iff its range is inside the slave's table")
	if err != nil {
		v.Assert(excCode(err) == 2, "the slave's exception is reported")
		v.Cover("refused")
	} else {
		v.Cover("done")
	}
}

// P32_Max: the largest requests and responses get through.
func P32_Max() {
	n, s := newStore(1, [4]uint16{}, [4]int{2000, 2000, 125, 125})
	b, d := v.Byte("b"), v.Byte("d")
	buf := make([]byte, 250)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	bridge(r)
	cl := modbus.NewClient(modbus.NewTCPClientProvider("10.0.0.1:502", modbus.WithTCPTimeout(rigTimeout)))
	switch v.Choose("op", 0, 3) {
	case 0:
		buf[0], buf[245] = b, d
		v.Assert(cl.WriteMultipleCoils(1, 0, 1968, buf[:246]) == nil, "the largest coil write")
		s.putBits(0, 0, 1968, buf)
		got, err := cl.ReadCoils(1, 0, 2000)
		v.Assert(err == nil, "the largest coil read")
		v.Assert(v.EqBytes(got, s.bits(0, 0, 2000)), "the coils are the slave's")
	case 1:
		buf[0], buf[245] = b, d
		v.Assert(cl.WriteMultipleRegisters(1, 2, 123, words16(buf[:246])) == nil, "the largest register write")
		s.putWords(3, 2, 123, buf)
		got, err := cl.ReadHoldingRegistersBytes(1, 0, 125)
		v.Assert(err == nil, "the largest register read")
		v.Assert(v.EqBytes(got, s.words(3, 0, 125)), "the registers are the slave's")
	case 2:
		buf[0], buf[241] = b, d
		got, err := cl.ReadWriteMultipleRegistersBytes(1, 0, 125, 4, 121, buf[:242])
		v.Assert(err == nil, "the largest read/write")
		s.putWords(3, 4, 121, buf)
		v.Assert(v.EqBytes(got, s.words(3, 0, 125)), "the registers are the slave's after the write")
	case 3:
		buf[0], buf[249] = b, d
		v.Assert(n.WriteInputsBytes(0, 125, buf) == nil, "set up")
		s.putWords(2, 0, 125, buf)
		got, err := cl.ReadInputRegisters(1, 0, 125)
		v.Assert(err == nil, "the largest input read")
		sameWords(got, words16(s.words(2, 0, 125)), "the registers are the slave's")
	}
	sameStore(n, s, "exactly the registers asked for changed")
	v.Cover("end")
}
