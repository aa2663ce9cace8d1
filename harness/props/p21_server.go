package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// srvStore is a node of a small symbolic store served by a server.
func srvStore(id byte, sizes [4]int) (*modbus.NodeRegister, *refStore) {
	starts := [4]uint16{7, 300, 65530, 512}
	n, s := newStore(id, starts, sizes)
	fillStore(n, s)
	return n, s
}

var srvSizes = [4]int{10, 9, 3, 4}

// request is a request PDU body for fc with symbolic contents and the given length; the first
// address is enumerated around the table.
func (s *refStore) request(fc byte, n int) []byte {
	d := v.Bytes("data", n)
	if n >= 2 {
		copy(d, s.dataAddr(table(fc)))
	}
	if fc == 23 && n >= 6 {
		copy(d[4:], s.dataAddr(tHolding))
	}
	return d
}

// P21_Respond: every request to a known slave, of any content, is answered exactly as the
// reference server answers it, echoing the header, and leaves exactly the reference state.
func P21_Respond() {
	fc := fcs[v.Choose("fc", 0, len(fcs)-1)]
	var lens []int
	switch fc {
	case 15:
		lens = []int{4, 5, 6, 7}
	case 16:
		lens = []int{4, 5, 7, 9}
	case 22:
		lens = []int{5, 6, 7}
	case 23:
		lens = []int{8, 9, 11, 13}
	default:
		lens = []int{0, 3, 4, 5}
	}
	id := v.Byte("id")
	n, s := srvStore(id, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	d := s.request(fc, pick("len", lens...))
	tid := v.U16("tid")
	got := ask(c, tcpFrame(tid, id, cat([]byte{fc}, d)))
	want, code := s.refAnswer(fc, d)
	full := tcpFrame(tid, id, want)
	v.Assert(len(got) == len(full), "the length of the response")
	v.Assert(v.EqBytes(got, full), "the response is the one the protocol prescribes")
	sameStore(n, s, "exactly the requested registers changed")
	v.Assert(!c.IsClosed(), "the connection stays open")
	switch code {
	case 0:
		v.Cover("carried out")
	case 2:
		v.Cover("illegal address")
	case 3:
		v.Cover("illegal value")
	}
}

// P21_Sequence: the same for sequences of requests on one connection.
func P21_Sequence() {
	n, s := srvStore(1, [4]int{4, 3, 2, 3})
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	steps := 2
	if v.Tier() == 1 {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		var fc byte
		var d []byte
		switch v.Choose("fc", 0, 6) {
		case 0:
			fc, d = 5, cat([]byte{0, 8}, []byte{byte(pick("on", 0, 0xFF)), 0})
		case 1:
			fc, d = 15, cat([]byte{0, 7, 0, 4, 1}, v.Bytes("bits", 1))
		case 2:
			fc, d = 16, cat([]byte{2, 1, 0, 2, 4}, v.Bytes("words", 4))
		case 3:
			fc, d = 22, cat([]byte{2, 0}, v.Bytes("masks", 4))
		case 4:
			fc, d = 23, cat([]byte{2, 0, 0, 3, 2, 1, 0, 1, 2}, v.Bytes("words", 2))
		case 5:
			fc, d = 3, []byte{2, 0, 0, 3}
		case 6:
			fc, d = 1, []byte{0, 7, 0, 3}
		}
		tid := v.U16("tid")
		got := ask(c, tcpFrame(tid, 1, cat([]byte{fc}, d)))
		want, _ := s.refAnswer(fc, d)
		v.Assert(v.EqBytes(got, tcpFrame(tid, 1, want)), "every response is the one the protocol prescribes")
		sameStore(n, s, "exactly the requested registers changed")
	}
	v.Cover("end")
}

// P21_Limits: the largest requests, and requests just beyond the limits.
func P21_Limits() {
	sizes := [4]int{2100, 2100, 130, 130}
	n, s := newStore(9, [4]uint16{0, 10, 20, 30}, sizes)
	for t := 0; t < 4; t++ {
		// a recognisable pattern
		if t < 2 {
			b := make([]byte, (sizes[t]+7)/8)
			for i := range b {
				b[i] = byte(i*37 + 11)
			}
			b[249] = v.Byte("b")
			for i := range s.cells[t] {
				s.cells[t][i] = uint16(b[i/8] >> uint(i%8) & 1)
			}
			v.Assert(writeBits(n, t, s.start[t], uint16(sizes[t]), b) == nil, "writing a whole table works")
			continue
		}
		w := make([]uint16, sizes[t])
		for i := range w {
			w[i] = uint16(i*257 + 3)
		}
		w[124] = w16("w")
		copy(s.cells[t], w)
		if t == 2 {
			v.Assert(n.WriteInputs(s.start[t], w) == nil, "writing a whole table works")
		} else {
			v.Assert(n.WriteHoldings(s.start[t], w) == nil, "writing a whole table works")
		}
	}
	fc := []byte{1, 2, 3, 4, 15, 16, 23}[v.Choose("fc", 0, 6)]
	over := v.Choose("over", 0, 1)
	d := app16(nil, s.start[table(fc)])
	switch fc {
	case 1, 2:
		d = app16(d, uint16(2000+over))
	case 3, 4:
		d = app16(d, uint16(125+over))
	case 15:
		k := 1968 + over
		d = append(app16(d, uint16(k)), byte((k+7)/8))
		d = append(d, make([]byte, (k+7)/8)...)
		d[len(d)-1], d[5] = v.Byte("last"), v.Byte("first")
	case 16:
		k := 123 + over
		d = append(app16(d, uint16(k)), byte(2*k))
		d = append(d, make([]byte, 2*k)...)
		d[len(d)-1], d[5] = v.Byte("last"), v.Byte("first")
	case 23:
		rq, wq := 125, 121
		if over == 1 {
			if v.Choose("which", 0, 1) == 0 {
				rq++
			} else {
				wq = 120
				rq = 0
			}
		}
		d = app16(app16(app16(d, uint16(rq)), 31), uint16(wq))
		d = append(d, byte(2*wq))
		d = append(d, make([]byte, 2*wq)...)
		d[len(d)-1], d[9] = v.Byte("last"), v.Byte("first")
	}
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	want, code := s.refAnswer(fc, d)
	got := ask(c, tcpFrame(0x0102, 9, cat([]byte{fc}, d)))
	if len(d)+1 > 253 {
		// not a Modbus frame any more: anything but carrying it out
		sameStore(n, s, "an oversized request changes nothing")
		v.Cover("oversized")
		return
	}
	v.Assert((code == 0) == (over == 0), "the reference knows the limits")
	v.Assert(v.EqBytes(got, tcpFrame(0x0102, 9, want)), "the response is the one the protocol prescribes")
	sameStore(n, s, "exactly the requested registers changed")
	if code == 0 {
		v.Cover("carried out")
	} else {
		v.Cover("refused")
	}
}

// P21_Repeat: requests are carried out however many came before.
func P21_Repeat() { repeated(0, 1, 2) }
