package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// regOp is one operation on a node: what it did to the real node and to a model can be compared.
type regOp struct {
	kind int
	buf  []byte
	out  []byte
	err  error
}

const regOps = 17

func (o *regOp) prepare() {
	switch o.kind {
	case 1, 3:
		o.buf = v.Bytes("bits", 2)
	case 5, 7, 10, 12:
		o.buf = v.Bytes("words", 4)
	case 13:
		o.buf = v.Bytes("masks", 4)
	}
}

func unwords(w []uint16) []byte {
	var b []byte
	for _, x := range w {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// run performs the operation on the real node.
func (o *regOp) run(n *modbus.NodeRegister) {
	switch o.kind {
	case 0:
		o.out, o.err = n.ReadCoils(0, 9)
	case 1:
		o.err = n.WriteCoils(0, 9, o.buf)
	case 2:
		o.out, o.err = n.ReadDiscretes(0, 9)
	case 3:
		o.err = n.WriteDiscretes(0, 9, o.buf)
	case 4:
		o.out, o.err = n.ReadInputsBytes(0, 2)
	case 5:
		o.err = n.WriteInputsBytes(0, 2, o.buf)
	case 6:
		var w []uint16
		w, o.err = n.ReadInputs(0, 2)
		o.out = unwords(w)
	case 7:
		o.err = n.WriteInputs(0, words16(o.buf))
	case 8:
		o.out, o.err = n.ReadHoldingsBytes(0, 2)
	case 9:
		var w []uint16
		w, o.err = n.ReadHoldings(0, 2)
		o.out = unwords(w)
	case 10:
		o.err = n.WriteHoldingsBytes(0, 2, o.buf)
	case 11:
		o.out = []byte{n.SlaveID()}
	case 12:
		o.err = n.WriteHoldings(0, words16(o.buf))
	case 13:
		o.err = n.MaskWriteHolding(0, be(o.buf), be(o.buf[2:]))
	case 14:
		n.SetSlaveID(9)
	case 15:
		var b bool
		b, o.err = n.ReadSingleCoil(8)
		o.out = []byte{v.IteByte(b, 1, 0)}
	case 16:
		o.err = n.WriteSingleCoil(8, true)
	}
}

// model is the result on the model, which is updated; id is the slave id.
func (o *regOp) model(s *refStore, id *byte) []byte {
	switch o.kind {
	case 0:
		return s.bits(0, 0, 9)
	case 1:
		s.putBits(0, 0, 9, o.buf)
	case 2:
		return s.bits(1, 0, 9)
	case 3:
		s.putBits(1, 0, 9, o.buf)
	case 4, 6:
		return s.words(2, 0, 2)
	case 5, 7:
		s.putWords(2, 0, 2, o.buf)
	case 8, 9:
		return s.words(3, 0, 2)
	case 10, 12:
		s.putWords(3, 0, 2, o.buf)
	case 11:
		return []byte{*id}
	case 13:
		s.cells[3][0] = s.cells[3][0]&be(o.buf) | be(o.buf[2:])&^be(o.buf)
	case 14:
		*id = 9
	case 15:
		return s.bits(0, 8, 1)
	case 16:
		s.cells[0][8] = 1
	}
	return nil
}

func (s *refStore) equal(o *refStore) bool {
	ok := true
	for t := range s.cells {
		for i := range s.cells[t] {
			ok = v.And(ok, s.cells[t][i] == o.cells[t][i])
		}
	}
	return ok
}

// load reads the whole node back.
func loadStore(n *modbus.NodeRegister, like *refStore) *refStore {
	s := like.copy()
	for t := 0; t < 4; t++ {
		k := uint16(len(s.cells[t]))
		if t < 2 {
			b, err := readBits(n, t, 0, k)
			v.Assert(err == nil, "reading a whole table works")
			s.putBits(t, 0, int(k), b)
		} else {
			b, err := readWords(n, t, 0, k)
			v.Assert(err == nil, "reading a whole table works")
			s.putWords(t, 0, int(k), b)
		}
	}
	return s
}

// P28_Atomic: two operations on one node at the same time have the results and the effect of
// one after the other, without data races, under all interleavings.
func P28_Atomic() {
	a, b := &regOp{kind: v.Choose("a", 0, regOps-1)}, &regOp{kind: v.Choose("b", 0, regOps-1)}
	if b.kind < a.kind {
		v.Stop()
	}
	a.prepare()
	b.prepare()
	n, s := newStore(1, [4]uint16{}, [4]int{9, 9, 2, 2})
	fillStore(n, s)
	v.Interleave(3)
	done := make(chan struct{})
	go func() {
		a.run(n)
		close(done)
	}()
	b.run(n)
	<-done
	v.Sequential()
	v.Assert(v.And(a.err == nil, b.err == nil), "both operations work")
	end, endID := loadStore(n, s), n.SlaveID()
	s2 := s.copy()
	id, id2 := byte(1), byte(1)
	ra, rb := a.model(s, &id), b.model(s, &id)
	rb2, ra2 := b.model(s2, &id2), a.model(s2, &id2)
	one := v.And(v.EqBytes(a.out, ra), v.EqBytes(b.out, rb), end.equal(s), endID == id)
	two := v.And(v.EqBytes(a.out, ra2), v.EqBytes(b.out, rb2), end.equal(s2), endID == id2)
	v.Assert(v.Or(one, two), "as if one came after the other")
	v.Cover("end")
}

// P28_Refused: an operation that is refused leaves the node usable by others.
func P28_Refused() {
	n, s := newStore(1, [4]uint16{}, [4]int{9, 9, 2, 2})
	fillStore(n, s)
	a := v.U16("address")
	v.Assume(a >= 9)
	var err error
	switch v.Choose("op", 0, 16) {
	case 0:
		_, err = n.ReadCoils(a, 1)
	case 1:
		err = n.WriteCoils(a, 1, []byte{1})
	case 2:
		_, err = n.ReadDiscretes(a, 1)
	case 3:
		err = n.WriteDiscretes(a, 1, []byte{1})
	case 4:
		_, err = n.ReadInputsBytes(a, 1)
	case 5:
		err = n.WriteInputsBytes(a, 1, []byte{1, 2})
	case 6:
		_, err = n.ReadInputs(a, 1)
	case 7:
		err = n.WriteInputs(a, []uint16{1})
	case 8:
		_, err = n.ReadHoldingsBytes(a, 1)
	case 9:
		_, err = n.ReadHoldings(a, 1)
	case 10:
		err = n.WriteHoldingsBytes(a, 1, []byte{1, 2})
	case 11:
		err = n.WriteHoldings(a, []uint16{1})
	case 12:
		err = n.MaskWriteHolding(a, 1, 2)
	case 13:
		_, err = n.ReadSingleCoil(a)
	case 14:
		err = n.WriteSingleCoil(a, true)
	case 15:
		err = n.WriteCoils(0, 9, []byte{1})
	case 16:
		err = n.WriteHoldingsBytes(0, 1, []byte{1})
	}
	v.Assert(err != nil, "the operation is refused")
	done := make(chan struct{})
	go func() {
		v.Assert(n.WriteCoils(0, 9, v.Bytes("bits", 2)) == nil, "others can write")
		close(done)
	}()
	<-done
	n.SetSlaveID(7)
	v.Assert(n.SlaveID() == 7, "others can read")
	v.Cover("end")
}

// P28_Three: three operations at once.
func P28_Three() {
	sets := [][3]int{{10, 8, 13}, {12, 9, 10}, {1, 0, 16}, {3, 2, 3}, {5, 6, 7}, {13, 13, 8}, {14, 11, 1}}
	k := sets[v.Choose("set", 0, len(sets)-1)]
	var o [3]*regOp
	for i := range o {
		o[i] = &regOp{kind: k[i]}
		o[i].prepare()
	}
	n, s := newStore(1, [4]uint16{}, [4]int{9, 9, 2, 2})
	fillStore(n, s)
	v.Interleave(2)
	done := make(chan struct{}, 2)
	for i := 0; i < 2; i++ {
		x := o[i]
		go func() {
			x.run(n)
			done <- struct{}{}
		}()
	}
	o[2].run(n)
	<-done
	<-done
	v.Sequential()
	end, endID := loadStore(n, s), n.SlaveID()
	ok := false
	for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		m, id := s.copy(), byte(1)
		same := true
		for _, i := range p {
			r := o[i].model(m, &id)
			same = v.And(same, v.EqBytes(o[i].out, r))
		}
		ok = v.Or(ok, v.And(same, end.equal(m), endID == id))
	}
	v.Assert(ok, "as if one came after the other")
	v.Cover("end")
}

// fullOp writes x to, or reads, the first q cells of a table; all bytes are the same.
func fullOp(n *modbus.NodeRegister, op, t, q int, x byte) ([]byte, error) {
	k := 2 * q
	if t < 2 {
		k = (q + 7) / 8
	}
	buf := make([]byte, k)
	for i := range buf {
		buf[i] = x
	}
	switch {
	case op == 0 && t < 2:
		return nil, writeBits(n, t, 0, uint16(q), buf)
	case op == 0:
		return nil, writeWords(n, t, 0, uint16(q), buf)
	case op == 1 && t < 2:
		return readBits(n, t, 0, uint16(q))
	case op == 1:
		return readWords(n, t, 0, uint16(q))
	case op == 2 && t == 2:
		return nil, n.WriteInputs(0, words16(buf))
	case op == 2:
		return nil, n.WriteHoldings(0, words16(buf))
	case t == 2:
		w, err := n.ReadInputs(0, uint16(q))
		return unwords(w), err
	}
	w, err := n.ReadHoldings(0, uint16(q))
	return unwords(w), err
}

// P28_Long: long accesses are as indivisible as short ones.
func P28_Long() {
	t := v.Choose("table", 0, 3)
	last := 1
	q := 0
	if t < 2 {
		q = pick("bits", 64, 512, 2000)
	} else {
		q = pick("words", 32, 125, 600)
		last = 3
	}
	a, b := 2*v.Choose("write", 0, last/2), v.Choose("other", 0, last)
	var sizes [4]int
	sizes[t] = q
	n, _ := newStore(1, [4]uint16{}, sizes)
	x, y, z := v.Byte("old"), v.Byte("x"), v.Byte("y")
	_, err := fullOp(n, 0, t, q, x)
	v.Assert(err == nil, "writing a whole table works")
	v.Interleave(2)
	done := make(chan struct{})
	var errA error
	go func() {
		_, errA = fullOp(n, a, t, q, y)
		close(done)
	}()
	got, errB := fullOp(n, b, t, q, z)
	<-done
	v.Sequential()
	v.Assert(v.And(errA == nil, errB == nil), "both operations work")
	all := func(buf []byte, x byte) bool {
		ok := true
		for _, c := range buf {
			ok = v.And(ok, c == x)
		}
		return ok
	}
	end, err := fullOp(n, 1, t, q, 0)
	v.Assert(err == nil, "reading a whole table works")
	if b%2 == 1 {
		v.Assert(v.Or(all(got, x), all(got, y)), "a read sees all of a write or nothing of it")
		v.Assert(all(end, y), "the values written are there")
	} else {
		v.Assert(v.Or(all(end, y), all(end, z)), "the table holds all of one write")
	}
	v.Cover("end")
}

// P28_Neighbours: operations on different cells do not undo each other, however close the cells.
func P28_Neighbours() {
	n, s := newStore(1, [4]uint16{}, [4]int{24, 24, 4, 4})
	fillStore(n, s)
	val := v.Bool("val")
	cell := uint16(pick("cell", 8, 11, 15))
	bits := v.Bytes("bits", 2)
	word := v.Bytes("word", 2)
	what := v.Choose("what", 0, 4)
	op, with := v.Choose("op", 0, 1), v.Choose("with", 0, 2)
	one := func() error {
		switch what {
		case 0:
			if op == 0 {
				return n.WriteSingleCoil(cell, val)
			}
			return n.WriteCoils(cell, 1, []byte{v.IteByte(val, 1, 0)})
		case 1:
			if op == 0 {
				return n.WriteSingleDiscrete(cell, val)
			}
			return n.WriteDiscretes(cell, 1, []byte{v.IteByte(val, 1, 0)})
		case 2:
			if op == 0 {
				return n.WriteHoldings(1, words16(word))
			}
			return n.WriteHoldingsBytes(1, 1, word)
		case 3:
			return n.MaskWriteHolding(1, 0x0F0F, be(word))
		}
		return n.WriteInputs(1, words16(word))
	}
	other := func() error {
		switch {
		case what == 0 && with == 0:
			return n.WriteSingleCoil(12, true)
		case what == 0 && with == 1:
			return n.WriteCoils(16, 8, bits)
		case what == 0:
			return n.WriteCoils(0, 8, bits)
		case what == 1 && with == 0:
			return n.WriteSingleDiscrete(12, true)
		case what == 1 && with == 1:
			return n.WriteDiscretes(16, 8, bits)
		case what == 1:
			return n.WriteDiscretes(0, 8, bits)
		case what == 4:
			return n.WriteInputs(uint16(with/2*2), words16(bits))
		case with == 0:
			return n.WriteHoldings(0, words16(bits))
		case with == 1:
			return n.WriteHoldingsBytes(2, 1, bits)
		}
		return n.MaskWriteHolding(2, 0xF0F0, be(bits))
	}
	v.Interleave(3)
	done := make(chan struct{})
	var errA error
	go func() {
		errA = one()
		close(done)
	}()
	errB := other()
	<-done
	v.Sequential()
	v.Assert(v.And(errA == nil, errB == nil), "both operations work")
	bit := []byte{v.IteByte(val, 1, 0)}
	switch what {
	case 0, 1:
		s.putBits(what, cell, 1, bit)
		switch with {
		case 0:
			s.putBits(what, 12, 1, []byte{1})
		case 1:
			s.putBits(what, 16, 8, bits)
		case 2:
			s.putBits(what, 0, 8, bits)
		}
	case 2, 3, 4:
		t := tHolding
		if what == 4 {
			t = tInput
		}
		if what == 3 {
			s.cells[t][1] = s.cells[t][1]&0x0F0F | be(word)&0xF0F0
		} else {
			s.putWords(t, 1, 1, word)
		}
		switch {
		case what == 4:
			s.putWords(t, uint16(with/2*2), 1, bits)
		case with == 0:
			s.putWords(t, 0, 1, bits)
		case with == 1:
			s.putWords(t, 2, 1, bits)
		default:
			s.cells[t][2] = s.cells[t][2]&0xF0F0 | be(bits)&0x0F0F
		}
	}
	sameStore(n, s, "both took effect, and nothing else did")
	v.Cover("end")
}
