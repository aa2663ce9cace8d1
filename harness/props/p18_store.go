package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// refStore is the reference model of a slave's registers: one cell per bit or word.
type refStore struct {
	start [4]uint16 // coils, discretes, inputs, holdings
	cells [4][]uint16
}

// tables
const (
	tCoil = iota
	tDiscrete
	tInput
	tHolding
)

// covers reports whether [addr, addr+qty) lies inside the table.
func (s *refStore) covers(t int, addr uint16, qty int) bool {
	return v.And(addr >= s.start[t], int(addr)+qty <= int(s.start[t])+len(s.cells[t]))
}

// at is the cell at address addr (which has to be covered).
func (s *refStore) at(t int, addr uint16) uint16 {
	r := uint16(0)
	for i, c := range s.cells[t] {
		r = v.IteU16(addr == s.start[t]+uint16(i), c, r)
	}
	return r
}

// set stores x at address addr if cond.
func (s *refStore) set(t int, addr uint16, cond bool, x uint16) {
	for i := range s.cells[t] {
		s.cells[t][i] = v.IteU16(v.And(cond, addr == s.start[t]+uint16(i)), x, s.cells[t][i])
	}
}

// index is the position of a covered address in the table.
func (s *refStore) index(t int, addr uint16) int { return v.Concrete(int(addr - s.start[t])) }

// bits packs qty cells from addr on, least significant bit first.
func (s *refStore) bits(t int, addr uint16, qty int) []byte {
	b := make([]byte, (qty+7)/8)
	cells := s.cells[t][s.index(t, addr):]
	for i := 0; i < qty; i++ {
		b[i/8] |= byte(cells[i]) << uint(i%8)
	}
	return b
}

// words is qty cells from addr on, big-endian.
func (s *refStore) words(t int, addr uint16, qty int) []byte {
	b := make([]byte, 0, 2*qty)
	for _, x := range s.cells[t][s.index(t, addr):][:qty] {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// putBits stores packed bits.
func (s *refStore) putBits(t int, addr uint16, qty int, buf []byte) {
	cells := s.cells[t][s.index(t, addr):]
	for i := 0; i < qty; i++ {
		cells[i] = uint16(buf[i/8] >> uint(i%8) & 1)
	}
}

// putWords stores big-endian words.
func (s *refStore) putWords(t int, addr uint16, qty int, buf []byte) {
	cells := s.cells[t][s.index(t, addr):]
	for i := 0; i < qty; i++ {
		cells[i] = be(buf[2*i:])
	}
}

// fill gives every cell of node and model the same symbolic contents.
func fillStore(n *modbus.NodeRegister, s *refStore) {
	for t := 0; t < 4; t++ {
		k := len(s.cells[t])
		if k == 0 {
			continue
		}
		name := [4]string{"coil", "discrete", "input", "holding"}[t]
		var err error
		if t < 2 {
			b := v.Bytes(name, (k+7)/8)
			for i := 0; i < k; i++ {
				s.cells[t][i] = uint16(b[i/8] >> uint(i%8) & 1)
			}
			if t == 0 {
				err = n.WriteCoils(s.start[t], uint16(k), b)
			} else {
				err = n.WriteDiscretes(s.start[t], uint16(k), b)
			}
		} else {
			w := make([]uint16, k)
			for i := range w {
				w[i] = w16(name)
				s.cells[t][i] = w[i]
			}
			if t == 2 {
				err = n.WriteInputs(s.start[t], w)
			} else {
				err = n.WriteHoldings(s.start[t], w)
			}
		}
		v.Assert(err == nil, "writing a whole table works")
	}
}

// same asserts that the node holds exactly what the model holds.
func sameStore(n *modbus.NodeRegister, s *refStore, id string) {
	for t := 0; t < 4; t++ {
		k := len(s.cells[t])
		if k == 0 {
			continue
		}
		var b []byte
		var err error
		switch t {
		case 0:
			b, err = n.ReadCoils(s.start[t], uint16(k))
		case 1:
			b, err = n.ReadDiscretes(s.start[t], uint16(k))
		case 2:
			b, err = n.ReadInputsBytes(s.start[t], uint16(k))
		case 3:
			b, err = n.ReadHoldingsBytes(s.start[t], uint16(k))
		}
		v.Assert(err == nil, "reading a whole table works")
		want := make([]byte, 0, 2*k)
		if t < 2 {
			want = make([]byte, (k+7)/8)
			for i, c := range s.cells[t] {
				want[i/8] |= byte(c) << uint(i%8)
			}
		} else {
			for _, c := range s.cells[t] {
				want = append(want, byte(c>>8), byte(c))
			}
		}
		v.Assert(v.EqBytes(b, want), id)
	}
}

// newStore makes a node and its model; sizes are the numbers of cells.
func newStore(id byte, start [4]uint16, sizes [4]int) (*modbus.NodeRegister, *refStore) {
	n := modbus.NewNodeRegister(id, start[0], uint16(sizes[0]), start[1], uint16(sizes[1]),
		start[2], uint16(sizes[2]), start[3], uint16(sizes[3]))
	s := &refStore{start: start}
	for t := range sizes {
		s.cells[t] = make([]uint16, sizes[t])
	}
	return n, s
}

// symStarts gives every table a symbolic first address; the table has to end at 65536 at most.
func symStarts(sizes [4]int) [4]uint16 {
	var st [4]uint16
	for t := range st {
		st[t] = v.U16("start")
		v.Assume(int(st[t])+sizes[t] <= 65536)
	}
	return st
}

// anyAddr is any address: one path per cell of the table and one for all the others.
func (s *refStore) anyAddr(t int) uint16 {
	k := len(s.cells[t])
	i := v.Choose("cell", 0, k)
	if i < k {
		return s.start[t] + uint16(i)
	}
	a := v.U16("address")
	v.Assume(v.Or(a < s.start[t], int(a) >= int(s.start[t])+k))
	return a
}

func readBits(n *modbus.NodeRegister, t int, a, q uint16) ([]byte, error) {
	if t == tCoil {
		return n.ReadCoils(a, q)
	}
	return n.ReadDiscretes(a, q)
}

func writeBits(n *modbus.NodeRegister, t int, a, q uint16, b []byte) error {
	arg := clone(b)
	var err error
	if t == tCoil {
		err = n.WriteCoils(a, q, arg)
	} else {
		err = n.WriteDiscretes(a, q, arg)
	}
	v.Assert(v.EqBytes(arg, b), "the caller's data stays as it was")
	return err
}

// P18_Bits: bit tables: any read or write, at any address, from any contents, does exactly what
// the model does, and nothing else changes.
func P18_Bits() {
	sizes := [4]int{11, 11, 1, 1}
	t := v.Choose("table", 0, 1)
	sizes[t] = pick("size", 1, 8, 16, 20)
	n, s := newStore(3, symStarts(sizes), sizes)
	sameStore(n, s, "a new table is all zero")
	fillStore(n, s)
	sameStore(n, s, "what was written is read back")
	a := s.anyAddr(t)
	qs := []int{1, 3, 7, 8, 9, 13, 16, 17, 20}
	if v.Tier() == 1 {
		qs = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
	}
	q := pick("quantity", qs...)
	switch v.Choose("op", 0, 3) {
	case 0:
		b, err := readBits(n, t, a, uint16(q))
		ok := s.covers(t, a, q)
		v.Assert((err == nil) == ok, "a read works iff its range is inside the table")
		if err == nil {
			v.Assert(v.EqBytes(b, s.bits(t, a, q)), "the bits read")
			v.Cover("read")
		}
	case 1:
		buf := v.Bytes("value", (q+7)/8+v.Choose("extra", 0, 1))
		keep := clone(buf)
		err := writeBits(n, t, a, uint16(q), buf)
		ok := s.covers(t, a, q)
		v.Assert((err == nil) == ok, "a write works iff its range is inside the table")
		v.Assert(v.EqBytes(buf, keep), "the caller's buffer is unchanged")
		if ok {
			s.putBits(t, a, q, keep)
		}
		if err == nil {
			v.Cover("write")
		}
	case 2:
		var x bool
		var err error
		if t == tCoil {
			x, err = n.ReadSingleCoil(a)
		} else {
			x, err = n.ReadSingleDiscrete(a)
		}
		ok := s.covers(t, a, 1)
		v.Assert((err == nil) == ok, "a single read works iff its address is inside the table")
		if err == nil {
			v.Assert(x == (s.at(t, a) == 1), "the bit read")
			v.Cover("read single")
		}
	case 3:
		x := v.Bool("x")
		var err error
		if t == tCoil {
			err = n.WriteSingleCoil(a, x)
		} else {
			err = n.WriteSingleDiscrete(a, x)
		}
		ok := s.covers(t, a, 1)
		v.Assert((err == nil) == ok, "a single write works iff its address is inside the table")
		s.set(t, a, ok, v.IteU16(x, 1, 0))
		if err == nil {
			v.Cover("write single")
		}
	}
	sameStore(n, s, "exactly the bits written changed")
}

func readWords(n *modbus.NodeRegister, t int, a, q uint16) ([]byte, error) {
	if t == tInput {
		return n.ReadInputsBytes(a, q)
	}
	return n.ReadHoldingsBytes(a, q)
}

func writeWords(n *modbus.NodeRegister, t int, a, q uint16, b []byte) error {
	arg := clone(b)
	var err error
	if t == tInput {
		err = n.WriteInputsBytes(a, q, arg)
	} else {
		err = n.WriteHoldingsBytes(a, q, arg)
	}
	v.Assert(v.EqBytes(arg, b), "the caller's data stays as it was")
	for i := range arg { // changing the buffer afterwards changes nothing
		arg[i] ^= 0xFF
	}
	return err
}

func writeRegs(n *modbus.NodeRegister, t int, a uint16, w []uint16) error {
	arg := append([]uint16{}, w...)
	var err error
	if t == tInput {
		err = n.WriteInputs(a, arg)
	} else {
		err = n.WriteHoldings(a, arg)
	}
	v.Assert(v.EqBytes(put16(arg...), put16(w...)), "the caller's data stays as it was")
	for i := range arg { // changing the slice afterwards changes nothing
		arg[i] ^= 0xFFFF
	}
	return err
}

// P18_Words: the same for register tables.
func P18_Words() {
	sizes := [4]int{3, 3, 2, 2}
	t := v.Choose("table", 2, 3)
	sizes[t] = pick("size", 1, 2, 5)
	n, s := newStore(3, symStarts(sizes), sizes)
	sameStore(n, s, "a new table is all zero")
	fillStore(n, s)
	sameStore(n, s, "what was written is read back")
	a := s.anyAddr(t)
	q := v.Choose("quantity", 1, 6)
	ok := s.covers(t, a, q)
	switch v.Choose("op", 0, 3) {
	case 0:
		b, err := readWords(n, t, a, uint16(q))
		v.Assert((err == nil) == ok, "a read works iff its range is inside the table")
		if err == nil {
			v.Assert(v.EqBytes(b, s.words(t, a, q)), "the bytes read")
			v.Cover("read bytes")
			for i := range b { // the result is the caller's
				b[i] ^= 0xFF
			}
		}
	case 1:
		var w []uint16
		var err error
		if t == tInput {
			w, err = n.ReadInputs(a, uint16(q))
		} else {
			w, err = n.ReadHoldings(a, uint16(q))
		}
		v.Assert((err == nil) == ok, "a read works iff its range is inside the table")
		if err == nil {
			v.Assert(len(w) == q, "as many values as asked for")
			for i := range w {
				v.Assert(w[i] == s.at(t, a+uint16(i)), "the value read")
				w[i] ^= 0xFFFF
			}
			v.Cover("read")
		}
	case 2:
		buf := v.Bytes("value", 2*q)
		keep := clone(buf)
		err := writeWords(n, t, a, uint16(q), buf)
		v.Assert((err == nil) == ok, "a write works iff its range is inside the table")
		v.Assert(v.EqBytes(buf, keep), "the caller's buffer is unchanged")
		if ok {
			s.putWords(t, a, q, keep)
		}
		if err == nil {
			v.Cover("write bytes")
		}
		for i := range buf { // changing the buffer afterwards changes nothing
			buf[i] ^= 0xFF
		}
	case 3:
		w := make([]uint16, q)
		for i := range w {
			w[i] = w16("w")
			s.set(t, a+uint16(i), ok, w[i])
		}
		err := writeRegs(n, t, a, w)
		v.Assert((err == nil) == ok, "a write works iff its range is inside the table")
		if err == nil {
			v.Cover("write")
		}
		for i := range w {
			w[i] ^= 0xFFFF
		}
	}
	sameStore(n, s, "exactly the values written changed")
}

// P18_Large: the largest tables and quantities.
func P18_Large() {
	size := pick("size", 32767, 32768, 65535)
	q := pick("quantity", 32767, 32768, 65535)
	off := pick("offset", 0, 1)
	a := uint16(off)
	kind := v.Choose("kind", 0, 1)
	x := v.Byte("x")
	fit := off+q <= size
	if kind == 0 {
		t := v.Choose("table", 0, 1)
		sizes := [4]int{}
		sizes[t] = size
		n, _ := newStore(1, [4]uint16{}, sizes)
		buf := make([]byte, (q+7)/8)
		last := (q - 1) / 8
		buf[0], buf[last] = x, x
		err := writeBits(n, t, a, uint16(q), buf)
		v.Assert((err == nil) == fit, "a large write works iff it fits")
		b, err := readBits(n, t, a, uint16(q))
		v.Assert((err == nil) == fit, "a large read works iff it fits")
		if err == nil {
			v.Assert(len(b) == len(buf), "all bits are read")
			m := byte(1<<uint((q-1)%8+1) - 1)
			v.Assert(v.And(b[0] == x, b[last] == x&m, b[1] == 0, b[last-1] == 0), "the bits written are read back")
			one, err := readBits(n, t, uint16(off+q-1), 1)
			v.Assert(v.And(err == nil, one[0] == x>>uint((q-1)%8)&1), "the last bit")
			v.Cover("bits")
		}
		return
	}
	t := v.Choose("table", 2, 3)
	sizes := [4]int{}
	sizes[t] = size
	n, _ := newStore(1, [4]uint16{}, sizes)
	buf := make([]byte, 2*q)
	buf[1], buf[2*q-1] = x, x
	err := writeWords(n, t, a, uint16(q), buf)
	v.Assert((err == nil) == fit, "a large write works iff it fits")
	w, err := readWords(n, t, a, uint16(q))
	v.Assert((err == nil) == fit, "a large read works iff it fits")
	if err == nil {
		v.Assert(len(w) == len(buf), "all registers are read")
		v.Assert(v.And(w[1] == x, w[2*q-1] == x, w[0] == 0, w[2*q-2] == 0, w[3] == 0), "the values written are read back")
		v.Cover("words")
	}
}

// P18_Middle: tables and quantities of any size in between: a fast path of any kind has to agree.
func P18_Middle() {
	t := v.Choose("table", 0, 3)
	var sizes [4]int
	type access struct{ size, off, q int }
	list := []access{
		{40, 0, 32}, {40, 1, 32}, {40, 8, 31}, {40, 7, 33}, {72, 0, 64}, {72, 8, 64}, {72, 3, 63}, {72, 0, 65},
		{144, 0, 128}, {144, 8, 129}, {144, 16, 127}, {144, 5, 128}, {272, 0, 256}, {272, 16, 256}, {272, 8, 257}, {272, 9, 255},
		{1024, 0, 1000}, {1024, 8, 512}, {2010, 0, 2000}, {2010, 8, 1968}, {2010, 5, 2000}, {2010, 9, 1969},
	}
	if t >= 2 {
		list = []access{
			{20, 0, 16}, {20, 3, 17}, {40, 0, 32}, {40, 5, 33}, {70, 0, 64}, {70, 3, 63}, {70, 5, 65},
			{130, 0, 124}, {130, 1, 125}, {130, 2, 127}, {130, 0, 128}, {130, 1, 129}, {140, 4, 123}, {260, 2, 256}, {260, 0, 192}, {260, 3, 255}, {260, 1, 257},
		}
	}
	k := list[v.Choose("access", 0, len(list)-1)]
	sizes[t] = k.size
	start := uint16(pick("start", 0, 100, 40000))
	n, s := newStore(3, [4]uint16{start, start, start, start}, sizes)
	fillStore(n, s)
	a := start + uint16(k.off)
	if t < 2 {
		if v.Choose("op", 0, 1) == 0 {
			b, err := readBits(n, t, a, uint16(k.q))
			v.Assert(err == nil, "a read inside the table works")
			v.Assert(v.EqBytes(b, s.bits(t, a, k.q)), "the bits read")
			v.Cover("read")
		} else {
			buf := v.Bytes("value", (k.q+7)/8)
			v.Assert(writeBits(n, t, a, uint16(k.q), clone(buf)) == nil, "a write inside the table works")
			s.putBits(t, a, k.q, buf)
			v.Cover("write")
		}
		sameStore(n, s, "exactly the bits written changed")
		return
	}
	switch v.Choose("op", 0, 3) {
	case 0:
		b, err := readWords(n, t, a, uint16(k.q))
		v.Assert(err == nil, "a read inside the table works")
		v.Assert(v.EqBytes(b, s.words(t, a, k.q)), "the bytes read")
		v.Cover("read bytes")
	case 1:
		var w []uint16
		var err error
		if t == tInput {
			w, err = n.ReadInputs(a, uint16(k.q))
		} else {
			w, err = n.ReadHoldings(a, uint16(k.q))
		}
		v.Assert(err == nil, "a read inside the table works")
		v.Assert(len(w) == k.q, "as many values as asked for")
		b := make([]byte, 0, 2*k.q)
		for _, x := range w {
			b = append(b, byte(x>>8), byte(x))
		}
		v.Assert(v.EqBytes(b, s.words(t, a, k.q)), "the values read")
		for i := range w {
			w[i] = 0x5A5A // the caller's to change
		}
		v.Cover("read")
	case 2:
		buf := v.Bytes("value", 2*k.q)
		arg := clone(buf)
		v.Assert(writeWords(n, t, a, uint16(k.q), arg) == nil, "a write inside the table works")
		v.Assert(v.EqBytes(arg, buf), "the values to write are not changed")
		for i := range arg {
			arg[i] = 0x5A
		}
		s.putWords(t, a, k.q, buf)
		v.Cover("write bytes")
	case 3:
		buf := v.Bytes("value", 2*k.q)
		w := make([]uint16, k.q)
		for i := range w {
			w[i] = be(buf[2*i:])
		}
		err := writeRegs(n, t, a, w)
		v.Assert(err == nil, "a write inside the table works")
		for i := range w {
			w[i] = 0x5A5A // the caller's to change
		}
		s.putWords(t, a, k.q, buf)
		v.Cover("write")
	}
	sameStore(n, s, "exactly the values written changed")
}

// P18_Params: a node reports the layout and identity it was created with.
func P18_Params() {
	var p [8]uint16
	perm := v.Choose("perm", 0, 3)
	for i := range p {
		p[i] = v.U16("p")
		if i%2 == 1 {
			p[i] = uint16([4]int{0, 9, 300, 65535}[(i/2+perm)%4])
		}
	}
	id, id2 := v.Byte("id"), v.Byte("id2")
	n := modbus.NewNodeRegister(id, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
	a, b := n.CoilsAddrParam()
	v.Assert(v.And(a == p[0], b == p[1]), "coil layout")
	a, b = n.DiscreteParam()
	v.Assert(v.And(a == p[2], b == p[3]), "discrete layout")
	a, b = n.InputAddrParam()
	v.Assert(v.And(a == p[4], b == p[5]), "input layout")
	a, b = n.HoldingAddrParam()
	v.Assert(v.And(a == p[6], b == p[7]), "holding layout")
	v.Assert(n.SlaveID() == id, "slave id")
	v.Assert(n.SetSlaveID(id2) == n, "SetSlaveID chains")
	v.Assert(n.SlaveID() == id2, "changed slave id")
	v.Cover("end")
}

// P18_Mask: a mask write computes (current AND and) OR (or AND NOT and).
func P18_Mask() {
	sizes := [4]int{3, 3, 2, pick("size", 1, 4)}
	n, s := newStore(3, symStarts(sizes), sizes)
	fillStore(n, s)
	a := s.anyAddr(tHolding)
	and, or := v.U16("and"), v.U16("or")
	old := uint16(0)
	ok := s.covers(tHolding, a, 1)
	if ok {
		old = s.at(tHolding, a)
	}
	err := n.MaskWriteHolding(a, and, or)
	v.Assert((err == nil) == ok, "a mask write works iff its address is inside the table")
	if err == nil {
		v.Cover("write")
	} else {
		v.Assert(excCode(err) == 2, "illegal data address")
	}
	s.set(tHolding, a, ok, old&and|or&^and)
	sameStore(n, s, "exactly the masked register changed")
}

// P18_Series: any three accesses to one table, singly or in blocks, one after the other: no access
// depends on those before it other than through the table.
func P18_Series() {
	t := v.Choose("table", 0, 3)
	sizes := [4]int{}
	sizes[t] = 3
	n, s := newStore(1, [4]uint16{}, sizes)
	fillStore(n, s)
	for i := 0; i < 3; i++ {
		a := uint16(v.Choose("addr", 0, 1))
		if i == 1 {
			a = 0
		}
		if t < 2 {
			switch v.Choose("op", 0, 2) {
			case 0:
				x := v.Bool("x")
				var err error
				if t == tCoil {
					err = n.WriteSingleCoil(a, x)
				} else {
					err = n.WriteSingleDiscrete(a, x)
				}
				v.Assert(err == nil, "a write inside the table works")
				s.set(t, a, true, v.IteU16(x, 1, 0))
			case 1:
				x := v.Byte("x")
				v.Assert(writeBits(n, t, a, 2, []byte{x}) == nil, "a write inside the table works")
				s.putBits(t, a, 2, []byte{x})
			case 2:
				b, err := readBits(n, t, a, 2)
				v.Assert(err == nil, "a read inside the table works")
				v.Assert(v.EqBytes(b, s.bits(t, a, 2)), "the bits read")
			}
			continue
		}
		switch v.Choose("op", 0, 3) {
		case 0:
			x := v.Bytes("x", 2)
			v.Assert(writeWords(n, t, a, 1, clone(x)) == nil, "a write inside the table works")
			s.putWords(t, a, 1, x)
		case 1:
			x := []uint16{v.U16("x"), v.U16("x")}
			err := writeRegs(n, t, a, x)
			v.Assert(err == nil, "a write inside the table works")
			s.set(t, a, true, x[0])
			s.set(t, a+1, true, x[1])
		case 2:
			b, err := readWords(n, t, a, 2)
			v.Assert(err == nil, "a read inside the table works")
			v.Assert(v.EqBytes(b, s.words(t, a, 2)), "the values read")
		case 3:
			if t == tInput {
				v.Stop()
			}
			and, or := v.U16("and"), v.U16("or")
			v.Assert(n.MaskWriteHolding(a, and, or) == nil, "a write inside the table works")
			s.set(t, a, true, s.at(t, a)&and|or&^and)
		}
	}
	sameStore(n, s, "exactly what was written changed")
	v.Cover("end")
}
