package props

import "verifharness/v"

// P19_Ranges: for every address and quantity, an access touching anything outside the table is
// refused with "illegal data address" and changes nothing; no access panics.
func P19_Ranges() {
	op := v.Choose("op", 0, 16)
	t := [17]int{0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3}[op]
	sizes := [4]int{3, 3, 3, 3}
	max := 9
	if t >= 2 {
		max = 3
	}
	sizes[t] = v.Choose("size", 0, max)
	n, s := newStore(1, symStarts(sizes), sizes)
	fillStore(n, s)
	a, q := v.U16("address"), v.U16("quantity")
	n16 := 0
	var err error
	single := false
	fits := true // the buffer agrees with the quantity
	switch op {
	case 0, 4:
		_, err = readBits(n, t, a, q)
	case 1, 5:
		k := v.Choose("len", 0, 3)
		fits = 8*k >= int(q)
		err = writeBits(n, t, a, q, v.Bytes("value", k))
	case 2:
		_, err = n.ReadSingleCoil(a)
		single = true
	case 6:
		_, err = n.ReadSingleDiscrete(a)
		single = true
	case 3:
		err = n.WriteSingleCoil(a, v.Bool("x"))
		single = true
	case 7:
		err = n.WriteSingleDiscrete(a, v.Bool("x"))
		single = true
	case 8, 12:
		_, err = readWords(n, t, a, q)
	case 9, 13:
		k := v.Choose("len", 0, 9)
		fits = k == 2*int(q)
		err = writeWords(n, t, a, q, v.Bytes("value", k))
	case 10:
		_, err = n.ReadInputs(a, q)
	case 14:
		_, err = n.ReadHoldings(a, q)
	case 11, 15:
		n16 = v.Choose("len", 0, 5)
		v.Assume(int(q) == n16)
		w := make([]uint16, n16)
		for i := range w {
			w[i] = w16("w")
		}
		if op == 11 {
			err = n.WriteInputs(a, w)
		} else {
			err = n.WriteHoldings(a, w)
		}
	case 16:
		err = n.MaskWriteHolding(a, v.U16("and"), v.U16("or"))
		single = true
	}
	qi := int(q)
	if single {
		qi = 1
	}
	lo, hi := int(s.start[t]), int(s.start[t])+sizes[t]
	in := v.And(int(a) >= lo, int(a)+qi <= hi, fits)
	if err != nil {
		v.Assert(v.Or(v.Not(in), qi == 0), "an access inside the table works")
		v.Assert(excCode(err) == 2, "a refused access says illegal data address")
		sameStore(n, s, "a refused access changes nothing")
		v.Cover("refused")
		return
	}
	v.Assert(v.Or(in, qi == 0), "an access outside the table is refused")
	if qi == 0 {
		sameStore(n, s, "an empty access changes nothing")
	}
	v.Cover("done")
}

// P19_Huge: the same for buffers whose length only fits a quantity modulo 65536 or 8192 bytes.
func P19_Huge() {
	t := v.Choose("table", 0, 3)
	sizes := [4]int{5, 5, 5, 5}
	n, s := newStore(1, [4]uint16{10, 10, 10, 10}, sizes)
	fillStore(n, s)
	k := pick("len", 8192, 8193, 65536, 65538, 131072, 131074)
	buf := make([]byte, k)
	for i := 0; i < 4; i++ {
		buf[i] = 0xA5
	}
	a, q := v.U16("address"), v.U16("quantity")
	var err error
	if t < 2 {
		err = writeBits(n, t, a, q, buf)
		if err == nil {
			v.Assert(v.And(a >= 10, int(a)+int(q) <= 15), "an access outside the table is refused")
			v.Cover("bits")
			return
		}
	} else {
		if v.Choose("words", 0, 1) == 1 {
			w := make([]uint16, k/2)
			w[0] = 0xA5A5
			if t == 2 {
				err = n.WriteInputs(a, w)
			} else {
				err = n.WriteHoldings(a, w)
			}
		} else {
			err = writeWords(n, t, a, q, buf)
		}
		v.Assert(err != nil, "a buffer larger than the table is refused")
		v.Cover("words")
	}
	v.Assert(excCode(err) == 2, "a refused access says illegal data address")
	sameStore(n, s, "a refused access changes nothing")
}
