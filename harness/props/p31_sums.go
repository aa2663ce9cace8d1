package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// P31_CRC: CRC16 is the Modbus CRC of its input.
func P31_CRC() {
	max := 40
	if v.Tier() == 1 {
		max = 128
	}
	n := v.Choose("len", 0, max+1)
	if n == max+1 {
		n = 256
	}
	b := v.Bytes("b", n)
	keep := clone(b)
	v.Assert(modbus.CRC16(b) == RefCRC(keep), "the CRC is the Modbus CRC")
	v.Assert(v.EqBytes(b, keep), "the input is unchanged")
	v.Cover("end")
}

// P31_CRCFirst: CRC16 is right and free of races when first used by several goroutines at once.
func P31_CRCFirst() {
	var got [2]uint16
	b := v.Bytes("b", 3)
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		got[0] = modbus.CRC16(b)
		close(done)
	}()
	got[1] = modbus.CRC16(b)
	<-done
	v.Sequential()
	v.Assert(v.And(got[0] == RefCRC(b), got[1] == RefCRC(b)), "the CRC is the Modbus CRC")
	v.Cover("end")
}

// P31_LRC: the LRC is the two's complement of the sum of everything pushed since the last reset.
func P31_LRC() {
	var l modbus.LRC
	v.Assert(l.Value() == 0, "the LRC of nothing is zero")
	var all []byte
	steps := 3
	for i := 0; i < steps; i++ {
		if v.Choose("reset", 0, 1) == 1 {
			v.Assert(l.Reset() == &l, "Reset chains")
			all = nil
		}
		b := v.Bytes("b", v.Choose("len", 0, 5))
		v.Assert(l.Push(b...) == &l, "Push chains")
		all = append(all, b...)
		v.Assert(l.Value() == RefLRC(all), "the LRC is the negated sum")
		v.Assert(l.Value() == RefLRC(all), "reading the LRC does not change it")
	}
	v.Cover("end")
}

// P31_LRCLong: the same for the longest frame in one go.
func P31_LRCLong() {
	var l modbus.LRC
	b := v.Bytes("b", pick("len", 16, 64, 254))
	v.Assert(l.Push(b...).Value() == RefLRC(b), "the LRC is the negated sum")
	v.Cover("end")
}

// P31_Again: the CRC and the LRC depend on the bytes given and on nothing that was computed before,
// be it on the same memory, a part of it, or memory that was written over since.
func P31_Again() {
	buf := v.Bytes("b", 6)
	var l modbus.LRC
	for i := 0; i < 4; i++ {
		from := v.Choose("from", 0, 1) * 2
		part := buf[from : from+4]
		v.Assert(modbus.CRC16(part) == RefCRC(part), "the CRC is the Modbus CRC")
		v.Assert(l.Reset().Push(part...).Value() == RefLRC(part), "the LRC is the negated sum")
		switch v.Choose("then", 0, 2) {
		case 0: // the same again
		case 1:
			buf[pick("at", 0, 3, 5)] = v.Byte("new")
		case 2:
			copy(buf, v.Bytes("all", 6))
		}
	}
	v.Cover("end")
}

// P31_Lengths: inputs of every length there can be in a frame, and longer ones: none of their bytes
// is left out.
func P31_Lengths() {
	n := v.Choose("len", 0, 300)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(7*i + 1)
	}
	x := v.Byte("x")
	if n > 0 {
		b[n-1] = x
	}
	v.Assert(modbus.CRC16(b) == RefCRC(b), "the CRC is the Modbus CRC")
	var l modbus.LRC
	v.Assert(l.Push(b...).Value() == RefLRC(b), "the LRC is the negated sum")
	v.Assert(l.Push(b...).Value() == RefLRC(cat(b, b)), "the LRC is the negated sum of all portions")
	v.Cover("end")
}
