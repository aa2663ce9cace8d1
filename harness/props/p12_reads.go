package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// readCall runs one of the eight read methods and returns the result as bytes.
func readCall(c modbus.Client, m int, id byte, q uint16) ([]byte, error) {
	a := v.U16("a")
	var w []uint16
	var err error
	switch m {
	case 0:
		return c.ReadCoils(id, a, q)
	case 1:
		return c.ReadDiscreteInputs(id, a, q)
	case 2:
		return c.ReadInputRegistersBytes(id, a, q)
	case 3:
		return c.ReadHoldingRegistersBytes(id, a, q)
	case 4:
		return c.ReadWriteMultipleRegistersBytes(id, a, q, a, 1, []byte{1, 2})
	case 5:
		w, err = c.ReadInputRegisters(id, a, q)
	case 6:
		w, err = c.ReadHoldingRegisters(id, a, q)
	case 7:
		w, err = c.ReadWriteMultipleRegisters(id, a, q, a, 1, []byte{1, 2})
	}
	if err != nil {
		v.Assert(len(w) == 0, "no values together with an error")
		return nil, err
	}
	return put16(w...), nil
}

var readFC = []byte{1, 2, 4, 3, 23, 4, 3, 23}

// P12_Read: a read succeeds exactly when the response carries the byte count of the quantity
// asked for and that many bytes, and returns exactly those bytes.
func P12_Read() {
	m := v.Choose("method", 0, 7)
	id := byte(17)
	n := v.Choose("n", 1, 7)
	var q int
	var bytes int
	if m < 2 {
		q = v.Choose("q", 1, 25)
		bytes = (q + 7) / 8
	} else {
		q = v.Choose("q", 1, 4)
		bytes = 2 * q
	}
	data := v.Bytes("rsp", n)
	r := answering(kTCP, id, cat([]byte{readFC[m]}, data))
	got, err := readCall(modbus.NewClient(r.p), m, id, uint16(q))
	if n == bytes+1 && v.Split(int(data[0]) == bytes) {
		v.Assert(err == nil, "a matching response is accepted")
		v.Observe("got", got)
		v.Assert(v.EqBytes(got, data[1:]), "the values returned are those of the response")
		v.Cover("ok")
		return
	}
	v.Assert(err != nil, "a response that does not match the request is refused")
	v.Assert(len(got) == 0, "no values together with an error")
	v.Cover("refused")
}

// P12_Transports: the same data through every transport.
func P12_Transports() {
	m := v.Choose("method", 0, 7)
	id := v.Byte("id")
	v.Assume(v.And(id >= 1, id <= 247))
	q, n := 3, 6
	if m < 2 {
		q, n = 11, 2
	}
	data := v.Bytes("rsp", n)
	r := answering(v.Choose("kind", 0, 2), id, cat([]byte{readFC[m], byte(n)}, data))
	got, err := readCall(modbus.NewClient(r.p), m, id, uint16(q))
	v.Assert(err == nil, "accepted")
	v.Assert(v.EqBytes(got, data), "values")
	v.Cover("end")
}

// P12_Large: the largest reads and quantities next to them.
func P12_Large() {
	m := v.Choose("method", 0, 7)
	var q, n int
	if m < 2 {
		q = pick("qb", 1992, 1993, 1999, 2000)
		n = (q + 7) / 8
	} else {
		q = pick("qr", 124, 125)
		n = 2 * q
	}
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 3)
	}
	data[0], data[n-1] = v.Byte("first"), v.Byte("last")
	cnt := v.Byte("cnt")
	r := answering(kTCP, 1, cat([]byte{readFC[m], cnt}, data))
	got, err := readCall(modbus.NewClient(r.p), m, 1, uint16(q))
	if v.Split(int(cnt) == n) {
		v.Assert(err == nil, "accepted")
		v.Assert(v.EqBytes(got, data), "values")
		v.Cover("ok")
		return
	}
	v.Assert(err != nil, "refused")
	v.Cover("refused")
}

// P12_Quantity: one fixed response against any quantity: at most one size fits.
func P12_Quantity() {
	m := v.Choose("method", 0, 7)
	n := v.Choose("n", 1, 4)
	data := v.Bytes("rsp", n)
	q := v.U16("q")
	r := answering(kTCP, 1, cat([]byte{readFC[m], byte(n)}, data))
	got, err := readCall(modbus.NewClient(r.p), m, 1, q)
	fits := int(q)*2 == n
	if m < 2 {
		fits = v.And(q >= 1, (int(q)+7)/8 == n)
	}
	if v.Split(fits) {
		v.Assert(err == nil, "accepted")
		v.Assert(v.EqBytes(got, data), "values")
		v.Cover("ok")
		return
	}
	v.Assert(err != nil, "refused")
	v.Cover("refused")
}

// P12_FIFO: ReadFIFOQueue succeeds exactly when both counts agree with the size and the queue
// has at most 31 values, and returns exactly those.
func P12_FIFO() {
	n := pick("n", 1, 2, 3, 4, 5, 6, 7, 8, 10, 64, 66, 68, 70)
	data := make([]byte, n)
	for i := range data {
		if i < 8 {
			data[i] = v.Byte("x")
		} else {
			data[i] = byte(i)
		}
	}
	r := answering(kTCP, 1, cat([]byte{24}, data))
	got, err := modbus.NewClient(r.p).ReadFIFOQueue(1, v.U16("a"))
	if n >= 4 && v.Split(v.And(int(be(data)) == n-2, 2*int(be(data[2:])) == n-4, be(data[2:]) <= 31)) {
		v.Assert(err == nil, "accepted")
		v.Assert(v.EqBytes(got, data[4:]), "values")
		v.Cover("ok")
		return
	}
	v.Assert(err != nil, "refused")
	v.Assert(len(got) == 0, "no values together with an error")
	v.Cover("refused")
}
