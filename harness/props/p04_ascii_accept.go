package props

import (
	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// checkASCII asserts that rx starts with an intact ASCII frame of slave id and PDU pdu.
func checkASCII(rx []byte, id byte, pdu []byte) {
	n := len(pdu) + 2 // bytes including address and LRC
	v.Assert(len(rx) >= 2*n+3, "data came from the line")
	v.Assert(rx[0] == ':', "frame starts with a colon")
	v.Assert(v.And(rx[2*n+1] == '\r', rx[2*n+2] == '\n'), "frame ends with CR LF")
	raw := make([]byte, n)
	good := true
	for i := range raw {
		h, ok1 := unhex(rx[1+2*i])
		l, ok2 := unhex(rx[2+2*i])
		raw[i] = h<<4 | l
		good = v.And(good, ok1, ok2)
	}
	v.Assert(good, "hexadecimal digits")
	v.Assert(raw[0] == id, "frame of the addressed slave")
	v.Assert(v.EqBytes(raw[1:n-1], pdu), "data of the frame")
	v.Assert(raw[n-1] == RefLRC(raw[:n-1]), "checksum valid")
}

// P04_Accept: whatever arrives on the line, a success means that a frame for the request arrived
// intact, and the data returned is that frame's data.
func P04_Accept() {
	max := 13
	if v.Tier() == 1 {
		max = 19
	}
	rx := v.Bytes("rx", v.Choose("n", 0, max))
	r := newRig(kASCII, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx), Err: serial.ErrTimeout})
	})
	id := v.Byte("slave")
	fc := v.Byte("fc")
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 2)})
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Observe("data", rsp.Data)
	v.Assert(len(rsp.Data) > 0, "success carries data")
	v.Assert(rsp.FuncCode == fc, "function code returned")
	checkASCII(rx, id, cat([]byte{fc}, rsp.Data))
	v.Cover("accepted")
}

// P04_AcceptPdu: the same through SendPdu.
func P04_AcceptPdu() {
	rx := v.Bytes("rx", v.Choose("n", 7, 13))
	r := newRig(kASCII, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx), Err: serial.ErrTimeout})
	})
	id := v.Byte("slave")
	req := v.Bytes("req", 3)
	pdu, err := r.p.SendPdu(id, clone(req))
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Assert(len(pdu) > 1, "success carries data")
	v.Assert(pdu[0] == req[0], "function code returned")
	checkASCII(rx, id, pdu)
	v.Cover("accepted")
}

// P04_Corrupt: a correct response with one changed character never yields other data.
func P04_Corrupt() {
	id := v.Byte("slave")
	data := v.Bytes("data", v.Choose("n", 1, 3))
	fc := v.Byte("fc")
	rx := asciiArrival(id, cat([]byte{fc}, data))
	i := v.Choose("i", 0, len(rx)-1)
	x := v.Byte("x")
	v.Assume(x != rx[i])
	rx[i] = x
	r := newRig(kASCII, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: rx, Err: serial.ErrTimeout})
	})
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 2)})
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Assert(v.And(rsp.FuncCode == fc, v.EqBytes(rsp.Data, data)), "a corrupted response yields no other data")
}

// P04_Long: the same for long frames: one character changed anywhere.
func P04_Long() {
	id := v.Byte("slave")
	n := pick("n", 61, 126, 252)
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(37*i + i>>3)
	}
	data[n/2] = v.Byte("data")
	rx := asciiFrame(id, cat([]byte{65}, data))
	k := len(rx)
	i := pick("i", 0, 1, 2, 3, 4, 5, n, n+1, k-8, k-5, k-4, k-3, k-2, k-1)
	x := v.Byte("x")
	v.Assume(v.And(x != rx[i], x != rx[i]^0x20))
	rx[i] = x
	r := newRig(kASCII, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: rx, Err: serial.ErrTimeout})
	})
	_, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: 65, Data: v.Bytes("d", 2)})
	v.Assert(err != nil, "a corrupted response is rejected")
	v.Cover("end")
}
