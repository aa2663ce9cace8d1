package props

import (
	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// rtuReq is a request of one of the function-code classes the RTU reader distinguishes.
func rtuReq() (byte, []byte) {
	switch v.Choose("class", 0, 5) {
	case 0:
		return byte(pick("fc", 1, 2)), []byte{v.Byte("a"), v.Byte("a"), 0, byte(v.Choose("q", 1, 17))}
	case 1:
		return byte(pick("fc", 3, 4)), []byte{v.Byte("a"), v.Byte("a"), 0, byte(v.Choose("q", 1, 3))}
	case 2:
		return byte(pick("fc", 5, 6)), v.Bytes("d", 4)
	case 3:
		return 22, v.Bytes("d", 6)
	case 4:
		return 24, v.Bytes("d", 2)
	}
	fc := v.Byte("fc")
	v.Assume(fc > 24)
	return fc, v.Bytes("d", v.Choose("dn", 0, 2))
}

// P02_Accept: whatever arrives on the line, a success means that a frame for the request arrived
// intact, and the data returned is that frame's data.
func P02_Accept() {
	maxn := 12
	if v.Tier() == 1 {
		maxn = 20
	}
	rx := v.Bytes("rx", v.Choose("n", 0, maxn))
	r := newRig(kRTU, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx), Err: serial.ErrTimeout})
	})
	id := v.Byte("slave")
	fc, data := rtuReq()
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: data})
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Observe("data", rsp.Data)
	n := len(rsp.Data)
	v.Assert(n > 0, "success carries data")
	v.Assert(n+4 <= len(rx), "data came from the line")
	v.Assert(rsp.FuncCode == fc, "function code returned")
	v.Assert(v.And(rx[0] == id, rx[1] == fc), "frame of the addressed slave and function")
	v.Assert(v.EqBytes(rsp.Data, rx[2:2+n]), "data of the frame")
	crc := RefCRC(rx[:2+n])
	v.Assert(v.And(rx[2+n] == byte(crc), rx[3+n] == byte(crc>>8)), "checksum valid")
	v.Cover("accepted")
}

// P02_AcceptPdu: the same through SendPdu.
func P02_AcceptPdu() {
	rx := v.Bytes("rx", v.Choose("n", 0, 12))
	r := newRig(kRTU, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx), Err: serial.ErrTimeout})
	})
	id := v.Byte("slave")
	req := cat([]byte{byte(pick("fc", 3, 6, 0x2B))}, v.Bytes("d", 2), []byte{0, byte(v.Choose("q", 1, 2))})
	pdu, err := r.p.SendPdu(id, clone(req))
	if err != nil {
		v.Cover("rejected")
		return
	}
	n := len(pdu)
	v.Assert(n > 1, "success carries data")
	v.Assert(n+3 <= len(rx), "data came from the line")
	v.Assert(v.And(rx[0] == id, pdu[0] == req[0]), "frame of the addressed slave and function")
	v.Assert(v.EqBytes(pdu, rx[1:1+n]), "data of the frame")
	crc := RefCRC(rx[:1+n])
	v.Assert(v.And(rx[1+n] == byte(crc), rx[2+n] == byte(crc>>8)), "checksum valid")
	v.Cover("accepted")
}

// P02_Burst: a correct response hit by any error burst of up to 16 bits is never accepted.
func P02_Burst() {
	q := v.Choose("q", 1, 2)
	id := v.Byte("slave")
	rx := rtuFrame(id, cat([]byte{3, byte(2 * q)}, v.Bytes("data", 2*q)))
	pattern := v.U16("pattern")
	v.Assume(pattern&1 != 0) // the burst starts at the chosen bit
	start := v.Choose("start", 0, 8*len(rx)-1)
	for i := 0; i < 16; i++ {
		if start+i >= 8*len(rx) {
			break
		}
		rx[(start+i)/8] ^= byte(pattern>>uint(i)&1) << uint((start+i)%8)
	}
	r := newRig(kRTU, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: rx, Err: serial.ErrTimeout})
	})
	_, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{v.Byte("a"), v.Byte("a"), 0, byte(q)}})
	v.Assert(err != nil, "a corrupted response is rejected")
	v.Cover("end")
}

// P02_Double: a correct response with any two flipped bits is never accepted.
func P02_Double() {
	id := v.Byte("slave")
	rx := rtuFrame(id, []byte{6, v.Byte("a"), v.Byte("a"), v.Byte("x"), v.Byte("x")})
	i := v.Choose("i", 0, 8*len(rx)-1)
	j := v.Int("j", 0, 8*len(rx)-1)
	v.Assume(i != j)
	rx[i/8] ^= 1 << uint(i%8)
	for k := range rx {
		for b := 0; b < 8; b++ {
			rx[k] ^= v.IteByte(j == 8*k+b, 1<<uint(b), 0)
		}
	}
	r := newRig(kRTU, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: rx, Err: serial.ErrTimeout})
	})
	_, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: 6, Data: v.Bytes("d", 4)})
	v.Assert(err != nil, "a corrupted response is rejected")
	v.Cover("end")
}

// P02_Long: the same for the longest frames: one byte changed anywhere.
func P02_Long() {
	q := pick("q", 60, 125)
	id := v.Byte("slave")
	data := make([]byte, 2*q)
	for i := range data {
		data[i] = byte(37*i + i>>3)
	}
	data[q] = v.Byte("data")
	rx := rtuFrame(id, cat([]byte{3, byte(2 * q)}, data))
	n := len(rx)
	pos := pick("pos", 0, 3, 4, q, q+3, n-5, n-4, n-3, n-2, n-1)
	x := v.Byte("x")
	rx[pos] ^= x
	r := newRig(kRTU, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: rx, Err: serial.ErrTimeout})
	})
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{v.Byte("a"), v.Byte("a"), 0, byte(q)}})
	v.Assert((err == nil) == (x == 0), "a corrupted response is rejected")
	if err == nil {
		v.Assert(v.EqBytes(rsp.Data[1:], data), "data of the frame")
		v.Cover("accepted")
	}
	v.Cover("end")
}
