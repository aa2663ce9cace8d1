package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// checkTCP asserts that rx starts with a Modbus/TCP frame answering request w with PDU pdu.
func checkTCP(rx, w []byte, id byte, pdu []byte) {
	n := len(pdu)
	v.Assert(len(rx) >= 7+n, "data came from the connection")
	v.Assert(v.And(rx[0] == w[0], rx[1] == w[1]), "transaction identifier of the request")
	v.Assert(v.And(rx[2] == 0, rx[3] == 0), "protocol identifier zero")
	v.Assert(int(be(rx[4:])) == n+1, "length field matches")
	v.Assert(rx[6] == id, "unit identifier of the request")
	v.Assert(v.EqBytes(rx[7:7+n], pdu), "data of the frame")
}

// P06_Accept: whatever arrives, a success means that a complete frame answering this request
// arrived, and the data returned is that frame's data.
func P06_Accept() {
	max := 13
	if v.Tier() == 1 {
		max = 24
	}
	rx := v.Bytes("rx", v.Choose("n", 0, max))
	r := newRig(kTCP, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx), Err: env.ErrReset})
	})
	id := v.Byte("slave")
	fc := v.Byte("fc")
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 2)})
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Observe("data", rsp.Data)
	v.Assert(len(rsp.Data) > 0, "success carries data")
	v.Assert(rsp.FuncCode == fc, "function code returned")
	checkTCP(rx, r.wrote(), id, cat([]byte{fc}, rsp.Data))
	v.Cover("accepted")
}

// P06_AcceptPdu: the same through SendPdu.
func P06_AcceptPdu() {
	rx := v.Bytes("rx", v.Choose("n", 0, 13))
	r := newRig(kTCP, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx), Err: env.ErrReset})
	})
	id := v.Byte("slave")
	req := v.Bytes("req", 3)
	pdu, err := r.p.SendPdu(id, clone(req))
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Assert(len(pdu) > 1, "success carries data")
	v.Assert(pdu[0] == req[0], "function code returned")
	checkTCP(rx, r.wrote(), id, pdu)
	v.Cover("accepted")
}

// P06_Second: the same for the second request on a connection, after one that succeeded.
func P06_Second() {
	rx := v.Bytes("rx", v.Choose("n", 8, 11))
	first := true
	r := newRig(kTCP, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			if first {
				first = false
				c.Feed(tcpFrame(be(b), b[6], []byte{b[7], 1}))
			} else {
				c.FeedSeg(env.Seg{Data: clone(rx), Err: env.ErrReset})
			}
			return len(b), nil
		}
	})
	_, err := r.p.Send(v.Byte("id"), modbus.ProtocolDataUnit{FuncCode: v.Byte("fc"), Data: v.Bytes("d", 1)})
	v.Assert(err == nil, "answered request succeeds")
	w0 := len(r.wrote())
	id := v.Byte("slave")
	fc := v.Byte("fc")
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 2)})
	if err != nil {
		v.Cover("rejected")
		return
	}
	checkTCP(rx, r.wrote()[w0:], id, cat([]byte{fc}, rsp.Data))
	v.Cover("accepted")
}

// P06_Long: the same for long frames, complete, cut short or followed by more.
func P06_Long() {
	n := pick("pdu", 60, 127, 128, 200, 252, 253)
	rx := cat(v.Bytes("head", 4), []byte{0, byte(n + 1)}, v.Bytes("unit", 2), make([]byte, n))
	for i := 8; i < len(rx); i++ {
		rx[i] = byte(37*i + i>>3)
	}
	rx[7+n/2] = v.Byte("data")
	got := 7 + n + v.Choose("more", -1, 1)
	r := newRig(kTCP, func(k int, c *env.Conn) {
		c.FeedSeg(env.Seg{Data: clone(rx[:got]), Err: env.ErrReset})
	})
	id := v.Byte("slave")
	fc := v.Byte("fc")
	rsp, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: v.Bytes("d", 2)})
	if err != nil {
		v.Cover("rejected")
		return
	}
	v.Assert(len(rsp.Data) == n-1, "data of the frame")
	checkTCP(rx[:got], r.wrote(), id, cat([]byte{fc}, rsp.Data))
	v.Cover("accepted")
}

// P06_Wrap: the same once the transaction identifiers have been through all their values.
func P06_Wrap() {
	v.MaxSteps(200000000)
	r := newRig(kTCP, nil)
	fail := true
	r.dial.Fail = func(k int) error {
		if fail {
			return env.ErrRefused
		}
		return nil
	}
	rx := v.Bytes("rx", 10)
	r.dial.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.FeedSeg(env.Seg{Data: clone(rx), Err: env.ErrReset})
			return len(b), nil
		}
	}
	req := modbus.ProtocolDataUnit{FuncCode: 0x41, Data: []byte{1}}
	for i, n := 0, 1<<16-2-v.Choose("before", 0, 2); i < n; i++ { // requests that fail to connect
		r.p.Send(1, req)
	}
	fail = false
	for i := 0; i < 3; i++ {
		n := len(r.wrote())
		rsp, err := r.p.Send(1, req)
		if err == nil {
			checkTCP(rx, r.wrote()[n:], 1, cat([]byte{0x41}, rsp.Data))
			v.Cover("accepted")
			return
		}
		v.Assert(r.p.Close() == nil, "Close works")
	}
	v.Cover("rejected")
}
