package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

func hangup(k int, c *env.Conn) { c.FeedErr(env.ErrReset) }

// P05_Send: the frame sent over TCP is the 7-byte MBAP header followed by the PDU.
func P05_Send() {
	r := newRig(kTCP, hangup)
	n := pick("len", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 64, 127, 128, 200, 250, 251, 252, 253, 254, 255, 256, 300)
	id := v.Byte("slave")
	fc := v.Byte("fc")
	data := v.Bytes("data", n)
	arg := clone(data)
	_, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: arg})
	v.Assert(v.EqBytes(arg, data), "the caller's data stays as it was")
	v.Assert(err != nil, "a request without a response fails")
	if n > 252 {
		v.Assert(r.writes() == 0, "oversized request is not sent")
		v.Cover("oversize")
		return
	}
	w := r.wrote()
	v.Observe("wrote", w)
	v.Assert(len(w) == n+8, "frame length")
	v.Assert(v.EqBytes(w, tcpFrame(be(w), id, cat([]byte{fc}, data))), "frame bytes")
	v.Assert(r.writes() == 1, "one write per frame")
	v.Cover("sent")
}

// P05_SendPdu: the same through SendPdu, which also bounds the PDU to 1..253 bytes.
func P05_SendPdu() {
	r := newRig(kTCP, hangup)
	n := pick("len", 0, 1, 2, 3, 5, 6, 9, 33, 252, 253, 254, 255, 256, 260)
	id := v.Byte("slave")
	pdu := v.Bytes("pdu", n)
	arg := clone(pdu)
	_, err := r.p.SendPdu(id, arg)
	v.Assert(v.EqBytes(arg, pdu), "the caller's data stays as it was")
	v.Assert(err != nil, "a request without a response fails")
	if n < 1 || n > 253 {
		v.Assert(r.writes() == 0, "a PDU of illegal size is not sent")
		v.Cover("rejected")
		return
	}
	w := r.wrote()
	v.Assert(len(w) == n+7, "frame length")
	v.Assert(v.EqBytes(w, tcpFrame(be(w), id, pdu)), "frame bytes")
	v.Cover("sent")
}

// P05_Raw: a raw frame is sent unchanged.
func P05_Raw() {
	r := newRig(kTCP, hangup)
	n := pick("len", 1, 7, 8, 12, 260, 300)
	f := v.Bytes("frame", n)
	arg := clone(f)
	_, err := r.p.SendRawFrame(arg)
	v.Assert(v.EqBytes(arg, f), "the caller's data stays as it was")
	v.Assert(err != nil, "a request without a response fails")
	v.Assert(v.EqBytes(r.wrote(), f), "raw frame unchanged")
	v.Cover("sent")
}

// P05_Tid: consecutive requests, however they end, carry distinct transaction identifiers.
func P05_Tid() {
	var tids []uint16
	var r *rig
	r = newRig(kTCP, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			tids = append(tids, be(b))
			if v.Split(v.Bool("answer")) {
				c.Feed(tcpFrame(be(b), b[6], []byte{b[7], v.Byte("rsp")}))
			} else {
				c.FeedErr(env.ErrReset)
			}
			return len(b), nil
		}
	})
	for i := 0; i < 4; i++ {
		switch v.Choose("between", 0, 2) {
		case 1:
			v.Assert(r.p.Close() == nil, "Close works")
		case 2:
			v.Assert(r.p.Connect() == nil, "Connect works")
		}
		if v.Split(v.Bool("pdu")) {
			_, _ = r.p.SendPdu(v.Byte("id"), v.Bytes("p", 2))
		} else {
			_, _ = r.p.Send(v.Byte("id"), modbus.ProtocolDataUnit{FuncCode: v.Byte("fc"), Data: v.Bytes("p", 2)})
		}
	}
	v.Assert(len(tids) == 4, "every request is sent")
	for i := range tids {
		for j := 0; j < i; j++ {
			v.Assert(tids[i] != tids[j], "transaction identifiers differ")
		}
	}
	v.Cover("end")
}

// P05_Wrap: consecutive requests carry distinct transaction identifiers, however many there were
// before.
func P05_Wrap() {
	v.MaxSteps(200000000)
	n := 1<<16 - 4 // requests that fail to connect
	r := newRig(kTCP, nil)
	var tids []uint16
	fail := true
	r.dial.Fail = func(k int) error {
		if fail {
			return env.ErrRefused
		}
		return nil
	}
	r.dial.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			tids = append(tids, be(b))
			c.Feed(tcpFrame(be(b), b[6], []byte{b[7], 1}))
			return len(b), nil
		}
	}
	req := modbus.ProtocolDataUnit{FuncCode: 0x41, Data: []byte{1}}
	for i := 0; i < n; i++ {
		r.p.Send(1, req)
	}
	fail = false
	for i := 0; i < 8; i++ {
		_, err := r.p.Send(1, req)
		v.Assert(err == nil, "the request is answered")
	}
	v.Assert(len(tids) == 8, "every request is sent")
	for i := range tids {
		for j := 0; j < i; j++ {
			v.Assert(tids[i] != tids[j], "transaction identifiers differ")
		}
	}
	v.Cover("end")
}

// P05_Again: requests are framed independently of those before, whatever their lengths.
func P05_Again() {
	framedAgain(kTCP, func(sent []byte, id byte, pdu []byte) []byte {
		v.Assert(len(sent) > 1, "the request is sent")
		return tcpFrame(be(sent), id, pdu)
	})
}
