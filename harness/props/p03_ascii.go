package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// P03_Send: the frame put on an ASCII line is ':' + upper-case hex of address, function, data and
// LRC + CR LF.
func P03_Send() {
	r := newRig(kASCII, silent)
	n := pick("len", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 64, 127, 128, 200, 251, 252, 253, 254, 255, 256, 300)
	if n > 40 && v.Tier() == 0 && n < 250 {
		v.Stop()
	}
	id := v.Byte("slave")
	fc := v.Byte("fc")
	data := v.Bytes("data", n)
	arg := clone(data)
	_, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: arg})
	v.Assert(v.EqBytes(arg, data), "the caller's data stays as it was")
	v.Assert(err != nil, "a request without a response fails")
	if n > 252 {
		v.Assert(r.writes() == 0, "oversized request is not sent")
		v.Cover("oversize")
		return
	}
	w := r.wrote()
	v.Observe("wrote", w)
	v.Assert(v.EqBytes(w, asciiFrame(id, cat([]byte{fc}, data))), "frame characters")
	v.Assert(r.writes() == 1, "one write per frame")
	v.Cover("sent")
}

// P03_SendPdu: the same through SendPdu, which also bounds the PDU to 1..253 bytes.
func P03_SendPdu() {
	r := newRig(kASCII, silent)
	n := pick("len", 0, 1, 2, 3, 5, 6, 9, 33, 252, 253, 254, 255, 256, 260)
	id := v.Byte("slave")
	pdu := v.Bytes("pdu", n)
	arg := clone(pdu)
	_, err := r.p.SendPdu(id, arg)
	v.Assert(v.EqBytes(arg, pdu), "the caller's data stays as it was")
	v.Assert(err != nil, "a request without a response fails")
	if n < 1 || n > 253 {
		v.Assert(r.writes() == 0, "a PDU of illegal size is not sent")
		v.Cover("rejected")
		return
	}
	v.Assert(v.EqBytes(r.wrote(), asciiFrame(id, pdu)), "frame characters")
	v.Cover("sent")
}

// P03_Raw: a raw frame is put on the line unchanged.
func P03_Raw() {
	r := newRig(kASCII, silent)
	n := pick("len", 1, 4, 9, 17, 513)
	f := v.Bytes("frame", n)
	arg := clone(f)
	_, err := r.p.SendRawFrame(arg)
	v.Assert(v.EqBytes(arg, f), "the caller's data stays as it was")
	v.Assert(err != nil, "a request without a response fails")
	v.Assert(v.EqBytes(r.wrote(), f), "raw frame unchanged")
	v.Cover("sent")
}

// P03_Again: requests are framed independently of those before, whatever their lengths.
func P03_Again() {
	framedAgain(kASCII, func(_ []byte, id byte, pdu []byte) []byte { return asciiFrame(id, pdu) })
}
