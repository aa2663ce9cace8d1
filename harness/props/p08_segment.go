package props

import (
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// exchanges is a set of (request, response) pairs covering every function the client offers
// and exception responses.
func exchange() (req, rsp []byte) {
	a := v.Bytes("a", 2)
	switch v.Choose("exchange", 0, 11) {
	case 0:
		q := v.Choose("q", 1, 17)
		return cat([]byte{1}, a, []byte{0, byte(q)}), cat([]byte{1, byte((q + 7) / 8)}, v.Bytes("x", (q+7)/8))
	case 1:
		return cat([]byte{2}, a, []byte{0, 8}), cat([]byte{2, 1}, v.Bytes("x", 1))
	case 2:
		q := v.Choose("q", 1, 2)
		return cat([]byte{3}, a, []byte{0, byte(q)}), cat([]byte{3, byte(2 * q)}, v.Bytes("x", 2*q))
	case 3:
		return cat([]byte{4}, a, []byte{0, 1}), cat([]byte{4, 2}, v.Bytes("x", 2))
	case 4:
		p := cat([]byte{5}, a, []byte{0xFF, 0})
		return p, clone(p)
	case 5:
		p := cat([]byte{6}, a, v.Bytes("x", 2))
		return p, clone(p)
	case 6:
		return cat([]byte{15}, a, []byte{0, 3, 1}, v.Bytes("x", 1)), cat([]byte{15}, a, []byte{0, 3})
	case 7:
		return cat([]byte{16}, a, []byte{0, 1, 2}, v.Bytes("x", 2)), cat([]byte{16}, a, []byte{0, 1})
	case 8:
		p := cat([]byte{22}, a, v.Bytes("x", 4))
		return p, clone(p)
	case 9:
		return cat([]byte{23}, a, []byte{0, 2}, a, []byte{0, 1, 2}, v.Bytes("y", 2)), cat([]byte{23, 4}, v.Bytes("x", 4))
	case 10:
		n := v.Choose("q", 0, 2)
		return cat([]byte{24}, a), cat([]byte{24, 0, byte(2 + 2*n), 0, byte(n)}, v.Bytes("x", 2*n))
	}
	fc := byte(pick("efc", 1, 3, 6, 16, 22, 23, 24))
	return cat([]byte{fc}, a, []byte{0, 1}), []byte{fc | 0x80, v.Byte("code")}
}

// segmented delivers f cut at the given places, waiting gap before each further piece.
func segmented(c *env.Conn, f []byte, cuts []int, gap time.Duration) {
	go func() {
		last := 0
		for _, k := range cuts {
			if k <= last || k >= len(f) {
				continue
			}
			c.Feed(f[last:k])
			last = k
			if gap > 0 {
				time.Sleep(gap)
			}
		}
		c.Feed(f[last:])
	}()
}

func segmentation(kind int) {
	req, rsp := exchange()
	id := v.Byte("slave")
	gap := []time.Duration{0, rigTimeout / 4}[v.Choose("gap", 0, 1)]
	cut1 := v.Choose("cut1", 0, 10)
	cut2 := v.Choose("cut2", 1, 11)
	if cut2 <= cut1 {
		v.Stop()
	}
	cuts := []int{cut1, cut2}
	if kind == kASCII {
		cuts = []int{2 * cut1, 2*cut2 + v.Choose("odd", 0, 1)}
	}
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			segmented(c, r.frame(b, id, rsp), cuts, gap)
			return len(b), nil
		}
	})
	pdu, err := r.p.SendPdu(id, req)
	if rsp[0] >= 0x80 {
		v.Assert(excCode(err) == int(rsp[1]), "exception response recognised however it is cut up")
		v.Cover("exception")
		return
	}
	v.Assert(err == nil, "response accepted however it is cut up")
	v.Assert(v.EqBytes(pdu, rsp), "response data complete however it is cut up")
	v.Cover("ok")
}

// P08_RTU: a response in up to three pieces.
func P08_RTU() { segmentation(kRTU) }

// P08_ASCII: the same.
func P08_ASCII() { segmentation(kASCII) }

// P08_TCP: the same.
func P08_TCP() { segmentation(kTCP) }

// P08_Bytewise: every response byte by byte, through Send.
func P08_Bytewise() {
	kind := v.Choose("kind", 0, 2)
	req, rsp := exchange()
	id := v.Byte("slave")
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.MaxChunk = v.Choose("chunk", 1, 3)
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.Feed(r.frame(b, id, rsp))
			return len(b), nil
		}
	})
	got, err := r.p.Send(id, modbus.ProtocolDataUnit{FuncCode: req[0], Data: req[1:]})
	if rsp[0] >= 0x80 {
		v.Assert(excCode(err) == int(rsp[1]), "exception response recognised however it is cut up")
		v.Cover("exception")
		return
	}
	v.Assert(err == nil, "response accepted however it is cut up")
	v.Assert(v.EqBytes(got.Data, rsp[1:]), "response data complete however it is cut up")
	v.Cover("ok")
}

// P08_Long: the longest responses, in two pieces cut anywhere.
func P08_Long() {
	kind := v.Choose("kind", 0, 2)
	fc, q, last := byte(3), 125, 258
	data := make([]byte, 2*q)
	if kind == kASCII {
		last = 512
	}
	if kind != kRTU && v.Choose("largest", 0, 1) == 1 { // the largest PDU there is
		fc, data = 65, make([]byte, 251)
	}
	for i := range data {
		data[i] = byte(7 * i)
	}
	rsp := cat([]byte{fc, byte(len(data))}, data)
	req := []byte{fc, 0, 0, 0, byte(q)}
	switch fifo := v.Choose("fifo", 0, 3); {
	case fifo > 0 && fc != 3:
		v.Stop()
	case fifo > 0: // the longest queue, and shorter ones
		n := []int{31, 30, 16}[fifo-1]
		rsp = cat([]byte{24, 0, byte(2 + 2*n), 0, byte(n)}, data[:2*n])
		req = []byte{24, 0, 0}
		last = 10 + 2*n
		if kind == kASCII {
			last *= 2
		}
	}
	var r *rig
	cut := v.Choose("cut", 0, last)
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			segmented(c, r.frame(b, 9, rsp), []int{cut}, rigTimeout/8)
			return len(b), nil
		}
	})
	got, err := r.p.SendPdu(9, req)
	v.Assert(err == nil, "response accepted however it is cut up")
	v.Assert(v.EqBytes(got, rsp), "response data complete however it is cut up")
	v.Cover("ok")
}
