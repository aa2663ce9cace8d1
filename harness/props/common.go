// Package props holds the property harnesses.
package props

import (
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
	_ "verifharness/vmodel" // models used by the symbolic executor
)

// Transports.
const (
	kRTU = iota
	kASCII
	kTCP
)

// be reads a big-endian 16-bit value.
func be(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }

// RefCRC is the Modbus CRC-16, bit by bit (polynomial 0xA001 reflected, initial value 0xFFFF).
func RefCRC(b []byte) uint16 {
	crc := uint16(0xFFFF)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			crc = v.IteU16(crc&1 != 0, crc>>1^0xA001, crc>>1)
		}
	}
	return crc
}

// RefLRC is the two's complement of the 8-bit sum.
func RefLRC(b []byte) byte {
	s := byte(0)
	for _, x := range b {
		s -= x
	}
	return s
}

// hexDigit is the upper-case hexadecimal digit of a nibble.
func hexDigit(n byte) byte { return v.IteByte(n < 10, '0'+n, 'A'+(n-10)) }

// unhex is the value of a hexadecimal digit and whether it is one (either case).
func unhex(c byte) (byte, bool) {
	d := v.And(c >= '0', c <= '9')
	u := v.And(c >= 'A', c <= 'F')
	l := v.And(c >= 'a', c <= 'f')
	return v.IteByte(d, c-'0', v.IteByte(u, c-'A'+10, c-'a'+10)), v.Or(d, u, l)
}

// cat concatenates.
func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// rtuFrame is the RTU frame of a PDU.
func rtuFrame(id byte, pdu []byte) []byte {
	f := cat([]byte{id}, pdu)
	c := RefCRC(f)
	return append(f, byte(c), byte(c>>8))
}

// asciiFrame is the ASCII frame of a PDU.
func asciiFrame(id byte, pdu []byte) []byte {
	return asciiChars(cat([]byte{id}, pdu), RefLRC(cat([]byte{id}, pdu)))
}

// asciiArrival is the same frame on its way to a client: its checksum is a value of its own,
// equal to the LRC, which keeps the characters that carry it simple.
func asciiArrival(id byte, pdu []byte) []byte {
	raw := cat([]byte{id}, pdu)
	lrc := v.Byte("lrc")
	v.Assume(lrc == RefLRC(raw))
	return asciiChars(raw, lrc)
}

func asciiChars(raw []byte, lrc byte) []byte {
	raw = append(raw, lrc)
	f := []byte{':'}
	for _, b := range raw {
		f = append(f, hexDigit(b>>4), hexDigit(b&15))
	}
	return append(f, '\r', '\n')
}

// tcpFrame is the Modbus/TCP frame of a PDU.
func tcpFrame(tid uint16, id byte, pdu []byte) []byte {
	n := len(pdu) + 1
	return cat([]byte{byte(tid >> 8), byte(tid), 0, 0, byte(n >> 8), byte(n), id}, pdu)
}

// rig is a client provider on a scripted device.
type rig struct {
	kind int
	p    modbus.ClientProvider
	line *env.Line
	dial *env.Dialer
}

const rigTimeout = 1 * time.Second

// newRig creates a provider; setup is called for every opened port or connection.
func newRig(kind int, setup func(k int, c *env.Conn)) *rig {
	return newRigOpts(kind, setup)
}

func newRigOpts(kind int, setup func(k int, c *env.Conn), opts ...modbus.ClientProviderOption) *rig {
	r := &rig{kind: kind}
	cfg := serial.Config{Address: "/dev/ttyX", BaudRate: 19200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: rigTimeout}
	opts = append([]modbus.ClientProviderOption{modbus.WithSerialConfig(cfg), modbus.WithTCPTimeout(rigTimeout)}, opts...)
	if kind == kTCP {
		r.dial = &env.Dialer{Setup: setup}
		env.InstallDialer(r.dial)
		r.p = modbus.NewTCPClientProvider("10.0.0.1:502", opts...)
		return r
	}
	r.line = &env.Line{Setup: setup}
	env.InstallLine(r.line)
	if kind == kRTU {
		r.p = modbus.NewRTUClientProvider(opts...)
	} else {
		r.p = modbus.NewASCIIClientProvider(opts...)
	}
	return r
}

// conns are all connections or ports opened so far.
func (r *rig) conns() []*env.Conn {
	if r.kind == kTCP {
		return r.dial.Conns
	}
	return r.line.Ports
}

func (r *rig) opens() int {
	if r.kind == kTCP {
		return r.dial.Dials
	}
	return r.line.Opens
}

// wrote is everything sent on any connection.
func (r *rig) wrote() []byte {
	var w []byte
	for _, c := range r.conns() {
		w = append(w, c.Wrote...)
	}
	return w
}

func (r *rig) writes() int {
	n := 0
	for _, c := range r.conns() {
		n += c.Writes
	}
	return n
}

// frame is the response frame for pdu to the request bytes req.
func (r *rig) frame(req []byte, id byte, pdu []byte) []byte {
	switch r.kind {
	case kRTU:
		return rtuFrame(id, pdu)
	case kASCII:
		return asciiArrival(id, pdu)
	}
	tid := uint16(0)
	if len(req) >= 2 {
		tid = be(req)
	}
	return tcpFrame(tid, id, pdu)
}

// reqPDU extracts slave and PDU from a request frame written by the code under test.
// It is used where the frame format itself is not in question.
func (r *rig) reqPDU(f []byte) (byte, []byte) {
	switch r.kind {
	case kRTU:
		if len(f) < 4 {
			return 0, nil
		}
		return f[0], f[1 : len(f)-2]
	case kASCII:
		if len(f) < 9 {
			return 0, nil
		}
		var raw []byte
		for i := 1; i+1 < len(f)-2; i += 2 {
			h, _ := unhex(f[i])
			l, _ := unhex(f[i+1])
			raw = append(raw, h<<4|l)
		}
		return raw[0], raw[1 : len(raw)-1]
	}
	if len(f) < 8 {
		return 0, nil
	}
	return f[6], f[7:]
}

// answer makes every request be answered by the frame of pdu.
func (r *rig) answer(id byte, pdu []byte) func(k int, c *env.Conn) {
	return func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.Feed(r.frame(b, id, pdu))
			return len(b), nil
		}
	}
}

// answering creates a rig that answers every request with pdu from slave id.
func answering(kind int, id byte, pdu []byte) *rig {
	var r *rig
	r = newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.Feed(r.frame(b, id, pdu))
			return len(b), nil
		}
	})
	return r
}

// pick chooses one of the values.
func pick(name string, vals ...int) int { return vals[v.Choose(name, 0, len(vals)-1)] }

// excCode is the exception code carried by err, or -1.
func excCode(err error) int {
	e, ok := err.(*modbus.ExceptionError)
	if !ok {
		return -1
	}
	return int(e.ExceptionCode)
}

// w16 is a symbolic 16-bit value made of two symbolic bytes (cheaper to reason about where it
// is taken apart digit by digit).
func w16(name string) uint16 { return uint16(v.Byte(name))<<8 | uint16(v.Byte(name)) }

// pickD chooses one of the given durations.
func pickD(name string, vals ...time.Duration) time.Duration {
	return vals[v.Choose(name, 0, len(vals)-1)]
}

// framedAgain sends three requests of any lengths, on one client or two of a kind: each is framed
// as if it were the only one.
func framedAgain(kind int, frame func(sent []byte, id byte, pdu []byte) []byte) {
	r := newRig(kind, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			if kind == kTCP {
				c.FeedErr(env.ErrReset)
			} else {
				c.FeedErr(serial.ErrTimeout)
			}
			return len(b), nil
		}
	})
	clients := [2]modbus.ClientProvider{r.p, nil}
	switch kind {
	case kRTU:
		clients[1] = modbus.NewRTUClientProvider()
	case kASCII:
		clients[1] = modbus.NewASCIIClientProvider()
	case kTCP:
		clients[1] = modbus.NewTCPClientProvider("10.0.0.2:502")
	}
	for i := 0; i < 3; i++ {
		p := clients[0]
		if i == 1 {
			p = clients[v.Choose("client", 0, 1)]
		}
		d := make([]byte, pick("len", 0, 3, 70, 252, 253))
		for j := range d {
			d[j] = byte(j * (2*i + 3))
		}
		if len(d) > 0 {
			d[0], d[len(d)-1] = v.Byte("first"), v.Byte("last")
		}
		id, fc := v.Byte("id"), byte(3+i)
		var counts [8]int
		for j, c := range r.conns() {
			counts[j] = len(c.Wrote)
		}
		n := r.writes()
		_, err := p.Send(id, modbus.ProtocolDataUnit{FuncCode: fc, Data: clone(d)})
		v.Assert(err != nil, "no response")
		var sent []byte
		for j, c := range r.conns() {
			sent = append(sent, c.Wrote[counts[j]:]...)
		}
		if len(d) > 252 {
			v.Assert(len(sent) == 0, "nothing is sent of a request that is too long")
			continue
		}
		v.Assert(r.writes() == n+1, "one write per request")
		v.Assert(v.EqBytes(sent, frame(sent, id, cat([]byte{fc}, d))), "every request is framed by itself")
	}
	v.Cover("end")
}
