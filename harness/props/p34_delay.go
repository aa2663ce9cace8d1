package props

import (
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P34_Gap: consecutive requests on an RTU line are at least as far apart as request and expected
// response take at the line's baud rate (11 bits per character), plus 3.5 characters of silence;
// above 19200 baud the silence is 1750 microseconds.
func P34_Gap() {
	bauds := []int{300, 1200, 2400, 4800, 9600, 14400, 19200, 38400, 57600, 115200, 250000}
	req, rsp := exchange()
	q := 0
	if req[0] == 3 && len(rsp) == 4 || req[0] == 2 && len(rsp) == 3 {
		q = pick("long", 0, 1, 60, 125)
	}
	if q > 0 {
		bauds = []int{1200, 19200, 57600}
	}
	baud := pick("baud", bauds...)
	if q > 0 && req[0] == 3 && len(rsp) == 4 {
		req[4] = byte(q) // longer responses
		rsp = cat([]byte{3, byte(2 * q)}, make([]byte, 2*q))
	} else if q > 0 && req[0] == 2 {
		req[3], req[4] = byte(q>>4), byte(q<<4)
		rsp = cat([]byte{2, byte(2 * q)}, make([]byte, 2*q))
	}
	first := v.Choose("first", 0, 5) // what becomes of the first request
	l := &env.Line{}
	ids := v.Byte("slave")
	l.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			good := rtuFrame(ids, rsp)
			if c.Writes > 1 {
				c.Feed(good)
				return len(b), nil
			}
			switch first {
			case 0:
				c.Feed(good)
			case 1: // corrupted
				good[len(good)-1] ^= 1
				c.Feed(good)
			case 2: // another function
				c.Feed([]byte{ids, rsp[0]&0x7F ^ 1, 0, 0, 0})
			case 3: // another unit
				c.Feed(rtuFrame(ids+1, rsp))
			case 4: // an exception
				c.Feed(rtuFrame(ids, []byte{rsp[0] | 0x80, 6}))
			case 5: // a broken line
				c.FeedErr(env.ErrTemp)
			}
			return len(b), nil
		}
	}
	env.InstallLine(l)
	p := modbus.NewRTUClientProvider(modbus.WithSerialConfig(serial.Config{BaudRate: baud, DataBits: 8, StopBits: 1, Parity: "E", Timeout: time.Second}))
	for i := 0; i < 2; i++ {
		_, err := p.SendPdu(ids, req)
		if i > 0 || first > 0 {
			continue // a failed exchange may leave characters behind
		}
		if rsp[0] < 0x80 {
			v.Assert(err == nil, "the request is answered")
		}
	}
	c := l.Ports[0]
	chars := int64(len(req) + 3)
	if rsp[0] < 0x80 && rsp[0] != 24 {
		chars += int64(len(rsp) + 3)
	} else {
		chars += 5
	}
	bits := chars * 11
	want := bits * int64(time.Second) / int64(baud)
	if baud > 19200 {
		want += 1750 * int64(time.Microsecond)
	} else {
		want += 35 * 11 * int64(time.Second) / 10 / int64(baud)
	}
	v.Assert(c.WriteAt[1]-c.WriteAt[0] >= want, "requests are spaced by the frames' length and the silent interval")
	v.Assert(c.ReadAt[0] >= c.WriteAt[0], "the response is read after the request is sent")
	v.Cover("end")
}

// P34_Raw: the same for raw requests, down to the shortest frames there are.
func P34_Raw() {
	baud := pick("baud", 300, 9600, 19200, 38400, 115200)
	req := v.Bytes("raw", v.Choose("len", 4, 6))
	v.Assume(v.And(req[1] > 6, req[1] < 15)) // functions of which nothing is known
	l := &env.Line{}
	l.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.Feed([]byte{req[0], req[1], 1, 2})
			return len(b), nil
		}
	}
	env.InstallLine(l)
	p := modbus.NewRTUClientProvider(modbus.WithSerialConfig(serial.Config{BaudRate: baud, DataBits: 8, StopBits: 1, Parity: "E", Timeout: time.Second}))
	for i := 0; i < 2; i++ {
		_, err := p.SendRawFrame(req)
		v.Assert(err == nil, "the request is answered")
	}
	c := l.Ports[0]
	want := int64(len(req)+4) * 11 * int64(time.Second) / int64(baud)
	if baud > 19200 {
		want += 1750 * int64(time.Microsecond)
	} else {
		want += 35 * 11 * int64(time.Second) / 10 / int64(baud)
	}
	v.Assert(c.WriteAt[1]-c.WriteAt[0] >= want, "requests are spaced by the frames' length and the silent interval")
	v.Cover("end")
}
