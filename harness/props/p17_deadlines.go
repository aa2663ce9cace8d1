package props

import (
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P17_TCP: with a timeout, no TCP request waits longer than that for the peer at any step: to
// connect, to send, for the header, for the rest.
func P17_TCP() {
	to := time.Duration(pick("timeout", 1, 7, 700, 1400, 3000, 120000)) * time.Millisecond / 2
	stop := v.Choose("stop", 0, 13) // the peer goes silent after that many response bytes
	d := &env.Dialer{}
	d.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			left := c.WDL.Sub(time.Now())
			v.Assert(v.And(left > 0, left <= to), "sending is bounded by the timeout")
			f := tcpFrame(be(b), 1, cat([]byte{3, 4}, v.Bytes("x", 4)))
			c.Feed(f[:stop])
			if stop == 13 {
				c.Feed(nil)
			}
			return len(b), nil
		}
	}
	env.InstallDialer(d)
	p := modbus.NewTCPClientProvider("plc:502", modbus.WithTCPTimeout(to))
	t0 := time.Now()
	_, err := p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 2}})
	took := time.Since(t0)
	if stop == 13 {
		v.Assert(err == nil, "a complete response is accepted")
		v.Assert(took == 0, "without delay")
		v.Cover("complete")
	} else {
		v.Assert(err != nil, "a silent peer is an error")
		v.Assert(took <= to, "after the timeout")
		v.Assert(took >= to, "not before the timeout")
		v.Cover("silent")
	}
	v.Assert(d.Dials == 1, "one dial")
	v.Assert(v.And(d.Network[0] == "tcp", d.Address[0] == "plc:502"), "the configured address is dialled")
	v.Assert(d.Timeout[0] == to, "connecting is bounded by the timeout")
	v.Assert(d.Conns[0].UnboundRd == 0, "every read is bounded")
	v.Assert(d.Conns[0].UnboundWr == 0, "every write is bounded")
}

// P17_Fresh: a response that arrives within the timeout of its request is accepted however long
// the connection was idle or in use before.
func P17_Fresh() {
	idle := time.Duration(pick("idle", 0, 60, 250, 450, 900, 1100, 90000)) * time.Millisecond
	lags := [3]time.Duration{}
	for i := range lags {
		lags[i] = time.Duration(pick("lag", 0, 450, 990)) * time.Millisecond
	}
	d := &env.Dialer{}
	d.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			f := tcpFrame(be(b), 1, []byte{3, 2, 1, 2})
			lag := lags[c.Writes-1]
			go func() {
				time.Sleep(lag)
				c.Feed(f)
			}()
			return len(b), nil
		}
	}
	env.InstallDialer(d)
	p := modbus.NewTCPClientProvider("plc:502", modbus.WithTCPTimeout(time.Second))
	for i := 0; i < 3; i++ {
		_, err := p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
		v.Assert(err == nil, "a timely response is accepted")
		time.Sleep(idle)
	}
	v.Assert(d.Dials == 1, "the connection is kept")
	v.Cover("end")
}

// P17_None: without a timeout, requests wait as long as it takes.
func P17_None() {
	before := v.Bool("before") // a timeout of zero means none
	_ = before
	d := &env.Dialer{}
	d.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			f := tcpFrame(be(b), 1, []byte{3, 2, 1, 2})
			go func() {
				time.Sleep(time.Hour)
				c.Feed(f)
			}()
			return len(b), nil
		}
	}
	env.InstallDialer(d)
	p := modbus.NewTCPClientProvider("plc:502", modbus.WithTCPTimeout(0))
	_, err := p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
	v.Assert(err == nil, "a late response is accepted")
	v.Cover("end")
}

// P17_Default: by default a silent peer is given up after the documented second.
func P17_Default() {
	d := &env.Dialer{}
	env.InstallDialer(d)
	p := modbus.NewTCPClientProvider("plc:502")
	t0 := time.Now()
	_, err := p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
	v.Assert(err != nil, "a silent peer is an error")
	v.Assert(v.And(time.Since(t0) >= time.Second, time.Since(t0) <= 1100*time.Millisecond), "after a second")
	v.Assert(d.Timeout[0] == time.Second, "connecting is bounded by the timeout")
	v.Cover("end")
}

// P17_Serial: serial ports are opened with exactly the configuration given, and a silent device
// is given up after the configured timeout.
func P17_Serial() {
	ascii := v.Choose("ascii", 0, 1)
	stop := v.Choose("stop", 0, 3)
	cfg := serial.Config{Address: "/dev/ttyUSB3", BaudRate: pick("baud", 0, 1200, 9600, 115200), DataBits: pick("bits", 0, 7, 8), StopBits: pick("stopbits", 0, 1, 2),
		Parity: []string{"N", "E", ""}[v.Choose("parity", 0, 2)], Timeout: time.Duration(pick("timeout", 500, 2000)) * time.Millisecond}
	if v.Choose("rs485", 0, 1) == 1 {
		cfg.RS485 = serial.RS485Config{Enabled: true, DelayRtsBeforeSend: time.Millisecond, DelayRtsAfterSend: 2 * time.Millisecond, RtsHighDuringSend: true, RxDuringTx: true}
	}
	l := &env.Line{Setup: func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			c.Feed([]byte{':', '0', '1'}[:stop])
			return len(b), nil
		}
	}}
	env.InstallLine(l)
	var p modbus.ClientProvider
	if ascii == 1 {
		p = modbus.NewASCIIClientProvider(modbus.WithSerialConfig(cfg))
	} else {
		p = modbus.NewRTUClientProvider(modbus.WithSerialConfig(cfg))
	}
	t0 := time.Now()
	_, err := p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
	took := time.Since(t0)
	v.Assert(err != nil, "a silent device is an error")
	v.Assert(l.Cfg.Address == cfg.Address, "the configured device is opened")
	v.Assert(v.And(l.Cfg.BaudRate == cfg.BaudRate, l.Cfg.DataBits == cfg.DataBits, l.Cfg.StopBits == cfg.StopBits), "with the configured line settings")
	v.Assert(l.Cfg.RS485 == cfg.RS485, "with the configured RS485 settings")
	v.Assert(v.And(l.Cfg.Parity == cfg.Parity, l.Cfg.Timeout == cfg.Timeout), "with the configured parity and timeout")
	v.Assert(took >= cfg.Timeout, "the device has the configured time to answer")
	v.Assert(took <= cfg.Timeout+time.Second, "the device is given up after the configured time")
	v.Cover("end")
}

// P17_SerialNone: without a timeout in the serial configuration, requests wait as long as it takes.
func P17_SerialNone() {
	kind := v.Choose("kind", kRTU, kASCII)
	cfg := serial.Config{Address: "/dev/ttyUSB3", BaudRate: 9600, DataBits: 8, StopBits: 1, Parity: "N"}
	r := newRigOpts(kind, nil, modbus.WithSerialConfig(cfg))
	x := v.Bytes("x", 2)
	r.line.Setup = func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			f := r.frame(b, 1, cat([]byte{3, 2}, x))
			go func() {
				time.Sleep(time.Hour)
				c.Feed(f)
			}()
			return len(b), nil
		}
	}
	rsp, err := r.p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
	v.Assert(r.line.Cfg.Timeout == 0, "the port is opened with the configuration given")
	v.Assert(err == nil, "a late response is accepted")
	v.Assert(v.EqBytes(rsp.Data, cat([]byte{2}, x)), "with its data")
	v.Cover("end")
}

// P17_Slow: the header and the rest of a response may each take up to the timeout.
func P17_Slow() {
	to := time.Duration(pick("timeout", 10, 1000, 400000)) * time.Millisecond
	lag := [2]time.Duration{}
	for i := range lag {
		lag[i] = to / 10 * time.Duration(pick("lag", 0, 5, 9))
	}
	cut := v.Choose("cut", 7, 8)
	x := v.Bytes("x", 2)
	r := newRigOpts(kTCP, func(k int, c *env.Conn) {
		c.OnWrite = func(c *env.Conn, b []byte) (int, error) {
			f := tcpFrame(be(b), 1, cat([]byte{3, 2}, x))
			go func() {
				time.Sleep(lag[0])
				c.Feed(f[:7])
				time.Sleep(lag[1])
				if cut == 7 {
					c.Feed(f[7:])
					return
				}
				c.Feed(f[7:cut])
				c.Feed(f[cut:])
			}()
			return len(b), nil
		}
	}, modbus.WithTCPTimeout(to))
	for i := 0; i < 2; i++ {
		rsp, err := r.p.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: []byte{0, 0, 0, 1}})
		v.Assert(err == nil, "a timely response is accepted")
		v.Assert(v.EqBytes(rsp.Data, cat([]byte{2}, x)), "with its data")
	}
	v.Cover("end")
}
