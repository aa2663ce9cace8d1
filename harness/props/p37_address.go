package props

import (
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P37_Default: the remote address of a dialing server defaults to 127.0.0.1 and tcp, whatever
// the port, and unknown schemes are never dialled.
func P37_Default() {
	port := ""
	if n := v.Choose("digits", 0, 4); n == 0 {
		port = []string{"502", "802", "80", "443", "1502", "65535"}[v.Choose("port", 0, 5)]
	} else {
		for i := 0; i < n; i++ {
			port += string(rune('1' + v.Choose("digit", 0, 1)*8))
		}
	}
	s := modbus.NewTCPServerSpecial()
	d := &env.Dialer{}
	env.InstallDialer(d)
	addr, want := "", ""
	switch v.Choose("form", 0, 15) {
	case 0:
		addr, want = ":"+port, "127.0.0.1:"+port
	case 1:
		addr, want = "tcp://:"+port, ":"+port
	case 2:
		addr, want = "host.example:"+port, "host.example:"+port
	case 3:
		addr, want = "tcp://host.example:"+port, "host.example:"+port
	case 4:
		addr, want = "tcp://10.0.0.7:"+port, "10.0.0.7:"+port
	case 5:
		addr = "udp://10.0.0.7:" + port
	case 6:
		addr, want = "[::1]:"+port, "[::1]:"+port
	case 7:
		addr, want = "tcp://[fe80::a1:2]:"+port, "[fe80::a1:2]:"+port
	case 8:
		addr, want = "tcp://gateway-7.plant:"+port+"/line/3", "gateway-7.plant:"+port
	case 9:
		addr, want = "192.168.1.20:"+port, "192.168.1.20:"+port
	case 10:
		addr, want = "TCP://10.0.0.7:"+port, "10.0.0.7:"+port
	case 11:
		addr = "unix://10.0.0.7:" + port
	case 12:
		addr, want = "Line4.Plant:"+port, "Line4.Plant:"+port
	case 13:
		addr, want = "tcp://PLC_3:"+port, "PLC_3:"+port
	case 14:
		addr, want = "localhost:"+port, "localhost:"+port
	case 15:
		addr, want = "tcp://localhost:"+port, "localhost:"+port
	}
	v.Assert(s.AddRemoteServer(addr) == nil, "the address is accepted")
	s.SetReconnectInterval(time.Second)
	v.Assert(s.Start() == nil, "Start works")
	v.Wait()
	if want == "" {
		v.Assert(d.Dials == 0, "unknown schemes are not dialled")
		v.Assert(!s.IsConnected(), "not connected")
		v.Cover("unknown")
		return
	}
	v.Assert(d.Dials == 1, "dialled")
	v.Assert(v.And(d.Network[0] == "tcp", d.Address[0] == want), "the right address is dialled")
	v.Cover("dialled")
}

// P37_Malformed: a malformed address is refused and leaves the one set before, if any.
func P37_Malformed() {
	s := modbus.NewTCPServerSpecial()
	d := &env.Dialer{}
	env.InstallDialer(d)
	before := v.Choose("before", 0, 1) == 1
	if before {
		v.Assert(s.AddRemoteServer("gateway.example:1502") == nil, "the address is accepted")
	}
	addr := []string{"tcp://[::1:502", "tcp://10.0.0.7:5x2", "%zz://10.0.0.7:502", "tcp://host%zz:502"}[v.Choose("form", 0, 3)]
	v.Assert(s.AddRemoteServer(addr) != nil, "the address is refused")
	err := s.Start()
	v.Wait()
	if before {
		v.Assert(err == nil, "Start works")
		v.Assert(d.Dials == 1, "dialled")
		v.Assert(d.Address[0] == "gateway.example:1502", "the address set before is dialled")
		v.Cover("before")
	} else {
		v.Assert(err != nil, "there is nothing to start")
		v.Assert(d.Dials == 0, "nothing is dialled")
		v.Cover("none")
	}
}

// P37_Last: the address set last counts.
func P37_Last() {
	s := modbus.NewTCPServerSpecial()
	d := &env.Dialer{}
	env.InstallDialer(d)
	forms := [][2]string{{":502", "127.0.0.1:502"}, {"10.0.0.7:1502", "10.0.0.7:1502"}, {"tcp://plc.example:503", "plc.example:503"}}
	want := ""
	for i := 0; i < 3; i++ {
		f := forms[v.Choose("addr", 0, 2)]
		v.Assert(s.AddRemoteServer(f[0]) == nil, "the address is accepted")
		want = f[1]
	}
	v.Assert(s.Start() == nil, "Start works")
	v.Wait()
	v.Assert(d.Dials == 1, "dialled")
	v.Assert(v.And(d.Network[0] == "tcp", d.Address[0] == want), "the address set last is dialled")
	v.Cover("end")
}
