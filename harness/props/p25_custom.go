package props

import (
	"io"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P25_Handler: a registered handler is called exactly once per request to its function, with the
// addressed node and exactly the request's data, and the response carries exactly its result.
func P25_Handler() {
	n, s := srvStore(1, [4]int{3, 2, 2, 3})
	other, _ := srvStore(2, [4]int{3, 2, 2, 3})
	fc := v.Byte("fc") // any, also one of the standard functions
	d := v.Bytes("data", pick("len", 0, 1, 4, 9))
	keep := clone(d)
	var out []byte
	how := v.Choose("how", 0, 5)
	calls := 0
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(other, n)
		srv.RegisterFunctionHandler(fc, func(reg *modbus.NodeRegister, data []byte) ([]byte, error) {
			calls++
			v.Assert(reg == n, "the handler gets the addressed node")
			v.Assert(v.And(len(data) == len(keep), v.EqBytes(data, keep)), "the handler gets the request's data")
			switch how {
			case 0:
				out = v.Bytes("out", pick("outlen", 0, 1, 2, 40))
				return clone(out), nil
			case 1: // the data itself
				out = clone(data)
				return data, nil
			case 2: // its tail
				k := len(data) / 2
				out = clone(data[k:])
				return data[k:], nil
			case 3: // overwritten
				for i := range data {
					data[i] = ^data[i]
				}
				out = clone(data)
				return data, nil
			case 4: // nothing
				return nil, nil
			}
			out = make([]byte, 252)
			out[0], out[251] = v.Byte("o"), v.Byte("o")
			return clone(out), nil
		})
	})
	c := r.connect()
	tid := v.U16("tid")
	got := ask(c, tcpFrame(tid, 1, cat([]byte{fc}, d)))
	v.Assert(calls == 1, "the handler is called once")
	v.Assert(v.EqBytes(got, tcpFrame(tid, 1, cat([]byte{fc}, out))), "the response carries the handler's result")
	sameStore(n, s, "nothing else happens to the node")
	v.Cover("end")
}

// P25_Others: registering a handler leaves all other functions as they were; a nil handler
// changes nothing; the last registration counts.
func P25_Others() {
	n, s := srvStore(1, [4]int{3, 2, 2, 3})
	pdu := pickPDU()
	mine := v.Byte("mine")
	twice := v.Choose("twice", 0, 2)
	mk := func(x byte) modbus.FunctionHandler {
		return func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{x}, nil }
	}
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		if twice == 1 {
			srv.RegisterFunctionHandler(mine, mk(1))
		}
		if twice < 2 {
			srv.RegisterFunctionHandler(mine, mk(2))
		}
		srv.RegisterFunctionHandler(mine, nil)
	})
	c := r.connect()
	got := ask(c, tcpFrame(3, 1, pdu))
	if twice < 2 && mine == pdu[0] {
		v.Assert(v.EqBytes(got, tcpFrame(3, 1, []byte{mine, 2})), "the last handler registered answers")
		v.Cover("mine")
	} else {
		want, _ := s.refAnswer(pdu[0], pdu[1:])
		v.Assert(v.EqBytes(got, tcpFrame(3, 1, want)), "other functions are unaffected")
		v.Cover("other")
	}
	sameStore(n, s, "the node is as the reference says")
}

// P25_Separate: handlers belong to the server they were registered with.
func P25_Separate() {
	n, s := srvStore(1, [4]int{3, 2, 2, 3})
	pdu := pickPDU()
	a := serve(func(srv *modbus.TCPServer) {
		for _, fc := range fcs {
			srv.RegisterFunctionHandler(fc, func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{9}, nil })
		}
	})
	_ = a
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	want, _ := s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(r.connect(), tcpFrame(3, 1, pdu)), tcpFrame(3, 1, want)), "another server's handlers do not matter")
	v.Cover("end")
}

// P25_Panic: a handler that panics does not take the server or the session down.
func P25_Panic() {
	n, s := srvStore(1, [4]int{3, 2, 2, 3})
	how := v.Choose("how", 0, 2)
	calls := 0
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.RegisterFunctionHandler(0x41, func(reg *modbus.NodeRegister, data []byte) ([]byte, error) {
			if calls++; calls > 2 {
				return []byte{byte(calls)}, nil
			}
			switch how {
			case 0:
				panic("handler")
			case 1:
				var m map[int]int
				m[1] = 2
			case 2:
				return data[len(data)+1:], nil
			}
			return nil, nil
		})
	})
	c := r.connect()
	ask(c, tcpFrame(1, 1, cat([]byte{0x41}, v.Bytes("data", 2))))
	e := r.connect()
	ask(e, tcpFrame(1, 1, cat([]byte{0x41}, v.Bytes("data", 2))))
	v.Assert(calls == 2, "the handler is called for every request")
	d := r.connect()
	pdu := pickPDU()
	want, _ := s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(d, tcpFrame(2, 1, pdu)), tcpFrame(2, 1, want)), "other sessions go on")
	v.Assert(v.EqBytes(ask(d, tcpFrame(3, 1, []byte{0x41})), tcpFrame(3, 1, []byte{0x41, 3})), "the handler is called again")
	if !c.IsClosed() {
		want, _ = s.refAnswer(3, []byte{2, 0, 0, 3})
		v.Assert(v.EqBytes(ask(c, tcpFrame(4, 1, []byte{3, 2, 0, 0, 3})), tcpFrame(4, 1, want)), "the session goes on")
	}
	for _, x := range []*env.Conn{c, e, d} {
		x.FeedErr(io.EOF)
		v.Wait()
		v.Assert(x.IsClosed(), "its connection is closed when the peer ends it")
	}
	v.Assert(r.s.Close() == nil, "the server can be closed")
	<-r.done
	v.Cover("end")
}

// P25_All: there may be a handler for every function code there is.
func P25_All() {
	n, _ := srvStore(1, [4]int{3, 2, 2, 3})
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		for i := 0; i < 256; i++ {
			i := i
			srv.RegisterFunctionHandler(byte(i), func(*modbus.NodeRegister, []byte) ([]byte, error) {
				return []byte{byte(i), ^byte(i)}, nil
			})
		}
	})
	c := r.connect()
	fc := v.Byte("fc")
	v.Assert(v.EqBytes(ask(c, tcpFrame(3, 1, []byte{fc, 7})), tcpFrame(3, 1, []byte{fc, fc, ^fc})), "every handler answers its function")
	v.Cover("end")
}
