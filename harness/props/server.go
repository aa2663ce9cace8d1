package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// srvRig is a server on a scripted listener.
type srvRig struct {
	s    *modbus.TCPServer
	l    *env.Listener
	done chan struct{}
	err  error
}

// serve starts a server; setup runs before it listens.
func serve(setup func(s *modbus.TCPServer)) *srvRig {
	r := &srvRig{s: modbus.NewTCPServer(), l: env.NewListener(), done: make(chan struct{})}
	env.InstallListener(r.l, nil)
	if setup != nil {
		setup(r.s)
	}
	go func() {
		r.err = r.s.ListenAndServe("0.0.0.0:502")
		close(r.done)
	}()
	v.Wait()
	return r
}

// connect is a new client connection.
func (r *srvRig) connect() *env.Conn {
	c := env.NewConn()
	r.l.Push(c, nil)
	v.Wait()
	return c
}

// ask sends request bytes and returns everything the server answers.
func ask(c *env.Conn, req []byte) []byte {
	c.Feed(req)
	v.Wait()
	return c.Take()
}

// close shuts the server down and checks that it went away.
func (r *srvRig) close() {
	v.Assert(r.s.Close() == nil, "Close works")
	<-r.done
	v.Assert(r.err != nil, "ListenAndServe ends with an error")
}

// fcs are the functions a server knows.
var fcs = []byte{1, 2, 3, 4, 5, 6, 15, 16, 22, 23}

// refAnswer is the reference server: the response PDU to a request PDU. Everything is symbolic
// but lengths; the model is updated. ok tells whether the request is carried out.
func (s *refStore) refAnswer(fc byte, d []byte) (pdu []byte, code byte) {
	bad := func(c byte) ([]byte, byte) { return []byte{fc | 0x80, c}, c }
	switch fc {
	case 1, 2:
		if len(d) != 4 {
			return bad(3)
		}
		t := tCoil
		if fc == 2 {
			t = tDiscrete
		}
		q := be(d[2:])
		if q < 1 || q > 2000 {
			return bad(3)
		}
		if !s.covers(t, be(d), int(q)) {
			return bad(2)
		}
		k := v.Concrete(int(q))
		b := s.bits(t, be(d), k)
		return cat([]byte{fc, byte(len(b))}, b), 0
	case 3, 4:
		if len(d) != 4 {
			return bad(3)
		}
		t := tHolding
		if fc == 4 {
			t = tInput
		}
		q := be(d[2:])
		if q < 1 || q > 125 {
			return bad(3)
		}
		if !s.covers(t, be(d), int(q)) {
			return bad(2)
		}
		b := s.words(t, be(d), v.Concrete(int(q)))
		return cat([]byte{fc, byte(len(b))}, b), 0
	case 5:
		if len(d) != 4 {
			return bad(3)
		}
		x := be(d[2:])
		if x != 0 && x != 0xFF00 {
			return bad(3)
		}
		if !s.covers(tCoil, be(d), 1) {
			return bad(2)
		}
		s.set(tCoil, be(d), true, v.IteU16(x != 0, 1, 0))
		return cat([]byte{fc}, d), 0
	case 6:
		if len(d) != 4 {
			return bad(3)
		}
		if !s.covers(tHolding, be(d), 1) {
			return bad(2)
		}
		s.set(tHolding, be(d), true, be(d[2:]))
		return cat([]byte{fc}, d), 0
	case 15:
		if len(d) < 5 {
			return bad(3)
		}
		q, n := be(d[2:]), int(d[4])
		if q < 1 || q > 1968 || n != (int(q)+7)/8 || n != len(d)-5 {
			return bad(3)
		}
		if !s.covers(tCoil, be(d), int(q)) {
			return bad(2)
		}
		s.putBits(tCoil, be(d), v.Concrete(int(q)), d[5:])
		return cat([]byte{fc}, d[:4]), 0
	case 16:
		if len(d) < 5 {
			return bad(3)
		}
		q, n := be(d[2:]), int(d[4])
		if q < 1 || q > 123 || n != 2*int(q) || n != len(d)-5 {
			return bad(3)
		}
		if !s.covers(tHolding, be(d), int(q)) {
			return bad(2)
		}
		s.putWords(tHolding, be(d), v.Concrete(int(q)), d[5:])
		return cat([]byte{fc}, d[:4]), 0
	case 22:
		if len(d) != 6 {
			return bad(3)
		}
		if !s.covers(tHolding, be(d), 1) {
			return bad(2)
		}
		and, or := be(d[2:]), be(d[4:])
		s.set(tHolding, be(d), true, s.at(tHolding, be(d))&and|or&^and)
		return cat([]byte{fc}, d), 0
	case 23:
		if len(d) < 9 {
			return bad(3)
		}
		rq, wq, n := be(d[2:]), be(d[6:]), int(d[8])
		if rq < 1 || rq > 125 || wq < 1 || wq > 121 || n != 2*int(wq) || n != len(d)-9 {
			return bad(3)
		}
		if !s.covers(tHolding, be(d), int(rq)) || !s.covers(tHolding, be(d[4:]), int(wq)) {
			return bad(2)
		}
		// the write is performed before the read
		s.putWords(tHolding, be(d[4:]), v.Concrete(int(wq)), d[9:])
		b := s.words(tHolding, be(d), v.Concrete(int(rq)))
		return cat([]byte{fc, byte(len(b))}, b), 0
	}
	return bad(1)
}

// cellAddr is the first address of an access to table t: any address inside the table, or any
// other 16-bit value.
func (s *refStore) dataAddr(t int) []byte {
	a := s.anyAddr(t)
	return []byte{byte(a >> 8), byte(a)}
}

func table(fc byte) int {
	switch fc {
	case 1, 5, 15:
		return tCoil
	case 2:
		return tDiscrete
	case 4:
		return tInput
	}
	return tHolding
}

// app16 appends a big-endian value.
func app16(b []byte, x uint16) []byte { return append(b, byte(x>>8), byte(x)) }

// repeated sends forty requests of the chosen kind, or of all kinds in turn, on one session: each
// is answered by itself, as the reference says, and the session goes on.
func repeated(kinds ...int) {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.RegisterFunctionHandler(0x41, func(_ *modbus.NodeRegister, d []byte) ([]byte, error) {
			return nil, &modbus.ExceptionError{ExceptionCode: 6}
		})
	})
	c := r.connect()
	which := v.Choose("kind", 0, len(kinds))
	x := v.Bytes("x", 4)
	for i := 0; i < 40; i++ {
		k := kinds[i%len(kinds)]
		if which < len(kinds) {
			k = kinds[which]
		}
		tid := uint16(i)<<8 | uint16(x[3])
		id, pdu := byte(1), []byte(nil)
		silent, foreign := false, false
		switch k {
		case 0: // carried out
			pdu = []byte{3, 2, 0, 0, 2}
		case 1:
			pdu = []byte{6, 2, 1, x[0] + byte(i), x[1]}
		case 2:
			pdu = []byte{15, 0, 1, 0, 2, 1, x[2] + byte(i)}
		case 3: // outside the table
			pdu = []byte{3, 2, 7, 0, 2}
		case 4: // a quantity of zero
			pdu = []byte{1, 0, 0, 0, 0}
		case 5: // no such function
			pdu = []byte{0x55, x[0]}
		case 6: // too short
			pdu = []byte{5, x[0]}
		case 7: // refused by its handler
			pdu = []byte{0x41, x[0]}
		case 8: // another slave
			id, pdu, silent = 9, []byte{6, 2, 0, x[0], x[1]}, true
		case 9: // another protocol
			pdu, silent, foreign = []byte{6, 2, 0, x[0], x[1]}, true, true
		}
		f := tcpFrame(tid, id, pdu)
		if foreign {
			f[3] = 7
		}
		var want []byte
		if !silent {
			rsp := []byte{0xC1, 6}
			if k != 7 {
				rsp, _ = s.refAnswer(pdu[0], pdu[1:])
			}
			want = tcpFrame(tid, 1, rsp)
		}
		v.Assert(v.EqBytes(ask(c, f), want), "every request is answered by itself")
		v.Assert(!c.IsClosed(), "the session goes on")
	}
	sameStore(n, s, "the node is as the reference says")
	v.Cover("end")
}
