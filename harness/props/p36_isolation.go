package props

import (
	"io"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// P36_Sessions: what happens on one session - partial or malformed requests, disconnects,
// handlers that block or panic - does not affect the answers on another.
func P36_Sessions() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) {
		srv.AddNodes(n)
		srv.RegisterFunctionHandler(0x41, func(*modbus.NodeRegister, []byte) ([]byte, error) {
			time.Sleep(time.Hour)
			return nil, nil
		})
		srv.RegisterFunctionHandler(0x42, func(*modbus.NodeRegister, []byte) ([]byte, error) { panic("x") })
	})
	bad, good := r.connect(), r.connect()
	pdu := pickPDU()
	tid := v.U16("tid")
	f := tcpFrame(tid, 1, pdu)
	cut := v.Choose("cut", 0, len(f)-1)
	good.Feed(f[:cut])
	v.Wait()
	switch v.Choose("bad", 0, 6) {
	case 0:
		ask(bad, v.Bytes("junk", 7))
	case 1:
		ask(bad, cat([]byte{0, 1, 0, 0, 0, 5}, v.Bytes("junk", 3)))
	case 2:
		bad.FeedErr(io.EOF)
	case 3:
		bad.FeedErr(env.ErrReset)
	case 4:
		ask(bad, tcpFrame(tid, 1, []byte{0x41, 1}))
	case 5:
		ask(bad, tcpFrame(tid, 1, []byte{0x42, 1}))
	case 6: // never reads its responses
		bad.OnWrite = func(*env.Conn, []byte) (int, error) {
			time.Sleep(time.Second)
			return 0, env.ErrTimeoutNet
		}
		ask(bad, tcpFrame(tid, 1, []byte{3, 2, 0, 0, 1}))
	}
	v.Wait()
	want, _ := s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(good, f[cut:]), tcpFrame(tid, 1, want)), "the other session is answered")
	sameStore(n, s, "and its request carried out")
	v.Cover("end")
}

// P36_Parallel: requests on two sessions under all interleavings: each is answered as if they
// came one after the other, in some order, and there is no data race.
func P36_Parallel() {
	n, s := newStore(1, [4]uint16{}, [4]int{3, 1, 1, 2})
	fillStore(n, s)
	var srv *modbus.TCPServer
	r := serve(func(x *modbus.TCPServer) { srv = x; x.AddNodes(n) })
	_ = srv
	a, b := r.connect(), r.connect()
	mk := func(k int) []byte {
		switch k {
		case 0:
			return cat([]byte{16, 0, 0, 0, 2, 4}, v.Bytes("w", 4))
		case 1:
			return []byte{3, 0, 0, 0, 2}
		case 2:
			return cat([]byte{23, 0, 0, 0, 2, 0, 0, 0, 1, 2}, v.Bytes("w", 2))
		case 3:
			return cat([]byte{15, 0, 0, 0, 3, 1}, v.Bytes("c", 1))
		case 4:
			return []byte{1, 0, 0, 0, 3}
		case 5:
			return cat([]byte{22, 0, 1}, v.Bytes("m", 4))
		case 6:
			return cat([]byte{6, 0, 1}, v.Bytes("w", 2))
		case 8: // refused in one way or another
			return [][]byte{{0x41}, {22, 0, 9, 0, 0, 0, 0}, {22, 0, 0}, {6, 9, 9, 0, 0}, {1, 0, 0, 0, 0}}[v.Choose("bad", 0, 4)]
		}
		return []byte{5, 0, 2, 0xFF * byte(v.Choose("on", 0, 1)), 0}
	}
	first := v.Choose("first", 0, 8)
	second := v.Choose("second", first, 8)
	if second == 8 && first != 1 && first != 5 && first != 8 {
		v.Stop()
	}
	p, q := mk(first), mk(second)
	v.Interleave(2)
	a.Feed(tcpFrame(1, 1, p))
	b.Feed(tcpFrame(2, 1, q))
	v.Wait()
	v.Sequential()
	ga, gb := a.Take(), b.Take()
	s2 := s.copy()
	ap, _ := s.refAnswer(p[0], p[1:])
	bq, _ := s.refAnswer(q[0], q[1:])
	bq2, _ := s2.refAnswer(q[0], q[1:])
	ap2, _ := s2.refAnswer(p[0], p[1:])
	if p[0] == 23 || q[0] == 23 {
		// read/write is two steps: only its own session's order is fixed
		v.Assert(v.And(len(ga) == 7+len(ap), len(gb) == 7+len(bq)), "both are answered")
		v.Cover("read/write")
		return
	}
	one := v.And(v.EqBytes(ga, tcpFrame(1, 1, ap)), v.EqBytes(gb, tcpFrame(2, 1, bq)))
	two := v.And(v.EqBytes(ga, tcpFrame(1, 1, ap2)), v.EqBytes(gb, tcpFrame(2, 1, bq2)))
	v.Assert(v.Or(one, two), "both are answered as if one came after the other")
	now := modbusState(n)
	v.Assert(v.Or(v.And(one, v.EqBytes(now, s.state())), v.And(two, v.EqBytes(now, s2.state()))), "and carried out so")
	v.Cover("end")
}

func (s *refStore) copy() *refStore {
	c := &refStore{start: s.start}
	for t := range s.cells {
		c.cells[t] = append([]uint16{}, s.cells[t]...)
	}
	return c
}

// modbusState is the contents of a small node, state that of its model.
func modbusState(n *modbus.NodeRegister) []byte {
	_, q := n.CoilsAddrParam()
	c, err := n.ReadCoils(0, q)
	_, q = n.HoldingAddrParam()
	h, err2 := n.ReadHoldingsBytes(0, q)
	v.Assert(err == nil && err2 == nil, "the node can be read")
	return cat(c, h)
}

func (s *refStore) state() []byte {
	return cat(s.bits(tCoil, 0, len(s.cells[tCoil])), s.words(tHolding, 0, len(s.cells[tHolding])))
}

// P36_Repeated: a request that is the same as the one before, byte for byte, is carried out and
// answered like any other, also when something else changed the registers in between.
func P36_Repeated() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	a, b := r.connect(), r.connect()
	pdu, tid := pickPDU(), v.U16("tid")
	want, _ := s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(a, tcpFrame(tid, 1, pdu)), tcpFrame(tid, 1, want)), "the request is answered")
	switch v.Choose("change", 0, 2) {
	case 0: // the program that owns the node
		w := v.U16("w")
		addr := s.start[tHolding]
		v.Assert(n.WriteHoldings(addr, []uint16{w}) == nil, "a write works")
		s.set(tHolding, addr, true, w)
		w = v.U16("w")
		addr = s.start[tInput]
		v.Assert(n.WriteInputs(addr, []uint16{w}) == nil, "a write works")
		s.set(tInput, addr, true, w)
		x := v.Byte("x")
		v.Assert(n.WriteCoils(s.start[tCoil], 2, []byte{x}) == nil, "a write works")
		s.putBits(tCoil, s.start[tCoil], 2, []byte{x})
		v.Assert(n.WriteDiscretes(s.start[tDiscrete], 2, []byte{x}) == nil, "a write works")
		s.putBits(tDiscrete, s.start[tDiscrete], 2, []byte{x})
	case 1: // another session
		for _, p := range [][]byte{
			cat([]byte{6, byte(s.start[tHolding] >> 8), byte(s.start[tHolding])}, v.Bytes("w", 2)),
			{5, byte(s.start[tCoil] >> 8), byte(s.start[tCoil]), 0xFF * byte(v.Choose("on", 0, 1)), 0},
		} {
			other, _ := s.refAnswer(p[0], p[1:])
			v.Assert(v.EqBytes(ask(b, tcpFrame(tid, 1, p)), tcpFrame(tid, 1, other)), "the other session is answered")
		}
	}
	want, _ = s.refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(a, tcpFrame(tid, 1, pdu)), tcpFrame(tid, 1, want)), "the same request again is answered")
	sameStore(n, s, "and carried out")
	v.Cover("end")
}
