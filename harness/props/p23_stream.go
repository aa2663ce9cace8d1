package props

import (
	"io"

	modbus "github.com/things-go/go-modbus"

	"verifharness/env"
	"verifharness/v"
)

// refStream is what a server has to answer to a byte stream, and whether it has to give the
// connection up because of an impossible length.
func (s *refStore) refStream(id byte, in []byte) (out []byte, dead bool) {
	for len(in) >= 7 {
		l := int(be(in[4:]))
		if l < 2 || l > 254 {
			return out, true
		}
		if l > len(in)-6 {
			return out, false // incomplete
		}
		l = v.Concrete(l)
		f := in[:6+l]
		in = in[6+l:]
		if be(f[2:]) != 0 || f[6] != id {
			continue
		}
		pdu, _ := s.refAnswer(f[7], f[8:])
		out = append(out, tcpFrame(be(f), id, pdu)...)
	}
	return out, false
}

// P23_Stream: for any byte stream, the answers are exactly those to the complete frames in it.
func P23_Stream() {
	size := 16
	if v.Tier() == 1 {
		size = 22
	}
	n, s := srvStore(1, [4]int{2, 2, 1, 1})
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	in := v.Bytes("in", size)
	got := ask(c, clone(in))
	want, dead := s.refStream(1, in)
	v.Assert(len(got) == len(want), "as many response bytes as the complete requests call for")
	v.Assert(v.EqBytes(got, want), "every complete request is answered, in order")
	sameStore(n, s, "exactly the requests received are carried out")
	if dead {
		v.Assert(c.IsClosed(), "an impossible length ends the session")
		v.Cover("dead")
	} else {
		v.Assert(!c.IsClosed(), "the connection stays open")
		c.FeedErr(io.EOF)
		v.Wait()
		v.Assert(c.IsClosed(), "the server closes its side after the client did")
		v.Assert(len(c.Take()) == 0, "an incomplete request is not answered")
		v.Cover("alive")
	}
	if len(got) > 0 {
		v.Cover("answered")
	}
	// the server still serves others
	d := r.connect()
	want, _ = s.refStream(1, tcpFrame(5, 1, []byte{3, 2, 0, 0, 1}))
	v.Assert(v.EqBytes(ask(d, tcpFrame(5, 1, []byte{3, 2, 0, 0, 1})), want), "other sessions are served")
}

// pipelined is a stream of three requests and its answers.
func pipelined(s *refStore) (in, want []byte) {
	switch v.Choose("mix", 0, 2) {
	case 0:
		in = cat(tcpFrame(v.U16("tid"), 1, cat([]byte{16, 2, 0, 0, 2, 4}, v.Bytes("w", 4))),
			tcpFrame(v.U16("tid"), 1, []byte{3, 2, 0, 0, 3}),
			tcpFrame(v.U16("tid"), 1, []byte{0x55}))
	case 1:
		in = cat(tcpFrame(v.U16("tid"), 2, []byte{6, 2, 0, 1, 2}),
			tcpFrame(v.U16("tid"), 1, []byte{7, 3}),
			tcpFrame(v.U16("tid"), 1, cat([]byte{15, 0, 7, 0, 9, 2}, v.Bytes("b", 2))))
	case 2:
		in = cat(tcpFrame(v.U16("tid"), 1, []byte{1, 0, 7, 0, 9}),
			tcpFrame(v.U16("tid"), 1, cat([]byte{22, 2, 1}, v.Bytes("m", 4))),
			tcpFrame(v.U16("tid"), 1, []byte{3, 2, 1, 0, 1}))
	}
	want, _ = s.refStream(1, in)
	return in, want
}

// P23_Segment: however a stream of requests is cut into pieces, the answers are the same.
func P23_Segment() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	in, want := pipelined(s)
	i := v.Choose("cut", 0, len(in))
	j := v.Choose("cut2", i, len(in))
	if v.Tier() == 0 && j != i && j != len(in) {
		v.Assume(j-i <= 8)
	}
	got := ask(c, in[:i])
	got = append(got, ask(c, in[i:j])...)
	got = append(got, ask(c, in[j:])...)
	v.Assert(v.EqBytes(got, want), "the answers do not depend on the segmentation")
	sameStore(n, s, "the effects do not depend on the segmentation")
	v.Assert(!c.IsClosed(), "the connection stays open")
	v.Cover("end")
}

// P23_Chunk: the same when every read returns a few bytes only.
func P23_Chunk() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := env.NewConn()
	c.MaxChunk = v.Choose("chunk", 1, 9)
	r.l.Push(c, nil)
	in, want := pipelined(s)
	got := ask(c, in)
	v.Assert(v.EqBytes(got, want), "the answers do not depend on the segmentation")
	sameStore(n, s, "the effects do not depend on the segmentation")
	v.Cover("end")
}

// P23_Longest: requests up to the largest frame are answered, whatever is left over from the
// ones before.
func P23_Longest() {
	n, s := newStore(1, [4]uint16{}, [4]int{0, 0, 0, 123})
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	for i := 0; i < 3; i++ {
		k := pick("quantity", 1, 60, 123)
		req := cat([]byte{16, 0, 0, 0, byte(k), byte(2 * k)}, v.Bytes("w", 2*k))
		want, _ := s.refAnswer(16, req[1:])
		tid := v.U16("tid")
		v.Assert(v.EqBytes(ask(c, tcpFrame(tid, 1, req)), tcpFrame(tid, 1, want)), "the write is confirmed")
		q := pick("readback", 1, 123)
		want, _ = s.refAnswer(3, []byte{0, 0, 0, byte(q)})
		v.Assert(v.EqBytes(ask(c, tcpFrame(tid, 1, []byte{3, 0, 0, 0, byte(q)})), tcpFrame(tid, 1, want)), "the values are read back")
	}
	v.Cover("end")
}

// P23_Repeat: a session goes on whatever requests came before, in any number.
func P23_Repeat() { repeated(0, 3, 8, 1, 9, 5, 2, 6) }
