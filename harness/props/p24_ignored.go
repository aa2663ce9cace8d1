package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// P24_Ignored: a request to a slave that does not exist, or in another protocol, is not
// answered and changes nothing, and the session goes on.
func P24_Ignored() {
	n, s := srvStore(1, srvSizes)
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(n) })
	c := r.connect()
	fc := v.Byte("fc")
	var d []byte
	switch v.Choose("body", 0, 3) {
	case 0:
		d = v.Bytes("data", 4)
	case 1:
		d = cat([]byte{2, 0, 0, 2, 4}, v.Bytes("data", 4))
	case 2:
		d = cat([]byte{0, 7, 0, 3, 1}, v.Bytes("data", 1))
	case 3:
		d = nil
	}
	id, pid := v.Byte("id"), v.U16("pid")
	v.Assume(v.Or(id != 1, pid != 0))
	tid := v.U16("tid")
	f := tcpFrame(tid, id, cat([]byte{fc}, d))
	f[2], f[3] = byte(pid>>8), byte(pid)
	v.Assert(len(ask(c, f)) == 0, "the frame is not answered")
	v.Assert(!c.IsClosed(), "the session goes on")
	sameStore(n, s, "the frame changes nothing")
	want, _ := s.refAnswer(3, []byte{2, 0, 0, 3})
	v.Assert(v.EqBytes(ask(c, tcpFrame(tid, 1, []byte{3, 2, 0, 0, 3})), tcpFrame(tid, 1, want)), "the next request is answered")
	v.Cover("end")
}

// P24_Nodes: every request is carried out on the slave it addresses and no other.
func P24_Nodes() {
	ids := [2]byte{v.Byte("id"), v.Byte("id")}
	v.Assume(ids[0] != ids[1])
	var nodes [2]*modbus.NodeRegister
	var ss [2]*refStore
	for i := range nodes {
		nodes[i], ss[i] = srvStore(ids[i], [4]int{3, 2, 2, 3})
	}
	r := serve(func(srv *modbus.TCPServer) { srv.AddNodes(nodes[0], nodes[1]) })
	c := r.connect()
	k := v.Choose("node", 0, 1)
	pdu := pickPDU()
	want, _ := ss[k].refAnswer(pdu[0], pdu[1:])
	v.Assert(v.EqBytes(ask(c, tcpFrame(9, ids[k], pdu)), tcpFrame(9, ids[k], want)), "the addressed slave answers")
	for i := range nodes {
		sameStore(nodes[i], ss[i], "only the addressed slave changes")
	}
	v.Cover("end")
}

// pickPDU is one valid request of every kind.
func pickPDU() []byte {
	switch v.Choose("pdu", 0, 9) {
	case 0:
		return []byte{1, 0, 7, 0, 3}
	case 1:
		return []byte{2, 1, 44, 0, 2}
	case 2:
		return []byte{3, 2, 0, 0, 3}
	case 3:
		return []byte{4, 0xFF, 0xFA, 0, 2}
	case 4:
		return []byte{5, 0, 8, 0xFF, 0}
	case 5:
		return cat([]byte{6, 2, 1}, v.Bytes("word", 2))
	case 6:
		return cat([]byte{15, 0, 7, 0, 3, 1}, v.Bytes("bits", 1))
	case 7:
		return cat([]byte{16, 2, 1, 0, 2, 4}, v.Bytes("words", 4))
	case 8:
		return cat([]byte{22, 2, 2}, v.Bytes("masks", 4))
	}
	return cat([]byte{23, 2, 0, 0, 3, 2, 1, 0, 1, 2}, v.Bytes("words", 2))
}

// P24_Repeat: frames are ignored however many were ignored before.
func P24_Repeat() { repeated(8, 9, 1) }
