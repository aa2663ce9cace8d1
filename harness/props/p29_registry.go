package props

import (
	modbus "github.com/things-go/go-modbus"

	"verifharness/v"
)

// P29_Registry: after any history of adding and deleting, the registry holds, per slave id, the
// node added last and not deleted since; lookups, lists, scans and requests all agree with that.
func P29_Registry() {
	steps := 3
	if v.Tier() == 1 {
		steps = 4
	}
	ids := [3]byte{v.Byte("id"), v.Byte("id"), v.Byte("id")}
	var nodes [3]*modbus.NodeRegister
	for i := range nodes {
		nodes[i] = modbus.NewNodeRegister(ids[i], 0, 0, 0, 0, 0, 0, 0, 1)
		v.Assert(nodes[i].WriteHoldings(0, []uint16{uint16(i)}) == nil, "set up")
	}
	var srv *modbus.TCPServer
	r := serve(func(s *modbus.TCPServer) { srv = s })
	in := [3]bool{}
	add := func(i int) {
		for j := range in {
			in[j] = v.And(in[j], ids[j] != ids[i])
		}
		in[i] = true
	}
	for s := 0; s < steps; s++ {
		switch op := v.Choose("op", 0, 5); op {
		case 0, 1, 2:
			srv.AddNodes(nodes[op])
			add(op)
		case 3:
			srv.AddNodes(nodes[0], nodes[1])
			add(0)
			add(1)
		case 4:
			id := v.Byte("del")
			srv.DeleteNode(id)
			for j := range in {
				in[j] = v.And(in[j], ids[j] != id)
			}
		case 5:
			srv.DeleteAllNode()
			in = [3]bool{}
		}
	}
	count := 0
	for i := range in {
		count += v.IteInt(in[i], 1, 0)
	}
	list := srv.GetNodeList()
	v.Assert(len(list) == count, "the list has every node once")
	for _, n := range list {
		ok := false
		for i := range nodes {
			ok = v.Or(ok, v.And(in[i], n == nodes[i]))
		}
		v.Assert(ok, "the list has registered nodes only")
	}
	for a := range list {
		for b := range list[:a] {
			v.Assert(list[a] != list[b], "no node is listed twice")
		}
	}
	seen := 0
	srv.Range(func(id byte, n *modbus.NodeRegister) bool {
		ok := false
		for i := range nodes {
			ok = v.Or(ok, v.And(in[i], n == nodes[i], id == ids[i]))
		}
		v.Assert(ok, "a scan visits registered nodes under their ids")
		seen++
		return true
	})
	v.Assert(seen == count, "a scan visits every node once")
	if count > 1 {
		seen = 0
		srv.Range(func(byte, *modbus.NodeRegister) bool { seen++; return false })
		v.Assert(seen == 1, "a scan stops when told to")
		v.Cover("many")
	}
	q := v.Byte("query")
	n, err := srv.GetNode(q)
	var want *modbus.NodeRegister
	k := 0
	for i := range nodes {
		if v.And(in[i], ids[i] == q) {
			want, k = nodes[i], i
		}
	}
	v.Assert((err == nil) == (want != nil), "a lookup succeeds iff the slave is registered")
	got := ask(r.connect(), tcpFrame(1, q, []byte{3, 0, 0, 0, 1}))
	if want != nil {
		v.Assert(n == want, "a lookup finds the slave's node")
		v.Assert(v.EqBytes(got, tcpFrame(1, q, []byte{3, 2, 0, byte(k)})), "requests reach the slave's node")
		v.Cover("found")
	} else {
		v.Assert(n == nil, "no node for an unknown slave")
		v.Assert(len(got) == 0, "an unknown slave does not answer")
		v.Cover("unknown")
	}
}

// P29_Live: changes take effect for sessions that are already open.
func P29_Live() {
	id := v.Byte("id")
	a := modbus.NewNodeRegister(id, 0, 0, 0, 0, 0, 0, 0, 1)
	b := modbus.NewNodeRegister(id, 0, 0, 0, 0, 0, 0, 0, 1)
	v.Assert(b.WriteHoldings(0, []uint16{7}) == nil, "set up")
	r := serve(nil)
	c := r.connect()
	req := tcpFrame(1, id, []byte{3, 0, 0, 0, 1})
	v.Assert(len(ask(c, req)) == 0, "not registered yet")
	r.s.AddNodes(a)
	v.Assert(v.EqBytes(ask(c, req), tcpFrame(1, id, []byte{3, 2, 0, 0})), "registered")
	r.s.AddNodes(b)
	v.Assert(v.EqBytes(ask(c, req), tcpFrame(1, id, []byte{3, 2, 0, 7})), "replaced")
	if v.Choose("all", 0, 1) == 1 {
		r.s.DeleteAllNode()
	} else {
		r.s.DeleteNode(id)
	}
	v.Assert(len(ask(c, req)) == 0, "deleted")
	v.Assert(!c.IsClosed(), "the session goes on")
	r.s.AddNodes(a)
	v.Assert(v.EqBytes(ask(c, req), tcpFrame(1, id, []byte{3, 2, 0, 0})), "registered again")
	v.Cover("end")
}

// P29_Renamed: a node stays registered under the id it had when it was added, until that is
// deleted.
func P29_Renamed() {
	id, other := v.Byte("id"), v.Byte("other")
	v.Assume(id != other)
	a := modbus.NewNodeRegister(id, 0, 0, 0, 0, 0, 0, 0, 1)
	b := modbus.NewNodeRegister(other, 0, 0, 0, 0, 0, 0, 0, 1)
	r := serve(nil)
	r.s.AddNodes(a)
	both := v.Choose("both", 0, 1) == 1
	if both {
		r.s.AddNodes(b)
	}
	na, nb := v.Byte("newA"), v.Byte("newB")
	v.Assume(v.And(na != id, nb != other))
	a.SetSlaveID(na)
	b.SetSlaveID(nb)
	req := tcpFrame(1, id, []byte{3, 0, 0, 0, 1})
	v.Assert(v.EqBytes(ask(r.connect(), req), tcpFrame(1, id, []byte{3, 2, 0, 0})), "still answered")
	v.Assert(v.EqBytes(ask(r.connect(), tcpFrame(2, id, []byte{3, 0, 0, 0, 2})), tcpFrame(2, id, []byte{0x83, 2})), "exceptions too")
	k := 0
	r.s.Range(func(i byte, n *modbus.NodeRegister) bool {
		v.Assert(v.Or(v.And(n == a, i == id), v.And(n == b, i == other)), "a scan gives the ids nodes are registered under")
		k++
		return true
	})
	v.Assert(k == 1 || both && k == 2, "a scan visits every node once")
	if v.Choose("all", 0, 1) == 1 {
		r.s.DeleteAllNode()
		v.Assert(len(r.s.GetNodeList()) == 0, "all nodes are deleted")
		_, err := r.s.GetNode(other)
		v.Assert(err != nil, "all nodes are deleted")
	} else {
		r.s.DeleteNode(id)
		n, err := r.s.GetNode(other)
		v.Assert((err == nil) == both, "the other node stays")
		v.Assert(err != nil || n == b, "the other node stays")
	}
	_, err := r.s.GetNode(id)
	v.Assert(err != nil, "the node is deleted")
	v.Assert(len(ask(r.connect(), req)) == 0, "the node is deleted")
	v.Cover("end")
}

// P29_Full: a server holds a node for every slave id there is.
func P29_Full() {
	srv := modbus.NewTCPServer()
	together := v.Choose("together", 0, 1) == 1
	var nodes [256]*modbus.NodeRegister
	for i := range nodes {
		nodes[i] = modbus.NewNodeRegister(byte(i), 0, 0, 0, 0, 0, 0, 0, 0)
	}
	for i := range nodes { // one by one
		if !together {
			srv.AddNodes(nodes[i])
		}
	}
	if together {
		srv.AddNodes(nodes[:]...)
	}
	v.Assert(len(srv.GetNodeList()) == 256, "the list has every node")
	var seen [256]bool
	k := 0
	srv.Range(func(id byte, n *modbus.NodeRegister) bool {
		v.Assert(v.And(n == nodes[id], !seen[id]), "a scan visits every node once")
		seen[id] = true
		k++
		return true
	})
	v.Assert(k == 256, "a scan visits every node")
	for i := range nodes {
		n, err := srv.GetNode(byte(i))
		v.Assert(v.And(err == nil, n == nodes[i]), "a lookup finds the slave's node")
	}
	id := byte(v.Concrete(int(v.Byte("id") & 0xE1)))
	srv.DeleteNode(id)
	_, err := srv.GetNode(id)
	v.Assert(v.And(err != nil, len(srv.GetNodeList()) == 255), "a deleted node is gone")
	srv.DeleteAllNode()
	v.Assert(len(srv.GetNodeList()) == 0, "all nodes are deleted")
	_, err = srv.GetNode(id ^ 1)
	v.Assert(err != nil, "all nodes are deleted")
	v.Cover("end")
}

// P29_Parallel: the registry may be changed, listed and used from several goroutines: there is
// no data race, and every lookup gets a node that was registered under its id.
func P29_Parallel() {
	a := modbus.NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 1)
	b := modbus.NewNodeRegister(2, 0, 0, 0, 0, 0, 0, 0, 1)
	c := modbus.NewNodeRegister(1, 0, 0, 0, 0, 0, 0, 0, 1)
	srv := modbus.NewTCPServer()
	srv.AddNodes(a)
	x := v.U16("x")
	op, with := v.Choose("op", 0, 7), v.Choose("with", 0, 7)
	none := op == 7 || with == 7
	do := func(op int) {
		switch op {
		case 0:
			srv.AddNodes(b)
		case 1:
			srv.DeleteNode(2)
		case 2:
			n, err := srv.GetNode(2)
			v.Assert((err == nil) == (n != nil), "a node or an error")
			if err == nil {
				v.Assert(n == b, "the node registered")
			}
		case 3:
			l := srv.GetNodeList()
			v.Assert(len(l) <= 2, "a node is listed once")
			for _, n := range l {
				v.Assert(n == a || n == b || n == c, "registered nodes are listed")
			}
		case 4:
			b.SetSlaveID(2)
			v.Assert(b.SlaveID() == 2, "the id set")
		case 5:
			n, err := srv.GetNode(1)
			v.Assert(err == nil || none, "the node that stays is always found")
			if err == nil {
				v.Assert(n.WriteHoldings(0, []uint16{x}) == nil, "a write works")
			}
		case 6: // another node for the same slave
			srv.AddNodes(c)
			n, err := srv.GetNode(1)
			v.Assert(v.And(err == nil, n == c) || err != nil && none, "the node added last is found")
		case 7:
			srv.DeleteAllNode()
		}
	}
	v.Interleave(2)
	done := make(chan struct{})
	go func() {
		do(op)
		close(done)
	}()
	do(with)
	<-done
	v.Sequential()
	if none {
		l := srv.GetNodeList()
		for _, n := range l {
			v.Assert(n == b && (op == 0 || with == 0) || n == c && (op == 6 || with == 6), "only what was added in the meantime is left")
		}
		v.Cover("none")
		return
	}
	n, err := srv.GetNode(1)
	last := a
	if op == 6 || with == 6 {
		last = c
	}
	v.Assert(v.And(err == nil, n == last), "other nodes are unaffected")
	n, err = srv.GetNode(2)
	added, deleted := op == 0 || with == 0, op == 1 || with == 1
	if added && !deleted {
		v.Assert(v.And(err == nil, n == b), "an added node is registered")
	}
	if !added {
		v.Assert(err != nil, "nothing is registered by itself")
	}
	v.Cover("end")
}
