package props

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"net"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"verifharness/v"
)

// The P00 harnesses decide no property of the code under test: they check the executor's
// models of the standard library that a changed implementation may come to use.

type stdHead struct {
	ID, Proto uint16
	Len       uint16
	Unit      byte
	Set       bool
	_         uint16
	W         [2]uint32
}

// P00_Binary: fixed-size encodings.
func P00_Binary() {
	b := v.Bytes("b", 18)
	v.Assume(b[7] <= 1)
	var h stdHead
	v.Assert(binary.Read(bytes.NewReader(b), binary.BigEndian, &h) == nil, "read")
	v.Assert(h.ID == be16(b, 0) && h.Proto == be16(b, 2) && h.Len == be16(b, 4) && h.Unit == b[6] && h.Set == (b[7] != 0), "fields")
	v.Assert(h.W[1] == uint32(be16(b, 14))<<16|uint32(be16(b, 16)), "array")
	var o bytes.Buffer
	v.Assert(binary.Write(&o, binary.BigEndian, h) == nil, "write")
	x := clone(b)
	x[8], x[9] = 0, 0
	v.Assert(v.EqBytes(o.Bytes(), x), "written")
	o.Reset()
	v.Assert(binary.Write(&o, binary.LittleEndian, []uint16{h.ID, h.Len}) == nil, "write slice")
	v.Assert(v.EqBytes(o.Bytes(), []byte{b[1], b[0], b[5], b[4]}), "little endian")
	v.Assert(binary.Size(h) == 18 && binary.Size(&h) == 18 && binary.Size([]uint16{1, 2}) == 4, "size")
	v.Assert(binary.Read(bytes.NewReader(b[:17]), binary.BigEndian, &h) == io.ErrUnexpectedEOF, "short")
	ws := make([]uint16, 9)
	v.Assert(binary.Read(bytes.NewReader(b), binary.BigEndian, ws) == nil && ws[8] == be16(b, 16), "slice")
	v.Cover("end")
}

func be16(b []byte, i int) uint16 { return uint16(b[i])<<8 | uint16(b[i+1]) }

// P00_Text: strings, bytes, hex, strconv, fmt.
func P00_Text() {
	b := v.Bytes("b", 3)
	s := hex.EncodeToString(b)
	v.Assert(len(s) == 6, "hex")
	d, err := hex.DecodeString(s)
	v.Assert(err == nil && v.EqBytes(d, b), "hex round trip")
	u := strings.ToUpper(s)
	d, err = hex.DecodeString(u)
	v.Assert(err == nil && v.EqBytes(d, b), "upper hex")
	v.Assert(fmt.Sprintf("%X", b) == u && fmt.Sprintf("% x", []byte{1, 0xab}) == "01 ab", "fmt")
	var sb strings.Builder
	sb.WriteByte(':')
	sb.WriteString(u)
	fmt.Fprintf(&sb, "%02X\r\n", 7)
	w := sb.String()
	v.Assert(strings.HasPrefix(w, ":") && strings.HasSuffix(w, "07\r\n") && len(w) == 11, "builder")
	w = strings.TrimSuffix(strings.TrimPrefix(w, ":"), "\r\n")
	n, err := strconv.ParseUint(w[:2], 16, 8)
	v.Assert(err == nil && byte(n) == b[0], "parse")
	var z byte
	_, err = fmt.Sscanf(w[6:], "%02X", &z)
	v.Assert(err == nil && z == 7, "scan")
	v.Assert(strconv.Itoa(502) == "502" && strings.Contains("tcp://x:502", "://") && strings.Split("a:b", ":")[1] == "b", "misc")
	v.Assert(strings.EqualFold("TCP", "tcp") && strings.TrimSpace(" x ") == "x" && strings.Fields("a b")[1] == "b" && strings.Repeat("ab", 2) == "abab", "misc 2")
	v.Assert(strings.LastIndex("a:b:c", ":") == 3 && strings.Join([]string{"a", "b"}, ",") == "a,b" && strings.Replace("aa", "a", "b", 1) == "ba", "misc 3")
	v.Assert(bytes.Equal(bytes.TrimRight([]byte("x\r\n"), "\r\n"), []byte("x")) && bytes.HasPrefix([]byte(":1"), []byte{':'}) && bytes.IndexByte([]byte("ab"), 'b') == 1, "bytes")
	v.Assert(bytes.Equal(bytes.Repeat([]byte{1}, 3), []byte{1, 1, 1}) && bytes.Compare(b, b) == 0 && bytes.Contains([]byte("abc"), []byte("bc")), "bytes 2")
	v.Assert(unicode.IsDigit('3') && strings.IndexFunc("ab1", unicode.IsDigit) == 2 && strings.Map(func(r rune) rune { return r + 1 }, "ab") == "bc", "runes")
	v.Cover("end")
}

// P00_IO: readers and writers.
func P00_IO() {
	b := v.Bytes("b", 8)
	r := bufio.NewReader(bytes.NewReader(b))
	x, err := r.Peek(2)
	v.Assert(err == nil && v.EqBytes(x, b[:2]), "peek")
	n, err := r.Discard(2)
	v.Assert(n == 2 && err == nil, "discard")
	y := make([]byte, 3)
	_, err = io.ReadFull(r, y)
	v.Assert(err == nil && v.EqBytes(y, b[2:5]), "read full")
	c, err := r.ReadByte()
	v.Assert(err == nil && c == b[5], "read byte")
	z, err := io.ReadAll(io.LimitReader(r, 1))
	v.Assert(err == nil && len(z) == 1 && z[0] == b[6], "limit")
	var o bytes.Buffer
	k, err := io.CopyN(&o, r, 1)
	v.Assert(k == 1 && err == nil && o.Bytes()[0] == b[7], "copy")
	_, err = io.ReadAtLeast(r, y, 1)
	v.Assert(err == io.EOF, "eof")
	w := bufio.NewWriter(&o)
	w.Write(b[:2])
	w.WriteByte(9)
	v.Assert(o.Len() == 1 && w.Flush() == nil && v.EqBytes(o.Bytes(), []byte{b[7], b[0], b[1], 9}), "writer")
	m := io.MultiReader(bytes.NewReader(b[:1]), bytes.NewReader(b[1:2]))
	z, err = io.ReadAll(m)
	v.Assert(err == nil && v.EqBytes(z, b[:2]), "multi")
	br := bufio.NewReader(strings.NewReader(":00\r\n"))
	l, err := br.ReadBytes('\n')
	v.Assert(err == nil && string(l) == ":00\r\n", "read bytes")
	sc := bufio.NewScanner(strings.NewReader("a\nb\n"))
	v.Assert(sc.Scan() && sc.Text() == "a" && sc.Scan() && sc.Text() == "b" && !sc.Scan(), "scanner")
	v.Cover("end")
}

type stdErr struct{ code byte }

func (e *stdErr) Error() string   { return "std" }
func (e *stdErr) Timeout() bool   { return e.code == 1 }
func (e *stdErr) Temporary() bool { return false }

// P00_Errors: wrapped errors.
func P00_Errors() {
	e := &stdErr{v.Byte("code")}
	w := fmt.Errorf("while: %w", e)
	j := errors.Join(nil, w)
	var t *stdErr
	v.Assert(errors.As(j, &t) && t.code == e.code, "as")
	var ne net.Error
	v.Assert(errors.As(w, &ne) && ne.Timeout() == (e.code == 1), "as interface")
	v.Assert(errors.Is(j, e) && errors.Unwrap(w) == error(e) && !errors.Is(w, io.EOF), "is")
	op := &net.OpError{Op: "read", Err: io.EOF}
	v.Assert(errors.Is(op, io.EOF), "op error")
	v.Cover("end")
}

// P00_Sort: sort, list, maps, bits.
func P00_Sort() {
	s := []struct{ k, x byte }{{3, 0}, {1, 1}, {2, 2}}
	a := v.Byte("a")
	s[0].x = a
	sort.Slice(s, func(i, j int) bool { return s[i].k < s[j].k })
	v.Assert(s[0].k == 1 && s[1].k == 2 && s[2].k == 3 && s[2].x == a, "slice")
	n := []int{3, 1, 2}
	sort.Ints(n)
	v.Assert(n[0] == 1 && n[2] == 3 && sort.SearchInts(n, 2) == 1, "ints")
	sort.Sort(sort.Reverse(sort.IntSlice(n)))
	v.Assert(n[0] == 3, "reverse")
	k := sort.Search(10, func(i int) bool { return i >= 7 })
	v.Assert(k == 7, "search")
	l := list.New()
	l.PushBack(1)
	l.PushFront(0)
	v.Assert(l.Len() == 2 && l.Front().Next().Value.(int) == 1, "list")
	m := map[byte]func(byte) byte{1: func(x byte) byte { return x + 1 }, 2: func(x byte) byte { return x }}
	f, ok := m[1]
	v.Assert(ok && f(a) == a+1, "map of functions")
	t := 0
	for k := range m {
		t += int(k)
	}
	delete(m, 1)
	v.Assert(t == 3 && len(m) == 1, "map range")
	v.Assert(bits.ReverseBytes16(uint16(a)) == uint16(a)<<8 && bits.OnesCount8(5) == 2 && bits.Reverse8(1) == 128 && bits.Len8(4) == 3 && bits.RotateLeft8(129, 1) == 3 && bits.TrailingZeros8(4) == 2, "bits")
	v.Cover("end")
}

// P00_Sync: synchronisation and time.
func P00_Sync() {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	n := 0
	var once sync.Once
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			once.Do(func() { n += 10 })
			mu.Lock()
			for n < 11 {
				c.Wait()
			}
			mu.Unlock()
		}()
	}
	v.Yield()
	mu.Lock()
	n++
	c.Broadcast()
	mu.Unlock()
	wg.Wait()
	v.Assert(n == 11, "cond")
	var u atomic.Uint32
	u.Store(3)
	var ai int32
	atomic.AddInt32(&ai, 2)
	v.Assert(u.Add(2) == 5 && u.CompareAndSwap(5, 6) && atomic.SwapInt32(&ai, 1) == 2, "atomics")
	var av atomic.Value
	av.Store("x")
	v.Assert(av.Load().(string) == "x", "atomic value")
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	o := p.Get().(*bytes.Buffer)
	o.WriteString("x")
	p.Put(o)
	var ab atomic.Bool
	v.Assert(!ab.Swap(true) && ab.Load(), "atomic bool")
	of := sync.OnceFunc(func() { n++ })
	of()
	of()
	v.Assert(n == 12, "once func")
	v.Cover("end")
}

// P00_Time: timers, contexts, tickers.
func P00_Time() {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	fired := make(chan int, 1)
	tm := time.AfterFunc(20*time.Millisecond, func() { fired <- 1 })
	select {
	case <-ctx.Done():
		v.Assert(false, "context first")
	case <-fired:
	}
	v.Assert(!tm.Stop(), "fired")
	<-ctx.Done()
	v.Assert(ctx.Err() == context.DeadlineExceeded && time.Since(t0) >= 50*time.Millisecond, "deadline")
	tk := time.NewTicker(10 * time.Millisecond)
	<-tk.C
	<-tk.C
	tk.Stop()
	t := time.NewTimer(time.Hour)
	v.Assert(t.Stop(), "stopped")
	t.Reset(time.Millisecond)
	<-t.C
	v.Assert(time.Until(t0) < 0 && t0.Before(time.Now()) && time.Now().After(t0) && t0.Add(time.Second).Sub(t0) == time.Second, "times")
	select {
	case <-time.After(time.Millisecond):
	}
	c2, stop := context.WithCancel(context.Background())
	go func() { time.Sleep(time.Millisecond); stop() }()
	<-c2.Done()
	v.Assert(c2.Err() == context.Canceled, "cancelled")
	v.Assert(!(time.Time{}).After(t0) && (time.Time{}).IsZero() && time.Duration(1500000).Milliseconds() == 1 && (3*time.Second).Seconds() == 3, "durations")
	v.Cover("end")
}

// P00_Net: addresses.
func P00_Net() {
	h, p, err := net.SplitHostPort("[::1]:502")
	v.Assert(err == nil && h == "::1" && p == "502", "split")
	v.Assert(net.JoinHostPort("::1", "502") == "[::1]:502", "join")
	u, err := url.Parse("tcp://h:502/x")
	v.Assert(err == nil && u.Host == "h:502" && u.Port() == "502" && u.Hostname() == "h" && u.Scheme == "tcp", "url")
	v.Assert(net.ParseIP("127.0.0.1") != nil && net.ParseIP("x") == nil, "ip")
	a, err := net.ResolveTCPAddr("tcp", "127.0.0.1:502")
	v.Assert(err == nil && a.Port == 502, "resolve")
	v.Cover("end")
}
