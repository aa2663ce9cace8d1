// Package env is the modelled environment: network connections, listeners and serial ports
// whose behaviour is scripted by the harness. It is ordinary Go code, executed both
// symbolically and natively.
package env

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/goburrow/serial"
)

// Err is a scripted network error.
type Err struct {
	Msg       string
	IsTimeout bool
	IsTemp    bool
}

func (e *Err) Error() string   { return e.Msg }
func (e *Err) Timeout() bool   { return e.IsTimeout }
func (e *Err) Temporary() bool { return e.IsTemp }

// ErrReset stands for a broken connection.
var ErrReset error = &Err{Msg: "connection reset by peer"}

// ErrTimeoutNet is what reads and writes return after their deadline.
var ErrTimeoutNet error = &Err{Msg: "i/o timeout", IsTimeout: true, IsTemp: true}

// ErrTemp is a transient accept error.
var ErrTemp error = &Err{Msg: "too many open files", IsTemp: true}

// ErrClosed is what operations on a closed connection return.
var ErrClosed error = &Err{Msg: "use of closed network connection"}

var ErrRefused error = &Err{Msg: "connection refused"}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Seg is one arrival on the receive side.
type Seg struct {
	Data []byte
	Err  error // returned once Data is consumed (EOF, reset, ...)
}

// Conn is a scripted connection; it serves as net.Conn and as serial.Port.
type Conn struct {
	mu     sync.Mutex
	notify chan struct{}
	rx     []Seg
	closed bool
	// RDL and WDL are the current deadlines.
	RDL, WDL time.Time

	// Timeout is the serial read timeout (0: none).
	Timeout time.Duration
	// Serial selects serial-port error behaviour.
	Serial bool

	// OnWrite sees every write and returns what Write returns; nil accepts everything.
	OnWrite func(c *Conn, b []byte) (int, error)

	Wrote     []byte  // everything accepted
	Writes    int     // number of Write calls
	WriteAt   []int64 // virtual time of each write, relative to T0
	ReadAt    []int64 // virtual time of each read call
	Reads     int
	Closes    int // number of Close calls
	UnboundRd int // reads issued without a deadline
	UnboundWr int // writes issued without a deadline
	MaxChunk  int // at most so many bytes per read (0: no limit)
	InOp      int // operations in progress (overlap detection)
	T0        time.Time
	NoBlock   bool  // an exhausted script returns EOF instead of blocking
	DeadErr   error // error returned by SetDeadline and friends
	CloseErr  error
	Secure    bool // only TLS may read and write
	Clear     int  // reads and writes that did not go through TLS
	inTLS     int
}

// NewConn creates a connection.
func NewConn() *Conn {
	return &Conn{notify: make(chan struct{}), T0: time.Now()}
}

// Feed appends data to the receive side.
func (c *Conn) Feed(b []byte) { c.FeedSeg(Seg{Data: b}) }

// FeedErr appends an error to the receive side.
func (c *Conn) FeedErr(err error) { c.FeedSeg(Seg{Err: err}) }

// FeedSeg appends an arrival.
func (c *Conn) FeedSeg(s Seg) {
	c.mu.Lock()
	c.rx = append(c.rx, s)
	c.wake()
	c.mu.Unlock()
}

func (c *Conn) wake() {
	close(c.notify)
	c.notify = make(chan struct{})
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	c.Reads++
	if c.Secure && c.inTLS == 0 {
		c.Clear++
	}
	c.ReadAt = append(c.ReadAt, int64(time.Since(c.T0)))
	if c.RDL.IsZero() && !c.Serial {
		c.UnboundRd++
	}
	var until time.Time
	if c.Serial && c.Timeout > 0 {
		until = time.Now().Add(c.Timeout)
	}
	for {
		if c.closed {
			c.mu.Unlock()
			return 0, ErrClosed
		}
		dl := c.RDL
		if c.Serial {
			dl = until
		}
		if !c.Serial && !dl.IsZero() && !time.Now().Before(dl) {
			c.mu.Unlock()
			return 0, ErrTimeoutNet
		}
		if len(p) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.rx) > 0 {
			s := &c.rx[0]
			if len(s.Data) > 0 {
				n := len(p)
				if c.MaxChunk > 0 && n > c.MaxChunk {
					n = c.MaxChunk
				}
				n = copy(p[:n], s.Data)
				s.Data = s.Data[n:]
				if len(s.Data) == 0 && s.Err == nil {
					c.rx = c.rx[1:]
				}
				c.mu.Unlock()
				return n, nil
			}
			err := s.Err
			if err == nil {
				c.rx = c.rx[1:]
				continue
			}
			if err == io.EOF || err == ErrReset {
				// permanent
			} else {
				c.rx = c.rx[1:]
			}
			c.mu.Unlock()
			return 0, err
		}
		if c.NoBlock {
			c.mu.Unlock()
			return 0, io.EOF
		}
		if c.Serial && !dl.IsZero() && !time.Now().Before(dl) {
			c.mu.Unlock()
			return 0, serial.ErrTimeout
		}
		w := c.notify
		c.mu.Unlock()
		if dl.IsZero() {
			<-w
		} else {
			t := time.NewTimer(time.Until(dl))
			select {
			case <-w:
			case <-t.C:
			}
			t.Stop()
		}
		c.mu.Lock()
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, ErrClosed
	}
	c.Writes++
	if c.Secure && c.inTLS == 0 {
		c.Clear++
	}
	c.WriteAt = append(c.WriteAt, int64(time.Since(c.T0)))
	if c.WDL.IsZero() && !c.Serial {
		c.UnboundWr++
	}
	if !c.Serial && !c.WDL.IsZero() && !time.Now().Before(c.WDL) {
		c.mu.Unlock()
		return 0, ErrTimeoutNet
	}
	f := c.OnWrite
	if f == nil {
		c.Wrote = append(c.Wrote, b...)
		c.mu.Unlock()
		return len(b), nil
	}
	c.mu.Unlock()
	n, err := f(c, b)
	c.mu.Lock()
	if n > 0 {
		c.Wrote = append(c.Wrote, b[:n]...)
	}
	c.mu.Unlock()
	return n, err
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.closed {
		return ErrClosed
	}
	c.closed = true
	c.wake()
	return c.CloseErr
}

// IsClosed reports whether Close was called.
func (c *Conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Pending is the number of unread bytes.
func (c *Conn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.rx {
		n += len(s.Data)
	}
	return n
}

// Take returns and clears everything written so far.
func (c *Conn) Take() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	w := c.Wrote
	c.Wrote = nil
	return w
}

func (c *Conn) LocalAddr() net.Addr  { return addr("127.0.0.1:502") }
func (c *Conn) RemoteAddr() net.Addr { return addr("127.0.0.1:40000") }

func (c *Conn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return ErrClosed
	}
	if c.DeadErr != nil {
		return c.DeadErr
	}
	c.RDL, c.WDL = t, t
	c.wake()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return ErrClosed
	}
	if c.DeadErr != nil {
		return c.DeadErr
	}
	c.RDL = t
	c.wake()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return ErrClosed
	}
	if c.DeadErr != nil {
		return c.DeadErr
	}
	c.WDL = t
	return nil
}

// Open implements serial.Port.
func (c *Conn) Open(cfg *serial.Config) error { c.Timeout = cfg.Timeout; return nil }

// ---- serial line ----

// Line hands out serial ports.
type Line struct {
	Opens int
	Err   []error // error of the k-th open (nil or missing: success)
	Fail  func(k int) error
	Setup func(k int, c *Conn)
	Ports []*Conn
	Cfg   serial.Config
}

// InstallLine makes l the device behind serial.Open.
func InstallLine(l *Line) {
	serial.OpenHook = func(cfg *serial.Config) (serial.Port, error) {
		k := l.Opens
		l.Opens++
		l.Cfg = *cfg
		c := NewConn()
		c.Serial = true
		if k < len(l.Err) && l.Err[k] != nil { // serial.Open returns the port all the same
			c.closed = true
			return c, l.Err[k]
		}
		if l.Fail != nil {
			if err := l.Fail(k); err != nil {
				c.closed = true
				return c, err
			}
		}
		c.Timeout = cfg.Timeout
		l.Ports = append(l.Ports, c)
		if l.Setup != nil {
			l.Setup(k, c)
		}
		return c, nil
	}
}

// ---- TCP dialing ----

// Dialer hands out TCP connections.
type Dialer struct {
	mu      sync.Mutex
	Dials   int
	Err     []error
	Fail    func(k int) error
	Setup   func(k int, c *Conn)
	Conns   []*Conn
	Address []string
	Network []string
	Timeout []time.Duration
	DialAt  []int64
	T0      time.Time
	Delay   time.Duration // time a dial takes
}

// InstallDialer makes d the network behind net.Dial.
func InstallDialer(d *Dialer) {
	d.T0 = time.Now()
	net.VerifDial = func(nd *net.Dialer, network, address string) (net.Conn, error) {
		d.mu.Lock()
		k := d.Dials
		d.Dials++
		d.Network = append(d.Network, network)
		d.Address = append(d.Address, address)
		d.Timeout = append(d.Timeout, nd.Timeout)
		d.DialAt = append(d.DialAt, int64(time.Since(d.T0)))
		d.mu.Unlock()
		if d.Delay > 0 {
			time.Sleep(d.Delay)
		}
		if k < len(d.Err) && d.Err[k] != nil {
			return nil, d.Err[k]
		}
		if d.Fail != nil {
			if err := d.Fail(k); err != nil {
				return nil, err
			}
		}
		c := NewConn()
		d.mu.Lock()
		d.Conns = append(d.Conns, c)
		d.mu.Unlock()
		if d.Setup != nil {
			d.Setup(k, c)
		}
		return c, nil
	}
}

// Handshake is one TLS handshake seen on a scripted connection.
type Handshake struct {
	Conn     *Conn
	IsClient bool
	Config   *tls.Config
	At       time.Duration // how long the caller is willing to wait (0: for ever)
}

// InstallTLS makes handshake the TLS peer. A nil result completes the handshake; Silent makes
// the peer never answer.
func InstallTLS(handshake func(h *Handshake) error) {
	tls.VerifIO = func(raw net.Conn, d int) {
		c := raw.(*Conn)
		c.mu.Lock()
		c.inTLS += d
		c.mu.Unlock()
	}
	tls.VerifHandshake = func(ctx context.Context, raw net.Conn, isClient bool, cfg *tls.Config) error {
		h := &Handshake{Conn: raw.(*Conn), IsClient: isClient, Config: cfg}
		if t, ok := ctx.Deadline(); ok {
			h.At = time.Until(t)
		}
		if h.Conn.IsClosed() {
			return ErrClosed
		}
		err := handshake(h)
		if err == Silent {
			done := make(chan struct{})
			if ctx.Done() != nil {
				go func() {
					select {
					case <-ctx.Done():
						h.Conn.Close()
					case <-done:
					}
				}()
			}
			tls.VerifIO(h.Conn, 1)
			_, err = h.Conn.Read(make([]byte, 1))
			tls.VerifIO(h.Conn, -1)
			close(done)
			if err == nil {
				err = ErrReset
			}
		}
		return err
	}
}

// Silent is returned by a TLS peer that never answers.
var Silent error = &Err{Msg: "silent"}

// UninstallTLS removes the stand-in.
func UninstallTLS() { tls.VerifHandshake, tls.VerifIO = nil, nil }

// ReadCalls is the number of reads so far.
func (c *Conn) ReadCalls() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.Reads
}

// ---- listening ----

// Listener is a scripted listener.
type Listener struct {
	mu       sync.Mutex
	notify   chan struct{}
	queue    []accepted
	closed   bool
	Closes   int
	Accepts  int
	AcceptAt []int64
	T0       time.Time
	Address  string
}

type accepted struct {
	c   net.Conn
	err error
}

// NewListener creates a listener.
func NewListener() *Listener { return &Listener{notify: make(chan struct{}), T0: time.Now()} }

// InstallListener makes l the result of net.Listen; err makes listening fail.
func InstallListener(l *Listener, err error) {
	net.VerifListen = func(network, address string) (net.Listener, error) {
		if err != nil {
			return nil, err
		}
		l.Address = address
		return l, nil
	}
}

// Push queues a connection or an accept error.
func (l *Listener) Push(c net.Conn, err error) {
	l.mu.Lock()
	l.queue = append(l.queue, accepted{c, err})
	close(l.notify)
	l.notify = make(chan struct{})
	l.mu.Unlock()
}

func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	l.Accepts++
	l.AcceptAt = append(l.AcceptAt, int64(time.Since(l.T0)))
	for {
		if l.closed {
			l.mu.Unlock()
			return nil, ErrClosed
		}
		if len(l.queue) > 0 {
			a := l.queue[0]
			l.queue = l.queue[1:]
			l.mu.Unlock()
			return a.c, a.err
		}
		w := l.notify
		l.mu.Unlock()
		<-w
		l.mu.Lock()
	}
}

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Closes++
	if l.closed {
		return ErrClosed
	}
	l.closed = true
	close(l.notify)
	l.notify = make(chan struct{})
	return nil
}

// Queued is the number of connections not accepted yet.
func (l *Listener) Queued() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.queue)
}

func (l *Listener) Addr() net.Addr { return addr("127.0.0.1:502") }

// IsClosed reports whether Close was called.
func (l *Listener) IsClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// ErrNotModbus is a plain error (no exception code).
var ErrNotModbus = errors.New("plain error")
