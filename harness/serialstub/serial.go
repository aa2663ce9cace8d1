// Package serial is the verification stand-in for github.com/goburrow/serial:
// the same exported interface, with the device replaced by a hook.
package serial

import (
	"errors"
	"io"
	"time"
)

// ErrTimeout is occurred when timing out.
var ErrTimeout = errors.New("serial: timeout")

// Config is common configuration for serial port.
type Config struct {
	Address  string
	BaudRate int
	DataBits int
	StopBits int
	Parity   string
	Timeout  time.Duration
	RS485    RS485Config
}

// RS485Config platform independent RS485 config.
type RS485Config struct {
	Enabled            bool
	DelayRtsBeforeSend time.Duration
	DelayRtsAfterSend  time.Duration
	RtsHighDuringSend  bool
	RtsHighAfterSend   bool
	RxDuringTx         bool
}

// Port is the interface for a serial port.
type Port interface {
	io.ReadWriteCloser
	Open(*Config) error
}

// OpenHook supplies the port; installed by the harness.
var OpenHook func(c *Config) (Port, error)

// Open opens a serial port.
func Open(c *Config) (Port, error) {
	if OpenHook == nil {
		return nil, errors.New("serial: no device")
	}
	return OpenHook(c)
}

type port struct{ p Port }

// New creates a port that is opened later.
func New() Port { return &port{} }

func (p *port) Open(c *Config) (err error) {
	p.p, err = Open(c)
	return err
}
func (p *port) Read(b []byte) (int, error)  { return p.p.Read(b) }
func (p *port) Write(b []byte) (int, error) { return p.p.Write(b) }
func (p *port) Close() error                { return p.p.Close() }
