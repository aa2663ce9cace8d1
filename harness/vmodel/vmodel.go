// Package vmodel holds Go models of standard-library functions that the symbolic executor
// runs instead of the originals (assembly, reflection or formatting code).
package vmodel

import (
	"encoding/binary"
	"errors"
	"io"
	"os"
	"sync"
)

func sprintf(format string, args []any) string { return "" }
func asAssign(err error, target any) bool      { return false }
func comparable(e any) bool                    { return true }
func mapKeys(m *sync.Map) []any                { return nil }
func block()                                   {}

func Sprintf(format string, args ...any) string { return sprintf(format, args) }
func Sprint(args ...any) string {
	f := ""
	str := true
	for i, a := range args {
		_, s := a.(string)
		if i > 0 && !s && !str {
			f += " "
		}
		f += "%v"
		str = s
	}
	return sprintf(f, args)
}
func Sprintln(args ...any) string {
	f := ""
	for i := range args {
		if i > 0 {
			f += " "
		}
		f += "%v"
	}
	return sprintf(f+"\n", args)
}

func fprint(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}
func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return fprint(w, sprintf(format, args))
}
func Fprint(w io.Writer, args ...any) (int, error)   { return fprint(w, Sprint(args...)) }
func Fprintln(w io.Writer, args ...any) (int, error) { return fprint(w, Sprintln(args...)) }
func Appendf(b []byte, format string, args ...any) []byte {
	return append(b, sprintf(format, args)...)
}

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

type fmtErr struct{ msg string }

func (e *fmtErr) Error() string { return e.msg }

func Errorf(format string, args ...any) error {
	k := -1
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == ' ' || format[i] == '-' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < 0 {
			k = n
		}
		n++
	}
	msg := sprintf(format, args)
	if k >= 0 && k < len(args) {
		if e, ok := args[k].(error); ok {
			return &wrapErr{msg, e}
		}
	}
	return &fmtErr{msg}
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable(target)
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func Compare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}
func CompareString(a, b string) int { return Compare([]byte(a), []byte(b)) }
func Equal(a, b []byte) bool        { return string(a) == string(b) }

func IndexString(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}
func Index(s, sub []byte) int { return IndexString(string(s), string(sub)) }

// The fixed-size encodings of encoding/binary, whose originals need reflection: fixedSize is
// -1 for data that has none.
func fixedSize(data any, read bool) int        { return -1 }
func fixedSet(data any, b []byte, little bool) {}
func fixedGet(data any, b []byte, little bool) {}

func little(order binary.ByteOrder) bool { return order.Uint16([]byte{1, 0}) == 1 }

func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n := fixedSize(data, true)
	if n < 0 {
		return errors.New("binary.Read: invalid type")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	fixedSet(data, b, little(order))
	return nil
}

func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	n := fixedSize(data, false)
	if n < 0 {
		return errors.New("binary.Write: some values are not fixed-sized")
	}
	b := make([]byte, n)
	fixedGet(data, b, little(order))
	_, err := w.Write(b)
	return err
}

func BinarySize(data any) int { return fixedSize(data, false) }

func BinaryDecode(b []byte, order binary.ByteOrder, data any) (int, error) {
	n := fixedSize(data, true)
	if n < 0 {
		return 0, errors.New("binary.Decode: invalid type")
	}
	if len(b) < n {
		return 0, errors.New("buffer too small")
	}
	fixedSet(data, b[:n], little(order))
	return n, nil
}

func BinaryEncode(b []byte, order binary.ByteOrder, data any) (int, error) {
	n := fixedSize(data, false)
	if n < 0 {
		return 0, errors.New("binary.Encode: some values are not fixed-sized")
	}
	if len(b) < n {
		return 0, errors.New("buffer too small")
	}
	fixedGet(data, b[:n], little(order))
	return n, nil
}

func BinaryAppend(b []byte, order binary.AppendByteOrder, data any) ([]byte, error) {
	n := fixedSize(data, false)
	if n < 0 {
		return nil, errors.New("binary.Append: some values are not fixed-sized")
	}
	e := make([]byte, n)
	fixedGet(data, e, order.AppendUint16(nil, 1)[0] == 1)
	return append(b, e...), nil
}

func sliceLen(s any) int        { return 0 }
func sliceSwap(s any, i, j int) {}

func SortSlice(s any, less func(i, j int) bool) {
	n := sliceLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(s, j, j-1)
		}
	}
}

func SortSliceIsSorted(s any, less func(i, j int) bool) bool {
	for i := sliceLen(s) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func SyncMapRange(m *sync.Map, f func(key, value any) bool) {
	for _, k := range mapKeys(m) {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

func WaitGroupGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

func condAdd(c *sync.Cond) int     { return 0 }
func condWait(c *sync.Cond, t int) {}

func CondWait(c *sync.Cond) {
	t := condAdd(c)
	c.L.Unlock()
	condWait(c, t)
	c.L.Lock()
}
