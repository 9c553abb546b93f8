// Package resp is an independent RESP codec: the oracle for the codec of the
// code under test, and what the checks use to talk to a server.
package resp

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Value is one RESP value.
type Value struct {
	Kind byte // '+', '-', ':', '$', '*'
	Str  string
	Int  int64
	Null bool
	Arr  []Value
}

// Constructors.
func Bulk(s string) Value    { return Value{Kind: '$', Str: s} }
func NullBulk() Value        { return Value{Kind: '$', Null: true} }
func Simple(s string) Value  { return Value{Kind: '+', Str: s} }
func Error(s string) Value   { return Value{Kind: '-', Str: s} }
func Int(i int64) Value      { return Value{Kind: ':', Int: i} }
func Array(v ...Value) Value { return Value{Kind: '*', Arr: v} }
func NullArray() Value       { return Value{Kind: '*', Null: true} }
func Bulks(s []string) Value {
	a := make([]Value, len(s))
	for i := range s {
		a[i] = Bulk(s[i])
	}
	return Array(a...)
}

// Encode appends the canonical encoding.
func (v Value) Encode() []byte { return v.append(nil) }

func (v Value) append(b []byte) []byte {
	switch v.Kind {
	case '+', '-':
		b = append(b, v.Kind)
		b = append(b, v.Str...)
		return append(b, '\r', '\n')
	case ':':
		b = append(b, ':')
		b = strconv.AppendInt(b, v.Int, 10)
		return append(b, '\r', '\n')
	case '$':
		if v.Null {
			return append(b, "$-1\r\n"...)
		}
		b = append(b, '$')
		b = strconv.AppendInt(b, int64(len(v.Str)), 10)
		b = append(b, '\r', '\n')
		b = append(b, v.Str...)
		return append(b, '\r', '\n')
	case '*':
		if v.Null {
			return append(b, "*-1\r\n"...)
		}
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(len(v.Arr)), 10)
		b = append(b, '\r', '\n')
		for _, x := range v.Arr {
			b = x.append(b)
		}
		return b
	}
	panic("resp: bad kind")
}

// Equal compares two values.
func (v Value) Equal(w Value) bool { return bytes.Equal(v.Encode(), w.Encode()) }

// String renders for messages.
func (v Value) String() string {
	s := string(v.Encode())
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return strconv.QuoteToASCII(s)
}

// IsErr reports an error reply.
func (v Value) IsErr() bool { return v.Kind == '-' }

// ErrSyntax is wrapped by all grammar errors (as opposed to end of input).
var ErrSyntax = errors.New("resp: syntax error")

// ErrTooDeep means nesting beyond the limit given.
var ErrTooDeep = errors.New("resp: too deep")

// Reader reads values strictly: a line ends at the first CRLF; lengths are
// plain decimal; -1 is the only negative length.
type Reader struct {
	R        *bufio.Reader
	MaxDepth int
}

// NewReader wraps r.
func NewReader(r io.Reader) *Reader {
	return &Reader{R: bufio.NewReaderSize(r, 4096), MaxDepth: 100000}
}

func (r *Reader) line() (string, error) {
	var sb strings.Builder
	for {
		c, err := r.R.ReadByte()
		if err != nil {
			if err == io.EOF && sb.Len() > 0 {
				err = io.ErrUnexpectedEOF
			}
			return "", err
		}
		if c == '\n' && sb.Len() > 0 {
			s := sb.String()
			if s[len(s)-1] == '\r' {
				return s[:len(s)-1], nil
			}
		}
		sb.WriteByte(c)
	}
}

// Read returns the next value; io.EOF only exactly at the end of input.
func (r *Reader) Read() (Value, error) { return r.read(0) }

func (r *Reader) read(depth int) (Value, error) {
	if depth > r.MaxDepth {
		return Value{}, ErrTooDeep
	}
	l, err := r.line()
	if err != nil {
		return Value{}, err
	}
	if l == "" {
		return Value{}, fmt.Errorf("%w: empty line", ErrSyntax)
	}
	k, rest := l[0], l[1:]
	switch k {
	case '+', '-':
		return Value{Kind: k, Str: rest}, nil
	case ':':
		n, err := strconv.ParseInt(rest, 10, 64)
		if err != nil {
			return Value{}, fmt.Errorf("%w: integer %q", ErrSyntax, rest)
		}
		return Value{Kind: k, Int: n}, nil
	case '$':
		n, err := strconv.ParseInt(rest, 10, 64)
		if err != nil || n < -1 {
			return Value{}, fmt.Errorf("%w: bulk length %q", ErrSyntax, rest)
		}
		if n == -1 {
			return NullBulk(), nil
		}
		var buf bytes.Buffer
		if m, err := io.CopyN(&buf, r.R, n); err != nil || m != n {
			return Value{}, unexpected(err)
		}
		var tail [2]byte
		if _, err := io.ReadFull(r.R, tail[:]); err != nil {
			return Value{}, unexpected(err)
		}
		if tail != [2]byte{'\r', '\n'} {
			return Value{}, fmt.Errorf("%w: bulk trailer %q", ErrSyntax, tail[:])
		}
		return Bulk(buf.String()), nil
	case '*':
		n, err := strconv.ParseInt(rest, 10, 64)
		if err != nil || n < -1 {
			return Value{}, fmt.Errorf("%w: array length %q", ErrSyntax, rest)
		}
		if n == -1 {
			return NullArray(), nil
		}
		v := Value{Kind: '*'}
		for i := int64(0); i < n; i++ {
			x, err := r.read(depth + 1)
			if err != nil {
				return Value{}, unexpected(err)
			}
			v.Arr = append(v.Arr, x)
		}
		return v, nil
	}
	return Value{}, fmt.Errorf("%w: type byte %q", ErrSyntax, k)
}

func unexpected(err error) error {
	if err == io.EOF || err == nil {
		return io.ErrUnexpectedEOF
	}
	return err
}

// ParseAll reads one value and demands that the input ends there.
func ParseAll(b []byte) (Value, error) {
	r := &Reader{R: bufio.NewReaderSize(bytes.NewReader(b), 64), MaxDepth: 100000}
	v, err := r.Read()
	if err != nil {
		return v, err
	}
	if _, err := r.R.ReadByte(); err != io.EOF {
		return v, fmt.Errorf("%w: bytes after the value", ErrSyntax)
	}
	return v, nil
}
