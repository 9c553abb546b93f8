package conc

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

type fakeAddr string

func (a fakeAddr) Network() string { return "fake" }
func (a fakeAddr) String() string  { return string(a) }

// fakeConn is a net.Conn whose peer is the test. It works in virtual time:
// every wait is on a channel.
type fakeConn struct {
	mu       sync.Mutex
	changed  chan struct{} // closed and replaced on every change
	in       []byte
	eof      bool
	closed   bool
	closes   int
	closedAt time.Time
	stalled  bool // the peer does not read: writes block
	out      []byte
	rdl, wdl time.Time
}

func newFakeConn() *fakeConn { return &fakeConn{changed: make(chan struct{})} }

func (c *fakeConn) change() {
	close(c.changed)
	c.changed = make(chan struct{})
}

func (c *fakeConn) feed(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, b...)
	c.change()
}

func (c *fakeConn) hangup() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = true
	c.change()
}

func (c *fakeConn) setStalled(v bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stalled = v
	c.change()
}

func (c *fakeConn) isClosed() (bool, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closedAt
}

func (c *fakeConn) written() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return string(c.out)
}

// wait waits for a change or the deadline; the lock is held on entry and exit.
func (c *fakeConn) wait(dl time.Time) {
	ch := c.changed
	c.mu.Unlock()
	defer c.mu.Lock()
	if dl.IsZero() {
		<-ch
		return
	}
	t := time.NewTimer(time.Until(dl))
	defer t.Stop()
	select {
	case <-ch:
	case <-t.C:
	}
}

func (c *fakeConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(c.in) > 0 {
			n := copy(b, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		c.wait(c.rdl)
	}
}

func (c *fakeConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if !c.stalled {
			c.out = append(c.out, b...)
			return len(b), nil
		}
		c.wait(c.wdl)
	}
}

func (c *fakeConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed, c.closedAt = true, time.Now()
	c.change()
	return nil
}

func (c *fakeConn) LocalAddr() net.Addr  { return fakeAddr("local:1") }
func (c *fakeConn) RemoteAddr() net.Addr { return fakeAddr("peer:2") }

func (c *fakeConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *fakeConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.change()
	return nil
}

func (c *fakeConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	c.change()
	return nil
}
