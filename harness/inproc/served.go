package inproc

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"strconv"
	"time"

	"github.com/lxdlam/vertex/pkg/common"
	"github.com/lxdlam/vertex/pkg/network"

	"vertexverif/h"
	"vertexverif/resp"
)

// patience is how long a reply may take; nothing in the server takes long.
const patience = 40 * time.Second

var nextPort int

// freePort finds a port below the ephemeral range that nobody listens on.
// Shards use disjoint ranges.
func freePort() int {
	const lo, span = 10000, 2500
	base := lo + h.GetEnv().Shard%8*span
	for i := 0; i < span; i++ {
		if nextPort == 0 {
			nextPort = os.Getpid() % span
		}
		nextPort++
		p := base + nextPort%span
		l, err := net.Listen("tcp", ":"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		_ = l.Close()
		return p
	}
	h.Internal("no free port")
	return 0
}

// Served is a whole server of the code under test in this process, spoken to
// over TCP. Only one may be alive at a time: the event bus is shared.
type Served struct {
	s     network.Server
	done  chan struct{}
	conns []net.Conn
	rd    []*resp.Reader
}

// Serve starts a server and opens n connections to it.
func Serve(n int) (*Served, error) {
	var last error
	for try := 0; try < 5; try++ {
		port := freePort()
		s := network.NewServer()
		if !s.Init(common.Config{Port: port}) {
			last = fmt.Errorf("Init failed")
			continue
		}
		x := &Served{s: s, done: make(chan struct{})}
		go func() {
			s.Serve()
			close(x.done)
		}()
		for i := 0; i < n; i++ {
			c, err := net.DialTimeout("tcp", "127.0.0.1:"+strconv.Itoa(port), patience)
			if err != nil {
				x.Close()
				return nil, err
			}
			x.conns = append(x.conns, c)
			x.rd = append(x.rd, resp.NewReader(c))
		}
		return x, nil
	}
	return nil, last
}

// Exec sends one command over connection i and waits for its reply.
func (x *Served) Exec(i int, args []string) (resp.Value, error) {
	i %= len(x.conns)
	c := x.conns[i]
	var b bytes.Buffer
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
	}
	_ = c.SetDeadline(time.Now().Add(patience))
	if _, err := c.Write(b.Bytes()); err != nil {
		return resp.Value{}, fmt.Errorf("send: %v", err)
	}
	v, err := x.rd[i].Read()
	if err != nil {
		return resp.Value{}, fmt.Errorf("no well-formed reply: %v", err)
	}
	return v, nil
}

// Close ends the connections and the server.
func (x *Served) Close() {
	for _, c := range x.conns {
		_ = c.Close()
	}
	x.s.Stop()
	select {
	case <-x.done:
	case <-time.After(patience):
	}
}
