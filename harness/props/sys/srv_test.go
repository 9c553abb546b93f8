package sys

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vertexverif/h"
	"vertexverif/model"
	"vertexverif/resp"
)

// patience is how long a reply may take. Nothing in the server takes long, so
// what has not come by then never will.
const patience = 30 * time.Second

var (
	portMu   sync.Mutex
	nextPort int
)

// freePort finds a port below the ephemeral range that nobody listens on.
// Shards use disjoint ranges.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	const lo, span = 10000, 2500
	base := lo + h.GetEnv().Shard%8*span
	for i := 0; i < span; i++ {
		if nextPort == 0 {
			nextPort = os.Getpid() % span
		}
		nextPort++
		p := base + nextPort%span
		l, err := net.Listen("tcp", ":"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		_ = l.Close()
		return p
	}
	h.Internal("no free port")
	return 0
}

// opts says how to start a server.
type opts struct {
	dir     string // working directory, made if empty
	db      string // database file, relative to dir
	replica bool
	derived int // how the port for replicas is left to the server: 0 not, 1 none given, 2 the port of the server given, 3 a negative one
	master  string
	log     bool
	nofile  int // limit of open files
}

// srv is a running server process.
type srv struct {
	opts
	port, rport int
	cmd         *exec.Cmd
	exited      chan struct{}
	state       *os.ProcessState
	ownDir      bool
}

var dirSerial int

func newDir() string {
	portMu.Lock()
	dirSerial++
	n := dirSerial
	portMu.Unlock()
	d := filepath.Join(h.GetEnv().Out, fmt.Sprintf("srv-%d-%d", os.Getpid(), n))
	if err := os.MkdirAll(d, 0755); err != nil {
		h.Internal("mkdir: %v", err)
	}
	return d
}

// start starts a server; a server that does not come up is an error of the
// code under test, told by its output.
func start(o opts) (*srv, error) {
	own := o.dir == ""
	if own {
		o.dir = newDir()
	}
	var last error
	for try := 0; try < 4; try++ {
		s := &srv{opts: o, port: freePort(), exited: make(chan struct{}), ownDir: own}
		args := []string{"-port", strconv.Itoa(s.port)}
		if o.db != "" {
			args = append(args, "-db", o.db)
		}
		if o.replica {
			s.rport = freePort()
			for o.derived > 0 && s.rport != s.port+1 {
				s.port, s.rport = s.rport, freePort()
			}
			args[1] = strconv.Itoa(s.port)
			args = append(args, "-serve-replicas", "-replica", strconv.Itoa([]int{s.rport, 0, s.port, -1}[o.derived%4]))
		}
		if o.master != "" {
			args = append(args, "-master", o.master)
		}
		if o.nofile > 0 {
			args = append(args, "-nofile", strconv.Itoa(o.nofile))
		}
		if o.log {
			args = append(args, "-log", "vertex.log")
		}
		bin := os.Getenv("VERIF_VSERVER")
		if bin == "" {
			h.Internal("VERIF_VSERVER is not set")
		}
		s.cmd = exec.Command(bin, args...)
		s.cmd.Dir = o.dir
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := os.OpenFile(filepath.Join(o.dir, "stderr"), os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
		if err != nil {
			h.Internal("stderr: %v", err)
		}
		s.cmd.Stderr, s.cmd.Stdout = out, out
		if err := startCmd(s.cmd); err != nil {
			h.Internal("start: %v", err)
		}
		_ = out.Close()
		go func() {
			_ = s.cmd.Wait()
			s.state = s.cmd.ProcessState
			close(s.exited)
		}()
		if err := s.waitReady(); err != nil {
			s.kill()
			last = err
			continue
		}
		return s, nil
	}
	return nil, fmt.Errorf("the server does not start: %v", last)
}

// Pdeathsig kills the child when the thread that started it ends, so one
// thread, which never ends, starts all of them.
var startQueue = func() chan func() {
	ch := make(chan func())
	go func() {
		lockThread()
		for f := range ch {
			f()
		}
	}()
	return ch
}()

func startCmd(c *exec.Cmd) error {
	done := make(chan error)
	startQueue <- func() { done <- c.Start() }
	return <-done
}

func (s *srv) waitReady() error {
	limit := time.Now().Add(patience)
	last := ""
	for time.Now().Before(limit) {
		select {
		case <-s.exited:
			return fmt.Errorf("it exited (%v): %s", s.state, s.stderr())
		default:
		}
		// it is ready when it answers
		if c, err := s.dial(); err == nil {
			v, err := c.do([]string{"get", "ready"})
			c.close()
			if err == nil && !v.IsErr() {
				return nil
			}
			last = fmt.Sprint(v, err)
		} else {
			last = err.Error()
		}
		time.Sleep(time.Millisecond)
	}
	return fmt.Errorf("it does not answer after %v (%s): %s", patience, last, s.stderr())
}

func (s *srv) addr() string { return "127.0.0.1:" + strconv.Itoa(s.port) }

func (s *srv) stderr() string {
	b, _ := os.ReadFile(filepath.Join(s.dir, "stderr"))
	if len(b) > 6000 {
		b = append(b[:4500:4500], b[len(b)-1500:]...)
	}
	return string(b)
}

// died reports an unexpected end of the process.
func (s *srv) died() error {
	select {
	case <-s.exited:
		return fmt.Errorf("the server died (%v): %s", s.state, s.stderr())
	default:
		return nil
	}
}

// stop asks the server to shut down and waits for it.
func (s *srv) stop(sig syscall.Signal) error {
	if err := s.died(); err != nil {
		return err
	}
	_ = s.cmd.Process.Signal(sig &^ again)
	if sig&again != 0 {
		time.Sleep(time.Duration(len(s.dir)%4) * 300 * time.Microsecond)
		_ = s.cmd.Process.Signal(sig &^ again)
	}
	select {
	case <-s.exited:
	case <-time.After(patience):
		_ = s.cmd.Process.Signal(syscall.SIGQUIT) // shows where it hangs
		select {
		case <-s.exited:
		case <-time.After(5 * time.Second):
			s.kill()
		}
		return fmt.Errorf("the server has not shut down %v after %v: %s", patience, sig, s.stderr())
	}
	if !s.state.Success() {
		return fmt.Errorf("the server ended with %v after %v: %s", s.state, sig, s.stderr())
	}
	return nil
}

func (s *srv) kill() {
	_ = s.cmd.Process.Kill()
	<-s.exited
}

// end cleans up.
func (s *srv) end() {
	select {
	case <-s.exited:
	default:
		s.kill()
	}
	if s.ownDir {
		removeDir(s.dir)
	}
}

func removeDir(d string) {
	if strings.HasPrefix(d, h.GetEnv().Out+"/srv-") {
		_ = os.RemoveAll(d)
	}
}

// client is a connection to a server.
type client struct {
	s    *srv
	c    net.Conn
	r    *resp.Reader
	name string
}

func (s *srv) dial() (*client, error) {
	c, err := net.DialTimeout("tcp", s.addr(), patience)
	if err != nil {
		if d := s.died(); d != nil {
			return nil, d
		}
		return nil, fmt.Errorf("connect: %w", err)
	}
	return s.wrap(c), nil
}

func (s *srv) wrap(c net.Conn) *client {
	return &client{s: s, c: c, r: &resp.Reader{R: bufio.NewReaderSize(c, 1<<16), MaxDepth: 64}}
}

func (c *client) close() { _ = c.c.Close() }

func (c *client) explain(err error) error {
	if c.s != nil {
		// give a dying server the time to die
		select {
		case <-c.s.exited:
		case <-time.After(300 * time.Millisecond):
		}
		if d := c.s.died(); d != nil {
			return d
		}
	}
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return fmt.Errorf("no reply within %v", patience)
	}
	if errors.Is(err, io.EOF) {
		return errors.New("the server closed the connection")
	}
	return err
}

// send writes b; the patience is for each part of it, however long it is.
func (c *client) send(b []byte) error {
	for first := true; first || len(b) > 0; first = false {
		n := min(len(b), 1<<18)
		_ = c.c.SetWriteDeadline(time.Now().Add(patience))
		if _, err := c.c.Write(b[:n]); err != nil {
			return c.explain(err)
		}
		b = b[n:]
	}
	return nil
}

func (c *client) recv() (resp.Value, error) {
	_ = c.c.SetReadDeadline(time.Now().Add(patience))
	v, err := c.r.Read()
	if err != nil {
		return v, c.explain(err)
	}
	return v, nil
}

func (c *client) do(args []string) (resp.Value, error) {
	if err := c.send(resp.Bulks(args).Encode()); err != nil {
		return resp.Value{}, err
	}
	return c.recv()
}

// step runs one command and checks it against the model.
func (c *client) step(m *model.Store, args []string) error {
	v, err := c.do(args)
	if err != nil {
		return fmt.Errorf("%s: %w", model.Cmd(args), err)
	}
	if err := m.Step(args, v); err != nil {
		return err
	}
	if k, ok := m.NeedsResync(); ok {
		v, err := c.do([]string{"lrange", k, "0", "-1"})
		if err != nil {
			return err
		}
		return m.Resync(v)
	}
	return nil
}

// dump reads everything back and compares it with the model.
func (c *client) dump(m *model.Store, keys []string) error {
	for _, cmd := range model.DumpCommands(keys) {
		v, err := c.do(cmd)
		if err != nil {
			return fmt.Errorf("%s: %w", model.Cmd(cmd), err)
		}
		if err := m.Clone().Step(cmd, v); err != nil {
			return err
		}
	}
	return nil
}

// state reads everything back into a new model.
func (c *client) state(keys []string) (*model.Store, error) {
	m := model.New()
	get := func(args ...string) (resp.Value, error) {
		v, err := c.do(args)
		if err != nil {
			return v, fmt.Errorf("%s: %w", model.Cmd(args), err)
		}
		if v.IsErr() {
			return v, fmt.Errorf("%s: reply %s", model.Cmd(args), v)
		}
		return v, nil
	}
	for _, k := range keys {
		v, err := get("get", k)
		if err != nil {
			return nil, err
		}
		if !v.Null {
			m.Str[k] = v.Str
		}
		if v, err = get("lrange", k, "0", "-1"); err != nil {
			return nil, err
		}
		for _, x := range v.Arr {
			m.List[k] = append(m.List[k], x.Str)
		}
		if v, err = get("hgetall", k); err != nil {
			return nil, err
		}
		for i := 0; i+1 < len(v.Arr); i += 2 {
			if m.Hash[k] == nil {
				m.Hash[k] = map[string]string{}
			}
			m.Hash[k][v.Arr[i].Str] = v.Arr[i+1].Str
		}
		if v, err = get("smembers", k); err != nil {
			return nil, err
		}
		for _, x := range v.Arr {
			if m.Set[k] == nil {
				m.Set[k] = map[string]struct{}{}
			}
			m.Set[k][x.Str] = struct{}{}
		}
	}
	return m, nil
}
