package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// HarnessError is raised (by panic) when the machinery itself cannot go on: it is never a violation.
type HarnessError struct{ msg string }

func (e HarnessError) Error() string { return e.msg }

func harness(format string, a ...any) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

// ---- building

// Env is the environment of one check run.
type Env struct {
	repo     string // the code under test
	verif    string
	scratch  string // build output and temporary files, removed at the end
	tier     string
	seed     int64
	workers  int
	noShrink bool

	mu    sync.Mutex
	built map[string]string
	pools map[string]*serverPool
	kids  map[string][]*child
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "GOFLAGS", "GOROOT", "GOWORK", "GOENV", "GOOS", "GOARCH", "GODEBUG", "GOTRACEBACK", "GOMAXPROCS", "GOGC", "GOMEMLIMIT":
		default:
			env = append(env, kv)
		}
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// build runs go build in dir and returns the binary. Each is built once.
func (e *Env) build(name, dir string, args ...string) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if p, ok := e.built[name]; ok {
		return p
	}
	out := filepath.Join(e.scratch, name)
	cmd := exec.Command("go", append([]string{"build", "-o", out}, args...)...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	if len(args) > 0 && args[0] == "-race" {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		harness("building %s: %v\n%s", name, err, b)
	}
	e.built[name] = out
	return out
}

// Targets built from the working tree of the code under test.
func (e *Env) serverBin(variant string) string {
	switch variant {
	case "default":
		return e.build("godis", e.repo, "./cmd/server")
	case "debug":
		return e.build("godis-debug", e.repo, "-tags", "debug", "./cmd/server")
	case "v1":
		return e.build("godis-v1", e.inprocDir(), "-tags", "v1", "./v1server")
	case "race":
		return e.build("godis-race", e.repo, "-race", "./cmd/server")
	case "race-v1":
		return e.build("godis-v1-race", e.inprocDir(), "-race", "-tags", "v1", "./v1server")
	case "gen":
		return e.build("gen_redis_cmd", e.repo, "./cmd/gen_redis_cmd")
	}
	panic(variant)
}

// inprocDir is a scratch copy of the harness module that imports the code under test.
func (e *Env) inprocDir() string {
	return filepath.Join(e.scratch, "inproc")
}

func (e *Env) prepareInproc() {
	dst := e.inprocDir()
	if _, err := os.Stat(dst); err == nil {
		return
	}
	cmd := exec.Command("cp", "-r", filepath.Join(e.verif, "harness", "inproc"), dst)
	if b, err := cmd.CombinedOutput(); err != nil {
		harness("copying the harness: %v %s", err, b)
	}
	// same dependencies as the code under test, which is replaced by its working tree
	mod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		harness("%v", err)
	}
	lines := strings.Split(string(mod), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "module ") {
			lines[i] = "module verif/inproc"
		}
		if strings.HasPrefix(l, "go ") {
			lines[i] = "go 1.22" // the language of the harness; each module keeps its own
		}
	}
	text := strings.Join(lines, "\n") + "\nrequire github.com/yusank/godis v0.0.0\nreplace github.com/yusank/godis => " + e.repo + "\n"
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(text), 0o644); err != nil {
		harness("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	if err != nil {
		harness("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dst, "go.sum"), sum, 0o644); err != nil {
		harness("%v", err)
	}
}

// ---- server processes

// Server is one running process of the code under test.
type Server struct {
	raceLog string // of a build with the race detector
	addr    string
	cmd     *exec.Cmd
	stderr  *tail
	dead    chan struct{} // closed when the process has ended
	err     error         // of Wait
}

// tail keeps the last bytes written to it.
type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 64<<10 {
		t.buf = append([]byte(nil), t.buf[len(t.buf)-32<<10:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

// crashText is the part of stderr that explains a crash.
func (s *Server) crashText() string {
	txt := s.stderr.String()
	for _, mark := range []string{"fatal error:", "panic:"} {
		if i := strings.Index(txt, mark); i >= 0 {
			txt = txt[i:]
			break
		}
	}
	if len(txt) > 1500 {
		txt = txt[:1500]
	}
	return txt
}

var (
	portMu   sync.Mutex
	nextPort = 0
	hostIP   string
)

// freeAddr returns an address nobody listens on. The host part is a loopback address of this process alone,
// because the server sets SO_REUSEPORT and would silently share a port with another server.
func freeAddr() string {
	portMu.Lock()
	defer portMu.Unlock()
	if hostIP == "" {
		pid := os.Getpid()
		hostIP = fmt.Sprintf("127.%d.%d.%d", 1+(pid>>16)%200, (pid>>8)&255, 1+pid%250)
		nextPort = 20000 + int(time.Now().UnixNano()/1000%7)*1000
	}
	for i := 0; i < 50000; i++ {
		nextPort++
		if nextPort > 60000 {
			nextPort = 10000
		}
		addr := net.JoinHostPort(hostIP, strconv.Itoa(nextPort))
		l, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		l.Close()
		return addr
	}
	harness("no free port")
	return ""
}

// spawner starts processes from one locked thread, so that Pdeathsig means the death of the harness.
var spawn = make(chan func())

func init() {
	go func() {
		runtime.LockOSThread()
		for f := range spawn {
			f()
		}
	}()
}

func startCmd(cmd *exec.Cmd) error {
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	ch := make(chan error, 1)
	spawn <- func() { ch <- cmd.Start() }
	return <-ch
}

func (e *Env) startServer(variant string, extraEnv ...string) *Server {
	bin := e.serverBin(variant)
	var last string
	for try := 0; try < 5; try++ {
		s := &Server{addr: freeAddr(), stderr: &tail{}, dead: make(chan struct{})}
		cmd := exec.Command(bin, "-addr", "tcp://"+s.addr)
		cmd.Env = append(goEnv(), extraEnv...)
		if strings.HasPrefix(variant, "race") {
			s.raceLog = filepath.Join(e.scratch, fmt.Sprintf("races-%d", atomic.AddInt64(&raceLogs, 1)))
			cmd.Env = append(cmd.Env, "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+s.raceLog)
		}
		cmd.Dir = e.scratch
		cmd.Stderr = s.stderr
		cmd.WaitDelay = time.Second
		s.cmd = cmd
		if err := startCmd(cmd); err != nil {
			harness("starting the server: %v", err)
		}
		go func() {
			s.err = cmd.Wait()
			close(s.dead)
		}()
		deadline := time.Now().Add(30 * time.Second)
		for time.Now().Before(deadline) {
			c, err := net.DialTimeout("tcp", s.addr, 5*time.Second)
			if err == nil {
				c.Close()
				return s
			}
			select {
			case <-s.dead:
				deadline = time.Time{}
			case <-time.After(300 * time.Microsecond):
			}
		}
		last = s.crashText()
		s.kill()
	}
	harness("the %s server does not accept connections: %s", variant, last)
	return nil
}

var raceLogs int64

// race returns a report of the race detector that is about two accesses by godis itself, not by a library.
func (s *Server) race() string {
	if s.raceLog == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", s.raceLog, s.cmd.Process.Pid))
	if err != nil {
		return ""
	}
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		own := 0
		for i, part := range strings.Split(rep, "\n\n") {
			if i >= 2 { // where the goroutines were created
				break
			}
			for _, l := range strings.Split(part, "\n") {
				l = strings.TrimSpace(l)
				if !strings.HasSuffix(l, ")") || strings.Contains(l, " by ") {
					continue
				}
				pkg := l[:strings.LastIndex(l[:strings.Index(l, "(")+1], "/")+1]
				if strings.Contains(pkg, ".") { // of a module, not of the standard library
					if strings.HasPrefix(l, "github.com/yusank/godis/") {
						own++
					}
					break
				}
			}
		}
		if own == 2 {
			return strings.TrimSpace(rep)
		}
	}
	return ""
}

func (s *Server) kill() {
	_ = s.cmd.Process.Signal(syscall.SIGKILL)
	<-s.dead
}

func (s *Server) alive() bool {
	select {
	case <-s.dead:
		return false
	default:
		return true
	}
}

// serverPool keeps a few servers started ahead.
type serverPool struct {
	ready chan *Server
	stop  chan struct{}
}

func (e *Env) server(variant string) *Server {
	e.serverBin(variant) // builds, or panics here
	e.mu.Lock()
	p := e.pools[variant]
	if p == nil {
		p = &serverPool{ready: make(chan *Server, e.workers), stop: make(chan struct{})}
		e.pools[variant] = p
		for i := 0; i < 2; i++ {
			go func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Fprintln(os.Stderr, "harness error:", r)
						os.Exit(3)
					}
				}()
				for {
					s := e.startServer(variant)
					select {
					case p.ready <- s:
					case <-p.stop:
						s.kill()
						return
					}
				}
			}()
		}
	}
	e.mu.Unlock()
	for {
		s := <-p.ready
		if s.alive() || !s.portTaken() {
			return s
		}
	}
}

// portTaken tells that the server ended because it did not get its port (gnet binds it once per event loop):
// trouble between the processes of this machine, which says nothing about the code under test.
func (s *Server) portTaken() bool { return strings.Contains(s.crashText(), "address already in use") }

func (e *Env) closePools() {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, p := range e.pools {
		close(p.stop)
	drain:
		for {
			select {
			case s := <-p.ready:
				s.kill()
			case <-time.After(20 * time.Millisecond):
				break drain
			}
		}
	}
}

// ---- client connections

// Conn is a client connection with an independent RESP parser.
type Conn struct {
	longer time.Duration // waited for a reply, beyond patience
	c      net.Conn
	r      *bufio.Reader
	s      *Server
}

var errNoReply = errors.New("no reply")

func (s *Server) dial() (*Conn, error) {
	var err error
	for i := 0; i < 3; i++ {
		var c net.Conn
		c, err = net.DialTimeout("tcp", s.addr, 20*time.Second)
		if err == nil {
			return &Conn{c: c, r: bufio.NewReaderSize(c, 32<<10), s: s}, nil
		}
		if !s.alive() {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil, err
}

func (c *Conn) close() { c.c.Close() }

// reset closes with an RST.
func (c *Conn) reset() {
	if t, ok := c.c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.c.Close()
}

var slow int64 // replies that took longer than a second, for the evidence

const patience = 25 * time.Second

func (c *Conn) read() (Val, error) {
	start := time.Now()
	c.c.SetReadDeadline(start.Add(patience + c.longer))
	v, err := readVal(c.r)
	if time.Since(start) > time.Second {
		atomic.AddInt64(&slow, 1)
	}
	return v, err
}

func (c *Conn) send(b []byte) error {
	c.c.SetWriteDeadline(time.Now().Add(patience))
	_, err := c.c.Write(b)
	return err
}

// do sends one command and reads one reply.
func (c *Conn) do(args ...B) (Val, error) {
	if err := c.send(encodeReq(args)); err != nil {
		return Val{}, err
	}
	return c.read()
}

func cmdline(ss ...string) []B {
	r := make([]B, len(ss))
	for i, s := range ss {
		r[i] = B(s)
	}
	return r
}

// why explains a connection error: a dead server, a hang, or bytes that are not RESP.
func (c *Conn) why(err error) *Failure {
	s := c.s
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return &Failure{Kind: "hang", Msg: fmt.Sprintf("no complete reply within %v", patience+c.longer)}
	}
	if errors.Is(err, ErrMalformed) {
		return &Failure{Kind: "malformed", Msg: err.Error()}
	}
	// give a dying process time to be reaped
	select {
	case <-s.dead:
	case <-time.After(300 * time.Millisecond):
	}
	if !s.alive() {
		if st := s.cmd.ProcessState; st != nil {
			if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				harness("the server was killed from outside (memory?)")
			}
		}
		if s.portTaken() {
			harness("the port of the server was taken")
		}
		return &Failure{Kind: "crash", Msg: fmt.Sprintf("the server process ended (%v): %s", s.err, s.crashText())}
	}
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE) {
		return &Failure{Kind: "closed", Msg: fmt.Sprintf("the server closed the connection (%v)", err)}
	}
	harness("connection: %v", err)
	return nil
}
