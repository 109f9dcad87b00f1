package main

// C30: a server listens on the address it is told, or ends.

import (
	"fmt"
	"net"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Listen is a server told to listen.
type Listen struct {
	Variant string `json:"variant"`
	Scheme  string `json:"scheme"`
	Host    string `json:"host"`          // own: a loopback address of this run
	Bad     string `json:"bad,omitempty"` // the whole address, nobody can listen on it; %P is a free port
	Clients int    `json:"clients"`
	Signal  int    `json:"signal"`
	Taken   bool   `json:"taken,omitempty"` // someone else listens there
	Again   int    `json:"again,omitempty"` // more servers, one after the other, there
	Limit   int    `json:"limit,omitempty"` // descriptors the server may have; more clients come than that
}

var badAddrs = []string{
	"tcp://192.0.2.1:%P", "192.0.2.77:%P", "tcp://127.0.0.1:99999", "tcp://127.0.0.1:-1", "127.0.0.1:65536", "tcp://127.0.0.1", "127.0.0.1",
	"nonsense", "tcp://127.0.0.1:port", "tcp://no such host:%P", "tcp://[::1:%P", "tcp://127.0.0.1:%P:%P", "tcp://.invalid:%P", "127.0.0.1:1e3", ":::",
}

func genListen(g *Gen, i int) any {
	d := &Listen{Variant: pick(g, []string{"default", "default", "default", "debug", "v1"}), Clients: g.between(1, 5),
		Signal: int(pick(g, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}))}
	if d.Variant == "v1" {
		d.Signal = int(syscall.SIGTERM)
	}
	if g.chance(0.4) {
		d.Bad = pick(g, badAddrs)
		if d.Variant == "v1" && (strings.HasPrefix(d.Bad, "tcp://") && len(d.Bad) < 7) {
			d.Bad = "nonsense"
		}
		return d
	}
	d.Scheme = pick(g, []string{"tcp://", "tcp://", ""})
	if d.Variant != "v1" {
		d.Scheme = pick(g, []string{"tcp://", "tcp://", "", "tcp4://"})
	}
	d.Host = pick(g, []string{"own", "own", "own", "", "0.0.0.0", "localhost", "[::1]"})
	if d.Host == "[::1]" && d.Scheme == "tcp4://" {
		d.Scheme = "tcp://"
	}
	if d.Scheme == "" && d.Host == "[::1]" {
		d.Scheme = "tcp://"
	}
	switch {
	case g.chance(0.15):
		d.Taken = true
	case g.chance(0.4):
		d.Again = g.between(1, 3)
	case g.chance(0.4):
		d.Limit = g.between(60, 300)
	}
	return d
}

// otherHost is a loopback address no harness gives to a server.
const otherHost = "127.254.251.252"

func dialable(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

func runListen(e *Env, v any, o *Obs) *Failure {
	d := v.(*Listen)
	own, port, _ := net.SplitHostPort(freeAddr())
	arg, addr := d.Scheme+d.Host+":"+port, ""
	switch {
	case d.Bad != "":
		arg = strings.ReplaceAll(d.Bad, "%P", port)
	case d.Host == "own":
		arg, addr = d.Scheme+own+":"+port, own+":"+port
	case d.Host == "":
		addr = own + ":" + port
	case d.Host == "0.0.0.0":
		addr = own + ":" + port
	default:
		addr = d.Host + ":" + port
		l, err := net.Listen("tcp", addr)
		if err != nil {
			o.label("not to be had here:" + d.Host)
			return nil
		}
		l.Close()
	}
	if d.Taken && d.Bad == "" {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return nil
		}
		defer l.Close()
	}
	for i := 0; i <= d.Again; i++ {
		for from := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			f, taken := oneListen(e, d, o, arg, addr, port, i)
			if f != nil {
				return f
			}
			if !taken {
				break
			}
			// a connection of someone else may have the port, for a while
			probe := addr
			if d.Host == "" || d.Host == "0.0.0.0" {
				probe = d.Host + ":" + port
			}
			l, err := net.Listen("tcp", probe)
			if err != nil {
				if time.Since(from) > patience {
					return nil
				}
				continue
			}
			l.Close()
			if time.Since(from) > patience {
				return mismatch("told to listen on %q, %v long no %s server can after one which stopped: address already in use", arg, patience, d.Variant)
			}
		}
	}
	return nil
}

// oneListen starts a server, uses it and stops it.
func oneListen(e *Env, d *Listen, o *Obs, arg, addr, port string, nth int) (*Failure, bool) {
	s := &Server{addr: addr, stderr: &tail{}, dead: make(chan struct{})}
	s.cmd = exec.Command(e.serverBin(d.Variant), "-addr", arg)
	if d.Limit > 0 {
		s.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, descriptors(d.Limit)), e.serverBin(d.Variant), "-addr", arg)
	}
	s.cmd.Env = goEnv()
	s.cmd.Dir = e.scratch
	s.cmd.Stderr = s.stderr
	s.cmd.WaitDelay = time.Second
	if err := startCmd(s.cmd); err != nil {
		harness("starting the server: %v", err)
	}
	go func() {
		s.err = s.cmd.Wait()
		close(s.dead)
	}()
	defer s.kill()
	o.label("server:" + d.Variant)
	o.actions++
	crashed := func() *Failure {
		t := s.crashText()
		if strings.HasPrefix(t, "panic:") || strings.HasPrefix(t, "fatal error:") {
			return &Failure{Kind: "crash", Msg: fmt.Sprintf("told to listen on %q, the %s server ended with %v: %s", arg, d.Variant, s.err, t)}
		}
		return nil
	}
	if d.Bad != "" || d.Taken {
		if d.Taken {
			o.label("taken")
		} else {
			o.label("bad")
		}
		select {
		case <-s.dead:
		case <-time.After(patience):
			return &Failure{Kind: "hang", Msg: fmt.Sprintf("nobody else can listen on %q, and %v later the %s server still runs", arg, patience, d.Variant)}, false
		}
		if f := crashed(); f != nil {
			return f, false
		}
		o.nontrivial = true
		return nil, false
	}
	if nth == 0 {
		o.label("good:" + d.Host)
	} else {
		o.label("again")
	}
	for from := time.Now(); ; time.Sleep(time.Millisecond) {
		if dialable(addr) {
			break
		}
		if !s.alive() {
			if s.portTaken() {
				return nil, true
			}
			if f := crashed(); f != nil {
				return f, false
			}
			return mismatch("told to listen on %q, the %s server ended: %v: %s", arg, d.Variant, s.err, s.stderr.String()), false
		}
		if time.Since(from) > patience {
			return mismatch("told to listen on %q, the %s server does not accept connections there for %v", arg, d.Variant, patience), false
		}
	}
	var (
		wg   sync.WaitGroup
		mu   sync.Mutex
		stay []*Conn
	)
	defer func() {
		for _, c := range stay {
			c.close()
		}
	}()
	fails := make([]*Failure, d.Clients)
	trouble := make([]any, d.Clients)
	for i := 0; i < d.Clients; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { trouble[i] = recover() }()
			c, err := s.dial()
			if err != nil {
				fails[i] = (&Conn{s: s}).why(err)
				return
			}
			if i%2 == 0 {
				defer c.close()
			} else { // still there when the server stops
				mu.Lock()
				stay = append(stay, c)
				mu.Unlock()
			}
			key := fmt.Sprintf("k%d", i)
			if _, err := c.do(cmdline("set", key, key)...); err != nil {
				fails[i] = c.why(err)
				return
			}
			got, err := c.do(cmdline("get", key)...)
			if err != nil {
				fails[i] = c.why(err)
			} else if string(got.Str) != key {
				fails[i] = mismatch("GET %s is %s", key, show(got.String()))
			}
		}()
	}
	wg.Wait()
	if !s.alive() && s.portTaken() { // gnet binds once per event loop
		return nil, true
	}
	for _, t := range trouble {
		if t != nil {
			panic(t)
		}
	}
	for _, f := range fails {
		if f != nil {
			return f, false
		}
	}
	o.actions += d.Clients
	if d.Limit > 0 {
		o.label("descriptors")
		if f := outOfDescriptors(s, descriptors(d.Limit)); f != nil {
			return f, false
		}
	}
	if d.Host == "own" && dialable(otherHost+":"+port) {
		return mismatch("told to listen on %q, the %s server accepts connections on %s:%s as well", arg, d.Variant, otherHost, port), false
	}
	if err := s.cmd.Process.Signal(syscall.Signal(d.Signal)); err != nil {
		return &Failure{Kind: "crash", Msg: fmt.Sprintf("the server ended before it was told to (%v): %s", s.err, s.crashText())}, false
	}
	select {
	case <-s.dead:
	case <-time.After(patience):
		return &Failure{Kind: "hang", Msg: fmt.Sprintf("the server still runs %v after %v", patience, syscall.Signal(d.Signal))}, false
	}
	if f := crashed(); f != nil {
		return f, false
	}
	o.nontrivial = true
	return nil, false
}

// descriptors is the limit of a server which needs some for each processor.
func descriptors(limit int) int { return limit + 6*runtime.NumCPU() }

// outOfDescriptors opens more connections than the server can have, and closes them.
func outOfDescriptors(s *Server, limit int) *Failure {
	first, err := s.dial()
	if err != nil {
		return (&Conn{s: s}).why(err)
	}
	defer first.close()
	if _, err := first.do(cmdline("set", "first", "1")...); err != nil {
		return first.why(err)
	}
	var crowd []net.Conn
	gone := func() {
		for _, c := range crowd {
			c.Close()
		}
	}
	defer gone()
	for i := 0; i < limit+20; i++ {
		c, err := net.DialTimeout("tcp", s.addr, 5*time.Second)
		if err != nil { // fewer are let in than wait
			break
		}
		crowd = append(crowd, c)
	}
	time.Sleep(50 * time.Millisecond)
	if _, err := first.do(cmdline("set", "first", "2")...); err != nil {
		f := first.why(err)
		f.Msg = fmt.Sprintf("%d connections to a server that may have %d descriptors, and an older client is not served: %s", len(crowd), limit, f.Msg)
		return f
	}
	gone()
	for from := time.Now(); ; time.Sleep(50 * time.Millisecond) {
		c, err := s.dial()
		var got Val
		if err == nil {
			got, err = c.do(cmdline("get", "first")...)
			if err != nil && c.why(err).Kind == "hang" {
				err = fmt.Errorf("no reply")
			}
			c.close()
			if err == nil {
				if got.Str != "2" {
					return mismatch("GET of the last SET is %v", got)
				}
				return nil
			}
		}
		if !s.alive() {
			return (&Conn{s: s}).why(err)
		}
		if time.Since(from) > patience {
			return mismatch("%d connections to a server that may have %d descriptors came and went, and %v later new ones are not served: %v", len(crowd), limit, patience, err)
		}
	}
}

func shrinkListen(v any) []any {
	d := v.(*Listen)
	var out []any
	if d.Clients > 1 {
		n := *d
		n.Clients = 1
		out = append(out, &n)
	}
	if d.Variant == "debug" {
		n := *d
		n.Variant = "default"
		out = append(out, &n)
	}
	return out
}

func init() {
	register(&Prop{ID: "C30", Rule: "a case tells a server of any build to listen on an address of any form (with and without a scheme, one address, all of them, a name, IPv6; or one that nobody can listen on), uses it with 1 to 5 clients there, looks for it elsewhere (now and then until it is out of descriptors) and stops it by a signal, or waits for it to end; it is non-trivial if it ended in time after that; distinct by the text of the case",
		Quick: 250, Thorough: 5000, Gen: genListen, New: func() any { return &Listen{} }, Run: runListen, Shrink: shrinkListen, Tries: 3})
}
