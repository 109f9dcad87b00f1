package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- C19: stopping

// PoolStop is a stop of the executor inside a process.
type PoolStop struct {
	Clients [][][]B `json:"clients"` // commands on keys of its own, and on a shared counter
	Direct  []bool  `json:"direct"`  // the client hands over events itself
	StopAt  int     `json:"stop_at"` // stop after so many replies
	Spin    int     `json:"spin"`    // and so many yields
	Stops   int     `json:"stops"`   // concurrent stops
	Late    [][]B   `json:"late"`    // commands after the stop
}

// SigClient is a client of a server that is told to stop.
type SigClient struct {
	Kind string `json:"kind"` // active, pipeline, idle, partial, deaf, stuck
	Cmds [][]B  `json:"cmds,omitempty"`
}

// SigStop is a stop of a server by a signal.
type SigStop struct {
	Debug   bool        `json:"debug,omitempty"`
	V1      bool        `json:"v1,omitempty"` // the legacy server, which is stopped by a call of its Stop
	Signal  int         `json:"signal"`
	After   int         `json:"after"` // replies
	Spin    int         `json:"spin"`  // and microseconds
	Clients []SigClient `json:"clients"`
}

// StopCase is a case of C19.
type StopCase struct {
	Pool *PoolStop `json:"pool,omitempty"`
	Sig  *SigStop  `json:"sig,omitempty"`
}

type poolQuery struct {
	Clients [][][][]byte
	Direct  []bool
	StopAt  int
	Spin    int
	Stops   int
	Late    [][][]byte
	Final   [][][]byte
	WaitMS  int
}

type poolReply struct {
	Out      []byte
	Lost     bool
	Panic    string
	From, To int64
}

type poolAnswer struct {
	Replies          [][]poolReply
	Late             []poolReply
	Final            []poolReply
	StopFrom, StopTo int64
	StopLost         bool
	Undone           int
	Panic            string
}

const sharedKey = "shared-counter"

// clientCmds are valid commands on keys of one client, with increments of the shared counter.
func (g *Gen) clientCmds(c, n int) [][]B {
	h := newHG(g, weigh(allGroups(2), map[string]int{"keys": -10, "incr": 4, "rpush": 4, "sadd": 3, "append": 3, "zadd": 3, "hincrby": 3, "lpop": 2, "spop": 2}))
	p := fmt.Sprintf("c%d:", c)
	h.all = prefixed(p, h.all)
	for _, k := range kinds {
		h.keys[k] = prefixed(p, h.keys[k])
	}
	var out [][]B
	for i := 0; i < n; i++ {
		if g.chance(0.3) {
			out = append(out, cmdline("INCR", sharedKey))
		} else {
			out = append(out, h.next())
		}
	}
	return out
}

func genStop(g *Gen, i int) any {
	if i%3 == 0 {
		s := &SigStop{Debug: g.chance(0.15), Signal: int(pick(g, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT})), Spin: pick(g, []int{0, 0, 0, 20, 100, 500, 2000})}
		if s.V1 = i%12 == 9; s.V1 {
			s.Debug, s.Signal = false, int(syscall.SIGTERM)
		}
		total := 0
		for c := g.between(1, 6); c > 0; c-- {
			cl := SigClient{Kind: pick(g, []string{"active", "active", "active", "pipeline", "pipeline", "idle", "partial", "deaf", "stuck"})}
			if len(s.Clients) == 0 {
				cl.Kind = pick(g, []string{"active", "pipeline"})
			}
			if cl.Kind != "idle" {
				cl.Cmds = g.clientCmds(c, g.between(1, 60))
			}
			if cl.Kind == "active" || cl.Kind == "pipeline" {
				total += len(cl.Cmds)
			}
			if cl.Kind == "deaf" || cl.Kind == "stuck" {
				key := fmt.Sprintf("c%d:big", c)
				cl.Cmds = append([][]B{cmdline("set", key, strings.Repeat("x", g.between(1, 60)*10000))}, cl.Cmds...)
				for k := g.between(1, pick(g, []int{60, 60, 150})); k > 0; k-- {
					cl.Cmds = append(cl.Cmds, cmdline("get", key))
				}
			}
			s.Clients = append(s.Clients, cl)
		}
		s.After = g.Intn(total + 1)
		for _, cl := range s.Clients {
			if cl.Kind == "stuck" && g.chance(0.6) {
				s.Spin = 300000 // its replies have piled up by then
			}
		}
		return &StopCase{Sig: s}
	}
	p := &PoolStop{Stops: pick(g, []int{1, 1, 1, 2, 3}), Spin: pick(g, []int{0, 0, 1, 2, 5, 20, 100})}
	total := 0
	for c := g.between(1, 12); c > 0; c-- {
		cmds := g.clientCmds(c, pick(g, []int{1, 2, 3, 5, 10, 40}))
		total += len(cmds)
		p.Clients = append(p.Clients, cmds)
		p.Direct = append(p.Direct, g.chance(0.25))
	}
	p.StopAt = g.Intn(total + 1)
	for k := g.between(0, 3); k > 0; k-- {
		p.Late = append(p.Late, pick(g, [][]B{cmdline("INCR", sharedKey), cmdline("SET", "c1:late", "1"), cmdline("PING"), cmdline("GET", sharedKey)}))
	}
	return &StopCase{Pool: p}
}

func parseReply(b []byte) (Val, error) {
	r := bufio.NewReader(bytes.NewReader(b))
	v, err := readVal(r)
	if err != nil {
		return v, fmt.Errorf("%s is not a reply: %v", show(string(b)), err)
	}
	if n := r.Buffered(); n > 0 {
		return v, fmt.Errorf("%s is more than one reply", show(string(b)))
	}
	return v, nil
}

// counterLog collects what the clients were told about the shared counter.
type counterLog struct {
	seen map[int64]bool
	max  int64
}

func (l *counterLog) take(rep Val) error {
	if rep.Kind != ':' || rep.Int < 1 || l.seen[rep.Int] {
		return fmt.Errorf("INCR %s -> %v: two increments took effect as one, or one twice", sharedKey, rep)
	}
	l.seen[rep.Int] = true
	l.max = max(l.max, rep.Int)
	return nil
}

// judge moves the model of a client over one reply. An error has no effect, whatever its reason.
func (l *counterLog) judge(m *Model, args []B, rep Val) (refused bool, err error) {
	if len(args) == 2 && string(args[1]) == sharedKey {
		if isErr(rep) {
			return true, nil
		}
		return false, l.take(rep)
	}
	if isErr(rep) {
		return m.clone().Apply(args, rep) != nil, nil
	}
	return false, m.Apply(args, rep)
}

func poolStop(e *Env, p *PoolStop, o *Obs) *Failure {
	q := &poolQuery{Direct: p.Direct, StopAt: p.StopAt, Spin: p.Spin, Stops: p.Stops, WaitMS: 8000}
	raw := func(cmds [][]B) [][][]byte {
		var out [][][]byte
		for _, c := range cmds {
			var a [][]byte
			for _, s := range c {
				a = append(a, []byte(s))
			}
			out = append(out, a)
		}
		return out
	}
	var keys []B
	seen := map[string]bool{}
	for _, cmds := range append(append([][][]B(nil), p.Clients...), p.Late) {
		for _, c := range cmds {
			for _, k := range keysOf(c) {
				if !seen[k] && k != sharedKey {
					seen[k] = true
					keys = append(keys, B(k))
				}
			}
		}
	}
	for _, cmds := range p.Clients {
		q.Clients = append(q.Clients, raw(cmds))
	}
	q.Late = raw(p.Late)
	final := append([][]B{cmdline("get", sharedKey)}, finalReads(keys)...)
	q.Final = raw(final)
	var (
		a   poolAnswer
		log []string
	)
	if f := e.askFresh("cpool", q, &a, 60*time.Second); f != nil {
		return f
	}
	failf := func(format string, args ...any) *Failure {
		return &Failure{Kind: "mismatch", Msg: fmt.Sprintf(format, args...), Trace: log}
	}
	if a.Panic != "" {
		return failf("Stop panics: %s", a.Panic)
	}
	if a.StopLost {
		return &Failure{Kind: "hang", Msg: "Stop did not return within 8 s"}
	}
	if a.Undone > 0 {
		return failf("%d events which were handed over before Stop returned were not done when it returned", a.Undone)
	}
	counter := &counterLog{seen: map[int64]bool{}}
	m := newModel()
	refusals, executed, across := 0, 0, 0
	see := func(who string, args []B, r *poolReply, mustRefuse, mustRun bool) *Failure {
		o.actions++
		log = append(log, fmt.Sprintf("%s [%d..%d] %s -> %s", who, r.From, r.To, showArgs(args), show(string(r.Out))))
		if r.Panic != "" {
			return failf("%s %s: panic: %s", who, showArgs(args), r.Panic)
		}
		if r.Lost {
			return &Failure{Kind: "hang", Msg: fmt.Sprintf("%s %s: no reply within 8 s", who, showArgs(args)), Trace: log}
		}
		rep, err := parseReply(r.Out)
		if err != nil {
			return failf("%s %s: %v", who, showArgs(args), err)
		}
		if mustRefuse && !isErr(rep) {
			return failf("%s %s -> %v although it was requested after Stop returned (at %d)", who, showArgs(args), rep, a.StopTo)
		}
		refused, err := counter.judge(m, args, rep)
		if err != nil {
			return failf("%s %s: %v", who, showArgs(args), err)
		}
		if refused {
			refusals++
			if mustRun {
				return failf("%s %s -> %v although it ended before Stop was called (at %d)", who, showArgs(args), rep, a.StopFrom)
			}
		} else {
			executed++
		}
		if r.From < a.StopTo && r.To > a.StopFrom {
			across++
		}
		return nil
	}
	for c, rs := range a.Replies {
		if len(rs) != len(p.Clients[c]) {
			return failf("client %d got %d replies to %d requests", c, len(rs), len(p.Clients[c]))
		}
		for i := range rs {
			if f := see(fmt.Sprintf("client %d", c), p.Clients[c][i], &rs[i], rs[i].From > a.StopTo, rs[i].To < a.StopFrom); f != nil {
				return f
			}
		}
	}
	for i := range a.Late {
		if f := see("late", p.Late[i], &a.Late[i], true, false); f != nil {
			return f
		}
	}
	for i := range a.Final {
		r := &a.Final[i]
		log = append(log, fmt.Sprintf("at the end: %s -> %s", showArgs(final[i]), show(string(r.Out))))
		if r.Panic != "" || r.Lost {
			return failf("at the end: %s: no reply (%s)", showArgs(final[i]), r.Panic)
		}
		rep, err := parseReply(r.Out)
		if err != nil {
			return failf("at the end: %s: %v", showArgs(final[i]), err)
		}
		if i == 0 {
			n := int64(len(counter.seen))
			switch {
			case n == 0 && rep.Kind == '_':
				continue
			case n > 0:
				m.setStr(sharedKey, strconv.FormatInt(n, 10))
			}
		}
		if err := m.Apply(final[i], rep); err != nil {
			return failf("at the end: %s: %v (%d requests were executed and %d refused)", showArgs(final[i]), err, executed, refusals)
		}
	}
	if across > 0 {
		o.label("pool:requests during the stop")
	}
	if executed > 0 && refusals > 0 && across > 0 {
		o.nontrivial = true
		o.label("pool:executed and refused")
	}
	return nil
}

func sigStop(e *Env, c *SigStop, o *Obs) *Failure {
	variant := "default"
	if c.Debug {
		variant = "debug"
	}
	if c.V1 {
		variant = "v1"
	}
	s := e.server(variant)
	defer s.kill()
	type result struct {
		reps []Val
		err  error
	}
	var (
		wg      sync.WaitGroup
		replies int64
		reached = make(chan struct{})
		results = make([]result, len(c.Clients))
		conns   []*Conn
	)
	for range c.Clients {
		conn, err := s.dial()
		if err != nil {
			return (&Conn{s: s}).why(err)
		}
		defer conn.close()
		conns = append(conns, conn)
	}
	for i, cl := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, res := conns[i], &results[i]
			conn.c.SetDeadline(time.Now().Add(60 * time.Second))
			read := func() bool {
				v, err := readVal(conn.r)
				if err != nil {
					res.err = err
					return false
				}
				res.reps = append(res.reps, v)
				if cl.Kind == "active" || cl.Kind == "pipeline" {
					if atomic.AddInt64(&replies, 1) == int64(c.After) {
						close(reached)
					}
				}
				return true
			}
			var all []byte
			for _, a := range cl.Cmds {
				all = append(all, encodeReq(a)...)
			}
			switch cl.Kind {
			case "active":
				for _, a := range cl.Cmds {
					if _, err := conn.c.Write(encodeReq(a)); err != nil {
						break
					}
					if !read() {
						break
					}
				}
			case "pipeline":
				_, _ = conn.c.Write(all)
			case "partial":
				_, _ = conn.c.Write(all[:len(all)-1-len(all)%7%len(all)])
			case "deaf":
				_, _ = conn.c.Write(all)
				<-s.dead
			case "stuck": // takes in next to nothing, so that the replies pile up in the server
				if t, ok := conn.c.(*net.TCPConn); ok {
					t.SetReadBuffer(8192)
				}
				_, _ = conn.c.Write(all)
				<-s.dead
				res.err = io.EOF
			}
			if cl.Kind == "pipeline" {
				for range cl.Cmds {
					if !read() {
						break
					}
				}
			}
			for res.err == nil {
				read()
			}
		}()
	}
	if c.After > 0 {
		select {
		case <-reached:
		case <-time.After(10 * time.Second):
		}
	}
	if spin := time.Duration(c.Spin) * time.Microsecond; spin > 10*time.Millisecond {
		time.Sleep(spin)
	} else {
		for t := time.Now(); time.Since(t) < spin; {
		}
	}
	before := atomic.LoadInt64(&replies)
	if err := s.cmd.Process.Signal(syscall.Signal(c.Signal)); err != nil {
		select {
		case <-s.dead:
		case <-time.After(time.Second):
		}
		if s.portTaken() {
			harness("the port of the server was taken")
		}
		return &Failure{Kind: "crash", Msg: fmt.Sprintf("the server ended before it was told to (%v): %s", s.err, s.crashText())}
	}
	start := time.Now()
	select {
	case <-s.dead:
	case <-time.After(patience):
		s.kill()
		wg.Wait()
		return &Failure{Kind: "hang", Msg: fmt.Sprintf("the server still runs %v after %v", patience, syscall.Signal(c.Signal))}
	}
	if time.Since(start) > 6*time.Second {
		o.label("sig:slow exit")
	}
	wg.Wait()
	var log []string
	failf := func(format string, args ...any) *Failure {
		return &Failure{Kind: "mismatch", Msg: fmt.Sprintf(format, args...), Trace: log}
	}
	counter := &counterLog{seen: map[int64]bool{}}
	missing := false
	for i, res := range results {
		cl := c.Clients[i]
		if errors.Is(res.err, ErrMalformed) {
			return failf("client %d (%s): after %d replies: %v", i, cl.Kind, len(res.reps), res.err)
		}
		var ne interface{ Timeout() bool }
		if errors.As(res.err, &ne) && ne.Timeout() {
			return &Failure{Kind: "hang", Msg: fmt.Sprintf("client %d (%s): its connection outlives the server", i, cl.Kind)}
		}
		if !errors.Is(res.err, io.EOF) && !errors.Is(res.err, io.ErrUnexpectedEOF) && !errors.Is(res.err, syscall.ECONNRESET) && !errors.Is(res.err, syscall.EPIPE) {
			harness("client %d: %v", i, res.err)
		}
		n := len(cl.Cmds)
		if cl.Kind == "idle" {
			n = 0
		}
		if cl.Kind == "partial" {
			n-- // the last request is not complete
		}
		if len(res.reps) > n {
			return failf("client %d (%s): %d replies to %d requests, the last is %v", i, cl.Kind, len(res.reps), n, res.reps[len(res.reps)-1])
		}
		if len(res.reps) < n {
			missing = true
		}
		m := newModel()
		for k, rep := range res.reps {
			o.actions++
			log = append(log, fmt.Sprintf("client %d (%s) %s -> %v", i, cl.Kind, showArgs(cl.Cmds[k]), rep))
			if _, err := counter.judge(m, cl.Cmds[k], rep); err != nil {
				return failf("client %d (%s), request %d, %s: %v", i, cl.Kind, k, showArgs(cl.Cmds[k]), err)
			}
		}
	}
	if st := s.cmd.ProcessState; st == nil || !st.Success() {
		if st != nil {
			if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				harness("the server was killed from outside (memory?)")
			}
		}
		return &Failure{Kind: "crash", Msg: fmt.Sprintf("told to stop by %v, the server ended with %v: %s", syscall.Signal(c.Signal), s.err, s.crashText()), Trace: log}
	}
	o.label("sig:" + variant + " " + syscall.Signal(c.Signal).String())
	for _, cl := range c.Clients {
		o.label("client:" + cl.Kind)
	}
	if before > 0 && missing {
		o.nontrivial = true
		o.label("sig:stopped between requests")
	}
	return nil
}

func runStop(e *Env, v any, o *Obs) *Failure {
	c := v.(*StopCase)
	if c.Pool != nil {
		return poolStop(e, c.Pool, o)
	}
	return sigStop(e, c.Sig, o)
}

func shrinkStop(v any) []any {
	c := v.(*StopCase)
	var out []any
	if p := c.Pool; p != nil {
		add := func(f func(d *PoolStop)) {
			d := *p
			f(&d)
			out = append(out, &StopCase{Pool: &d})
		}
		if len(p.Clients) > 1 {
			for i := range p.Clients {
				add(func(d *PoolStop) {
					d.Clients = append(append([][][]B(nil), p.Clients[:i]...), p.Clients[i+1:]...)
					d.Direct = append(append([]bool(nil), p.Direct[:i]...), p.Direct[i+1:]...)
				})
			}
		}
		for i := range p.Clients {
			if n := len(p.Clients[i]); n > 1 {
				add(func(d *PoolStop) {
					d.Clients = append([][][]B(nil), p.Clients...)
					d.Clients[i] = p.Clients[i][:n/2]
				})
				add(func(d *PoolStop) {
					d.Clients = append([][][]B(nil), p.Clients...)
					d.Clients[i] = p.Clients[i][:n-1]
				})
			}
		}
		if p.Stops > 1 {
			add(func(d *PoolStop) { d.Stops = 1 })
		}
		if p.StopAt > 0 {
			add(func(d *PoolStop) { d.StopAt /= 2 })
		}
		if len(p.Late) > 0 {
			add(func(d *PoolStop) { d.Late = p.Late[1:] })
		}
		return out
	}
	s := c.Sig
	add := func(f func(d *SigStop)) {
		d := *s
		f(&d)
		out = append(out, &StopCase{Sig: &d})
	}
	if len(s.Clients) > 1 {
		for i := range s.Clients {
			add(func(d *SigStop) { d.Clients = append(append([]SigClient(nil), s.Clients[:i]...), s.Clients[i+1:]...) })
		}
	}
	for i := range s.Clients {
		if n := len(s.Clients[i].Cmds); n > 1 {
			add(func(d *SigStop) {
				d.Clients = append([]SigClient(nil), s.Clients...)
				d.Clients[i].Cmds = d.Clients[i].Cmds[:n/2]
			})
		}
	}
	if s.After > 0 {
		add(func(d *SigStop) { d.After /= 2 })
	}
	if s.V1 {
		add(func(d *SigStop) { d.V1 = false })
	}
	if s.Debug {
		add(func(d *SigStop) { d.Debug = false })
	}
	return out
}

func init() {
	register(&Prop{ID: "C19", Level: "fault_enumeration", Rule: "two of three cases stop the executor inside a process after a generated number of replies to 1 to 12 clients (some hand over events themselves, up to 3 stops at once), with requests after the stop and a look at the database through a new executor at the end, all against a model per client and a shared counter; one of three sends SIGTERM, SIGINT or SIGQUIT to a server with active, pipelining, idle, half-finished and non-reading clients and checks the exit status and that the replies are a prefix; it is non-trivial if requests were executed and refused and some were in flight during the stop (executor), or some replies were sent and some were not (server); distinct by the text of the case",
		Quick: 1000, Thorough: 40000, Workers: 6, Gen: genStop, New: func() any { return &StopCase{} }, Run: runStop, Shrink: shrinkStop, Tries: 10})
}
