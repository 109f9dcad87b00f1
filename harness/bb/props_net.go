package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// ---- C17: request streams in any segmentation

// Stream is what one connection sends, and how.
type Stream struct {
	Steps []Step `json:"steps"` // Q: as an inline PING
	Cuts  []int  `json:"cuts"`  // sizes of the packets, repeated; none: one packet
	Pause []int  `json:"pause"` // microseconds after each of the first packets
	Late  bool   `json:"late"`  // nothing is read before everything is sent
	Half  bool   `json:"half"`  // the client stops sending at the end (v1 only)
}

// Streams is a case of C17, one stream for each connection.
type Streams struct {
	Conns []Stream `json:"conns"`
}

func (s *Stream) bytes() []byte {
	var b []byte
	for _, st := range s.Steps {
		if st.Q {
			b = append(b, "PING\r\n"...)
		} else {
			b = append(b, encodeReq(st.A)...)
		}
	}
	return b
}

func prefixed(p string, ks []string) []string {
	out := make([]string, len(ks))
	for i, k := range ks {
		out[i] = p + k
	}
	return out
}

func (g *Gen) stream(conn int, prefix string) Stream {
	h := newHG(g, weigh(allGroups(2), map[string]int{"keys": -10, "command": -10, "get": 4, "set": 4}))
	h.all = prefixed(prefix, h.all)
	for _, k := range kinds {
		h.keys[k] = prefixed(prefix, h.keys[k])
	}
	var s Stream
	n := g.between(1, 30)
	big := false
	switch g.Intn(8) {
	case 0:
		n = g.between(30, 300)
	case 1:
		n = pick(g, []int{400, 800, 1500})
	case 2:
		big = true
		n = g.between(2, 12)
	}
	nothing := g.chance(0.3) // empty arrays, which are no requests
	for i := 0; i < n; i++ {
		tok := fmt.Sprintf("%stoken-%d", prefix, i)
		switch r := g.Intn(10); {
		case big && r < 5:
			tok += g.bytes(g.bigSize(400000))
			fallthrough
		case r < 2:
			k := pick(g, h.all)
			s.Steps = append(s.Steps, Step{A: bs([]string{"set", k, tok})}, Step{A: bs([]string{"get", k})})
		case r == 2:
			s.Steps = append(s.Steps, Step{A: cmdline("PING"), Q: g.chance(0.5)})
		case r == 3 && nothing:
			s.Steps = append(s.Steps, Step{})
		default:
			s.Steps = append(s.Steps, Step{A: h.next()})
		}
	}
	if nothing && g.chance(0.5) {
		s.Steps = append(s.Steps, Step{})
	}
	size := len(s.bytes())
	switch g.Intn(6) {
	case 0:
		if size <= 3000 {
			s.Cuts = []int{1}
		} else {
			s.Cuts = []int{g.between(100, 2000), g.between(1, 10)}
		}
	case 1:
		for k := g.between(1, 10); k > 0; k-- {
			s.Cuts = append(s.Cuts, g.between(1, max(1, size)))
		}
	case 2: // around the ends of the requests
		for _, st := range s.Steps {
			l := 6
			if !st.Q {
				l = len(encodeReq(st.A))
			}
			s.Cuts = append(s.Cuts, max(1, l+g.between(-3, 3)))
		}
	case 3:
		s.Cuts = []int{pick(g, []int{2, 3, 7, 100, 1460, 4096, 65535, 65536, 65537})}
		if size/s.Cuts[0] > 3000 {
			s.Cuts[0] = 1460
		}
	}
	if g.chance(0.5) {
		for k := g.between(1, 8); k > 0; k-- {
			s.Pause = append(s.Pause, pick(g, []int{0, 50, 300, 1000, 3000}))
		}
	}
	s.Late = g.chance(0.3) && size < 300000
	return s
}

func genStreams(g *Gen, i int) any {
	c := &Streams{}
	for k := pick(g, []int{1, 2, 3, 4, 8}); k > 0; k-- {
		c.Conns = append(c.Conns, g.stream(k, fmt.Sprintf("c%d:", k)))
	}
	if i == 6 || g.chance(0.001) { // more requests than 16 bits count
		st := &c.Conns[0]
		st.Cuts, st.Pause, st.Late = nil, nil, false
		if g.chance(0.5) {
			st.Cuts = []int{g.between(5000, 100000)}
		}
		for n := g.between(65600, 80000); len(st.Steps) < n; {
			k, tok := fmt.Sprint("big", g.Intn(5)), fmt.Sprint("n", len(st.Steps))
			st.Steps = append(st.Steps, Step{A: bs([]string{"set", k, tok})}, Step{A: bs([]string{"get", k})}, Step{A: cmdline("PING")})
		}
	}
	if i == 0 || i == 3 { // a connection that is silent for long within a request, and one between requests
		c.Conns = c.Conns[:1]
		steps := c.Conns[0].Steps
		cut := len(encodeReq(steps[0].A))
		if steps[0].Q {
			cut = 6
		}
		c.Conns = append(c.Conns, c.Conns[0])
		c.Conns[1].Steps = nil
		for _, st := range steps {
			c.Conns[1].Steps = append(c.Conns[1].Steps, st)
		}
		for k := range c.Conns {
			c.Conns[k].Cuts, c.Conns[k].Pause, c.Conns[k].Late = []int{cut - 2*k, 1 << 30}, []int{11_000_000}, false
		}
		c.Conns[1].Steps = g.stream(9, "c9:").Steps
		c.Conns[1].Cuts[0] = 3
	}
	return c
}

// sendParts writes b in packets.
func (c *Conn) sendParts(b []byte, cuts, pause []int) error {
	if len(cuts) == 0 {
		return c.send(b)
	}
	for i := 0; len(b) > 0; i++ {
		n := min(len(b), max(1, cuts[i%len(cuts)]))
		if err := c.send(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if i < len(pause) {
			time.Sleep(time.Duration(pause[i]) * time.Microsecond)
		}
	}
	return nil
}

func runStreams(variant string) func(e *Env, c any, o *Obs) *Failure {
	return func(e *Env, c any, o *Obs) *Failure { return streams(e, variant, c.(*Streams), o) }
}

func streams(e *Env, variant string, d *Streams, o *Obs) *Failure {
	s := e.server(variant)
	n := len(d.Conns)
	xs := make([]*session, n)
	defer s.kill()
	for i := range d.Conns {
		c, err := s.dial()
		if err != nil {
			return (&Conn{s: s}).why(err)
		}
		defer c.close()
		xs[i] = &session{o: &Obs{}, m: newModel(), s: s, conns: []*Conn{c}, named: map[string]bool{}}
	}
	fails := make([]*Failure, n)
	errs := make([]any, n)
	var wg sync.WaitGroup
	for i := range d.Conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			fails[i] = xs[i].runStream(&d.Conns[i])
		}()
	}
	wg.Wait()
	whole := newModel()
	for i, x := range xs {
		if errs[i] != nil {
			panic(errs[i])
		}
		if fails[i] != nil {
			fails[i].Msg = fmt.Sprintf("connection %d: %s", i, fails[i].Msg)
			return fails[i]
		}
		o.actions += x.o.actions
		for l, k := range x.o.labels {
			if o.labels == nil {
				o.labels = map[string]int{}
			}
			o.labels[l] += k
		}
		for k, v := range x.m.keys {
			whole.keys[k] = v
		}
		if len(d.Conns[i].Cuts) > 0 && x.data >= 2 {
			o.nontrivial = true
		}
		if len(d.Conns[i].bytes()) > 65536 {
			o.label("stream>64k")
		}
	}
	// the whole database, on a connection of its own
	c, err := s.dial()
	if err != nil {
		return (&Conn{s: s}).why(err)
	}
	defer c.close()
	y := &session{o: o, m: whole, s: s, conns: []*Conn{c}, named: map[string]bool{}}
	for _, x := range xs {
		for k := range x.named {
			y.named[k] = true
		}
	}
	return y.finish()
}

func (x *session) runStream(st *Stream) *Failure {
	c := x.conns[0]
	b := st.bytes()
	sent := make(chan error, 1)
	go func() {
		err := c.sendParts(b, st.Cuts, st.Pause)
		if err == nil && st.Half {
			err = c.c.(*net.TCPConn).CloseWrite()
		}
		sent <- err
	}()
	var sendErr error
	if st.Late {
		sendErr = <-sent
	}
	for _, s := range st.Steps {
		if len(s.A) == 0 {
			continue // no request, no reply
		}
		x.o.actions++
		x.log = append(x.log, entry{args: s.A})
		if len(x.log) > 4000 {
			x.log = x.log[2000:]
		}
		rep, err := c.read()
		if err != nil {
			return x.fail(c.why(err))
		}
		x.log[len(x.log)-1].rep = rep
		if f := x.check(s.A, rep); f != nil {
			return f
		}
	}
	if !st.Late {
		sendErr = <-sent
	}
	if sendErr != nil {
		return x.fail(c.why(sendErr))
	}
	if st.Half {
		v, err := c.read()
		if err == nil {
			return x.fail(mismatch("received %v after the last reply", v))
		}
		if !errors.Is(err, io.EOF) {
			return x.fail(c.why(err))
		}
		return nil
	}
	return x.quiet()
}

func shrinkStreams(c any) []any {
	d := c.(*Streams)
	var out []any
	edit := func(f func(n *Streams)) {
		n := &Streams{Conns: append([]Stream(nil), d.Conns...)}
		f(n)
		if len(n.Conns) > 0 {
			out = append(out, n)
		}
	}
	for i := range d.Conns {
		edit(func(n *Streams) { n.Conns = append(n.Conns[:i], n.Conns[i+1:]...) })
	}
	for i, s := range d.Conns {
		for _, h := range shrinkHist(&Hist{Conns: 1, Steps: s.Steps}) {
			edit(func(n *Streams) { n.Conns[i].Steps = h.(*Hist).Steps })
		}
		if len(s.Cuts) > 0 {
			edit(func(n *Streams) { n.Conns[i].Cuts = nil })
			edit(func(n *Streams) { n.Conns[i].Cuts = s.Cuts[:len(s.Cuts)/2] })
		}
		if len(s.Pause) > 0 {
			edit(func(n *Streams) { n.Conns[i].Pause = nil })
		}
		if s.Late {
			edit(func(n *Streams) { n.Conns[i].Late = false })
		}
	}
	return out
}

// ---- C16: hostile clients

// Attack is what one hostile connection sends.
type Attack struct {
	Data  B      `json:"data"`
	Times int    `json:"times,omitempty"` // the data is repeated
	Cuts  []int  `json:"cuts,omitempty"`
	End   string `json:"end"`            // close, reset, half, open
	Sure  bool   `json:"sure,omitempty"` // malformed by any reading: must be refused
	Deaf  bool   `json:"deaf,omitempty"` // replies are never read
}

func (a *Attack) bytes() []byte {
	return []byte(strings.Repeat(string(a.Data), max(1, a.Times)))
}

// Hostile is a case of C16. With Decode, the attacks are decoded in a process of its own instead.
type Hostile struct {
	Decode  bool     `json:"decode,omitempty"`
	Attacks []Attack `json:"attacks"`
	Victim  []Step   `json:"victim,omitempty"`
	Crowd   int      `json:"crowd,omitempty"` // connections that stay open, most of them within a request
	Churn   int      `json:"churn,omitempty"` // connections that come and go
	Idle    int      `json:"idle,omitempty"`  // milliseconds without any traffic
}

var badFrames = []string{ // complete, and wrong by any reading of the protocol
	"$abc\r\n", "*\r\n", "$\r\n", "*1\r\n$\r\na\r\n", "$-5\r\n", "$99999999999999999999\r\n", "*abc\r\n", "*99999999999999999999\r\n", "*1\r\n$-2\r\n", "*1\r\n$x\r\n",
	"*2\r\n$3\r\nGET\r\n$1\r\nabcd\r\n", "$3\r\nabcdefgh\r\n", "*1\r\n$4\r\nPINGPING\r\n", "*1\r\n$\r\n\r\n", "*1\r\n$1 \r\na\r\n", "*1\r\n$0x1\r\na\r\n", "*1\r\n$1.5\r\na\r\n", "*2\r\n$3\r\nGET\r\n$-9223372036854775808\r\n", "*1\r\n$-9223372036854775809\r\n",
	"\x16\x03\x01\x02\x00\x01\r\n", "\xff\xfe\r\n",
}

var oddFrames = []string{
	"\r\n", "\n", "\r", "\x00", "*\r\n", "$\r\n", "+\r\n", "-\r\n", ":\r\n", "*0\r\n", "*-1\r\n", "$-1\r\n", "$0\r\n\r\n", "*1\r\n*1\r\n*1\r\n*0\r\n", "*1000000000\r\n", "*2147483647\r\n", "*2147483648\r\n", "*4294967296\r\n", "*9223372036854775807\r\n",
	"$2147483647\r\n", "$536870912\r\n", "$536870913\r\n", "$9223372036854775807\r\n", "$9223372036854775806\r\n", "$9223372036854775805\r\nx", "*3\r\n$3\r\nSET\r\n$9223372036854775807\r\n", "*-9223372036854775808\r\n",
	"PING", "PING\n", "ping\r\n", "PING \r\n", "PING\r\n", "GET a\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "*1\n$4\nPING\n", "*1\r$4\rPING\r", "!!\r\n", "(1\r\n", "%1\r\n", "~1\r\n+a\r\n", "_\r\n", "#t\r\n", ",1\r\n", "=3\r\n",
	"*1\r\n:5\r\n", "*1\r\n+PING\r\n", "*1\r\n-x\r\n", "+PING\r\n", "*2\r\n+GET\r\n*1\r\n$1\r\na\r\n", "*1\r\n$4\r\nPING", "*1\r\n$4\r\nPING\r", "$5\r\nab",
}

var badPatterns = []string{"[", "]", "{", "}", "\\", "[]", "[^]", "[!]", "[a-", "[a-]", "[z-a]", "{}", "{,}", "{a", "{a,b", "a}", "{{a}", "{a,{b,c}}", "[[", "[\\]", "\\\\", "*\\", "[a", "[*", "{*,?}", "{[a]", "[{]", "\xff", "[\xff]", "{\xff}", "\xff*", "*[", "?[", "**{", "[!a-z]*", "{a,b}*{c,d}*{e,f}", "[]a]", "[^a", "[a-b-c]", "{a,b}{c,d}{e,f}{g,h}", "\x00", "[\x00]", "{\x00,a}"}

// slowPatterns are expensive for careless matchers.
func (g *Gen) slowPattern() string {
	part := pick(g, []string{"*a", "?*", "*?", "*a?", "[a]*", "{a,b}*", "*{a,aa}", "*[!b]", "**", "{a,aa,aaa}", "*a*"})
	return strings.Repeat(part, g.between(2, 25)) + pick(g, []string{"", "b", "*", "[c]"})
}

// hostileCommand is a well-formed request with arguments nobody expects, on keys of its own.
func (h *HG) hostileCommand() []B {
	name := pick(h.Gen, commandNames)
	args := h.args(name)
	switch h.Intn(6) {
	case 0:
		args = args[:h.Intn(len(args)+1)]
	case 1:
		for k := h.between(1, 4); k > 0; k-- {
			args = append(args, pick(h.Gen, append(append([]string{"nx", "xx", "incr", "withscores", "byscore", "bylex", "rev", "limit", "(1", "-inf", "[a"}, oddVals...), intTexts...)))
		}
	case 2:
		if len(args) > 0 {
			args[h.Intn(len(args))] = pick(h.Gen, append(append(append([]string(nil), badInts...), intTexts...), oddVals...))
		}
	case 3:
		if len(args) > 0 {
			for i := range args {
				args[i] = pick(h.Gen, append(h.all, append(intTexts, oddVals...)...))
			}
		}
	}
	if name == "keys" && h.chance(0.9) {
		args = []string{pick(h.Gen, badPatterns)}
		if h.chance(0.5) {
			args[0] = h.slowPattern()
		}
		if h.chance(0.2) {
			args[0] = pick(h.Gen, badPatterns) + pick(h.Gen, badPatterns) + pick(h.Gen, badPatterns)
		}
		if h.chance(0.06) {
			args[0] = strings.Repeat(pick(h.Gen, append([]string{"{", "[", "*", "?", "\\", "{a,", "[a", "*a", "{{"}, badPatterns...)), pick(h.Gen, []int{30, 200, 1000, 5000, 20000}))
		}
	}
	return append([]B{B(randCase(h.Gen, name))}, bs(args)...)
}

func (g *Gen) mutate(b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := g.between(1, 4); k > 0 && len(b) > 0; k-- {
		i := g.Intn(len(b))
		switch g.Intn(8) {
		case 0:
			b[i] = byte(g.Intn(256))
		case 1:
			b[i] = pick(g, []byte("\r\n$*+-:0123456789 "))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i], append([]byte(pick(g, oddFrames)), b[i:]...)...)
		case 4:
			b = b[:i]
		case 5:
			j := g.between(i, min(len(b), i+20))
			b = append(b[:j:j], b[i:]...)
		case 6: // another number
			for i < len(b) && (b[i] < '0' || b[i] > '9') {
				i++
			}
			if i < len(b) {
				b = append(b[:i:i], append([]byte(pick(g, append(intTexts, badInts...))), b[i+1:]...)...)
			}
		case 7:
			b = append(b[:i:i], append([]byte(g.bytes(g.between(1, 5))), b[i:]...)...)
		}
	}
	return b
}

func (g *Gen) attack(h *HG) Attack {
	a := Attack{End: pick(g, []string{"close", "close", "reset", "half", "open"})}
	cmd := func() string { return string(encodeReq(h.hostileCommand())) }
	switch g.Intn(10) {
	case 0:
		a.Data, a.Sure = B(pick(g, badFrames)), true
		if g.chance(0.5) {
			a.Data = B(encodeReq(cmdline("PING"))) + a.Data
		}
	case 1:
		a.Data = B(pick(g, oddFrames) + pick(g, []string{"", "", cmd(), pick(g, oddFrames)}))
	case 2:
		a.Data = B(g.bytes(g.bigSize(3000)))
	case 3, 4:
		a.Data = B(g.mutate([]byte(cmd() + cmd())))
	case 5:
		switch g.Intn(5) {
		case 0:
			a.Data, a.Times = "*1\r\n", pick(g, []int{31, 32, 33, 100, 10000, 200000})
		case 1:
			a.Data, a.Times = B(pick(g, []string{"*", "$", "a", "\x00", "1", "+a", "\r"})), pick(g, []int{100, 5000, 70000, 1000000})
		case 2:
			a.Data, a.Times = B(pick(g, []string{"*0\r\n", "*-1\r\n", "+\r\n", "PING\r\n", "*1\r\n$4\r\nPING\r\n", "\r\n"})), pick(g, []int{10, 500, 5000})
		case 3:
			a.Data = B("*" + strings.Repeat("0", g.between(1, 3000)) + "1\r\n$4\r\nPING\r\n")
		case 4:
			a.Data = B("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$" + pick(g, []string{"1000000", "100000000", "536870912"}) + "\r\n" + g.bytes(g.bigSize(5000)))
		}
	default:
		for k := pick(g, []int{1, 3, 10}); k > 0; k-- {
			a.Data += B(cmd())
		}
	}
	if g.chance(0.3) && len(a.bytes()) < 20000 {
		a.Cuts = []int{g.between(1, 20), g.between(1, 200)}
	}
	return a
}

func genHostile(g *Gen, i int) any {
	h := newHG(g, weigh(allGroups(1), nil))
	h.all = append(h.all, "a", strings.Repeat("a", g.between(5, 60)))
	h.errP, h.cross = 0.2, 0.4
	c := &Hostile{Decode: i%3 == 0}
	n := g.between(1, 10)
	if c.Decode {
		n = 1
	}
	for ; n > 0; n-- {
		c.Attacks = append(c.Attacks, g.attack(h))
	}
	if i == 8 || i == 9 { // deeper than any stack
		c.Attacks[0] = Attack{Data: "*1\r\n", Times: 10_000_000, End: "close"}
	}
	if c.Decode {
		return c
	}
	if i == 5 || g.chance(0.03) {
		size := g.bigSize(200000)
		if i == 5 || g.chance(0.1) {
			size = g.between(100000, 200000)
		}
		big := string(encodeReq(bs([]string{"set", "a", g.bytes(size)})))
		c.Attacks = append(c.Attacks, Attack{Data: B(big), End: "half"}, Attack{Data: B(encodeReq(cmdline("get", "a"))), Times: g.between(min(size/1000, 100), 200), End: "open", Deaf: true})
	}
	if g.chance(0.01) {
		c.Crowd = pick(g, []int{30, 100, 300, 1200})
	}
	if g.chance(0.004) {
		c.Churn = pick(g, []int{100, 500, 1500})
	}
	switch i { // some of each in every run
	case 1:
		c.Idle = 11000
	case 2:
		c.Crowd = 1200
	case 4:
		c.Churn = 8000
	}
	v := newHG(g, weigh(allGroups(1), map[string]int{"keys": -10}))
	v.errP = 0
	v.all = numbered("victim:", 4)
	for i, k := range kinds {
		v.keys[k] = []string{v.all[i%4]}
	}
	for k := g.between(3, 15); k > 0; k-- {
		c.Victim = append(c.Victim, Step{A: v.next()})
	}
	return c
}

func runHostile(variant string) func(e *Env, c any, o *Obs) *Failure {
	return func(e *Env, c any, o *Obs) *Failure {
		d := c.(*Hostile)
		if d.Decode {
			return decodeHostile(e, d, o)
		}
		return hostile(e, variant, d, o)
	}
}

func decodeHostile(e *Env, d *Hostile, o *Obs) *Failure {
	for _, at := range d.Attacks {
		b := at.bytes()
		var a decAnswer
		q := decQuery{Stream: b, Chunks: at.Cuts, Buf: 4096, Max: len(b) + 2}
		o.actions++
		if f := e.ask("cdecode", q, &a, childWait); f != nil {
			f.Msg = "decoding " + show(string(b)) + ": " + f.Msg
			return f
		}
		pos := 0
		good := 0
		for i, m := range a.Messages {
			if m.Err != "" {
				o.label("decode:refused")
				break
			}
			if m.Pos <= pos {
				return mismatch("decoding %s: message %d consumed nothing", show(string(b)), i)
			}
			pos = m.Pos
			good++
		}
		if good > 0 {
			o.label("decode:messages")
		}
		if a.Alloc > allocLimit(len(b)) {
			return mismatch("decoding %d bytes %s allocated %d bytes", len(b), show(string(b)), a.Alloc)
		}
		if at.Sure {
			before := 0
			if strings.HasPrefix(string(b), string(encodeReq(cmdline("PING")))) {
				before = 1
			}
			if good != before || len(a.Messages) != before+1 {
				return mismatch("decoding %s gave %d messages, %d before the malformed one", show(string(b)), good, before)
			}
		}
		o.nontrivial = len(b) >= 3
	}
	return nil
}

// procKB reads a memory figure of a process the check has started.
func procKB(pid int, field string) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return 0
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == field+":" {
			n, _ := strconv.Atoi(f[1])
			return n
		}
	}
	return 0
}

// crowdParts: the first is nothing, the others are parts of requests.
var crowdParts = []string{"", "*2\r\n$3\r\nGET\r\n", "*", "*3\r\n$3\r\nSET\r\n$6\r\nvictim", "$10\r\nabc", "*1\r\n$4\r\nPING\r"}

// limitFiles lets the server open a few files more than it needs, so that it fails if it never closes one.
func limitFiles(pid int, d *Hostile) {
	if d.Churn == 0 {
		return
	}
	fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return
	}
	lim := syscall.Rlimit{Cur: uint64(len(fds) + d.Crowd + len(d.Attacks) + 300)}
	lim.Max = lim.Cur
	// not being allowed to only makes the case weaker
	_, _, _ = syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}

func hostile(e *Env, variant string, d *Hostile, o *Obs) *Failure {
	x, f := newSession(e, variant, 1, o)
	if f != nil {
		return f
	}
	defer x.close()
	note := func(format string, a ...any) {
		x.log = append(x.log, entry{c: -1, note: "   " + fmt.Sprintf(format, a...)})
	}
	peak := procKB(x.s.cmd.Process.Pid, "VmPeak")
	total := 0
	vi := 0
	limitFiles(x.s.cmd.Process.Pid, d)
	victim := func(n int) *Failure {
		for ; n > 0 && vi < len(d.Victim); n, vi = n-1, vi+1 {
			if _, f := x.step(0, d.Victim[vi].A); f != nil {
				return f
			}
		}
		_, f := x.step(0, cmdline("ping"))
		return f
	}
	if f := victim(len(d.Victim) / 3); f != nil {
		return f
	}
	if d.Crowd > 0 {
		note("%d connections are opened and send nothing or a part of a request", d.Crowd)
		o.label("crowd")
		for k := 0; k < d.Crowd; k++ {
			c, err := x.s.dial()
			if err != nil {
				return x.fail((&Conn{s: x.s}).why(err))
			}
			defer c.close()
			if part := crowdParts[k%len(crowdParts)]; part != "" {
				if err := c.send([]byte(part)); err != nil {
					return x.fail(c.why(err))
				}
			}
		}
		if f := victim(2); f != nil {
			return f
		}
	}
	if d.Churn > 0 {
		note("%d connections are opened, used and closed one after another", d.Churn)
		o.label("churn")
		rss := 0
		for k := 0; k < d.Churn; k++ {
			if k == 1000 {
				rss = procKB(x.s.cmd.Process.Pid, "VmRSS")
			}
			c, err := x.s.dial()
			if err != nil {
				return x.fail((&Conn{s: x.s}).why(err))
			}
			err = c.send([]byte(crowdParts[k%len(crowdParts)]))
			if err == nil && k%5 == 0 {
				err = c.send(encodeReq(cmdline("ping"))) // may be a part of the request before
			}
			if err != nil {
				return x.fail(c.why(err))
			}
			switch k % 3 {
			case 0:
				if k%len(crowdParts) == 0 && k%5 != 0 { // nothing is half sent: the reply is due
					if _, err = c.do(cmdline("ping")...); err != nil {
						return x.fail(c.why(err))
					}
				}
				c.close()
			case 1:
				c.reset()
			case 2:
				c.close()
			}
		}
		if f := victim(2); f != nil {
			return f
		}
		if now := procKB(x.s.cmd.Process.Pid, "VmRSS"); rss > 0 && now-rss > (d.Churn-1000)*2+10000 {
			return x.fail(mismatch("the server's memory grew from %d kB to %d kB while %d connections were opened and closed", rss, now, d.Churn-1000))
		}
	}
	if d.Idle > 0 {
		note("nothing happens for %d ms", d.Idle)
		o.label("idle")
		time.Sleep(time.Duration(d.Idle) * time.Millisecond)
		if f := victim(2); f != nil {
			return f
		}
	}
	for i, at := range d.Attacks {
		b := at.bytes()
		total += len(b)
		o.actions++
		c, err := x.s.dial()
		if err != nil {
			return x.fail((&Conn{s: x.s}).why(err))
		}
		defer c.close()
		note("hostile connection %d sends %s and then: %s", i, show(string(b)), at.End)
		sent := make(chan error, 1)
		if at.Sure {
			go func() { sent <- c.sendParts(b, at.Cuts, nil) }()
			refused := false
			for !refused {
				v, err := c.read()
				if err != nil {
					f := c.why(err)
					if f.Kind != "closed" {
						return x.fail(f)
					}
					refused = true
				}
				refused = refused || isErr(v)
			}
			<-sent
			o.label("refused")
		} else {
			// send errors are expected: the server may have closed the connection
			if at.Deaf {
				o.label("deaf")
				if t, ok := c.c.(*net.TCPConn); ok {
					t.SetReadBuffer(8192) // otherwise tens of megabytes fit in
				}
			}
			go func() { sent <- c.sendParts(b, at.Cuts, nil) }()
			if !at.Deaf {
				go io.Copy(io.Discard, c.r)
			}
			<-sent
			o.label("sent")
		}
		switch at.End {
		case "close":
			c.close()
		case "reset":
			c.reset()
		case "half":
			_ = c.c.(*net.TCPConn).CloseWrite()
		}
		o.label("end:" + at.End)
		if f := victim(1); f != nil {
			return f
		}
	}
	if f := victim(len(d.Victim)); f != nil {
		return f
	}
	c, err := x.s.dial()
	if err != nil {
		return x.fail((&Conn{s: x.s}).why(err))
	}
	x.conns = append(x.conns, c)
	for k := 0; k < 4; k++ {
		if f := x.dump(1, fmt.Sprintf("victim:%d", k)); f != nil {
			return f
		}
	}
	if f := x.quiet(); f != nil {
		return f
	}
	if p := procKB(x.s.cmd.Process.Pid, "VmPeak"); p > 0 && p-peak > 400<<10+total/1024*60 {
		return x.fail(mismatch("the server's address space grew from %d kB to %d kB for %d bytes received", peak, p, total))
	}
	o.nontrivial = x.nets >= 1
	return nil
}

func shrinkHostile(c any) []any {
	d := c.(*Hostile)
	with := func(f func(n *Hostile)) *Hostile {
		n := *d
		f(&n)
		return &n
	}
	var out []any
	if d.Idle > 0 {
		out = append(out, with(func(n *Hostile) { n.Idle = 0 }))
	}
	if d.Crowd > 0 {
		out = append(out, with(func(n *Hostile) { n.Crowd = 0 }), with(func(n *Hostile) { n.Crowd /= 2 }), with(func(n *Hostile) { n.Crowd-- }))
	}
	if d.Churn > 0 {
		out = append(out, with(func(n *Hostile) { n.Churn = 0 }), with(func(n *Hostile) { n.Churn /= 2 }))
	}
	out = append(out, dropChunks(len(d.Attacks), func(i, j int) any {
		return with(func(n *Hostile) { n.Attacks = append(append([]Attack(nil), d.Attacks[:i]...), d.Attacks[j:]...) })
	})...)
	if len(d.Victim) > 0 {
		out = append(out, dropChunks(len(d.Victim), func(i, j int) any {
			return with(func(n *Hostile) { n.Victim = append(append([]Step(nil), d.Victim[:i]...), d.Victim[j:]...) })
		})...)
	}
	for i, a := range d.Attacks {
		edit := func(f func(a *Attack)) {
			n := append([]Attack(nil), d.Attacks...)
			f(&n[i])
			out = append(out, with(func(h *Hostile) { h.Attacks = n }))
		}
		if a.Times > 1 {
			edit(func(a *Attack) { a.Times /= 2 })
		}
		if len(a.Cuts) > 0 {
			edit(func(a *Attack) { a.Cuts = nil })
		}
		if !a.Sure && len(a.Data) > 1 && len(a.Data) < 3000 {
			for _, k := range dropChunks(len(a.Data), func(i, j int) any { return a.Data[:i] + a.Data[j:] }) {
				if len(out) < 300 {
					edit(func(a *Attack) { a.Data = k.(B) })
				}
			}
		}
	}
	return out
}

// ---- C26: interrupted requests

// Cut is a request that is cut off, after complete ones.
type Cut struct {
	Setup []Step `json:"setup"`
	Pre   []Step `json:"pre"`
	Req   []B    `json:"req"`
	At    []int  `json:"at"`    // the offsets, one connection for each
	End   string `json:"end"`   // close, reset, half, stall, finish (stall and then complete)
	Wait  bool   `json:"wait"`  // for the replies of Pre before the end
	Other []Step `json:"other"` // one after each cut, on another connection
}

// safeSetup are commands whose execution is seen in the database.
func genCut(g *Gen, i int) any {
	h := newHG(g, weigh(allGroups(2), map[string]int{"keys": -10, "command": -10, "ping": -10, "spop": -10}))
	h.noRand, h.errP, h.cross = true, 0, 0.03
	if g.chance(0.5) { // values that look like the rest of the protocol
		for k := 0; k < 2; k++ {
			inner := string(encodeReq(bs(append([]string{"set", pick(g, h.all)}, "evil"))))
			h.vals = append(h.vals, inner, "x\r\n"+inner, inner[:g.Intn(len(inner))], "a\r\n", "\r\n\r\n", "$1\r\na\r\n", "*1\r\n")
		}
	}
	c := &Cut{End: pick(g, []string{"close", "close", "reset", "half", "stall", "finish"}), Wait: true}
	for _, k := range kinds {
		if g.chance(0.6) {
			c.Setup = append(c.Setup, Step{A: h.fill(k, g.between(1, 5))})
		}
	}
	writes := func() []B {
		for try := 0; try < 200; try++ {
			a := h.next()
			if !isQuery[strings.ToLower(string(a[0]))] && len(encodeReq(a)) < 400 {
				return a
			}
		}
		return bs([]string{"set", "cut", "value"})
	}
	for k := pick(g, []int{0, 0, 1, 2, 4}); k > 0; k-- {
		c.Pre = append(c.Pre, Step{A: writes()})
	}
	c.Req = writes()
	n := len(encodeReq(c.Req))
	if n <= 120 && g.chance(0.5) {
		for k := 0; k < n; k++ {
			c.At = append(c.At, k)
		}
	} else {
		for k := g.between(3, 12); k > 0; k-- {
			at := g.Intn(n)
			if g.chance(0.4) {
				at = n - g.between(1, min(n, 6))
			}
			c.At = append(c.At, at)
		}
	}
	if c.End == "half" && g.chance(0.6) {
		c.Wait = false
	}
	for k := g.between(0, 4); k > 0; k-- {
		c.Other = append(c.Other, Step{A: h.next()})
	}
	return c
}

func runCut(variant string) func(e *Env, c any, o *Obs) *Failure {
	return func(e *Env, c any, o *Obs) *Failure { return cut(e, variant, c.(*Cut), o) }
}

func cut(e *Env, variant string, d *Cut, o *Obs) *Failure {
	x, f := newSession(e, variant, 1, o)
	if f != nil {
		return f
	}
	defer x.close()
	note := func(format string, a ...any) {
		x.log = append(x.log, entry{c: -1, note: "   " + fmt.Sprintf(format, a...)})
	}
	for _, st := range d.Setup {
		if _, f := x.step(0, st.A); f != nil {
			return f
		}
	}
	var pre []byte
	touched := map[string]bool{}
	for _, k := range keysOf(d.Req) {
		touched[k] = true
	}
	for _, st := range d.Pre {
		pre = append(pre, encodeReq(st.A)...)
		for _, k := range keysOf(st.A) {
			touched[k] = true
		}
	}
	req := encodeReq(d.Req)
	const marker = "marker-51ac"
	for i, at := range d.At {
		if at >= len(req) {
			at = len(req) - 1
		}
		c, err := x.s.dial()
		if err != nil {
			return x.fail((&Conn{s: x.s}).why(err))
		}
		defer c.close()
		b := append([]byte(nil), pre...)
		mark := fmt.Sprint("m", i)
		if !d.Wait {
			b = append(b, encodeReq(cmdline("set", marker, mark))...)
		}
		b = append(b, req[:at]...)
		note("a connection sends %d complete requests and %d of %d bytes of %s: %s; then: %s", len(d.Pre), at, len(req), showArgs(d.Req), show(string(req[:at])), d.End)
		if err := c.send(b); err != nil {
			return x.fail(c.why(err))
		}
		o.actions++
		o.label("end:" + d.End)
		idx := len(x.conns)
		x.conns = append(x.conns, c)
		if d.Wait {
			for _, st := range d.Pre {
				x.log = append(x.log, entry{c: idx, args: st.A})
				rep, err := c.read()
				if err != nil {
					return x.fail(c.why(err))
				}
				x.log[len(x.log)-1].rep = rep
				if f := x.check(st.A, rep); f != nil {
					return f
				}
			}
		}
		switch d.End {
		case "close":
			c.close()
		case "reset":
			c.reset()
		case "half":
			_ = c.c.(*net.TCPConn).CloseWrite()
		}
		x.conns = x.conns[:idx]
		if !d.Wait {
			// the complete requests were received and must have their effect; their replies may be lost
			deadline := time.Now().Add(patience)
			for {
				v, err := x.conns[0].do(cmdline("get", marker)...)
				if err != nil {
					return x.fail(x.conns[0].why(err))
				}
				if v.Kind == '$' && v.Str == mark {
					break
				}
				if time.Now().After(deadline) {
					return x.fail(&Failure{Kind: "hang", Msg: fmt.Sprintf("the last complete request before the interrupted one had no effect within %v", patience)})
				}
				time.Sleep(200 * time.Microsecond)
			}
			for _, st := range d.Pre {
				if err := x.m.blind(st.A); err != nil {
					harness("%v", err)
				}
			}
			x.m.setStr(marker, mark)
		}
		if i < len(d.Other) {
			if _, f := x.step(0, d.Other[i].A); f != nil {
				return f
			}
		} else if _, f := x.step(0, cmdline("ping")); f != nil {
			return f
		}
		if i%4 == 0 || i == len(d.At)-1 {
			for _, k := range sortedKeys(touched) {
				if f := x.dump(0, k); f != nil {
					return f
				}
			}
		} else { // a short look
			for _, k := range sortedKeys(touched) {
				if f := x.peek(0, k); f != nil {
					return f
				}
			}
		}
		if d.End == "finish" {
			note("the connection completes the request")
			if err := c.send(req[at:]); err != nil {
				return x.fail(c.why(err))
			}
			rep, err := c.read()
			if err != nil {
				return x.fail(c.why(err))
			}
			x.log = append(x.log, entry{c: idx, args: d.Req, rep: rep})
			if f := x.check(d.Req, rep); f != nil {
				return f
			}
			c.close()
		}
	}
	// a new connection from the same client
	c, err := x.s.dial()
	if err != nil {
		return x.fail((&Conn{s: x.s}).why(err))
	}
	x.conns = append(x.conns, c)
	if _, f := x.step(1, d.Req); f != nil {
		return f
	}
	if f := x.finish(); f != nil {
		return f
	}
	o.nontrivial = len(d.At) >= 2 && x.nets >= 1
	return nil
}

// peek reads the contents of a key, and nothing else.
func (x *session) peek(c int, key string) *Failure {
	x.sweep = true
	defer func() { x.sweep = false }()
	a := []string{"exists", key}
	if o := x.m.keys[key]; o != nil {
		a = map[string][]string{"string": {"get", key}, "list": {"lrange", key, "0", "-1"}, "hash": {"hgetall", key}, "set": {"smembers", key}, "zset": {"zrange", key, "0", "-1", "withscores"}}[o.kind]
	}
	_, f := x.step(c, bs(a))
	return f
}

// blind executes a command on the model without a reply: it makes up the reply the model wants.
func (m *Model) blind(args []B) error {
	for _, v := range []Val{{Kind: '+', Str: "OK"}, {Kind: '-', Str: "ERR"}, {Kind: '_'}} {
		if m.Apply(args, v) == nil {
			return nil
		}
	}
	err := m.Apply(args, Val{Kind: ':', Int: -77})
	if err == nil {
		return nil
	}
	var n int64
	msg := err.Error()
	if i := strings.Index(msg, "want (integer) "); i >= 0 {
		if _, err := fmt.Sscanf(msg[i:], "want (integer) %d", &n); err == nil {
			return m.Apply(args, Val{Kind: ':', Int: n})
		}
	}
	// bulks and arrays: let a scratch server of the model's own kind decide
	return m.blindData(args)
}

func (m *Model) blindData(args []B) error {
	a := ss(args[1:])
	name := strings.ToLower(string(args[0]))
	o := m.keys[a[0]]
	switch name {
	case "lpop", "rpop":
		l := o.list
		if name == "rpop" {
			l = rev(l)
		}
		if len(a) == 1 {
			return m.Apply(args, Val{Kind: '$', Str: l[0]})
		}
		n, _ := i64(a[1])
		return m.Apply(args, bulks(l[:min(n, int64(len(l)))]))
	case "zpopmin", "zpopmax":
		n := int64(1)
		if len(a) > 1 {
			n, _ = i64(a[1])
		}
		if n < 0 {
			n = 0
		}
		var ms []zm
		if o != nil && name == "zpopmax" {
			ms = o.reversed()
		} else if o != nil {
			ms = o.ordered()
		}
		var out []string
		for _, z := range ms[:min(n, int64(len(ms)))] {
			out = append(out, z.member, strconv.FormatFloat(z.score, 'g', -1, 64))
		}
		return m.Apply(args, bulks(out))
	case "hincrbyfloat":
		cur, _ := 0.0, 0
		if o != nil {
			cur, _ = finite(o.hash[a[1]].text)
		}
		f, _ := finite(a[2])
		return m.Apply(args, Val{Kind: '$', Str: strconv.FormatFloat(cur+f, 'g', -1, 64)})
	case "zincr":
		cur := 0.0
		if o != nil {
			cur = o.zset[a[2]]
		}
		f, _ := strconv.ParseFloat(a[1], 64)
		return m.Apply(args, Val{Kind: '$', Str: strconv.FormatFloat(cur+f, 'g', -1, 64)})
	}
	return fmt.Errorf("model: blind %s", showArgs(args))
}

func shrinkCut(c any) []any {
	d := c.(*Cut)
	var out []any
	edit := func(f func(n *Cut)) {
		n := *d
		f(&n)
		out = append(out, &n)
	}
	out = append(out, dropChunks(len(d.At), func(i, j int) any {
		n := *d
		n.At = append(append([]int(nil), d.At[:i]...), d.At[j:]...)
		return &n
	})...)
	drop := func(l []Step, set func(n *Cut, l []Step)) {
		for i := range l {
			edit(func(n *Cut) { set(n, append(append([]Step(nil), l[:i]...), l[i+1:]...)) })
		}
	}
	drop(d.Other, func(n *Cut, l []Step) { n.Other = l })
	drop(d.Pre, func(n *Cut, l []Step) { n.Pre = l })
	drop(d.Setup, func(n *Cut, l []Step) { n.Setup = l })
	return out
}

// ---- C24: the v1 server

// V1 is a case of C24: one of several kinds.
type V1 struct {
	Hist    *Hist    `json:"hist,omitempty"`
	Streams *Streams `json:"streams,omitempty"`
	Hostile *Hostile `json:"hostile,omitempty"`
	Cut     *Cut     `json:"cut,omitempty"`
}

var genV1Hist = histGen(weigh(map[string]int{"string": 2, "count": 2, "list": 2, "hash": 2, "set": 2, "alg": 2, "zset": 2, "keys": 2, "misc": 1}, nil), []string{"list", "hash", "set", "zset"}, nil)

func genV1(g *Gen, i int) any {
	switch i % 4 {
	case 0:
		return &V1{Hist: genV1Hist(g, i).(*Hist)}
	case 1:
		special := 7
		if i <= 13 {
			special = map[int]int{1: 1, 5: 2, 9: 4, 13: 5}[i]
		}
		h := genHostile(g, special).(*Hostile)
		return &V1{Hostile: h}
	case 2:
		return &V1{Cut: genCut(g, i).(*Cut)}
	}
	s := genStreams(g, i).(*Streams)
	for k := range s.Conns {
		s.Conns[k].Half = g.chance(0.5)
	}
	return &V1{Streams: s}
}

func runV1(e *Env, c any, o *Obs) *Failure {
	d := c.(*V1)
	switch {
	case d.Hist != nil:
		return runHist("v1")(e, d.Hist, o)
	case d.Hostile != nil:
		return hostile(e, "v1", d.Hostile, o)
	case d.Cut != nil:
		return cut(e, "v1", d.Cut, o)
	}
	return streams(e, "v1", d.Streams, o)
}

func shrinkV1(c any) []any {
	d := c.(*V1)
	var out []any
	switch {
	case d.Hist != nil:
		for _, x := range shrinkHist(d.Hist) {
			out = append(out, &V1{Hist: x.(*Hist)})
		}
	case d.Hostile != nil:
		for _, x := range shrinkHostile(d.Hostile) {
			out = append(out, &V1{Hostile: x.(*Hostile)})
		}
	case d.Cut != nil:
		for _, x := range shrinkCut(d.Cut) {
			out = append(out, &V1{Cut: x.(*Cut)})
		}
	default:
		for _, x := range shrinkStreams(d.Streams) {
			out = append(out, &V1{Streams: x.(*Streams)})
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C16", Rule: "two of three cases let generated hostile connections (malformed and mutated frames, absurd lengths and nesting, any command with any arguments, any key pattern) attack a server while a victim executes a history against the model, with a look at the victim's keys and at the size of the process at the end; one of three decodes a hostile stream in a process of its own and checks termination and allocation; it is non-trivial if the victim changed the database, or the stream has at least 3 bytes; distinct by the text of the case",
		Quick: 6000, Thorough: 200000, Gen: genHostile, New: func() any { return &Hostile{} }, Run: runHostile("default"), Shrink: shrinkHostile})
	register(&Prop{ID: "C17", Rule: "a case is 1 to 8 connections, each with a generated stream of requests on keys of its own, cut into packets with pauses, all sent at the same time; every reply is compared with the model of the connection and the whole database at the end; it is non-trivial if a stream is cut into packets and at least 2 of its queries returned something; distinct by the text of the case",
		Quick: 1200, Thorough: 40000, Gen: genStreams, New: func() any { return &Streams{} }, Run: runStreams("default"), Shrink: shrinkStreams, Tries: 5})
	register(&Prop{ID: "C24", Rule: "a case on the v1 server is one of: a history against the model; hostile connections as in C16; interrupted requests as in C26; request streams as in C17, where clients may stop sending after their last request; non-trivial as in those properties; distinct by the text of the case",
		Quick: 2400, Thorough: 60000, Gen: genV1, New: func() any { return &V1{} }, Run: runV1, Shrink: shrinkV1, Tries: 5})
	register(&Prop{ID: "C26", Level: "fault_enumeration", Rule: "a case is a request that is cut off at generated offsets (at every offset, for half of the short requests), one connection for each, after complete requests and before a kind of disconnection (close, reset, half close, stall, stall and completion), with the keys it names compared to the model after each; it is non-trivial if at least 2 offsets were tried and the database was changed; distinct by the text of the case",
		Quick: 1500, Thorough: 50000, Gen: genCut, New: func() any { return &Cut{} }, Run: runCut("default"), Shrink: shrinkCut, Tries: 5})
}
