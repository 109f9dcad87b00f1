package main

// C29: a server at rest uses no processor time, and keeps no descriptor of a connection that is gone.

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"slices"
	"syscall"
	"time"
)

// Rest is what some clients do before nothing more is asked for.
type Rest struct {
	V1      bool         `json:"v1"`
	Clients []RestClient `json:"clients"`
	Wait    int          `json:"wait,omitempty"` // ms before the server is watched: what runs out of patience has done so
}

type RestClient struct {
	Before []string `json:"before"` // what is sent first: names of restTexts
	After  []string `json:"after"`
	Read   bool     `json:"read"` // the replies are read
	Fate   string   `json:"fate"` // stay, close, reset, half, halfclose
	Pause  int      `json:"pause"`
}

var restTexts = map[string]string{
	"ping":    "PING\r\n",
	"get":     "*2\r\n$3\r\nGET\r\n$1\r\nk\r\n",
	"push":    "*3\r\n$5\r\nRPUSH\r\n$1\r\nl\r\n$1\r\nx\r\n",
	"range":   "*4\r\n$6\r\nLRANGE\r\n$1\r\nl\r\n$1\r\n0\r\n$2\r\n-1\r\n",
	"big":     "*2\r\n$3\r\nGET\r\n$3\r\nbig\r\n",
	"unknown": "*1\r\n$4\r\nnope\r\n",
	"empty":   "*0\r\n",
	"nothing": "",
	"half":    "*2\r\n$3\r\nGET\r\n",
	"halfarg": "*2\r\n$3\r\nGET\r\n$10\r\nabc",
	"cr":      "*1\r\n$4\r\nPING\r",
	"star":    "*",
	"huge":    "*2\r\n$3\r\nGET\r\n$400000000\r\nabc",
	"wide":    "*1000000000\r\n$1\r\na\r\n",
	"nested":  "*1\r\n*1\r\n*1\r\n",
	"line":    "\r\n",
	"inline":  "GET k\r\n",
	"badlen":  "*1\r\n$-5\r\n",
	"badend":  "*1\r\n$1\r\nabc\r\n",
	"garbage": "\x00\xff\x16\x03\x01\r\n\r\n",
	"http":    "GET / HTTP/1.1\r\nHost: x\r\n\r\n",
}

var restNames = func() (out []string) {
	for k := range restTexts {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}()

var restWhole = []string{"ping", "get", "push", "range", "unknown", "empty", "big", "big"}

func genRest(g *Gen, i int) any {
	d := &Rest{V1: i%4 == 3}
	switch {
	case i%40 == 5 || i%40 == 19:
		d.Wait = 11000 // longer than a request may take
	case i%8 == 2:
		d.Wait = g.between(1000, 4000)
	}
	n := pick(g, []int{1, 1, 2, 3, 8, 40})
	for k := 0; k < n; k++ {
		var c RestClient
		for m := g.Intn(4); m > 0; m-- {
			c.Before = append(c.Before, pick(g, restWhole))
		}
		if g.chance(0.1) {
			for m := 0; m < 300; m++ {
				c.Before = append(c.Before, "big")
			}
		}
		if g.chance(0.7) {
			c.After = append(c.After, pick(g, restNames))
		}
		c.Read = g.chance(0.6)
		c.Fate = pick(g, []string{"stay", "stay", "close", "close", "reset", "half", "halfclose"})
		if g.chance(0.3) {
			c.Pause = g.Intn(30)
		}
		d.Clients = append(d.Clients, c)
	}
	return d
}

func countFds(pid int) int {
	fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return -1
	}
	return len(fds)
}

func runRest(e *Env, v any, o *Obs) *Failure {
	d := v.(*Rest)
	variant := "default"
	if d.V1 {
		variant = "v1"
	}
	o.label("server:" + variant)
	s := e.startServer(variant)
	defer s.kill()
	pid := s.cmd.Process.Pid
	control, err := s.dial()
	if err != nil {
		return (&Conn{s: s}).why(err)
	}
	defer control.close()
	for _, a := range [][]B{cmdline("set", "k", "v"), cmdline("set", "big", string(make([]byte, 50000)))} {
		if _, err := control.do(a...); err != nil {
			return control.why(err)
		}
	}
	fds := countFds(pid)
	open := 0
	for _, rc := range d.Clients {
		c, err := s.dial()
		if err != nil {
			return (&Conn{s: s}).why(err)
		}
		defer c.close()
		var b []byte
		for _, t := range rc.Before {
			b = append(b, restTexts[t]...)
		}
		for _, t := range rc.After {
			b = append(b, restTexts[t]...)
			o.label("text:" + t)
		}
		// a client that does not read cannot send for ever, and may be told off
		c.c.SetWriteDeadline(time.Now().Add(time.Second))
		_, _ = c.c.Write(b)
		o.actions += len(rc.Before) + len(rc.After)
		if rc.Read {
			for _, t := range rc.Before {
				if t == "empty" {
					continue
				}
				if _, err := c.read(); err != nil {
					if len(rc.After) > 0 && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, syscall.ECONNRESET)) {
						break // it may be hung up on for what it sent after them
					}
					return c.why(err)
				}
			}
		}
		time.Sleep(time.Duration(rc.Pause) * time.Millisecond)
		o.label("fate:" + rc.Fate)
		t, _ := c.c.(*net.TCPConn)
		switch rc.Fate {
		case "close":
			c.close()
		case "reset":
			c.reset()
		case "half":
			_ = t.CloseWrite()
			open++
		case "halfclose":
			_ = t.CloseWrite()
			time.Sleep(5 * time.Millisecond)
			c.close()
		default:
			open++
		}
	}
	time.Sleep(time.Duration(d.Wait) * time.Millisecond)
	const window, limit = 250 * time.Millisecond, 0.05
	var used float64
	var now int
	quiet := false
	for try := 0; try < 30 && !quiet; try++ {
		from := cpuTime(pid)
		time.Sleep(window)
		used = cpuTime(pid) - from
		if noCPUClock.Load() {
			used = 0
		}
		now = countFds(pid)
		quiet = used < limit && now <= fds+open
	}
	if v, err := control.do(cmdline("get", "k")...); err != nil {
		return control.why(err)
	} else if string(v.Str) != "v" {
		return mismatch("GET k is %s", show(v.String()))
	}
	switch {
	case quiet:
		o.nontrivial = true
		return nil
	case used >= limit:
		return mismatch("nothing has been asked for %v and the server has used %.0f ms of processor time in the last %v", 30*window, used*1000, window)
	}
	return mismatch("%d descriptors were open before %d clients came, of which %d have not left; %v after the others have gone there are %d", fds, len(d.Clients), open, 30*window, now)
}

func shrinkRest(v any) []any {
	d := v.(*Rest)
	var out []any
	if d.Wait > 0 {
		n := *d
		n.Wait /= 2
		out = append(out, &n)
	}
	for i := range d.Clients {
		n := *d
		n.Clients = slices.Delete(slices.Clone(d.Clients), i, i+1)
		out = append(out, &n)
	}
	if len(d.Clients) > 8 {
		out = nil
	}
	with := func(i int, f func(c *RestClient)) {
		n := *d
		n.Clients = slices.Clone(d.Clients)
		f(&n.Clients[i])
		out = append(out, &n)
	}
	if len(d.Clients) > 8 {
		for _, half := range [][]RestClient{d.Clients[:len(d.Clients)/2], d.Clients[len(d.Clients)/2:]} {
			out = append(out, &Rest{V1: d.V1, Clients: half, Wait: d.Wait})
		}
		return out
	}
	for i, c := range d.Clients {
		if len(c.Before) > 0 {
			with(i, func(c *RestClient) { c.Before = nil })
		}
		if len(c.After) > 0 {
			with(i, func(c *RestClient) { c.After = nil })
		}
		if c.Pause > 0 {
			with(i, func(c *RestClient) { c.Pause = 0 })
		}
		if c.Fate != "close" {
			with(i, func(c *RestClient) { c.Fate = "close" })
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C29", Rule: "a case lets clients send whole, partial and malformed requests, read the replies or not, and stay, leave or half leave in any way, and then watches, at once or up to 11 seconds later, the processor time and the descriptors of the server while nothing is asked for; it is non-trivial if the server was at rest in the end and still answers; distinct by the text of the case",
		Quick: 240, Thorough: 6000, Gen: genRest, New: func() any { return &Rest{} }, Run: runRest, Shrink: shrinkRest, Tries: 1})
}
