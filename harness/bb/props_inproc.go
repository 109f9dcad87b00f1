package main

import (
	"bufio"
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

const childWait = 30 * time.Second

// ---- C13 decoding

// Node is a message of the request protocol.
type Node struct {
	T    string `json:"t"` // b bulk, a array, P inline PING, and + - : for lines
	S    B      `json:"s,omitempty"`
	Kids []Node `json:"k,omitempty"`
}

func (n Node) encode(b *bytes.Buffer) {
	switch n.T {
	case "b":
		fmt.Fprintf(b, "$%d\r\n%s\r\n", len(n.S), string(n.S))
	case "a":
		fmt.Fprintf(b, "*%d\r\n", len(n.Kids))
		for _, k := range n.Kids {
			k.encode(b)
		}
	case "P":
		b.WriteString("PING\r\n")
	default:
		b.WriteString(n.T + string(n.S) + "\r\n")
	}
}

func (n Node) elements(out []string) []string {
	switch n.T {
	case "a":
		for _, k := range n.Kids {
			out = k.elements(out)
		}
		return out
	case "P":
		return append(out, "PING")
	}
	return append(out, string(n.S))
}

// Dec is a stream of messages and the way it arrives.
type Dec struct {
	Msgs   []Node `json:"msgs"`
	Cut    int    `json:"cut"` // bytes received, -1: all
	Chunks []int  `json:"chunks,omitempty"`
	Buf    int    `json:"buf"`
	Last   bool   `json:"last,omitempty"`
	Async  bool   `json:"async,omitempty"` // by ReceiveDataAsync, which does not tell the position
}

type decQuery struct {
	Stream []byte
	Chunks []int
	Buf    int
	Last   bool
	Max    int
	Async  bool
}

type decMessage struct {
	Elements [][]byte
	Org      []byte
	Err      string
	Nil      bool
	Pos      int
}

type decAnswer struct {
	Messages []decMessage
	Alloc    uint64
}

// allocLimit is generous: it only excludes allocations that follow claimed instead of received lengths.
func allocLimit(n int) uint64 { return 1<<20 + 200*uint64(n) }

func (g *Gen) bulk() B {
	switch g.Intn(12) {
	case 0:
		return B(pick(g, oddVals))
	case 1:
		return B(g.bytes(g.Intn(40)))
	case 2:
		return ""
	case 3:
		if g.chance(0.3) {
			return B(g.bytes(g.bigSize(300000)))
		}
		return B(g.bytes(g.bigSize(9000)))
	}
	return B(pick(g, []string{"SET", "GET", "k", "v", "a", "foo", "12345", "LPUSH"}))
}

func (g *Gen) message(depth int) Node {
	switch r := g.Intn(20); {
	case r < 14 || depth > 0 && r < 16:
		n := Node{T: "a"}
		size := pick(g, []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 8})
		if depth == 0 && g.chance(0.02) {
			size = g.between(50, 3000)
			if g.chance(0.02) {
				size = g.between(65536, 75000)
			}
		}
		if depth > 0 {
			size = g.Intn(4)
		}
		for i := 0; i < size; i++ {
			switch {
			case size > 20:
				n.Kids = append(n.Kids, Node{T: "b", S: B(strconv.Itoa(g.Intn(100)))})
			case depth < 6 && g.chance(0.08):
				n.Kids = append(n.Kids, g.message(depth+1))
			case g.chance(0.05):
				n.Kids = append(n.Kids, g.line())
			default:
				n.Kids = append(n.Kids, Node{T: "b", S: g.bulk()})
			}
		}
		return n
	case r < 17:
		return Node{T: "b", S: g.bulk()}
	case r < 19:
		return g.line()
	}
	return Node{T: "P"}
}

func (g *Gen) line() Node {
	switch g.Intn(3) {
	case 0:
		return Node{T: ":", S: B(pick(g, intTexts))}
	case 1:
		return Node{T: "-", S: B(pick(g, []string{"ERR", "ERR no such thing", "-", "x"}))}
	}
	s := pick(g, []string{"OK", "PING", "a", "+", "$5", "*1", " ", "x y", "é", "\x00", "a\rb"})
	if g.chance(0.1) {
		s = strings.Repeat("abc", g.bigSize(5000)/3+1)
	}
	return Node{T: "+", S: B(s)}
}

func genDec(g *Gen, i int) any {
	d := &Dec{Cut: -1}
	n := 0
	for k := pick(g, []int{1, 1, 2, 3, 5, 20}); k > 0; k-- {
		d.Msgs = append(d.Msgs, g.message(0))
	}
	var b bytes.Buffer
	for _, m := range d.Msgs {
		m.encode(&b)
	}
	n = b.Len()
	switch g.Intn(5) {
	case 0:
		d.Chunks = []int{1}
	case 1:
		d.Chunks = []int{g.between(1, 7), g.between(1, 7), g.between(1, 30)}
	case 2:
		for k := g.between(1, 12); k > 0; k-- {
			d.Chunks = append(d.Chunks, g.between(1, max(1, min(n, 5000))))
		}
	case 3:
		d.Chunks = []int{pick(g, []int{2, 3, 16, 1460, 4096, 65536})}
	}
	d.Buf = pick(g, []int{0, 0, 16, 17, 64, 4096, 65536})
	d.Last = g.chance(0.2)
	d.Async = g.chance(0.25)
	if g.chance(0.35) {
		d.Cut = g.Intn(n)
		if g.chance(0.3) {
			d.Cut = max(0, n-g.between(1, 4))
		}
	}
	return d
}

func (d *Dec) stream() ([]byte, []int) {
	var b bytes.Buffer
	var ends []int
	for _, m := range d.Msgs {
		m.encode(&b)
		ends = append(ends, b.Len())
	}
	s := b.Bytes()
	if d.Cut >= 0 && d.Cut < len(s) {
		s = s[:d.Cut]
	}
	return s, ends
}

func runDec(e *Env, c any, o *Obs) *Failure {
	d := c.(*Dec)
	s, ends := d.stream()
	var a decAnswer
	if f := e.ask("cdecode", decQuery{s, d.Chunks, d.Buf, d.Last, len(d.Msgs) + 1, d.Async}, &a, childWait); f != nil {
		f.Trace = []string{"decoding " + show(string(s))}
		return f
	}
	fail := func(format string, x ...any) *Failure {
		f := mismatch(format, x...)
		f.Trace = []string{fmt.Sprintf("stream %s, reads of %v, buffer %d, asynchronous: %v", show(string(s)), d.Chunks, d.Buf, d.Async)}
		return f
	}
	start := 0
	for i, m := range d.Msgs {
		if i >= len(a.Messages) {
			return fail("message %d is missing", i)
		}
		got := a.Messages[i]
		o.actions++
		if d.Async {
			o.label("asynchronous")
		}
		if ends[i] > len(s) {
			if got.Err == "" {
				return fail("message %d is cut off after %d of %d bytes, and was decoded to %v", i, len(s)-start, ends[i]-start, texts(got.Elements))
			}
			o.label("truncated")
			o.nontrivial = len(s) > 0
			return nil
		}
		want := m.elements(nil)
		if got.Err != "" || got.Nil {
			return fail("message %d is complete, and failed: %s", i, got.Err)
		}
		if len(got.Elements) != len(want) {
			return fail("message %d has %d arguments, decoded %d: %v", i, len(want), len(got.Elements), texts(got.Elements))
		}
		for k := range want {
			if string(got.Elements[k]) != want[k] {
				return fail("message %d, argument %d: sent %s, decoded %s", i, k, show(want[k]), show(string(got.Elements[k])))
			}
		}
		if raw := string(s[start:ends[i]]); string(got.Org) != raw {
			return fail("message %d: sent %s, the raw text is %s", i, show(raw), show(string(got.Org)))
		}
		if got.Pos != ends[i] && !d.Async {
			return fail("message %d ends at byte %d, the decoder stopped at %d", i, ends[i], got.Pos)
		}
		o.label("whole")
		if len(want) >= 2 {
			o.nontrivial = true
		}
		start = ends[i]
	}
	if n := len(d.Msgs); len(a.Messages) <= n || a.Messages[n].Err == "" {
		return fail("there is nothing after message %d, and decoding it did not fail", n)
	}
	if a.Alloc > allocLimit(len(s)) {
		return fail("%d bytes were allocated for a stream of %d bytes", a.Alloc, len(s))
	}
	return nil
}

func texts(bs [][]byte) string {
	var out []B
	for _, b := range bs {
		out = append(out, B(b))
	}
	return "[" + showArgs(out) + "]"
}

func shrinkDec(c any) []any {
	d := c.(*Dec)
	var out []any
	with := func(f func(n *Dec)) {
		n := *d
		n.Msgs = append([]Node(nil), d.Msgs...)
		f(&n)
		out = append(out, &n)
	}
	for i := range d.Msgs {
		with(func(n *Dec) {
			if n.Cut >= 0 {
				var b bytes.Buffer
				d.Msgs[i].encode(&b)
				n.Cut = max(0, n.Cut-b.Len())
			}
			n.Msgs = append(n.Msgs[:i], n.Msgs[i+1:]...)
		})
	}
	if len(d.Chunks) > 0 {
		with(func(n *Dec) { n.Chunks = nil })
		with(func(n *Dec) { n.Chunks = []int{1} })
	}
	if d.Buf > 0 {
		with(func(n *Dec) { n.Buf = 0 })
	}
	if d.Last {
		with(func(n *Dec) { n.Last = false })
	}
	if d.Cut > 0 {
		with(func(n *Dec) { n.Cut /= 2 })
		with(func(n *Dec) { n.Cut-- })
	}
	if d.Cut >= 0 {
		with(func(n *Dec) { n.Cut = -1 })
	}
	for i, m := range d.Msgs {
		if len(m.Kids) > 100 {
			for _, c := range dropChunks(len(m.Kids), func(i, j int) any { return append(append([]Node(nil), m.Kids[:i]...), m.Kids[j:]...) })[:20] {
				with(func(n *Dec) { n.Msgs[i].Kids = c.([]Node) })
			}
			continue
		}
		for k := range m.Kids {
			with(func(n *Dec) {
				mm := m
				mm.Kids = append(append([]Node(nil), m.Kids[:k]...), m.Kids[k+1:]...)
				n.Msgs[i] = mm
			})
			if len(m.Kids[k].S) > 1 {
				with(func(n *Dec) {
					mm := m
					mm.Kids = append([]Node(nil), m.Kids...)
					mm.Kids[k].S = m.Kids[k].S[:len(m.Kids[k].S)/2]
					n.Msgs[i] = mm
				})
			}
		}
		if len(m.S) > 1 {
			with(func(n *Dec) { n.Msgs[i].S = m.S[:len(m.S)/2] })
		}
	}
	return out
}

// ---- C14 replies

type rspItem struct {
	Nil bool `json:"nil,omitempty"`
	S   []byte
}

type rspSpec struct {
	Kind  string
	S     []byte    `json:",omitempty"`
	N     int64     `json:",omitempty"`
	Items []rspItem `json:",omitempty"`
	Late  bool      `json:",omitempty"`
	Strs  bool      `json:",omitempty"`
}

// Rsp is a case of C14: either responses to encode, or commands for a server.
type Rsp struct {
	Rsp   []rspSpec `json:"rsp,omitempty"`
	Steps []Step    `json:"steps,omitempty"`
	Pipe  bool      `json:"pipe,omitempty"`
}

func genRsp(g *Gen, i int) any {
	if i%3 == 0 {
		return genReplyKinds(g)
	}
	r := &Rsp{}
	line := func() []byte {
		s := pick(g, []string{"OK", "PONG", "", " ", "ERR unknown", "+", "-", ":1", "$-1", "*0", "é", "\x00", "none", "%d", strings.Repeat("x", g.Intn(300))})
		return []byte(s)
	}
	blob := func() []byte { return []byte(g.bulk()) }
	for k := pick(g, []int{1, 2, 2, 3, 6}); k > 0; k-- {
		s := rspSpec{Kind: pick(g, []string{"simple", "error", "integer", "bulk", "bulk", "nil", "empty", "array", "array", "array"})}
		switch s.Kind {
		case "simple", "error":
			s.S = line()
		case "bulk":
			s.S = blob()
		case "integer":
			s.N, _ = strconv.ParseInt(pick(g, intTexts), 10, 64)
			if g.chance(0.3) {
				s.N = int64(g.Uint64())
			}
		case "array":
			s.Late, s.Strs = g.chance(0.3), g.chance(0.5)
			n := pick(g, []int{0, 1, 1, 2, 3, 5, 9, 10, 11})
			if g.chance(0.05) {
				n = pick(g, []int{99, 100, 101, 999, 1000, 1024})
			}
			for j := 0; j < n; j++ {
				it := rspItem{S: blob()}
				if n > 50 {
					it.S = []byte{byte(j)}
				}
				if !s.Strs && g.chance(0.25) {
					it = rspItem{Nil: true}
				}
				s.Items = append(s.Items, it)
			}
		}
		r.Rsp = append(r.Rsp, s)
	}
	return r
}

func (s rspSpec) want() Val {
	switch s.Kind {
	case "simple":
		return Val{Kind: '+', Str: string(s.S)}
	case "error":
		return Val{Kind: '-', Str: string(s.S)}
	case "integer":
		return Val{Kind: ':', Int: s.N}
	case "bulk":
		return Val{Kind: '$', Str: string(s.S)}
	case "nil":
		return Val{Kind: '_'}
	}
	v := Val{Kind: '*'}
	for _, it := range s.Items {
		if it.Nil {
			v.Arr = append(v.Arr, Val{Kind: '_'})
		} else {
			v.Arr = append(v.Arr, Val{Kind: '$', Str: string(it.S)})
		}
	}
	return v
}

func same(a, b Val) bool {
	if a.Kind != b.Kind || a.Str != b.Str || a.Int != b.Int || len(a.Arr) != len(b.Arr) {
		return false
	}
	for i := range a.Arr {
		if !same(a.Arr[i], b.Arr[i]) {
			return false
		}
	}
	return true
}

func runRsp(e *Env, c any, o *Obs) *Failure {
	r := c.(*Rsp)
	if len(r.Steps) > 0 {
		return runReplyKinds(e, r, o)
	}
	var a struct{ Out [][]byte }
	if f := e.ask("cencode", struct{ Rsp []rspSpec }{r.Rsp}, &a, childWait); f != nil {
		return f
	}
	var all []byte
	for i, s := range r.Rsp {
		o.actions++
		o.label("encode:" + s.Kind)
		all = append(all, a.Out[i]...)
		rd := bufio.NewReader(bytes.NewReader(a.Out[i]))
		v, err := readVal(rd)
		if err != nil {
			return mismatch("response %d %v is encoded as %s: %v", i, s.want(), show(string(a.Out[i])), err)
		}
		if rd.Buffered() > 0 {
			return mismatch("response %d %v is encoded as %s, with bytes left over", i, s.want(), show(string(a.Out[i])))
		}
		if !same(v, s.want()) {
			return mismatch("response %d %v is encoded as %s", i, s.want(), show(string(a.Out[i])))
		}
		if s.Kind == "array" && len(s.Items) > 1 || s.Kind == "bulk" && len(s.S) > 0 {
			o.nontrivial = true
		}
	}
	rd := bufio.NewReader(bytes.NewReader(all))
	for i, s := range r.Rsp {
		v, err := readVal(rd)
		if err != nil || !same(v, s.want()) {
			return mismatch("reading the replies in a row, number %d is %v (%v), want %v", i, v, err, s.want())
		}
	}
	return nil
}

// replyKinds are the kinds of reply of each command besides errors.
var replyKinds = map[string]string{
	"set": "+_$", "mset": "+", "get": "$_", "mget": "*", "incr": ":", "incrby": ":", "decr": ":", "decrby": ":", "append": ":",
	"lpush": ":", "rpush": ":", "lpop": "$_", "rpop": "$_", "llen": ":", "lrange": "*", "lrem": ":", "lindex": "$_", "lset": "+", "linsert": ":",
	"hdel": ":", "hexists": ":", "hget": "$_", "hgetall": "*", "hincrby": ":", "hincrbyfloat": "$", "hkeys": "*", "hlen": ":", "hmget": "*", "hmset": "+", "hset": ":", "hsetnx": ":", "hvals": "*",
	"sadd": ":", "scard": ":", "sdiff": "*", "sinter": "*", "sunion": "*", "sdiffstore": ":", "sinterstore": ":", "sunionstore": ":",
	"sismember": ":", "smembers": "*", "smove": ":", "srem": ":", "spop": "$_",
	"zadd": ":$_", "zscore": "$_", "zrank": ":_", "zrem": ":", "zcard": ":", "zcount": ":", "zincr": "$", "zrange": "*", "zrangebyscore": "*", "zrevrange": "*", "zpopmin": "*", "zpopmax": "*",
	"keys": "*", "exists": ":", "del": ":", "type": "+", "ping": "+$", "command": "+:$_*~",
}

func genReplyKinds(g *Gen) *Rsp {
	gw := map[string]int{}
	for k := range groups {
		gw[k] = 2
	}
	h := newHG(g, weigh(gw, map[string]int{"del": -1}))
	h.cross, h.errP, h.anyCase = pick(g, []float64{0.05, 0.05, 0.4}), pick(g, []float64{0, 0.05, 0.3}), true
	r := &Rsp{Pipe: g.chance(0.5)}
	for _, k := range kinds {
		r.Steps = append(r.Steps, Step{A: h.fill(k, g.between(1, min(h.maxFill, 20)))})
	}
	for i := g.between(5, 60); i > 0; i-- {
		a := h.next()
		for g.chance(0.12) {
			a = append(a, B(pick(g, append([]string{"nx", "XX", "EX", "10", "PX", "GET", "KEEPTTL", "LIMIT", "0", "1", "REV", "BYLEX", "BYSCORE", "WITHSCORES", "CH", "GT", "LT", "INCR", "-1", "x"}, oddVals...))))
		}
		if g.chance(0.05) {
			a[0] = B(pick(g, append([]string{"SUBSCRIBE", "MULTI", "nosuch", "GETT", "ge", "QUIT", "AUTH", "SELECT"}, oddVals...)))
		}
		r.Steps = append(r.Steps, Step{A: a})
	}
	return r
}

func kindOK(args []B, v Val) error {
	name := strings.ToLower(string(args[0]))
	want, known := replyKinds[name]
	if v.Kind == '-' {
		return nil
	}
	if !known {
		return bad(v, "an error, %s is no command", show(name))
	}
	if len(args) > 2 && (name == "lpop" || name == "rpop" || name == "spop") {
		want = "*~_"
	}
	if strings.IndexByte(want, v.Kind) < 0 {
		return bad(v, "a reply of kind %q", want)
	}
	if name != "command" {
		for _, x := range v.Arr {
			if x.Kind != '$' && x.Kind != '_' {
				return bad(v, "an array of bulk strings")
			}
		}
	}
	return nil
}

func runReplyKinds(e *Env, r *Rsp, o *Obs) *Failure {
	x, f := newSession(e, "default", 1, o)
	if f != nil {
		return f
	}
	defer x.close()
	c := x.conns[0]
	const token = "sentinel-7c1f"
	steps := append([]Step{{A: cmdline("set", token, token)}}, r.Steps...)
	steps = append(steps, Step{A: cmdline("get", token)})
	if r.Pipe {
		var b []byte
		for _, st := range steps {
			b = append(b, encodeReq(st.A)...)
		}
		if err := c.send(b); err != nil {
			return x.fail(c.why(err))
		}
	}
	kindsSeen := map[byte]bool{}
	for i, st := range steps {
		o.actions++
		x.log = append(x.log, entry{args: st.A})
		var v Val
		var err error
		if r.Pipe {
			v, err = c.read()
		} else {
			v, err = c.do(st.A...)
		}
		if err != nil {
			return x.fail(c.why(err))
		}
		x.log[len(x.log)-1].rep = v
		if err := kindOK(st.A, v); err != nil {
			return x.fail(mismatch("%s: %v", showArgs(st.A), err))
		}
		kindsSeen[v.Kind] = true
		o.label("reply:" + string(v.Kind))
		if i == len(steps)-1 && (v.Kind != '$' || v.Str != token) {
			return x.fail(mismatch("the reply of the last request is %v, want %s: replies and requests do not pair up", v, token))
		}
	}
	o.nontrivial = len(kindsSeen) >= 4
	return x.quiet()
}

func shrinkRsp(c any) []any {
	r := c.(*Rsp)
	var out []any
	if len(r.Steps) > 0 {
		for _, h := range shrinkHist(&Hist{Conns: 1, Steps: r.Steps}) {
			if s := h.(*Hist).Steps; len(s) > 0 {
				out = append(out, &Rsp{Steps: s, Pipe: r.Pipe})
			}
		}
		if r.Pipe {
			out = append(out, &Rsp{Steps: r.Steps})
		}
		return out
	}
	out = append(out, dropChunks(len(r.Rsp), func(i, j int) any {
		return &Rsp{Rsp: append(append([]rspSpec(nil), r.Rsp[:i]...), r.Rsp[j:]...)}
	})...)
	for i, s := range r.Rsp {
		edit := func(n rspSpec) {
			l := append([]rspSpec(nil), r.Rsp...)
			l[i] = n
			out = append(out, &Rsp{Rsp: l})
		}
		if len(s.S) > 0 {
			n := s
			n.S = s.S[:len(s.S)/2]
			edit(n)
		}
		for k, it := range s.Items {
			n := s
			n.Items = append(append([]rspItem(nil), s.Items[:k]...), s.Items[k+1:]...)
			edit(n)
			if len(it.S) > 1 {
				n.Items = append([]rspItem(nil), s.Items...)
				n.Items[k].S = it.S[:len(it.S)/2]
				edit(n)
			}
		}
	}
	return out
}

// ---- C22 sharded map

type mapOp struct {
	M    int     `json:",omitempty"`
	Op   string  //
	K    B       `json:",omitempty"`
	V    *string `json:",omitempty"`
	Ks   []B     `json:",omitempty"`
	N    int     `json:",omitempty"`
	Stop bool    `json:",omitempty"`
}

type mapKV struct {
	K []byte
	V *string
}

type mapResult struct {
	Ok      bool
	V       *string
	Odd     bool
	Calls   int
	Old     *string
	Exist   bool
	New     *string
	Entries []mapKV
}

// Maps is a case of C22.
type Maps struct {
	N   int
	Ops []mapOp
}

func genMaps(g *Gen, i int) any {
	c := &Maps{N: pick(g, []int{1, 1, 1, 2})}
	keys := g.keyAlphabet(g.between(1, 12), 0.5)
	if g.chance(0.3) {
		keys = append(keys, numbered("key", pick(g, []int{40, 100, 400}))...)
	}
	ops := []string{"get", "has", "set", "set", "set", "setifabsent", "setifabsent", "delete", "deleteifexists", "loadanddelete", "upsert", "upsert"}
	rare := []string{"keys", "items", "spoilcopy", "readcopy", "range", "rangeanddelete", "rangeanddelete"}
	n := g.between(5, 60)
	if g.chance(0.1) || len(keys) > 50 && g.chance(0.7) {
		n = g.between(200, 1200)
	}
	huge, size := g.chance(0.03), 0
	if huge {
		size = pick(g, []int{500, 2000, 5000, 10000, 20000, 40000})
		keys = append(keys, numbered("", size/40)...)
		n = g.between(20, 80)
	}
	for k := 0; k < n; k++ {
		o := mapOp{M: g.Intn(c.N), Op: pick(g, ops), K: B(pick(g, keys))}
		if g.chance(0.12) {
			o.Op = pick(g, rare)
		}
		if huge && g.chance(0.05) {
			o.Op = pick(g, []string{"fill", "fill", "clear"})
			o.K, o.N = B(pick(g, []string{"", "key", "\x00", strings.Repeat("long", 20)})), g.between(1, size)
		}
		switch o.Op {
		case "set", "setifabsent", "upsert", "spoilcopy":
			if !g.chance(0.1) {
				v := strconv.Itoa(g.Intn(6))
				o.V = &v
			}
			if o.Op == "upsert" {
				o.Ks = []B{B("u" + strconv.Itoa(g.Intn(6)))}
				o.Stop = g.chance(0.35)
			}
		case "range":
			if g.chance(0.6) {
				o.N = g.between(1, 5)
			}
		case "rangeanddelete":
			if g.chance(0.5) {
				o.N = g.between(1, 6)
			}
			if !g.chance(0.15) {
				for j := g.Intn(len(keys) + 1); j > 0; j-- {
					o.Ks = append(o.Ks, B(pick(g, keys)))
				}
			} else {
				o.Ks = bs(keys)
			}
		}
		c.Ops = append(c.Ops, o)
	}
	for m := 0; m < c.N; m++ {
		c.Ops = append(c.Ops, mapOp{M: m, Op: "keys"}, mapOp{M: m, Op: "items"}, mapOp{M: m, Op: "range"})
	}
	return c
}

func ptr(p *string) string {
	if p == nil {
		return "nil"
	}
	return strconv.Quote(*p)
}

func runMaps(e *Env, c any, o *Obs) *Failure {
	d := c.(*Maps)
	type wireOp struct {
		M    int
		Op   string
		K    []byte
		V    *string
		Ks   [][]byte
		N    int
		Stop bool
	}
	var q struct {
		Maps int
		Ops  []wireOp
	}
	q.Maps = d.N
	for _, op := range d.Ops {
		w := wireOp{op.M, op.Op, []byte(op.K), op.V, nil, op.N, op.Stop}
		for _, k := range op.Ks {
			w.Ks = append(w.Ks, []byte(k))
		}
		q.Ops = append(q.Ops, w)
	}
	var a struct{ Results []mapResult }
	if f := e.ask("csmap", q, &a, childWait); f != nil {
		return f
	}
	models := make([]map[string]*string, d.N)
	copies := make([]map[string]*string, d.N)
	for i := range models {
		models[i] = map[string]*string{}
	}
	var trace []string
	eq := func(a, b *string) bool { return ptr(a) == ptr(b) }
	writes := 0
	for i, op := range d.Ops {
		o.actions++
		o.label(op.Op)
		r := a.Results[i]
		m, k := models[op.M], string(op.K)
		old, has := m[k]
		trace = append(trace, fmt.Sprintf("map %d: %s %s value %s keys %s n %d abort %v -> ok %v value %s calls %d %d entries", op.M, op.Op, show(k), ptr(op.V), showArgs(op.Ks), op.N, op.Stop, r.Ok, ptr(r.V), r.Calls, len(r.Entries)))
		fail := func(format string, x ...any) *Failure {
			f := mismatch("operation %d, %s %s: "+format, append([]any{i, op.Op, show(k)}, x...)...)
			f.Trace = trace
			return f
		}
		if r.Odd {
			return fail("returned a value that was never stored")
		}
		switch op.Op {
		case "get":
			if r.Ok != has || !eq(r.V, old) {
				return fail("returned %s %v, want %s %v", ptr(r.V), r.Ok, ptr(old), has)
			}
		case "has":
			if r.Ok != has {
				return fail("returned %v", r.Ok)
			}
		case "set":
			m[k] = op.V
			writes++
		case "fill":
			for j := 0; j < op.N; j++ {
				v := strconv.Itoa(j)
				m[k+v] = &v
			}
			writes += op.N
		case "clear":
			for key := range m {
				delete(m, key)
			}
		case "setifabsent":
			if r.Ok == has {
				return fail("returned %v", r.Ok)
			}
			if !has {
				m[k] = op.V
				writes++
			}
		case "delete":
			delete(m, k)
		case "deleteifexists":
			if r.Ok != has {
				return fail("returned %v", r.Ok)
			}
			delete(m, k)
		case "loadanddelete":
			if r.Ok != has || !eq(r.V, old) {
				return fail("returned %s %v, want %s %v", ptr(r.V), r.Ok, ptr(old), has)
			}
			delete(m, k)
		case "upsert":
			nv := ""
			if len(op.Ks) > 0 {
				nv = string(op.Ks[0])
			}
			if r.Calls != 1 || r.Exist != has || !eq(r.Old, old) || !eq(r.New, op.V) {
				return fail("called back %d times, with %v %s %s, want once with %v %s %s", r.Calls, r.Exist, ptr(r.Old), ptr(r.New), has, ptr(old), ptr(op.V))
			}
			if r.Ok != op.Stop || !eq(r.V, &nv) {
				return fail("returned %s %v, want %s %v", ptr(r.V), r.Ok, ptr(&nv), op.Stop)
			}
			if !op.Stop {
				m[k] = &nv
				writes++
			}
		case "keys":
			var got []string
			for _, e := range r.Entries {
				got = append(got, string(e.K))
			}
			sort.Strings(got)
			if want := sortedKeys(m); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				if len(got) > 100 || len(want) > 100 {
					return fail("returned %d keys, want %d, or others", len(got), len(want))
				}
				return fail("returned %q, want %q", got, want)
			}
		case "items":
			if err := sameEntries(r.Entries, m, len(m)); err != "" {
				return fail("%s", err)
			}
			copies[op.M] = map[string]*string{}
			for k, v := range m {
				copies[op.M][k] = v
			}
		case "spoilcopy":
			if copies[op.M] != nil {
				copies[op.M] = map[string]*string{k: op.V}
			}
		case "readcopy":
			if err := sameEntries(r.Entries, copies[op.M], len(copies[op.M])); err != "" {
				return fail("%s", err)
			}
		case "range", "rangeanddelete":
			n := len(m)
			if op.N > 0 {
				n = min(n, op.N)
			}
			if err := sameEntries(r.Entries, m, n); err != "" {
				return fail("%s", err)
			}
			if op.Op == "rangeanddelete" {
				del := map[string]bool{}
				for _, k := range op.Ks {
					del[string(k)] = true
				}
				for _, e := range r.Entries {
					if del[string(e.K)] {
						delete(m, string(e.K))
					}
				}
			}
		}
	}
	o.nontrivial = writes >= 3 && len(d.Ops) >= 8
	return nil
}

// sameEntries wants n different entries of m.
func sameEntries(es []mapKV, m map[string]*string, n int) string {
	seen := map[string]bool{}
	for _, e := range es {
		k := string(e.K)
		v, ok := m[k]
		if !ok {
			return fmt.Sprintf("visited %s, which is not there", show(k))
		}
		if seen[k] {
			return fmt.Sprintf("visited %s twice", show(k))
		}
		if ptr(v) != ptr(e.V) {
			return fmt.Sprintf("visited %s with %s, want %s", show(k), ptr(e.V), ptr(v))
		}
		seen[k] = true
	}
	if len(es) != n {
		return fmt.Sprintf("visited %d entries, want %d", len(es), n)
	}
	return ""
}

func shrinkMaps(c any) []any {
	d := c.(*Maps)
	out := dropChunks(len(d.Ops), func(i, j int) any {
		return &Maps{N: d.N, Ops: append(append([]mapOp(nil), d.Ops[:i]...), d.Ops[j:]...)}
	})
	for i, op := range d.Ops {
		if op.Op == "fill" && op.N > 1 {
			for _, k := range []int{op.N / 2, op.N - op.N/8 - 1} {
				n := append([]mapOp(nil), d.Ops...)
				n[i].N = k
				out = append(out, &Maps{N: d.N, Ops: n})
			}
		}
		for k := range op.Ks {
			if op.Op != "rangeanddelete" {
				continue
			}
			n := append([]mapOp(nil), d.Ops...)
			n[i].Ks = append(append([]B(nil), op.Ks[:k]...), op.Ks[k+1:]...)
			out = append(out, &Maps{N: d.N, Ops: n})
		}
	}
	return out
}

// ---- C25 configuration

// Load is one configuration text and what is known about it.
type Load struct {
	Text  B     `json:"text"`
	Break bool  `json:"break,omitempty"`
	Know  bool  `json:"know,omitempty"` // the outcome is known:
	OK    bool  `json:"ok,omitempty"`   // it loads, with
	Want  int64 `json:"want,omitempty"` // this timeout in ns
}

// Loads is a case of C25.
type Loads struct{ Loads []Load }

func genLoads(g *Gen, i int) any {
	c := &Loads{}
	for k := g.between(1, 7); k > 0; k-- {
		c.Loads = append(c.Loads, g.config())
	}
	return c
}

func (g *Gen) config() Load {
	switch g.Intn(10) {
	case 0, 1, 2, 3, 4: // valid
		l := Load{Know: true, OK: true, Want: int64(5 * time.Second)}
		var lines []string
		if g.chance(0.8) {
			d := pick(g, []time.Duration{0, 1, time.Millisecond, 1500 * time.Millisecond, time.Second, 5 * time.Second, 7 * time.Second, 90 * time.Second, time.Hour, 100 * time.Hour, time.Duration(g.Int63n(1 << 50))})
			txt := d.String()
			switch g.Intn(4) {
			case 0:
				txt = strconv.FormatInt(int64(d), 10) // a number without a unit may be refused
				l.Know = false
			case 1:
				txt = strconv.Quote(d.String())
			}
			lines = append(lines, "default_timeout: "+txt)
			if d != 0 {
				l.Want = int64(d)
			}
		}
		if g.chance(0.6) || len(lines) == 0 {
			lines = append(lines, pick(g, []string{"persistence: aof", "persistence: \"\"", "persistence: rdb # comment", "persistence: 'off'", "persistence: |\n  many\n  lines"}))
		}
		if g.chance(0.3) {
			lines = append(lines, pick(g, []string{"other: 1", "other:\n  nested: [1, 2]", "timeout: 3s", "Default_Timeout: 9s", "defaulttimeout: 9s"}))
		}
		g.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		if g.chance(0.3) {
			lines = append([]string{"# comment"}, lines...)
		}
		if g.chance(0.2) {
			lines = append([]string{"---"}, lines...)
		}
		l.Text = B(strings.Join(lines, "\n"))
		if g.chance(0.7) {
			l.Text += "\n"
		}
		return l
	case 5, 6: // an error somewhere, with a timeout that must not be taken
		t := "default_timeout: " + strconv.Itoa(g.between(20, 60)) + "s\n"
		wrong := pick(g, []string{"persistence: [a, b]\n", "persistence: {a: b}\n", "default_timeout: soon\n", "x: 'unclosed\n", "x: [1, 2\n", "\tx: 1\n", "a: b: c\n", "}\n", "x: &a *b\n", "x: \"\\q\"\n", "? [\n", "persistence: \x01\n"})
		if strings.HasPrefix(wrong, "default") {
			t = "persistence: aof\n"
		}
		s := t + wrong
		if g.chance(0.4) {
			s = wrong + t
		}
		return Load{Text: B(s), Know: true}
	case 7: // wrong shapes
		return Load{Text: B(pick(g, []string{"[1, 2]\n", "just text\n", "42\n", "- default_timeout: 9s\n", "default_timeout:\n  a: 1\n", "default_timeout: [9s]\n", "default_timeout: 1y\n", "default_timeout: 99999999999999999999\n", ""})), Know: true}
	case 8: // the reader fails
		return Load{Text: B(pick(g, []string{"", "default_timeout: 33s\n", "default_timeout: 3", "persistence: aof\ndefault_timeout: 44s\n"})), Break: true, Know: true}
	}
	// noise: only the rule about errors is checked
	s := g.bytes(g.Intn(40))
	if g.chance(0.7) {
		b := []byte("default_timeout: 30s\npersistence: aof\nx: [1, {a: b}]\n")
		for k := g.between(1, 4); k > 0; k-- {
			b[g.Intn(len(b))] = pick(g, []byte("\t\n :[]{}&*!|>'\"%@`#,0a\x00\xff"))
		}
		s = string(b)
	}
	return Load{Text: B(s)}
}

func runLoads(e *Env, c any, o *Obs) *Failure {
	d := c.(*Loads)
	type wlb struct {
		Text  []byte
		Break bool
	}
	var q struct{ Loads []wlb }
	for _, l := range d.Loads {
		q.Loads = append(q.Loads, wlb{[]byte(l.Text), l.Break})
	}
	var a struct {
		Before   int64
		Errs     []bool
		Timeouts []int64
	}
	if f := e.askFresh("cconfig", q, &a, childWait); f != nil {
		return f
	}
	var trace []string
	fail := func(format string, x ...any) *Failure {
		f := mismatch(format, x...)
		f.Trace = trace
		return f
	}
	if a.Before != int64(5*time.Second) {
		return fail("before any load the timeout is %v", time.Duration(a.Before))
	}
	cur := a.Before
	good, refused := 0, 0
	for i, l := range d.Loads {
		o.actions++
		trace = append(trace, fmt.Sprintf("load %s: failed %v, timeout %v", show(string(l.Text)), a.Errs[i], time.Duration(a.Timeouts[i])))
		if l.Know && l.OK == a.Errs[i] {
			return fail("load %d of %s: failed %v, want %v", i, show(string(l.Text)), a.Errs[i], !l.OK)
		}
		switch {
		case a.Errs[i]:
			refused++
			o.label("refused")
			if a.Timeouts[i] != cur {
				return fail("load %d of %s failed, and changed the timeout from %v to %v", i, show(string(l.Text)), time.Duration(cur), time.Duration(a.Timeouts[i]))
			}
		case l.Know && a.Timeouts[i] != l.Want:
			return fail("load %d of %s: the timeout is %v, want %v", i, show(string(l.Text)), time.Duration(a.Timeouts[i]), time.Duration(l.Want))
		default:
			good++
			o.label("loaded")
			cur = a.Timeouts[i]
		}
	}
	o.nontrivial = good > 0 && refused > 0
	return nil
}

func shrinkLoads(c any) []any {
	d := c.(*Loads)
	return dropChunks(len(d.Loads), func(i, j int) any {
		return &Loads{append(append([]Load(nil), d.Loads[:i]...), d.Loads[j:]...)}
	})
}

func init() {
	register(&Prop{ID: "C13", Rule: "a case is a generated stream of messages (argument arrays, nested arrays, lines, PING), a way of cutting it into reads, a buffer size and possibly a truncation point, decoded in a process of its own by the exported functions, one message at a time or all of them asynchronously; elements, raw text and position are compared with the generated messages; it is non-trivial if a message with at least 2 arguments was decoded or a message was cut off; distinct by the text of the case",
		Quick: 40000, Thorough: 1500000, Gen: genDec, New: func() any { return &Dec{} }, Run: runDec, Shrink: shrinkDec})
	register(&Prop{ID: "C14", Rule: "two of three cases encode generated responses and parse the bytes back with an independent parser, alone and in a row; the others send generated commands with arbitrary arguments to a server, one by one or pipelined, and check the kind of each reply and that requests and replies pair up; a case is non-trivial if it has an array of at least 2 elements or a non-empty bulk string, or if at least 4 kinds of reply were seen; distinct by the text of the case",
		Quick: 9000, Thorough: 300000, Gen: genRsp, New: func() any { return &Rsp{} }, Run: runRsp, Shrink: shrinkRsp})
	register(&Prop{ID: "C22", Rule: "a case is a generated sequence of operations on one or two sharded maps, executed in a process of its own and compared with plain maps; it is non-trivial if at least 3 operations stored something and there are at least 8; distinct by the text of the case",
		Quick: 25000, Thorough: 800000, Gen: genMaps, New: func() any { return &Maps{} }, Run: runMaps, Shrink: shrinkMaps})
	register(&Prop{ID: "C25", Rule: "a case is a sequence of configuration texts (valid, invalid in various ways, from a failing reader, noise) loaded one after another in a fresh process, with the timeout read after each; it is non-trivial if at least one was loaded and at least one refused; distinct by the text of the case",
		Quick: 6000, Thorough: 150000, Gen: genLoads, New: func() any { return &Loads{} }, Run: runLoads, Shrink: shrinkLoads})
}
