package main

import (
	"fmt"
	"net"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Histories: commands on one or more connections, one at a time, every reply checked against the model.

// Step is one command.
type Step struct {
	C int  `json:"c,omitempty"` // connection
	A []B  `json:"a"`
	P bool `json:"p,omitempty"` // then look at the keys it names
	Q bool `json:"q,omitempty"` // inserted query (C11), or history (C12)
}

// Hist is a case.
type Hist struct {
	Conns int    `json:"conns"`
	Steps []Step `json:"steps"`
}

type entry struct {
	c    int
	args []B
	rep  Val
	note string
}

// session is a server under observation by the model.
type session struct {
	o     *Obs
	m     *Model
	s     *Server
	conns []*Conn
	log   []entry
	named map[string]bool
	nets  int // effective writes
	data  int // informative reads
	sweep bool
}

func (x *session) trace() []string {
	out := make([]string, 0, len(x.log))
	for _, e := range x.log {
		l := fmt.Sprintf("[%d] %s", e.c, showArgs(e.args))
		if e.rep.Kind != 0 {
			l += " -> " + e.rep.String()
		}
		if len(l) > 600 {
			l = l[:600] + "..."
		}
		out = append(out, l+e.note)
	}
	return out
}

func (x *session) fail(f *Failure) *Failure {
	if f != nil {
		f.Trace = x.trace()
	}
	return f
}

func newSession(e *Env, variant string, conns int, o *Obs) (*session, *Failure) {
	x := &session{o: o, m: newModel(), s: e.server(variant), named: map[string]bool{}}
	for i := 0; i < conns; i++ {
		c, err := x.s.dial()
		if err != nil {
			f := (&Conn{s: x.s}).why(err)
			x.close()
			return nil, f
		}
		x.conns = append(x.conns, c)
	}
	return x, nil
}

func (x *session) close() {
	for _, c := range x.conns {
		c.close()
	}
	x.s.kill()
}

// step runs one command and checks its reply.
func (x *session) step(c int, args []B) (Val, *Failure) {
	x.o.actions++
	x.log = append(x.log, entry{c: c, args: args})
	rep, err := x.conns[c].do(args...)
	if err != nil {
		return rep, x.fail(x.conns[c].why(err))
	}
	x.log[len(x.log)-1].rep = rep
	return rep, x.check(args, rep)
}

func (x *session) check(args []B, rep Val) *Failure {
	if err := x.m.Apply(args, rep); err != nil {
		return x.fail(mismatch("%s: %v", showArgs(args), err))
	}
	x.count(args, rep)
	return nil
}

func (x *session) count(args []B, rep Val) {
	name := strings.ToLower(string(args[0]))
	for _, k := range keysOf(args) {
		x.named[k] = true
	}
	if !x.sweep {
		if isErr(rep) {
			x.o.label("reply:error")
		} else {
			x.o.label("cmd:" + name)
		}
	}
	if isErr(rep) || rep.Kind == '_' || rep.Kind == '~' || rep.Kind == ':' && rep.Int == 0 || rep.Kind == '*' && len(rep.Arr) == 0 {
		return
	}
	if isQuery[name] {
		x.data++
	} else {
		x.nets++
	}
}

// keysOf lists the keys a command names.
func keysOf(args []B) []string {
	if len(args) < 2 {
		return nil
	}
	a := ss(args[1:])
	switch name := strings.ToLower(string(args[0])); name {
	case "mset":
		var out []string
		for i := 0; i < len(a); i += 2 {
			out = append(out, a[i])
		}
		return out
	case "mget", "exists", "del", "sunion", "sinter", "sdiff", "sunionstore", "sinterstore", "sdiffstore":
		return a
	case "smove":
		return a[:min(2, len(a))]
	case "keys", "ping", "command":
		return nil
	default:
		if _, ok := minArgs[name]; !ok {
			return nil
		}
	}
	return a[:1]
}

// dump reads everything there is to know about a key.
func (x *session) dump(c int, key string) *Failure {
	x.sweep = true
	defer func() { x.sweep = false }()
	run := func(a ...string) *Failure {
		_, f := x.step(c, bs(a))
		return f
	}
	each := func(cmds ...[]string) *Failure {
		for _, a := range cmds {
			if f := run(a...); f != nil {
				return f
			}
		}
		return nil
	}
	type L = []string
	o := x.m.keys[key]
	if f := each(L{"exists", key}, L{"type", key}); f != nil {
		return f
	}
	if o == nil {
		return each(L{"get", key}, L{"llen", key}, L{"hlen", key}, L{"scard", key}, L{"zcard", key})
	}
	switch o.kind {
	case "string":
		return each(L{"get", key})
	case "list":
		if f := each(L{"llen", key}, L{"lrange", key, "0", "-1"}); f != nil {
			return f
		}
		for _, i := range spread(len(o.list), 12) {
			if f := each(L{"lindex", key, fmt.Sprint(i)}, L{"lindex", key, fmt.Sprint(-1 - i)}); f != nil {
				return f
			}
		}
	case "hash":
		if f := each(L{"hlen", key}, L{"hgetall", key}, L{"hkeys", key}, L{"hvals", key}); f != nil {
			return f
		}
		for _, k := range first(o.hash, 12) {
			if f := each(L{"hget", key, k}, L{"hexists", key, k}); f != nil {
				return f
			}
		}
	case "set":
		if f := each(L{"scard", key}, L{"smembers", key}, L{"sunion", key}); f != nil {
			return f
		}
		for _, k := range first(o.set, 12) {
			if f := each(L{"sismember", key, k}); f != nil {
				return f
			}
		}
	case "zset":
		if f := each(L{"zcard", key}, L{"zrange", key, "0", "-1", "withscores"}, L{"zrevrange", key, "0", "-1", "withscores"},
			L{"zcount", key, "-inf", "+inf"}, L{"zrangebyscore", key, "-inf", "+inf", "withscores"}); f != nil {
			return f
		}
		ord := o.ordered()
		for _, i := range spread(len(ord), 40) {
			k := ord[i]
			if f := each(L{"zscore", key, k.member}, L{"zrank", key, k.member}, L{"zrange", key, fmt.Sprint(i), fmt.Sprint(i)}); f != nil {
				return f
			}
		}
	}
	return nil
}

// first returns n keys at most, from all over the map.
func first[V any](m map[string]V, n int) []string {
	ks := sortedKeys(m)
	var out []string
	for _, i := range spread(len(ks), n) {
		out = append(out, ks[i])
	}
	return out
}

// spread returns up to k indexes below n: all of them, or the first and last few and some between.
func spread(n, k int) []int {
	var out []int
	if n <= k {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	e := k / 4
	for i := 0; i < e; i++ {
		out = append(out, i, n-1-i)
	}
	for i, m := 0, k-2*e; i < m; i++ {
		out = append(out, e+(n-2*e)*i/m)
	}
	return out
}

// sweepAll compares the whole database.
func (x *session) sweepAll(c int) *Failure {
	keys := map[string]bool{}
	for k := range x.named {
		keys[k] = true
	}
	for k := range x.m.keys {
		keys[k] = true
	}
	all := sortedKeys(keys)
	look := map[string]bool{}
	for _, k := range first(keys, 400) {
		look[k] = true
	}
	for k, o := range x.m.keys {
		if o.kind != "string" {
			look[k] = true
		}
	}
	for _, k := range sortedKeys(look) {
		if f := x.dump(c, k); f != nil {
			return f
		}
	}
	if len(all) > 400 {
		for len(all) > 0 {
			n := min(len(all), 2000)
			if _, f := x.step(c, cmdline(append([]string{"mget"}, all[:n]...)...)); f != nil {
				return f
			}
			all = all[n:]
		}
	}
	x.sweep = true
	_, f := x.step(c, cmdline("keys", "*"))
	x.sweep = false
	return f
}

// quiet fails if a connection has bytes that no request asked for.
func (x *session) quiet() *Failure {
	for i, c := range x.conns {
		if _, f := x.step(i, cmdline("ping")); f != nil {
			return f
		}
		if n := c.r.Buffered(); n > 0 {
			b, _ := c.r.Peek(n)
			return x.fail(mismatch("connection %d received bytes no request asked for: %s", i, show(string(b))))
		}
		c.c.SetReadDeadline(time.Now().Add(time.Millisecond))
		b, err := c.r.ReadByte()
		if err == nil {
			return x.fail(mismatch("connection %d received a byte no request asked for: %q", i, b))
		}
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			return x.fail(c.why(err))
		}
	}
	return nil
}

// run executes a whole history.
func (x *session) run(steps []Step) *Failure {
	for _, st := range steps {
		c := st.C % len(x.conns)
		if _, f := x.step(c, st.A); f != nil {
			return f
		}
		if st.P {
			for _, k := range keysOf(st.A) {
				if f := x.dump(c, k); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (x *session) finish() *Failure {
	if f := x.sweepAll(0); f != nil {
		return f
	}
	return x.quiet()
}

const histRule = "a case is a generated command history on a fresh server, with every reply compared to the model, a look at the keys just named after some of the commands, and a comparison of the whole database at the end; it is non-trivial if at least 3 commands changed the database and at least 2 queries returned something; distinct by the text of the case"

func runHist(variant string) func(e *Env, c any, o *Obs) *Failure {
	return func(e *Env, c any, o *Obs) *Failure {
		h := c.(*Hist)
		x, f := newSession(e, variant, max(1, h.Conns), o)
		if f != nil {
			return f
		}
		defer x.close()
		if f := x.run(h.Steps); f != nil {
			return f
		}
		if f := x.finish(); f != nil {
			return f
		}
		o.nontrivial = x.nets >= 3 && x.data >= 2
		return nil
	}
}

func shrinkHist(c any) []any {
	h := c.(*Hist)
	var out []any
	with := func(steps []Step) *Hist { return &Hist{Conns: h.Conns, Steps: steps} }
	out = append(out, dropChunks(len(h.Steps), func(i, j int) any {
		return with(append(append([]Step(nil), h.Steps[:i]...), h.Steps[j:]...))
	})...)
	if h.Conns > 1 {
		out = append(out, &Hist{Conns: 1, Steps: h.Steps})
	}
	edit := func(i int, st Step) {
		n := append([]Step(nil), h.Steps...)
		n[i] = st
		out = append(out, with(n))
	}
	if len(h.Steps) > 600 {
		return out
	}
	for i, st := range h.Steps {
		if st.P {
			s := st
			s.P = false
			edit(i, s)
		}
		if len(h.Steps) > 40 {
			continue
		}
		a := st.A
		if n := (len(a) - 2) / 2 * 2; n > 4 { // big argument lists in chunks first
			for size := n / 4 * 2; size >= 4 && size >= n/16 && (n < 10000 || size > n/8); size = size / 4 * 2 {
				for from := 0; from < n; from += size {
					s := st
					s.A = append(append([]B(nil), a[:2+from]...), a[2+min(n, from+size):]...)
					edit(i, s)
				}
			}
		}
		if len(a) > 80 {
			continue
		}
		for k := 2; k < len(a) && len(a) > 3; k++ {
			s := st
			s.A = append(append([]B(nil), a[:k]...), a[k+1:]...)
			edit(i, s)
			if k+1 < len(a) {
				s.A = append(append([]B(nil), a[:k]...), a[k+2:]...)
				edit(i, s)
			}
		}
		for k := 1; k < len(a); k++ {
			if len(a[k]) > 8 {
				s := st
				s.A = append([]B(nil), a...)
				s.A[k] = a[k][:len(a[k])/2]
				edit(i, s)
			}
		}
	}
	return out
}

// history draws the steps.
func (h *HG) history(n int, conns int, probe float64, mains []string) []Step {
	var steps []Step
	add := func(a []B) {
		steps = append(steps, Step{C: h.Intn(conns), A: a, P: h.chance(probe)})
	}
	for len(steps) < n {
		r := h.Float64()
		switch {
		case len(mains) > 0 && r < 0.03:
			add(h.fill(pick(h.Gen, mains), h.between(1, h.maxFill)))
		case len(mains) > 0 && r < 0.06:
			for _, a := range h.drain(pick(h.Gen, mains)) {
				add(a)
			}
		default:
			add(h.next())
		}
	}
	return steps
}

// whole returns commands that have to do with every element of a giant value.
func (h *HG) whole(kind string) [][]B {
	k := h.key(kind)
	n := strconv.Itoa
	var out [][]B
	add := func(a ...string) { out = append(out, bs(a)) }
	switch kind {
	case "list":
		add(append([]string{pick(h.Gen, []string{"lpush", "rpush"}), k}, h.subset(h.members, h.big)...)...)
		add("linsert", k, pick(h.Gen, []string{"before", "after"}), h.val(), h.val())
		add("lindex", k, n(h.big-h.between(1, 9)))
		add("lindex", k, n(-h.big+h.between(0, 9)))
		if h.chance(0.5) {
			add("rpush", k, "the-last")
			add("linsert", k, "before", "the-last", "last-but-one")
			add("lset", k, "-1", "last")
		}
		add("lrem", k, pick(h.Gen, []string{"0", n(h.big), n(-h.big)}), h.val())
		add("lrange", k, n(h.between(0, 3)), "-1")
		add(pick(h.Gen, []string{"lpop", "rpop"}), k, n(h.big+h.between(-9, 9)))
	case "hash":
		add("hgetall", k)
		add(append([]string{"hmget", k}, h.subset(h.fields, h.big)...)...)
		add(append([]string{"hdel", k}, h.subset(h.fields, max(1, h.big-h.Intn(9)))...)...)
	case "set":
		l := h.key(kind)
		add(append([]string{"sadd", l}, h.subset(h.members, h.big)...)...)
		add(pick(h.Gen, []string{"sunion", "sinter", "sdiff"}), k, l)
		add(pick(h.Gen, []string{"sunionstore", "sunionstore", "sinterstore"}), k, l, k)
		if h.noRand || h.chance(0.3) {
			add(append([]string{"srem", k}, h.subset(h.members, max(1, h.big-h.Intn(9)))...)...)
		} else {
			add("spop", k, n(h.big+h.between(-9, 9)))
		}
	case "zset":
		a := []string{"zadd", k}
		for i, m := range h.subset(h.members, h.big) {
			a = append(a, n(i), m)
		}
		add(a...)
		add("zrank", k, a[len(a)-1])
		add("zrank", k, a[len(a)/4*2+1])
		add("zrange", k, n(-h.between(1, 9)), "-1", "withscores")
		add("zcount", k, n(h.between(0, 3)), "+inf")
		add("zrangebyscore", k, n(h.between(0, 3)), "+inf")
		add(pick(h.Gen, []string{"zpopmin", "zpopmax"}), k, n(h.big+h.between(-9, 9)))
	}
	if h.wide && kind == "" {
		out = append(out, h.fill("string", h.big))
		add("keys", "*")
		add(append([]string{pick(h.Gen, []string{"mget", "exists"})}, h.subset(h.all, h.big)...)...)
		add(append([]string{"del"}, h.subset(h.all, max(1, h.big-h.Intn(9)))...)...)
	}
	return out
}

// giant grows the values past every 16-bit count.
func (h *HG) giant() { h.grow(h.between(70500, 80000)) }

// histGen makes the usual generator for a weighted set of commands.
// mains are the kinds that get filled and drained now and then.
func histGen(w map[string]int, mains []string, tune func(h *HG)) func(g *Gen, i int) any {
	return func(g *Gen, i int) any {
		h := newHG(g, w)
		if tune != nil {
			tune(h)
		}
		switch i { // one giant of each make in every run
		case 7:
			h.giant()
		case 8:
			h.giant()
			h.vals = g.subset(h.vals, g.between(1, 2))
		case 9:
			h.giant()
			if !h.wide {
				h.widen("key:")
			}
		}
		n := g.between(5, 40)
		switch g.Intn(6) {
		case 0:
			n = g.between(40, 150)
		case 1:
			if g.chance(0.3) {
				n = g.between(150, 600)
			}
		}
		conns := 1
		if g.chance(0.3) {
			conns = g.between(2, 3)
		}
		if h.big > 0 {
			n = g.between(5, 25)
		}
		var steps []Step
		if len(mains) > 0 && g.chance(0.7) {
			for _, k := range mains {
				for j := g.Intn(3); j > 0; j-- {
					steps = append(steps, Step{A: h.fill(k, g.between(1, h.maxFill))})
				}
			}
		}
		if h.big > 0 {
			for _, k := range mains {
				steps = append(steps, Step{A: h.fill(k, h.big), P: g.chance(0.5)})
			}
			if h.wide {
				steps = append(steps, Step{A: h.fill("string", h.big)})
			}
		}
		steps = append(steps, h.history(n, conns, pick(g, []float64{0, 0.1, 0.4}), mains)...)
		if h.big > 0 && (h.big > 65536 || g.chance(0.3)) {
			for _, k := range append(slices.Clone(mains), "") {
				for _, a := range h.whole(k) {
					steps = append(steps, Step{C: h.Intn(conns), A: a})
				}
			}
		}
		return &Hist{Conns: conns, Steps: steps}
	}
}

func newHist() any { return &Hist{} }

func sortVals(v []Val) []string {
	var out []string
	for _, e := range v {
		out = append(out, fmt.Sprintf("%c%s%d", e.Kind, e.Str, e.Int))
	}
	sort.Strings(out)
	return out
}
