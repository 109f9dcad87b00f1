package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- C18: concurrent clients

// Script is what one client sends: Depth requests at a time, then it waits for their replies.
type Script struct {
	Cmds  [][]B `json:"cmds"`
	Depth int   `json:"depth"`
	Wait  int   `json:"wait,omitempty"` // microseconds before the first
}

// Round is a small concurrent history, decided by searching for an order of its commands.
type Round struct {
	Setup   [][]B    `json:"setup,omitempty"`
	Clients []Script `json:"clients"`
	Keys    []B      `json:"keys"`
}

// Crowd is a big concurrent run, decided by an invariant of its kind.
type Crowd struct {
	Kind    string `json:"kind"`
	Clients int    `json:"clients"`
	Ops     int    `json:"ops"`   // for each client
	Depth   int    `json:"depth"` // requests at a time
	Size    int    `json:"size"`  // of the collections, or number of the keys
	Seed    int64  `json:"seed"`
}

// Conc is a case of C18.
type Conc struct {
	Rounds []Round `json:"rounds,omitempty"`
	Crowd  *Crowd  `json:"crowd,omitempty"`
	Slow   *Slow   `json:"slow,omitempty"`
	Race   string  `json:"race,omitempty"` // a build with the race detector
}

// Slow is a crowd that waits for a command which takes longer than the server lets a request wait.
type Slow struct {
	Clients int `json:"clients"`
	Ops     int `json:"ops"`
	Ms      int `json:"ms"` // how long the command is meant to take
}

// concOp is a command with the time it was sent and the time its reply was complete.
type concOp struct {
	args      []B
	rep       Val
	call, ret time.Duration
}

// runScripts lets all clients run at the same time.
func (x *session) runScripts(scripts []Script) ([][]concOp, *Failure) {
	var (
		wg    sync.WaitGroup
		gate  = make(chan struct{})
		out   = make([][]concOp, len(scripts))
		fails = make([]*Failure, len(scripts))
		herr  = make([]any, len(scripts))
	)
	start := time.Now()
	for i := range scripts {
		wg.Add(1)
		go func(i int, sc Script, c *Conn) {
			defer wg.Done()
			defer func() { herr[i] = recover() }()
			ops := make([]concOp, len(sc.Cmds))
			<-gate
			for t := time.Now(); sc.Wait > 0 && time.Since(t) < time.Duration(sc.Wait)*time.Microsecond; {
			}
			depth := max(1, sc.Depth)
			for from := 0; from < len(ops); from += depth {
				to := min(len(ops), from+depth)
				var b []byte
				for k := from; k < to; k++ {
					ops[k].args = sc.Cmds[k]
					b = append(b, encodeReq(sc.Cmds[k])...)
				}
				call := time.Since(start)
				if err := c.send(b); err != nil {
					fails[i] = c.why(err)
					return
				}
				for k := from; k < to; k++ {
					rep, err := c.read()
					if err != nil {
						fails[i] = c.why(err)
						return
					}
					ops[k].rep, ops[k].call, ops[k].ret = rep, call, time.Since(start)
				}
			}
			out[i] = ops
		}(i, scripts[i], x.conns[i])
	}
	close(gate)
	wg.Wait()
	for _, h := range herr {
		if h != nil {
			panic(h)
		}
	}
	for i, f := range fails {
		if f != nil {
			x.log = append(x.log, entry{c: i, note: "client " + strconv.Itoa(i)})
			return nil, x.fail(f)
		}
	}
	return out, nil
}

// linearize looks for an order of the operations that the model allows: it keeps the order of each client,
// and an operation that ended before another one began comes before it. over: the search was given up.
func linearize(init *Model, hist [][]concOp) (ok, over bool, deepest []int) {
	var (
		seen  = map[string]bool{}
		nodes int
		best  = -1
	)
	pos := make([]int, len(hist))
	deepest = make([]int, len(hist))
	var visit func(m *Model, fp string, n int) bool
	visit = func(m *Model, fp string, n int) bool {
		if n > best {
			best = n
			copy(deepest, pos)
		}
		done := true
		first := time.Duration(1 << 62) // when the first of the next operations ended
		for c, h := range hist {
			if pos[c] < len(h) {
				done = false
				first = min(first, h[pos[c]].ret)
			}
		}
		if done {
			return true
		}
		key := fmt.Sprint(pos) + fp
		if seen[key] {
			return false
		}
		seen[key] = true
		if nodes++; nodes > 60000 {
			over = true
			return false
		}
		for c, h := range hist {
			if pos[c] == len(h) || h[pos[c]].call > first {
				continue
			}
			op := &h[pos[c]]
			next := m.clone()
			if next.Apply(op.args, op.rep) != nil {
				continue
			}
			pos[c]++
			if visit(next, next.fingerprint(), n+1) {
				return true
			}
			pos[c]--
			if over {
				return false
			}
		}
		return false
	}
	ok = visit(init, init.fingerprint(), 0)
	return ok, over, deepest
}

// finalReads read all there is to know about the keys.
func finalReads(keys []B) [][]B {
	var out [][]B
	for _, k := range keys {
		s := string(k)
		for _, a := range [][]string{{"type", s}, {"get", s}, {"lrange", s, "0", "-1"}, {"hgetall", s}, {"smembers", s}, {"zrange", s, "0", "-1", "withscores"}, {"zcard", s}} {
			out = append(out, bs(a))
		}
	}
	return append(out, cmdline("keys", "*"))
}

func (x *session) round(r *Round) *Failure {
	x.log = nil
	for _, a := range r.Setup {
		if _, f := x.step(0, a); f != nil {
			return f
		}
	}
	init := x.m.clone()
	hist, f := x.runScripts(r.Clients)
	if f != nil {
		return f
	}
	last, f := x.runScripts([]Script{{Cmds: finalReads(r.Keys), Depth: 100}})
	if f != nil {
		return f
	}
	// the reads come after everything: both clocks started before, only their order matters
	end := time.Duration(0)
	for _, h := range hist {
		for _, op := range h {
			end = max(end, op.ret)
		}
	}
	for i := range last[0] {
		last[0][i].call += end + 1
		last[0][i].ret += end + 1
	}
	all := append(append([][]concOp(nil), hist...), last[0])
	overlaps, writes := 0, 0
	for i, h := range hist {
		for _, op := range h {
			x.o.actions++
			x.count(op.args, op.rep)
			if isErr(op.rep) || isQuery[strings.ToLower(string(op.args[0]))] {
				continue
			}
			writes++
			for j, g := range hist {
				for _, q := range g {
					if j != i && q.call < op.ret && op.call < q.ret {
						overlaps++
					}
				}
			}
		}
	}
	if overlaps >= 2 && writes >= 2 {
		x.o.nontrivial = true
		x.o.label("rounds:overlapping")
	}
	ok, over, deepest := linearize(init, all)
	switch {
	case over:
		x.o.label("rounds:undecided")
	case !ok:
		for c, h := range all {
			for i, op := range h {
				n := fmt.Sprintf("  (%v .. %v)", op.call.Round(time.Microsecond), op.ret.Round(time.Microsecond))
				if i == deepest[c] {
					n += "  <- an order up to here exists, and none further"
				}
				x.log = append(x.log, entry{c: c, args: op.args, rep: op.rep, note: n})
			}
		}
		return x.fail(mismatch("the replies of %d concurrent clients are those of no sequential order", len(hist)))
	}
	// begin the next round with an empty database
	for _, k := range r.Keys {
		if _, err := x.conns[0].do(B("del"), k); err != nil {
			return x.fail(x.conns[0].why(err))
		}
	}
	x.m = newModel()
	return nil
}

func genRound(g *Gen) Round {
	weights := weigh(allGroups(2), nil)
	if g.chance(0.7) { // one data type: more conflicts
		weights = weigh(map[string]int{pick(g, []string{"string", "list", "hash", "set", "zset"}): 10, "keys": 1}, nil)
	}
	h := newHG(g, weights)
	h.maxFill = 6
	h.errP = 0.01
	h.all = h.all[:min(len(h.all), g.between(1, 3))]
	for _, k := range kinds {
		h.keys[k] = nil
	}
	h.vals = h.vals[:min(len(h.vals), 4)]
	h.members = h.members[:min(len(h.members), 6)]
	h.fields = h.fields[:min(len(h.fields), 4)]
	r := Round{}
	for _, k := range h.all {
		r.Keys = append(r.Keys, B(k))
	}
	for k := g.between(0, 4); k > 0; k-- {
		r.Setup = append(r.Setup, h.next())
	}
	n := g.between(2, 6)
	for c := 0; c < n; c++ {
		s := Script{Depth: pick(g, []int{1, 1, 2, 3, 5})}
		for k := g.between(1, max(2, 20/n)); k > 0; k-- {
			s.Cmds = append(s.Cmds, h.next())
		}
		if g.chance(0.3) {
			s.Wait = g.Intn(150)
		}
		r.Clients = append(r.Clients, s)
	}
	return r
}

// ---- crowds

// names are n different keys of different lengths.
func (g *Gen) names(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = strings.Repeat(string(rune('a'+g.Intn(26))), g.Intn(8)) + strconv.Itoa(i)
	}
	return out
}

func sc(a ...string) []B { return bs(a) }

// crowdRun is one run of a crowd: the scripts, and what their replies must be.
type crowdRun struct {
	setup   [][]B
	scripts []Script
	final   [][]B
	check   func(h [][]concOp, fin []Val) error
}

func strs(v Val) []string {
	out := make([]string, len(v.Arr))
	for i, e := range v.Arr {
		out[i] = e.Str
	}
	return out
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// each calls f for every operation whose command is name ("" is any).
func each(h [][]concOp, name string, f func(c, i int, op *concOp) error) error {
	for c := range h {
		for i := range h[c] {
			op := &h[c][i]
			if name == "" || strings.EqualFold(string(op.args[0]), name) {
				if err := f(c, i, op); err != nil {
					return fmt.Errorf("client %d, %s -> %v: %w", c, showArgs(op.args), op.rep, err)
				}
			}
		}
	}
	return nil
}

// fill makes commands that store elements, many in each.
func fill(cmd, key string, elems []string, width int) [][]B {
	var out [][]B
	for from := 0; from < len(elems); from += 200 * width {
		out = append(out, bs(append([]string{cmd, key}, elems[from:min(len(elems), from+200*width)]...)))
	}
	return out
}

var crowds = map[string]func(g *Gen, k *Crowd) *crowdRun{
	// every increment counts, and every reply is seen once
	"counter": func(g *Gen, k *Crowd) *crowdRun {
		r := &crowdRun{}
		form := pick(g, []string{"incr", "decr", "incrby", "hincrby"})
		var cmd []B
		step := int64(1)
		switch form {
		case "incr":
			cmd = sc("incr", "n")
		case "decr":
			cmd, step = sc("decr", "n"), -1
		case "incrby":
			cmd, step = sc("incrby", "n", "7"), 7
		case "hincrby":
			cmd = sc("hincrby", "n", "f", "1")
		}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				s.Cmds = append(s.Cmds, cmd)
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, _ []Val) error {
			seen := map[int64]bool{}
			for c := range h {
				last := int64(0)
				for i := range h[c] {
					v := h[c][i].rep
					n := v.Int / step
					if v.Kind != ':' || v.Int%step != 0 || n <= last || n > int64(k.Clients*k.Ops) || seen[n] {
						return fmt.Errorf("client %d: reply %d of %s is %v after %d (%d clients, %d commands each; seen before: %v)", c, i, form, v, last*step, k.Clients, k.Ops, seen[n])
					}
					last = n
					seen[n] = true
				}
			}
			return nil
		}
		return r
	},
	// sums of floats and scores
	"sum": func(g *Gen, k *Crowd) *crowdRun {
		r := &crowdRun{final: [][]B{sc("zscore", "z", "m"), sc("hget", "h", "f"), sc("hget", "h", "i"), sc("get", "s")}}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				s.Cmds = append(s.Cmds, [][]B{sc("zadd", "z", "incr", "1", "m"), sc("hincrbyfloat", "h", "f", "0.5"), sc("hincrby", "h", "i", "3"), sc("incrby", "s", "2")}[(i+c)%4])
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, fin []Val) error {
			want := make([]float64, 4)
			for c := range h {
				for i := range h[c] {
					want[(i+c)%4] += []float64{1, 0.5, 3, 2}[(i+c)%4]
				}
			}
			for i, w := range want {
				f, err := strconv.ParseFloat(fin[i].Str, 64)
				if w == 0 && fin[i].Kind == '_' {
					continue
				}
				if err != nil || f != w {
					return fmt.Errorf("%s -> %v after increments of %v in total", showArgs(r.final[i]), fin[i], w)
				}
			}
			return nil
		}
		return r
	},
	// a queue: each element is popped once, those of a producer in their order
	"queue": func(g *Gen, k *Crowd) *crowdRun {
		r := &crowdRun{final: [][]B{sc("lrange", "q", "0", "-1")}}
		push, pop := "rpush", "lpop"
		if g.chance(0.5) {
			push, pop = "lpush", "rpop"
		}
		half := max(1, k.Clients/2)
		n := g.between(1, 3)
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				switch {
				case c >= half && i%5 == 4:
					s.Cmds = append(s.Cmds, sc(pop, "q", strconv.Itoa(n)))
				case c >= half:
					s.Cmds = append(s.Cmds, sc(pop, "q"))
				default:
					a := []string{push, "q"}
					for j := 0; j < n; j++ {
						a = append(a, fmt.Sprintf("%d:%d", c, i*n+j))
					}
					s.Cmds = append(s.Cmds, bs(a))
				}
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, fin []Val) error {
			count := map[string]int{}
			total := 0
			see := func(last map[string]int, el string) error {
				p, num, _ := strings.Cut(el, ":")
				i, err := strconv.Atoi(num)
				if err != nil {
					return fmt.Errorf("element %q was never pushed", el)
				}
				if l, ok := last[p]; ok && i <= l {
					return fmt.Errorf("element %q came after number %d of the same producer", el, l)
				}
				last[p] = i
				if count[el]++; count[el] > 1 {
					return fmt.Errorf("element %q came twice", el)
				}
				total++
				return nil
			}
			for c := half; c < len(h); c++ {
				last := map[string]int{}
				for _, op := range h[c] {
					els := strs(op.rep)
					if op.rep.Kind == '$' {
						els = []string{op.rep.Str}
					} else if op.rep.Kind != '_' && op.rep.Kind != '~' && op.rep.Kind != '*' {
						return fmt.Errorf("%s -> %v", showArgs(op.args), op.rep)
					}
					for _, el := range els {
						if err := see(last, el); err != nil {
							return fmt.Errorf("client %d: %w", c, err)
						}
					}
				}
			}
			rest := strs(fin[0])
			if push == "lpush" {
				rest = rev(rest)
			}
			last := map[string]int{}
			for _, el := range rest {
				if err := see(last, el); err != nil {
					return fmt.Errorf("at the end: %w", err)
				}
			}
			if total != half*k.Ops*n {
				return fmt.Errorf("%d elements were pushed, %d were popped or are left", half*k.Ops*n, total)
			}
			return nil
		}
		return r
	},
	// members move between sets: their union is always the same, and no member is in two of them
	"move": func(g *Gen, k *Crowd) *crowdRun {
		ms := numbered("m", k.Size)
		sets := g.names(3)
		union := func() []B { return bs(append([]string{"sunion"}, g.subset(sets, 3)...)) }
		r := &crowdRun{setup: fill("sadd", sets[0], ms, 1), final: [][]B{union(), sc("scard", sets[0]), sc("scard", sets[1]), sc("scard", sets[2])}}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				two := g.subset(sets, 2)
				switch {
				case c%2 == 0:
					s.Cmds = append(s.Cmds, sc("smove", two[0], two[1], pick(g, ms)))
				case i%16 == 0:
					s.Cmds = append(s.Cmds, union())
				default:
					s.Cmds = append(s.Cmds, sc("sinter", two[0], two[1]))
				}
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, fin []Val) error {
			err := each(h, "sunion", func(_, _ int, op *concOp) error {
				if !sameSet(strs(op.rep), ms) {
					return fmt.Errorf("the union of all sets has %d members, want the %d that are moved", len(op.rep.Arr), len(ms))
				}
				return nil
			})
			if err != nil {
				return err
			}
			err = each(h, "sinter", func(_, _ int, op *concOp) error {
				if len(op.rep.Arr) > 0 || isErr(op.rep) {
					return fmt.Errorf("a member is in two sets")
				}
				return nil
			})
			if err != nil {
				return err
			}
			if !sameSet(strs(fin[0]), ms) || fin[1].Int+fin[2].Int+fin[3].Int != int64(len(ms)) {
				return fmt.Errorf("at the end %d members, in sets of %d, %d and %d, want %d", len(fin[0].Arr), fin[1].Int, fin[2].Int, fin[3].Int, len(ms))
			}
			return nil
		}
		return r
	},
	// MSET of many keys: MGET, HMGET, HGETALL and ZRANGE see all of one write or nothing of it
	"allornone": func(g *Gen, k *Crowd) *crowdRun {
		names := g.names(min(k.Size, 300))
		form := pick(g, []string{"mset", "mset", "hset", "hmset", "zadd"})
		r := &crowdRun{}
		write := func(v string) []B {
			a := []string{form}
			if form != "mset" {
				a = append(a, "h")
			}
			for _, n := range g.subset(names, len(names)) {
				if form == "zadd" {
					a = append(a, v, n)
				} else {
					a = append(a, n, v)
				}
			}
			return bs(a)
		}
		read := func() []B {
			switch form {
			case "mset":
				return bs(append([]string{"mget"}, g.subset(names, len(names))...))
			case "zadd":
				return bs(pick(g, [][]string{{"zrange", "h", "0", "-1", "withscores"}, {"zrevrange", "h", "0", "-1", "withscores"}, {"zrangebyscore", "h", "-inf", "+inf", "withscores"}}))
			}
			return bs(pick(g, [][]string{append([]string{"hmget", "h"}, g.subset(names, len(names))...), {"hgetall", "h"}, {"hvals", "h"}}))
		}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				if c%2 == 0 {
					s.Cmds = append(s.Cmds, write(fmt.Sprint(c*100000+i)))
				} else {
					s.Cmds = append(s.Cmds, read())
				}
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, _ []Val) error {
			for c := 1; c < len(h); c += 2 {
				last := map[string]int{} // newest write seen of each writer
				for i := range h[c] {
					op := &h[c][i]
					vals := op.rep.Arr
					if name := string(op.args[0]); name == "hgetall" || form == "zadd" {
						vals = nil
						for j := 1; j < len(op.rep.Arr); j += 2 {
							vals = append(vals, op.rep.Arr[j])
						}
					}
					if isErr(op.rep) || len(vals) != 0 && len(vals) != len(names) {
						return fmt.Errorf("client %d, %.60s -> %d values, want %d or none", c, showArgs(op.args), len(vals), len(names))
					}
					for _, v := range vals {
						if v.Kind != vals[0].Kind || v.Str != vals[0].Str {
							return fmt.Errorf("client %d, %.60s: half of a %s: %v and %v", c, showArgs(op.args), form, vals[0], v)
						}
					}
					if len(vals) == 0 || vals[0].Kind == '_' {
						if len(last) > 0 {
							return fmt.Errorf("client %d, %.60s: nothing is stored any more", c, showArgs(op.args))
						}
						continue
					}
					n, err := strconv.Atoi(vals[0].Str)
					if err != nil {
						return fmt.Errorf("client %d, %.60s: %v was never written", c, showArgs(op.args), vals[0])
					}
					w := fmt.Sprint(n / 100000)
					if l, ok := last[w]; ok && n < l {
						return fmt.Errorf("client %d, %.60s: write %d of client %s is seen after its write %d", c, showArgs(op.args), n, w, l)
					}
					last[w] = n
				}
			}
			return nil
		}
		return r
	},
	// the STORE forms replace a set as a whole
	"store": func(g *Gen, k *Crowd) *crowdRun {
		size := min(k.Size, 600)
		p, q := append(numbered("p", size), "x", "y"), append(numbered("q", size+3), "x", "y")
		n := g.names(5)
		P, Q, A, B_, d := n[0], n[1], n[2], n[3], n[4] // A and B_ are P or Q
		r := &crowdRun{setup: append(append(fill("sadd", P, p, 1), fill("sadd", Q, q, 1)...), sc("sadd", d, "x", "y"), sc("sunionstore", A, P), sc("sunionstore", B_, Q))}
		// what the commands below can leave in d
		allowed := [][]string{p, q, {"x", "y"}, p[:size], q[:size+3], append(append([]string(nil), p[:size]...), q...), nil}
		sizes := map[string][]int{"sunionstore": {len(p), len(q), len(p) + len(q) - 2}, "sinterstore": {2, len(p), len(q)}, "sdiffstore": {0, size, size + 3}}
		sizes["scard"] = append(append(append([]int{}, sizes["sunionstore"]...), sizes["sinterstore"]...), sizes["sdiffstore"]...)
		writes := [][]B{sc("sunionstore", d, A), sc("sunionstore", d, B_), sc("sinterstore", d, A, B_), sc("sdiffstore", d, A, B_), sc("sunionstore", d, B_, A),
			sc("sunionstore", A, P), sc("sunionstore", A, Q), sc("sunionstore", B_, P), sc("sunionstore", B_, Q)}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				if c%2 == 0 {
					s.Cmds = append(s.Cmds, pick(g, writes))
				} else {
					s.Cmds = append(s.Cmds, pick(g, [][]B{sc("smembers", d), sc("scard", d), sc("sunion", d), sc("sdiff", d, "none"), sc("sunion", A, B_), sc("sinter", B_, A), sc("exists", A, B_, P, Q)}))
				}
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, _ []Val) error {
			return each(h, "", func(c, _ int, op *concOp) error {
				name := string(op.args[0])
				switch name {
				case "smembers", "sunion", "sdiff", "sinter":
					for _, al := range allowed {
						if sameSet(strs(op.rep), al) && !isErr(op.rep) {
							return nil
						}
					}
					return fmt.Errorf("%d members: none of the stored sets", len(op.rep.Arr))
				case "exists":
					return wInt(op.rep, 4)
				}
				for _, n := range sizes[name] {
					if op.rep.Kind == ':' && op.rep.Int == int64(n) {
						return nil
					}
				}
				return fmt.Errorf("not the size of a stored set")
			})
		}
		return r
	},
	// many keys are created and deleted by one command: all or none of them exist
	"vanish": func(g *Gen, k *Crowd) *crowdRun {
		names := g.names(min(k.Size, 200))
		for i := range names {
			names[i] = "v" + names[i]
		}
		r := &crowdRun{setup: [][]B{sc("set", "other", "1")}}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				some := g.subset(names, len(names))
				switch {
				case c%2 == 0 && g.chance(0.5):
					a := []string{"mset"}
					for _, n := range some {
						a = append(a, n, "1")
					}
					s.Cmds = append(s.Cmds, bs(a))
				case c%2 == 0:
					s.Cmds = append(s.Cmds, bs(append([]string{"del"}, some...)))
				case g.chance(0.3):
					s.Cmds = append(s.Cmds, sc("keys", "v*"))
				case g.chance(0.5):
					s.Cmds = append(s.Cmds, bs(append([]string{"mget"}, some...)))
				default:
					s.Cmds = append(s.Cmds, bs(append([]string{"exists"}, some...)))
				}
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, _ []Val) error {
			return each(h, "", func(_, _ int, op *concOp) error {
				n := int(op.rep.Int)
				switch string(op.args[0]) {
				case "mset":
					return wStatus(op.rep, "OK")
				case "keys":
					n = len(op.rep.Arr)
				case "mget":
					n = 0
					for _, v := range op.rep.Arr {
						if v.Kind == '$' {
							n++
						}
					}
				}
				if isErr(op.rep) || n != 0 && n != len(names) {
					return fmt.Errorf("%d of the %d keys", n, len(names))
				}
				return nil
			})
		}
		return r
	},
	// only one of the clients wins each element
	"winner": func(g *Gen, k *Crowd) *crowdRun {
		form := pick(g, []string{"sadd", "srem", "hsetnx", "hset", "hdel", "zadd", "zrem", "del", "spop", "zpopmin", "zpopmax", "lrem"})
		ms := numbered("m", k.Ops)
		r := &crowdRun{}
		var pairs []string
		for i, m := range ms {
			pairs = append(pairs, strconv.Itoa(i), m)
		}
		var cmd func(i int) []B
		switch form {
		case "sadd":
			cmd = func(i int) []B { return sc("sadd", "s", ms[i]) }
		case "srem", "spop":
			r.setup = fill("sadd", "s", ms, 1)
			cmd = func(i int) []B { return sc("srem", "s", ms[i]) }
			if form == "spop" {
				cmd = func(i int) []B { return sc("spop", "s") }
			}
		case "hsetnx":
			cmd = func(i int) []B { return sc("hsetnx", "s", ms[i], "v") }
		case "hset":
			cmd = func(i int) []B { return sc("hset", "s", ms[i], "v") }
		case "hdel":
			r.setup = fill("hset", "s", pairs, 2)
			cmd = func(i int) []B { return sc("hdel", "s", strconv.Itoa(i)) }
		case "zadd":
			cmd = func(i int) []B { return sc("zadd", "s", "1", ms[i]) }
		case "zrem", "zpopmin", "zpopmax":
			r.setup = fill("zadd", "s", pairs, 2)
			cmd = func(i int) []B { return sc(form, "s") }
			if form == "zrem" {
				cmd = func(i int) []B { return sc("zrem", "s", ms[i]) }
			}
		case "del":
			r.setup = [][]B{}
			for i := 0; i < len(ms); i++ {
				r.setup = append(r.setup, sc("set", ms[i], "v"))
			}
			cmd = func(i int) []B { return sc("del", ms[i]) }
		case "lrem":
			r.setup = fill("rpush", "s", ms, 1)
			cmd = func(i int) []B { return sc("lrem", "s", "0", ms[i]) }
		}
		grows := form == "sadd" || form == "hsetnx" || form == "hset" || form == "zadd"
		r.final = [][]B{sc("keys", "*")}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := range ms {
				s.Cmds = append(s.Cmds, cmd(i))
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, fin []Val) error {
			wins := map[string]int{}
			err := each(h, "", func(_, i int, op *concOp) error {
				switch {
				case isErr(op.rep):
					return fmt.Errorf("an error")
				case op.rep.Kind == ':' && op.rep.Int == 1:
					wins[ms[i]]++
				case op.rep.Kind == ':' && op.rep.Int == 0 || op.rep.Kind == '_' || op.rep.Kind == '~':
				case op.rep.Kind == '$':
					wins[op.rep.Str]++
				case op.rep.Kind == '*' && len(op.rep.Arr) == 0:
				case op.rep.Kind == '*' && (len(op.rep.Arr) == 2 || form == "spop" && len(op.rep.Arr) == 1):
					wins[op.rep.Arr[0].Str]++
				default:
					return fmt.Errorf("not a count, nor an element")
				}
				return nil
			})
			if err != nil {
				return err
			}
			for _, m := range ms {
				if wins[m] != 1 {
					return fmt.Errorf("%d of %d clients were told that their %s took effect on %s", wins[m], k.Clients, form, m)
				}
			}
			if n := len(fin[0].Arr); grows && n != 1 || !grows && n != 0 {
				return fmt.Errorf("at the end there are %d keys", n)
			}
			return nil
		}
		return r
	},
	// no appended text is lost or torn
	"append": func(g *Gen, k *Crowd) *crowdRun {
		r := &crowdRun{final: [][]B{sc("get", "s")}}
		tok := func(c, i int) string { return fmt.Sprintf("%02d-%06d;", c, i) }
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				s.Cmds = append(s.Cmds, sc("append", "s", tok(c, i)))
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, fin []Val) error {
			const w = 10
			text := fin[0].Str
			if len(text) != w*k.Clients*k.Ops {
				return fmt.Errorf("the value has %d bytes, %d were appended", len(text), w*k.Clients*k.Ops)
			}
			return each(h, "", func(c, i int, op *concOp) error {
				n := int(op.rep.Int)
				if op.rep.Kind != ':' || n < w || n > len(text) || text[n-w:n] != tok(c, i) {
					return fmt.Errorf("its text is not there at the end")
				}
				return nil
			})
		}
		return r
	},
	// lists grow by pairs, at both ends
	"pairs": func(g *Gen, k *Crowd) *crowdRun {
		r := &crowdRun{setup: fill("rpush", "l", strings.Split(strings.Repeat("p p ", max(1, k.Size/4))+"p p", " "), 1), final: [][]B{sc("lrange", "l", "0", "-1")}}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				t := fmt.Sprintf("%d-%d", c, i)
				switch {
				case c%2 == 0:
					s.Cmds = append(s.Cmds, pick(g, [][]B{sc("rpush", "l", t, t), sc("lpush", "l", t, t), sc("lrem", "l", "0", t), sc("lpop", "l", "2"), sc("rpop", "l", "2")}))
				default:
					s.Cmds = append(s.Cmds, pick(g, [][]B{sc("lrange", "l", "0", "-1"), sc("llen", "l"), sc("lrange", "l", "-4", "-1"), sc("lrange", "l", "0", "3")}))
				}
			}
			r.scripts = append(r.scripts, s)
		}
		paired := func(v Val) error {
			if v.Kind != '*' && v.Kind != '_' && v.Kind != '~' || len(v.Arr)%2 != 0 {
				return fmt.Errorf("%d elements, all were pushed and removed in pairs", len(v.Arr))
			}
			for i := 0; i+1 < len(v.Arr); i += 2 {
				if v.Arr[i].Str != v.Arr[i+1].Str {
					return fmt.Errorf("elements %d and %d are %v and %v, all were pushed and removed in pairs", i, i+1, v.Arr[i], v.Arr[i+1])
				}
			}
			return nil
		}
		r.check = func(h [][]concOp, fin []Val) error {
			err := each(h, "", func(_, _ int, op *concOp) error {
				switch name := string(op.args[0]); name {
				case "llen", "rpush", "lpush":
					if op.rep.Kind != ':' || op.rep.Int%2 != 0 {
						return fmt.Errorf("all was pushed and removed in pairs")
					}
				case "lrange", "lpop", "rpop":
					return paired(op.rep)
				}
				return nil
			})
			if err == nil {
				err = paired(fin[0])
			}
			return err
		}
		return r
	},
	// every client reads its own writes, in the middle of the others
	"own": func(g *Gen, k *Crowd) *crowdRun {
		r := &crowdRun{final: [][]B{sc("keys", "*")}}
		for c := 0; c < k.Clients; c++ {
			s := Script{Depth: k.Depth}
			for i := 0; i < k.Ops; i++ {
				key, v := fmt.Sprintf("own%d", c), fmt.Sprintf("%d-%d", c, i/2)
				switch form := c % 5; {
				case i%2 == 0:
					s.Cmds = append(s.Cmds, [][]B{sc("set", key, v), sc("hset", "shared-h", key, v), sc("sadd", "shared-s", v), sc("zadd", "shared-z", strconv.Itoa(i), v), sc("rpush", key, v)}[form])
				default:
					s.Cmds = append(s.Cmds, [][]B{sc("get", key), sc("hget", "shared-h", key), sc("sismember", "shared-s", v), sc("zscore", "shared-z", v), sc("lindex", key, "-1")}[form])
				}
			}
			r.scripts = append(r.scripts, s)
		}
		r.check = func(h [][]concOp, _ []Val) error {
			return each(h, "", func(c, i int, op *concOp) error {
				v := fmt.Sprintf("%d-%d", c, i/2)
				if i%2 == 0 {
					if isErr(op.rep) {
						return fmt.Errorf("an error")
					}
					return nil
				}
				switch c % 5 {
				case 2:
					return wInt(op.rep, 1)
				case 3:
					return wBulk(op.rep, strconv.Itoa(i-1))
				}
				return wBulk(op.rep, v)
			})
		}
		return r
	},
}

var crowdKinds = sortedKeys(crowds)

func (x *session) crowd(k *Crowd) *Failure {
	r := crowds[k.Kind](newGen(k.Seed), k)
	for from := 0; from < len(r.setup); from += 100 {
		hist, f := x.runScripts([]Script{{Cmds: r.setup[from:min(len(r.setup), from+100)], Depth: 100}})
		if f != nil {
			return f
		}
		for _, op := range hist[0] {
			if isErr(op.rep) {
				return x.fail(mismatch("%s -> %v", showArgs(op.args), op.rep))
			}
		}
	}
	hist, f := x.runScripts(r.scripts)
	if f != nil {
		return f
	}
	var fin []Val
	for _, a := range r.final {
		rep, err := x.conns[0].do(a...)
		if err != nil {
			return x.fail(x.conns[0].why(err))
		}
		fin = append(fin, rep)
	}
	overlaps := 0
	for c := range hist {
		for i, op := range hist[c] {
			x.o.actions++
			if d := hist[(c+1)%len(hist)]; i < len(d) && d[i].call < op.ret && op.call < d[i].ret {
				overlaps++
			}
		}
	}
	x.o.label("crowd:" + k.Kind)
	if overlaps >= 10 {
		x.o.nontrivial = true
	}
	if err := r.check(hist, fin); err != nil {
		for c, h := range hist {
			if c < 10 {
				for i, op := range h {
					if i < 12 {
						x.log = append(x.log, entry{c: c, args: op.args, rep: op.rep, note: fmt.Sprintf("  (%v .. %v)", op.call.Round(time.Microsecond), op.ret.Round(time.Microsecond))})
					}
				}
			}
		}
		return x.fail(mismatch("%s: %v", k.Kind, err))
	}
	return nil
}

// slow: whatever waits too long may be refused, but then it has no effect, neither then nor later.
func (x *session) slow(k *Slow) *Failure {
	const n = 1000
	c0 := x.conns[0]
	for _, c := range x.conns {
		c.longer = 2*patience + time.Duration(k.Ms)*time.Millisecond
	}
	do := func(c *Conn, args ...B) (Val, *Failure) {
		rep, err := c.do(args...)
		if err != nil {
			return rep, x.fail(c.why(err))
		}
		return rep, nil
	}
	for _, a := range fill("sadd", "s", numbered("m", n), 500) {
		if rep, f := do(c0, a...); f != nil || isErr(rep) {
			return f
		}
	}
	request := func(m int) []byte {
		var b bytes.Buffer
		fmt.Fprintf(&b, "*%d\r\n$11\r\nsunionstore\r\n$1\r\nd\r\n", m+2)
		for i := 0; i < m; i++ {
			b.WriteString("$1\r\ns\r\n")
		}
		return b.Bytes()
	}
	per := time.Hour
	for i := 0; i < 4; i++ {
		from := time.Now()
		if err := c0.send(request(1000)); err != nil {
			return x.fail(c0.why(err))
		}
		if _, err := c0.read(); err != nil {
			return x.fail(c0.why(err))
		}
		per = min(per, time.Since(from)/1000)
	}
	if _, f := do(c0, sc("del", "d")...); f != nil {
		return f
	}
	m := min(int(time.Duration(k.Ms)*time.Millisecond/max(per, time.Microsecond)), 2000000)
	if err := c0.send(request(m)); err != nil {
		return x.fail(c0.why(err))
	}
	time.Sleep(300 * time.Millisecond)
	scripts := make([]Script, len(x.conns))
	for i := 1; i < len(scripts); i++ {
		scripts[i].Depth = k.Ops
		for j := 0; j < k.Ops; j++ {
			scripts[i].Cmds = append(scripts[i].Cmds, [][]B{sc("incr", "n"), sc("rpush", "l", fmt.Sprintf("%d.%d", i, j))}[(i+j)%2])
		}
	}
	hist, f := x.runScripts(scripts)
	if f != nil {
		return f
	}
	first, err := c0.read()
	if err != nil {
		return x.fail(c0.why(err))
	}
	refused, counted, pushed := 0, 0, map[string]bool{}
	for _, h := range hist {
		for _, op := range h {
			x.o.actions++
			switch {
			case isErr(op.rep):
				refused++
			case op.args[0] == "incr":
				counted++
			default:
				pushed[string(op.args[2])] = true
			}
		}
	}
	counter, f := do(c0, sc("get", "n")...)
	if f != nil {
		return f
	}
	list, f := do(c0, sc("lrange", "l", "0", "-1")...)
	if f != nil {
		return f
	}
	card, f := do(c0, sc("scard", "d")...)
	if f != nil {
		return f
	}
	x.o.label(fmt.Sprintf("slow:refused=%t", refused > 0))
	x.o.nontrivial = refused > 0 || hist[1][0].ret > 10*time.Second
	switch {
	case counter.Str != strconv.Itoa(counted) && counted > 0, counted == 0 && counter.Kind == '$' && counter.Str != "" && counter.Str != "0":
		return x.fail(mismatch("while another client's command took long, %d INCR succeeded and others were refused, but the counter is %v", counted, counter))
	case !isErr(first) && (first.Int != n || card.Int != n), isErr(first) && card.Kind == ':' && card.Int != 0:
		return x.fail(mismatch("SUNIONSTORE of many sets replied %v, but the stored set has %v members", first, card))
	}
	for _, v := range strs(list) {
		if !pushed[v] {
			return x.fail(mismatch("while another client's command took long, RPUSH of %s was refused, but it is in the list", v))
		}
		delete(pushed, v)
	}
	for v := range pushed {
		return x.fail(mismatch("while another client's command took long, RPUSH of %s succeeded, but it is not in the list", v))
	}
	return nil
}

func genConc(g *Gen, i int) any {
	c := genConc1(g, i)
	if c.Slow == nil && i%8 == 4 {
		c.Race = pick(g, []string{"race", "race", "race-v1"})
	}
	return c
}

func genConc1(g *Gen, i int) *Conc {
	if i%1000 == 1 {
		return &Conc{Slow: &Slow{Clients: g.between(2, 12), Ops: g.between(1, 20), Ms: g.between(11500, 13000)}}
	}
	if i%3 == 0 {
		k := &Crowd{Kind: crowdKinds[i/3%len(crowdKinds)], Clients: g.between(2, 10), Ops: g.between(20, 200), Depth: pick(g, []int{1, 2, 8, 32, 100}), Size: g.between(2, 60), Seed: g.Int63()}
		if g.chance(0.5) {
			k.Size = g.between(60, 1000)
		}
		if k.Kind == "counter" || k.Kind == "sum" || k.Kind == "append" || k.Kind == "winner" {
			k.Ops = g.between(100, 1000)
		}
		return &Conc{Crowd: k}
	}
	c := &Conc{}
	for n := g.between(4, 12); n > 0; n-- {
		c.Rounds = append(c.Rounds, genRound(g))
	}
	return c
}

func runConc(variant string) func(e *Env, c any, o *Obs) *Failure {
	return func(e *Env, v any, o *Obs) *Failure {
		c := v.(*Conc)
		n := 1
		if c.Crowd != nil {
			n = c.Crowd.Clients
		}
		if c.Slow != nil {
			n = c.Slow.Clients + 1
		}
		for _, r := range c.Rounds {
			n = max(n, len(r.Clients))
		}
		variant := variant
		if c.Race != "" {
			variant = c.Race
			o.label(variant)
		}
		x, f := newSession(e, variant, n, o)
		if f != nil {
			return f
		}
		defer x.close()
		if f := x.conc(c); f != nil {
			return f
		}
		if c.Race != "" {
			x.leave()
		}
		if r := x.s.race(); r != "" {
			return x.fail(mismatch("two goroutines of the server access the same data at the same time: %s", r))
		}
		return nil
	}
}

// leave ends a case of a build with the race detector: clients go in the middle of requests and replies, and others come.
// What becomes of their replies is judged elsewhere (C16).
func (x *session) leave() {
	var b []byte
	for i := 0; i < 50; i++ {
		for _, a := range [][]B{sc("incr", "n"), sc("rpush", "l", "x"), sc("hset", "h", fmt.Sprint("f", i), "v"), sc("hgetall", "h"), sc("lrange", "l", "0", "-1"), sc("nonsense")} {
			b = append(b, encodeReq(a)...)
		}
	}
	for i, c := range x.conns {
		if i%2 == 0 {
			_ = c.send(b)
		} else {
			_ = c.send(b[:len(b)/2])
			c.reset()
		}
	}
	for i := 0; i < 4; i++ {
		if c, err := x.s.dial(); err == nil {
			if i%2 == 0 {
				_ = c.send([]byte("*1\r\n$4\r\nping\r\n*2\r\n$x"))
				_, _ = c.read()
			}
			defer c.close()
		}
	}
	time.Sleep(5 * time.Millisecond)
}

func (x *session) conc(c *Conc) *Failure {
	switch {
	case c.Crowd != nil:
		return x.crowd(c.Crowd)
	case c.Slow != nil:
		return x.slow(c.Slow)
	}
	for i := range c.Rounds {
		if f := x.round(&c.Rounds[i]); f != nil {
			return f
		}
	}
	return nil
}

func shrinkConc(v any) []any {
	c := v.(*Conc)
	var out []any
	if k := c.Crowd; k != nil {
		for _, f := range []func(k *Crowd){
			func(k *Crowd) { k.Clients = 2 },
			func(k *Crowd) { k.Clients = max(2, k.Clients/2) },
			func(k *Crowd) { k.Ops = max(1, k.Ops/4) },
			func(k *Crowd) { k.Ops = max(1, k.Ops/2) },
			func(k *Crowd) { k.Size = max(1, k.Size/4) },
			func(k *Crowd) { k.Depth = 1 },
		} {
			d := *k
			f(&d)
			if d != *k {
				out = append(out, &Conc{Crowd: &d, Race: c.Race})
			}
		}
		return out
	}
	if c.Slow != nil {
		return nil
	}
	if len(c.Rounds) > 1 {
		for i := range c.Rounds {
			out = append(out, &Conc{Rounds: []Round{c.Rounds[i]}, Race: c.Race})
		}
		// the round that fails by chance, many times
		return out
	}
	if len(c.Rounds) == 0 {
		return nil
	}
	r := c.Rounds[0]
	add := func(r Round) { out = append(out, &Conc{Rounds: []Round{r}, Race: c.Race}) }
	for i := range r.Clients {
		d := r
		d.Clients = append(append([]Script(nil), r.Clients[:i]...), r.Clients[i+1:]...)
		if len(d.Clients) > 0 {
			add(d)
		}
	}
	for i := range r.Setup {
		d := r
		d.Setup = append(append([][]B(nil), r.Setup[:i]...), r.Setup[i+1:]...)
		add(d)
	}
	for i := range r.Clients {
		for j := range r.Clients[i].Cmds {
			d := r
			d.Clients = append([]Script(nil), r.Clients...)
			cl := r.Clients[i]
			cl.Cmds = append(append([][]B(nil), cl.Cmds[:j]...), cl.Cmds[j+1:]...)
			d.Clients[i] = cl
			add(d)
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C18", Rule: "two of three cases are 4 to 12 small histories of 2 to 6 concurrent clients with up to 20 commands on at most 3 keys, then a read of everything; for each a search looks for a sequential order that keeps the order of each client and of real time and in which the reference model allows every reply; one of three is a crowd of 2 to 10 clients with up to 1000 pipelined commands each, decided by an invariant, now and then by the race detector, once with a command that takes 12 s in front of it (counters, sums, queues, moves, all-or-none writes, STORE forms, single winners, appends, pairs, own writes); it is non-trivial if at least 2 pairs of operations with an effective write (10 pairs in a crowd) really overlapped in time; distinct by the text of the case",
		Quick: 1500, Thorough: 40000, Workers: 4, Gen: genConc, New: func() any { return &Conc{} }, Run: runConc("default"), Shrink: shrinkConc, Tries: 25})
}
