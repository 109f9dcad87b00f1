package main

// C27: memory follows the live data.

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
)

// Mem is a round of commands that is executed again and again and leaves as much data as it found.
type Mem struct {
	Kind   string   `json:"kind"`
	N      int      `json:"n"`    // elements of a round
	Size   int      `json:"size"` // bytes of an element
	Keys   int      `json:"keys"` // keys of a round
	Rounds int      `json:"rounds"`
	Fresh  bool     `json:"fresh"` // new keys in every round
	Novel  bool     `json:"novel"` // new elements in every round
	Ops    []string `json:"ops"`   // what happens to the data
	Drain  string   `json:"drain"` // how it goes away
	Conns  bool     `json:"conns"` // a new connection in every round
	Live   bool     `json:"live"`  // the data is made in the first round and stays; a round leaves as many elements as it found
	Dials  int      `json:"dials"` // further connections of a round
	Husks  int      `json:"husks"` // small values which stay behind from commands with a value that is deleted
}

var memOps = map[string][]string{
	"string": {"overwrite", "append", "counter", "read", "setagain"},
	"list":   {"slide", "slideback", "lset", "linsert", "read", "pivots"},
	"hash":   {"overwrite", "hincrby", "hincrbyfloat", "hsetnx", "slide", "read", "absent"},
	"set":    {"again", "smove", "store", "storeempty", "slide", "read", "absent", "spop"},
	"zset":   {"rescore", "zincr", "slide", "pop", "window", "nx", "read", "absent"},
}

var memDrains = map[string][]string{
	"string": {"del", "del", "other"},
	"list":   {"del", "elements", "pops", "overwrite"},
	"hash":   {"del", "elements", "elements", "overwrite"},
	"set":    {"del", "elements", "pops", "overwrite", "store"},
	"zset":   {"del", "elements", "pops", "overwrite"},
}

var memAny = []string{"unknown", "wrongtype", "missing", "keys", "badargs"}

// memAbsent are commands on a key that does not exist.
var memAbsent = [][]string{{"hget", "f"}, {"llen"}, {"lpop"}, {"rpop"}, {"lrange", "0", "3"}, {"lindex", "0"}, {"lrem", "0", "x"}, {"linsert", "before", "a", "b"},
	{"sismember", "x"}, {"scard"}, {"smembers"}, {"srem", "x"}, {"spop"}, {"smove", "wrong", "x"}, {"zscore", "x"}, {"zrank", "x"}, {"zcard"}, {"zrem", "x"}, {"zpopmin"},
	{"hgetall"}, {"hdel", "f"}, {"hlen"}, {"exists"}, {"del"}, {"zrange", "0", "1"}, {"zcount", "0", "1"}, {"sdiff"}, {"sinter"}, {"lpushx", "a"}, {"zadd", "xx", "1", "m"}}

// memLive are the operations on data which stays.
var memLive = func() (out []struct{ kind, op string }) {
	for _, kind := range kinds {
		for _, op := range memOps[kind] {
			if op != "append" {
				out = append(out, struct{ kind, op string }{kind, op})
			}
		}
	}
	for i, op := range memAny {
		out = append(out, struct{ kind, op string }{kinds[i], op})
	}
	return out
}()

func genMem(g *Gen, i int) any {
	c := &Mem{Kind: kinds[i%len(kinds)]}
	c.Size = pick(g, []int{0, 8, 30, 300, 5000})
	c.N = pick(g, []int{12000, 15000, 18000})
	if c.Size == 300 {
		c.N = 8000
	}
	if c.Size == 5000 {
		c.N = 600
	}
	c.Keys = pick(g, []int{1, 1, 10, c.N / 20})
	if c.Kind == "string" {
		c.Keys = c.N
	}
	c.Rounds = 30
	c.Fresh, c.Novel, c.Conns = g.chance(0.6), g.chance(0.7), g.chance(0.5)
	ops := append(slices.Clone(memOps[c.Kind]), memOps[c.Kind]...)
	ops = append(ops, memAny...)
	for k := g.Intn(3); k > 0; k-- {
		c.Ops = append(c.Ops, pick(g, ops))
	}
	c.Drain = pick(g, memDrains[c.Kind])
	switch {
	case i%2 == 1:
		c.Live, c.Fresh = true, false
		c.N /= pick(g, []int{1, 4, 20, 100})
		c.Keys = min(c.Keys, 100, max(1, c.N/5))
		if c.Size > 100 {
			c.Size = 100
		}
		// every operation in turn, with one more in later turns
		turn := i / 2
		c.Kind, c.Ops = memLive[turn%len(memLive)].kind, []string{memLive[turn%len(memLive)].op}
		if turn >= len(memLive) && c.Ops[0] != "pop" && c.Ops[0] != "window" && c.Ops[0] != "spop" {
			c.Ops = append(c.Ops, pick(g, memAny)) // others could bring back what was popped
		}
		if c.Kind == "string" {
			c.Keys = c.N
		}
		if c.Ops[0] == "keys" {
			c.Keys, c.N = min(c.Keys, 20), 20
		}
		if g.chance(0.3) {
			c.Dials = 250
		}
	case i%8 == 4:
		c.Husks = 20
	}
	return c
}

// commands of round r.
func (c *Mem) round(r int) [][]B {
	var out [][]B
	add := func(a ...string) { out = append(out, bs(a)) }
	fill := strings.Repeat("v", c.Size)
	key := func(k int) string {
		if c.Fresh {
			return fmt.Sprintf("key:%d:%d", r, k)
		}
		return fmt.Sprintf("key:%d", k)
	}
	elem := func(j int) string {
		if c.Novel && !c.Live {
			return fmt.Sprint(r, ":", j, fill)
		}
		return fmt.Sprint(j, fill)
	}
	value := func(j int) string {
		if c.Novel {
			return fmt.Sprint(r, ":", j, fill)
		}
		return fmt.Sprint(j, fill)
	}
	per := max(1, c.N/c.Keys)
	// many sends one command per key with all elements, at most 500 per command
	many := func(name string, f func(k, j int) []string) {
		for k := 0; k < c.Keys; k++ {
			for j := 0; j < per; j += 500 {
				a := []string{name, key(k)}
				for l := j; l < min(per, j+500); l++ {
					a = append(a, f(k, l)...)
				}
				add(a...)
			}
		}
	}
	el := func(k, j int) []string { return []string{elem(j)} }
	pair := func(name string, from, to int, f func(k int) []string) { // MSET, DEL, ... of many keys
		for j := from; j < to; j += 500 {
			a := []string{name}
			for l := j; l < min(to, j+500); l++ {
				a = append(a, f(l)...)
			}
			add(a...)
		}
	}
	one := func(k int) []string { return []string{key(k)} }
	switch {
	case c.Live && r > 0:
	case c.Kind == "string":
		pair("mset", 0, c.N, func(k int) []string { return []string{key(k), elem(k)} })
	case c.Kind == "list":
		many(pick2(r, "rpush", "lpush"), el)
	case c.Kind == "hash":
		many("hset", func(k, j int) []string { return []string{elem(j), strconv.Itoa(j)} })
	case c.Kind == "set":
		many("sadd", el)
	case c.Kind == "zset":
		many("zadd", func(k, j int) []string { return []string{strconv.Itoa(j * 7919 % 1009), elem(j)} })
	}
	some := min(c.N, 3000)
	if c.Live {
		some = 11000
		if slices.Contains(memAny, c.Ops[0]) {
			some = 20000
		}
	}
	for j := 0; j < c.Husks; j++ {
		huge := strings.Repeat("h", 100000)
		switch c.Kind {
		case "list":
			add("rpush", "huge", huge, fmt.Sprint("small", r, ":", j), huge)
			add("lrem", "huge", "0", huge)
		case "hash":
			add("hset", "huge", huge, "x", "field", huge, fmt.Sprint("small", r, ":", j), "y", "other", huge)
			add("hdel", "huge", huge, "field", "other")
		case "set":
			add("sadd", "huge", huge, fmt.Sprint("small", r, ":", j))
			add("srem", "huge", huge)
		case "zset":
			add("zadd", "huge", "1", huge, "2", fmt.Sprint("small", r, ":", j))
			add("zrem", "huge", huge)
		default:
			add("mset", "huge", huge, fmt.Sprint("small", r, ":", j), "x")
			add("set", "huge", fmt.Sprint("x", r, ":", j))
		}
	}
	for _, op := range c.Ops {
		k0 := func(j int) string { return key(j % c.Keys) }
		for j := 0; j < some; j++ {
			k := k0(j)
			m := elem((j / c.Keys) % per)
			switch c.Kind + " " + op {
			case "string overwrite":
				add("set", k, value(j+1))
			case "string setagain":
				add("set", key(0), value(j))
			case "string append":
				add("append", k, "x")
			case "string counter":
				if j == 0 {
					add("set", "counter", "0")
				}
				add("incr", "counter")
			case "string read":
				add("get", k)
			case "list slide":
				add("rpush", k, value(j))
				add("lpop", k)
			case "list slideback":
				add("lpush", k, value(j), value(j+1))
				add("rpop", k, "2")
			case "list lset":
				add("lset", k, strconv.Itoa(j/c.Keys%min(per, 50)), value(j+1))
			case "list linsert":
				add("rpush", k, "pivot")
				add("linsert", k, pick2(j, "before", "after"), "pivot", "inserted")
				add("lrem", k, "-1", "inserted")
				add("lrem", k, "-1", "pivot")
			case "list pivots":
				add("lindex", k, strconv.Itoa(j%20))
			case "list read":
				add("lrange", k, "0", "3")
			case "hash overwrite":
				add("hset", k, m, value(j))
			case "hash hincrby":
				add("hset", k, m, "1")
				add("hincrby", k, m, "3")
			case "hash hincrbyfloat":
				add("hset", k, m, "1.5")
				add("hincrbyfloat", k, m, "0.25")
			case "hash hsetnx":
				add("hsetnx", k, m, value(j))
			case "hash slide":
				add("hset", k, fmt.Sprint("slide", r, j), value(j))
				add("hdel", k, fmt.Sprint("slide", r, j))
			case "hash read":
				add("hget", k, m)
			case "hash absent":
				add("hget", k, fmt.Sprint("absent", r, j))
				add("hmget", k, fmt.Sprint("absent", r, j), m)
			case "set again":
				add("sadd", k, m)
			case "set smove":
				add("smove", k, "moved", m)
				add("smove", "moved", k, m)
			case "set store":
				if j%500 == 0 {
					add("sunionstore", "stored", k, k)
					add("sinterstore", "stored", k)
				}
			case "set storeempty":
				add("sdiffstore", "empty", "small", "small")
				if j%500 == 0 {
					add("sinterstore", fmt.Sprint("empty", r, j), k, "absent")
				}
			case "set slide":
				add("sadd", k, fmt.Sprint("slide", r, j))
				add("srem", k, fmt.Sprint("slide", r, j))
			case "set spop":
				add("sadd", k, fmt.Sprint("pushed", r, j))
				add("spop", k)
			case "set read", "set absent":
				add("sismember", k, fmt.Sprint("absent", r, j))
			case "zset rescore":
				add("zadd", k, strconv.Itoa(j+r), m)
			case "zset zincr":
				add("zincr", k, "1", m)
			case "zset slide":
				add("zadd", k, strconv.Itoa(j), fmt.Sprint("slide", r, j))
				add("zrem", k, fmt.Sprint("slide", r, j))
			case "zset pop":
				add("zadd", k, strconv.Itoa(j), fmt.Sprint("pushed", r, j))
				add(pick2(j, "zpopmin", "zpopmax"), k)
			case "zset window":
				add("zadd", k, strconv.Itoa(r*some+j+1009), fmt.Sprint("window", r, ":", j))
				add("zpopmin", k)
			case "zset nx":
				add("zadd", k, "nx", "3", m)
				add("zadd", k, "xx", "3", fmt.Sprint("absent", r, j))
			case "zset read":
				add("zscore", k, m)
				add("zcount", k, "5", "6")
			case "zset absent":
				add("zrank", k, fmt.Sprint("absent", r, j))
			}
			switch op {
			case "unknown":
				add(fmt.Sprint("nosuch", r, j), k)
			case "wrongtype":
				add("lpush", "wrong", elem(j))
				add("sadd", "wrong", elem(j))
				add("zadd", "wrong", "1", elem(j))
			case "missing":
				add("get", fmt.Sprint("missing", r, j))
				add("type", fmt.Sprint("missing", r, j))
				a := memAbsent[j%len(memAbsent)]
				add(append([]string{a[0], fmt.Sprint("missing", r, j)}, a[1:]...)...)
			case "keys":
				if j%1000 == 0 || c.Live && c.Keys <= 20 {
					add("keys", fmt.Sprint("nothing", r, j, "[ab]*"))
				}
			case "badargs":
				add("zadd", fmt.Sprint("bad", r, j), "x", elem(j))
				add("incrby", fmt.Sprint("bad", r, j), "x")
				add("lset", fmt.Sprint("bad", r, j), "0", "x")
			}
		}
	}
	if c.Live {
		add("del", "moved", "stored", "counter")
		return out
	}
	switch c.Drain {
	case "elements":
		switch c.Kind {
		case "list": // each element from the head
			for k := 0; k < c.Keys; k++ {
				for j := per - 1; j >= 0; j-- {
					v := j
					if r%2 == 0 {
						v = per - 1 - j
					}
					add("lrem", key(k), "1", elem(v))
				}
			}
		case "hash":
			many("hdel", el)
		case "set":
			many("srem", el)
		case "zset":
			many("zrem", el)
		}
	case "pops":
		name := map[string]string{"list": pick2(r, "lpop", "rpop"), "set": "spop", "zset": pick2(r, "zpopmin", "zpopmax")}[c.Kind]
		for k := 0; k < c.Keys; k++ {
			for j := 0; j < per; j += 400 {
				add(name, key(k), "400")
			}
		}
	case "overwrite":
		pair("mset", 0, c.Keys, func(k int) []string { return []string{key(k), "x"} })
	case "store":
		for k := 0; k < c.Keys; k++ {
			add("sinterstore", key(k), key(k), "absent")
		}
	case "other":
		for k := 0; k < c.Keys; k++ {
			add("sdiffstore", key(k), "absent")
		}
	}
	pair("del", 0, c.Keys, one)
	add("del", "moved", "stored", "counter")
	return out
}

func pick2(i int, a, b string) string {
	if i%2 == 0 {
		return a
	}
	return b
}

func runMem(e *Env, v any, o *Obs) *Failure {
	d := v.(*Mem)
	s := e.startServer("default", "GOGC=25")
	defer s.kill()
	c, err := s.dial()
	if err != nil {
		return (&Conn{s: s}).why(err)
	}
	defer func() { c.close() }()
	burst := func(cmds [][]B) *Failure {
		var b []byte
		for _, a := range cmds {
			b = append(b, encodeReq(a)...)
		}
		sent := make(chan error, 1)
		go func() { sent <- c.send(b) }()
		for range cmds {
			if _, err := c.read(); err != nil {
				return c.why(err)
			}
		}
		if err := <-sent; err != nil {
			return c.why(err)
		}
		o.actions += len(cmds)
		return nil
	}
	if f := burst([][]B{cmdline("set", "wrong", "x"), cmdline("sadd", "small", "a")}); f != nil {
		return f
	}
	var rss []int
	for r := 0; r < d.Rounds; r++ {
		if d.Conns && r > 0 {
			c.close()
			if c, err = s.dial(); err != nil {
				return (&Conn{s: s}).why(err)
			}
		}
		if f := burst(d.round(r)); f != nil {
			return f
		}
		for k := 0; k < d.Dials; k++ {
			x, err := s.dial()
			if err != nil {
				return (&Conn{s: s}).why(err)
			}
			_, err = x.do(cmdline("set", "wrong", "x")...)
			x.close()
			if err != nil {
				return x.why(err)
			}
		}
		v, err := c.do(cmdline("keys", "*")...)
		if err != nil {
			return c.why(err)
		}
		want := 2
		if d.Live {
			want += d.Keys
		}
		if d.Husks > 0 {
			want++
			if d.Kind == "string" {
				want += d.Husks * (r + 1)
			}
		}
		if n := len(v.Arr); n != want {
			return mismatch("after round %d there should be %d keys and there are %d", r, want, n)
		}
		rss = append(rss, procKB(s.cmd.Process.Pid, "VmRSS"))
	}
	o.label("kind:" + d.Kind)
	switch {
	case d.Live:
		o.label("live")
	default:
		o.label("drain:" + d.Drain)
	}
	if d.Dials > 0 {
		o.label("dials")
	}
	if d.Husks > 0 {
		o.label("husks")
	}
	for _, op := range d.Ops {
		o.label("op:" + op)
	}
	n := len(rss)
	if n < 20 || slices.Contains(rss, 0) {
		return nil
	}
	before, after := slices.Max(rss[n/5:n*2/5]), slices.Min(rss[n*17/20:])
	if limit := 5 << 10; after > before*9/8+limit {
		return mismatch("the memory grows from round to round although the data does not: at most %d kB in rounds %d to %d, at least %d kB in the last ones (%v)", before, n/5, n*2/5, after, rss)
	}
	o.nontrivial = true
	return nil
}

func shrinkMem(v any) []any {
	d := v.(*Mem)
	var out []any
	with := func(f func(n *Mem)) {
		n := *d
		n.Ops = slices.Clone(d.Ops)
		f(&n)
		out = append(out, &n)
	}
	for i := range d.Ops {
		with(func(n *Mem) { n.Ops = slices.Delete(n.Ops, i, i+1) })
	}
	if d.Dials > 0 {
		with(func(n *Mem) { n.Dials = 0 })
	}
	if d.Husks > 0 {
		with(func(n *Mem) { n.Husks = 0 })
	}
	if d.Conns {
		with(func(n *Mem) { n.Conns = false })
	}
	if d.Fresh {
		with(func(n *Mem) { n.Fresh = false })
	}
	if d.Novel {
		with(func(n *Mem) { n.Novel = false })
	}
	if d.Drain != "del" {
		with(func(n *Mem) { n.Drain = "del" })
	}
	return out
}

func init() {
	register(&Prop{ID: "C27", Rule: "a case is a round of commands which creates data of one kind, works on it and deletes it in one of several ways (or leaves as many elements as it found, or a few bytes out of requests of 200 kB), executed 30 times on a fresh server while the resident memory is read after every round; it is non-trivial if all rounds were executed and the memory could be read each time; distinct by the text of the case",
		Quick: 74, Thorough: 1500, Gen: genMem, New: func() any { return &Mem{} }, Run: runMem, Shrink: shrinkMem, Tries: 1})
}
