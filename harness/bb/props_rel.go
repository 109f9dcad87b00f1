package main

import (
	"fmt"
	"sort"
	"strings"
)

// Relations between executions: C11, C12, C23; and C15, C20.

// canon makes replies without a defined order comparable.
func canon(args []B, v Val) string {
	name := strings.ToLower(string(args[0]))
	switch name {
	case "command":
		return "command " + string(v.Kind)
	case "keys", "hkeys", "hvals", "smembers", "sunion", "sinter", "sdiff":
		if v.Kind == '*' {
			return fmt.Sprintf("%q", sortVals(v.Arr))
		}
	case "hgetall":
		if v.Kind == '*' && len(v.Arr)%2 == 0 {
			var ps []string
			for i := 0; i < len(v.Arr); i += 2 {
				ps = append(ps, fmt.Sprintf("%q", []Val{v.Arr[i], v.Arr[i+1]}))
			}
			sort.Strings(ps)
			return strings.Join(ps, " ")
		}
	}
	if v.Kind == '-' {
		return "error"
	}
	return fmt.Sprintf("%c %q %d %v", v.Kind, v.Str, v.Int, v.Arr)
}

func allGroups(n int) map[string]int {
	gw := map[string]int{}
	for k := range groups {
		gw[k] = n
	}
	return gw
}

// ---- C11

func genQueries(g *Gen, i int) any {
	w := weigh(allGroups(3), map[string]int{"spop": -10, "sadd": 4, "zadd": 4, "hset": 4, "rpush": 4, "set": 4})
	h := newHG(g, w)
	h.noRand = true
	h.cross = pick(g, []float64{0.05, 0.2})
	base := h.history(g.between(5, 40), 1, 0, []string{"list", "hash", "set", "zset"})
	qw := map[string]int{}
	for n := range isQuery {
		qw[n] = 1
	}
	q := *h
	q.names, q.weights, q.total = nil, nil, 0
	for _, n := range sortedKeys(qw) {
		q.names, q.weights, q.total = append(q.names, n), append(q.weights, 1), q.total+1
	}
	q.cross = pick(g, []float64{0.1, 0.5})
	if g.chance(0.4) { // keys nothing else uses
		q.all = append(append([]string(nil), h.all...), "absent", "absent2")
	}
	var steps []Step
	rate := pick(g, []int{1, 2, 4})
	for _, st := range base {
		for k := g.Intn(2*rate + 1); k > 0; k-- {
			steps = append(steps, Step{A: q.next(), Q: true})
		}
		steps = append(steps, st)
	}
	for k := 8; k > 0; k-- {
		steps = append(steps, Step{A: q.next(), Q: true})
	}
	return &Hist{Conns: 1, Steps: steps}
}

func runQueries(e *Env, c any, o *Obs) *Failure {
	h := c.(*Hist)
	x, f := newSession(e, "default", 1, o) // without the queries
	if f != nil {
		return f
	}
	defer x.close()
	var want []string
	for _, st := range h.Steps {
		if st.Q {
			continue
		}
		rep, f := x.step(0, st.A)
		if f != nil {
			return f
		}
		want = append(want, canon(st.A, rep))
	}
	y, f := newSession(e, "default", 1, o)
	if f != nil {
		return f
	}
	defer y.close()
	i, queries := 0, 0
	for _, st := range h.Steps {
		rep, f := y.step(0, st.A)
		if f != nil {
			return f
		}
		if !st.Q {
			if got := canon(st.A, rep); got != want[i] {
				return y.fail(mismatch("%s replied %s, without the queries before it %s", showArgs(st.A), got, want[i]))
			}
			i++
			continue
		}
		rep2, f := y.step(0, st.A)
		if f != nil {
			return f
		}
		if a, b := canon(st.A, rep), canon(st.A, rep2); a != b {
			return y.fail(mismatch("%s replied %s, and then %s", showArgs(st.A), a, b))
		}
		if !isErr(rep) {
			queries++
		}
	}
	if f := x.finish(); f != nil {
		return f
	}
	if f := y.finish(); f != nil {
		return f
	}
	o.nontrivial = x.nets >= 3 && queries >= 5
	return nil
}

// ---- C12

// genIndependent draws a common beginning (class 0) and two histories on disjoint keys (1 and 2).
func genIndependent(g *Gen, i int) any {
	w := weigh(allGroups(3), map[string]int{"spop": -10, "keys": -10, "command": -10, "sadd": 5, "zadd": 5, "hset": 5, "rpush": 5, "set": 5, "smove": 3, "del": 2})
	n := g.between(2, 6)
	keys := g.keyAlphabet(2*n, pick(g, []float64{0, 0.3, 0.8}))
	for len(keys) < 2*n {
		keys = append(keys, fmt.Sprintf("x%d", len(keys)))
	}
	if g.chance(0.4) { // neighbours in different halves
		for j := 0; j < n; j++ {
			k := g.confusable(keys[j])
			dup := false
			for m, x := range keys {
				dup = dup || x == k && m != n+j
			}
			if !dup {
				keys[n+j] = k
			}
		}
	}
	both := newHG(g, w)
	both.noRand = true
	side := func(ks []string) *HG {
		h := *both
		h.all, h.keys = ks, map[string][]string{}
		for _, k := range kinds {
			h.keys[k] = g.subset(ks, g.between(1, len(ks)))
		}
		h.cross = 0.1
		return &h
	}
	var steps []Step
	if g.chance(0.6) {
		b := side(keys)
		for j := g.between(3, 15); j > 0; j-- {
			st := Step{A: b.next(), C: 0}
			if g.chance(0.3) {
				st.A = b.fill(pick(g, kinds), g.between(1, min(b.maxFill, 20)))
			}
			steps = append(steps, st)
		}
	}
	h1, h2 := side(keys[:n]), side(keys[n:])
	mains := []string{"list", "hash", "set", "zset"}
	a, b := h1.history(g.between(4, 30), 1, 0, mains), h2.history(g.between(4, 30), 1, 0, mains)
	if g.chance(0.1) { // very many other keys
		for j := 0; j < 300; j++ {
			b = append(b, Step{A: cmdline("set", fmt.Sprintf("many:%d", j), "x")})
		}
	}
	for len(a)+len(b) > 0 {
		if g.Intn(len(a)+len(b)) < len(a) {
			st := a[0]
			st.C, st.P = 1, false
			steps, a = append(steps, st), a[1:]
		} else {
			st := b[0]
			st.C, st.P = 2, false
			steps, b = append(steps, st), b[1:]
		}
	}
	return &Hist{Conns: 3, Steps: steps}
}

func runIndependent(e *Env, c any, o *Obs) *Failure {
	h := c.(*Hist)
	replies := func(skip int) (*session, []string, *Failure) {
		x, f := newSession(e, "default", 3, o)
		if f != nil {
			return nil, nil, f
		}
		out := make([]string, len(h.Steps))
		for i, st := range h.Steps {
			if st.C == skip {
				continue
			}
			rep, f := x.step(st.C, st.A)
			if f != nil {
				x.close()
				return nil, nil, f
			}
			out[i] = canon(st.A, rep)
		}
		return x, out, nil
	}
	x, all, f := replies(-1)
	if f != nil {
		return f
	}
	defer x.close()
	if f := x.finish(); f != nil {
		return f
	}
	for skip := 1; skip <= 2; skip++ {
		y, part, f := replies(skip)
		if f != nil {
			return f
		}
		y.close()
		for i, st := range h.Steps {
			if st.C != skip && part[i] != all[i] {
				return x.fail(mismatch("step %d, %s, replied %s; without the commands on other keys %s", i, showArgs(st.A), all[i], part[i]))
			}
		}
	}
	o.nontrivial = x.nets >= 6 && x.data >= 2
	return nil
}

// ---- C15

func genBytes(g *Gen, i int) any {
	w := weigh(map[string]int{"string": 8, "list": 4, "hash": 4, "set": 6, "alg": 2, "zset": 3, "keys": 2},
		map[string]int{"hincrby": -10, "hincrbyfloat": -10, "keys": -10, "lset": 4, "linsert": 4, "lrem": 4, "hsetnx": 4, "smove": 3, "zadd": 8, "zrank": 2, "zscore": 3, "hget": 4, "hexists": 2, "sismember": 4, "lindex": 2, "exists": 4})
	h := newHG(g, w)
	h.ascii, h.errP, h.maxFill = false, 0, 6
	limit := 3000
	n := g.between(10, 50)
	if g.chance(0.12) {
		limit, n = 400000, g.between(5, 14)
	}
	family := func(k int) []string {
		var out []string
		base := pick(g, append(append([]string(nil), oddVals...), plainKeys...))
		switch g.Intn(6) {
		case 0:
			base = g.bytes(g.bigSize(limit))
		case 1:
			base = g.bytes(g.between(1, 30))
		case 2:
			base = pick(g, oddKeys)
		case 3:
			base = pick(g, optWords)
		}
		out = append(out, base)
		seen := map[string]bool{base: true}
		for tries := 0; len(out) < k && tries < 50; tries++ {
			s := g.confusable(pick(g, out))
			if g.chance(0.15) {
				s = pick(g, oddVals)
			}
			if g.chance(0.1) {
				s = pick(g, optWords)
			}
			if len(s) <= limit && !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
		return out
	}
	h.all = family(g.between(2, 8))
	h.keys = map[string][]string{}
	for _, k := range kinds {
		h.keys[k] = g.subset(h.all, g.between(1, 4))
	}
	h.cross = 0.02
	h.vals, h.fields, h.members = family(g.between(2, 8)), family(g.between(2, 6)), family(g.between(2, 8))
	if g.chance(0.3) { // a score shared by all, so that only the members order them
		h.scores = []string{"1"}
	}
	steps := h.history(n, 1, 0.35, []string{"list", "hash", "set", "zset"})
	return &Hist{Conns: 1, Steps: steps}
}

// ---- C20

var commandNames = sortedKeys(minArgs)

func genNames(g *Gen, i int) any {
	name := commandNames[i%len(commandNames)]
	h := newHG(g, weigh(allGroups(1), nil))
	h.errP, h.cross = 0, 0.02
	var steps []Step
	for _, k := range kinds {
		steps = append(steps, Step{A: h.fill(k, g.between(2, min(6, h.maxFill+2)))})
	}
	spell := []string{name, strings.ToUpper(name), strings.ToUpper(name[:1]) + name[1:], name[:len(name)-1] + strings.ToUpper(name[len(name)-1:]), randCase(g, name), randCase(g, name)}
	for _, s := range spell {
		for k := g.between(1, 2); k > 0; k-- {
			steps = append(steps, Step{A: append([]B{B(s)}, bs(h.args(name))...), P: true})
		}
	}
	for n := 0; n < minArgs[name]; n++ {
		steps = append(steps, Step{A: append([]B{B(pick(g, spell))}, bs(h.args(name)[:n])...), P: true})
	}
	other := commandNames[g.Intn(len(commandNames))]
	unknown := []string{"", " ", name + " ", " " + name, name + "\x00", "\x00" + name, name + "\r\n", name + "x", "x" + name, name[1:], name[:len(name)-1], name + other, name + " " + other, name + name, "*", "nosuchcommand", "_" + name, name + "_", "implementedCommands", strings.Repeat(name, 500), g.confusable(name), g.confusable(other)}
	g.Shuffle(len(unknown), func(a, b int) { unknown[a], unknown[b] = unknown[b], unknown[a] })
	for _, u := range unknown[:g.between(4, 10)] {
		steps = append(steps, Step{A: append([]B{B(u)}, bs(h.args(name))...), P: g.chance(0.3)})
	}
	head := steps[:5]
	tail := steps[5:]
	if g.chance(0.7) {
		g.Shuffle(len(tail), func(a, b int) { tail[a], tail[b] = tail[b], tail[a] })
	}
	return &Hist{Conns: 1, Steps: append(head, tail...)}
}

func runNames(e *Env, c any, o *Obs) *Failure {
	h := c.(*Hist)
	x, f := newSession(e, "default", 1, o)
	if f != nil {
		return f
	}
	defer x.close()
	refused, known := 0, 0
	for _, st := range h.Steps {
		rep, f := x.step(0, st.A)
		if f != nil {
			return f
		}
		name := string(st.A[0])
		if _, ok := minArgs[strings.ToLower(name)]; !ok {
			refused++
			o.label("unknown name")
		} else if !isErr(rep) {
			known++
			if strings.ToLower(name) != name {
				o.label("name with capitals")
			}
		} else {
			o.label("refused")
		}
		if st.P {
			if f := x.sweepAll(0); f != nil {
				return f
			}
		}
	}
	if f := x.finish(); f != nil {
		return f
	}
	o.nontrivial = known >= 2 && refused >= 1
	return nil
}

// ---- C23

// preloaded are the contents of a debug server.
func preloaded(m *Model) {
	m.keys["list1"] = &Obj{kind: "list", list: []string{"1", "2", "3", "4", "5", "6"}}
	m.keys["key1"] = &Obj{kind: "string", str: "hello"}
	m.keys["key2"] = &Obj{kind: "string", str: "10"}
	m.keys["zset"] = &Obj{kind: "zset", zset: map[string]float64{"a": 1, "b": 2, "c": 3, "d": 4, "e": 5}}
}

func isPreloaded(k string) bool { return k == "list1" || k == "key1" || k == "key2" || k == "zset" }

func genDebug(g *Gen, i int) any {
	h := newHG(g, weigh(allGroups(2), map[string]int{"spop": -10}))
	h.noRand = true
	if g.chance(0.4) { // also commands on the preloaded keys, which only the debug server executes
		h.all = append(h.all, "list1", "key1", "key2", "zset")
		h.keys["list"] = append(h.keys["list"], "list1")
		h.keys["zset"] = append(h.keys["zset"], "zset")
		h.keys["string"] = append(h.keys["string"], "key1", "key2")
	}
	return &Hist{Conns: 1, Steps: h.history(g.between(3, 40), 1, 0.1, []string{"list", "hash", "set", "zset"})}
}

func runDebug(e *Env, c any, o *Obs) *Failure {
	h := c.(*Hist)
	x, f := newSession(e, "debug", 1, o)
	if f != nil {
		return f
	}
	defer x.close()
	preloaded(x.m)
	if f := x.sweepAll(0); f != nil { // at once after the start
		return f
	}
	y, f := newSession(e, "default", 1, o)
	if f != nil {
		return f
	}
	defer y.close()
	mixed := false
	for _, st := range h.Steps {
		rep, f := x.step(0, st.A)
		if f != nil {
			return f
		}
		pre := 0
		ks := keysOf(st.A)
		for _, k := range ks {
			if isPreloaded(k) {
				pre++
			}
		}
		if pre > 0 && pre == len(ks) {
			continue
		}
		mixed = mixed || pre > 0 // from here on the databases differ; the model still checks both
		rep2, f := y.step(0, st.A)
		if f != nil {
			f.Msg = "default build: " + f.Msg
			return f
		}
		if mixed || strings.EqualFold(string(st.A[0]), "keys") {
			continue // the model has compared it on both sides
		}
		if a, b := canon(st.A, rep), canon(st.A, rep2); a != b {
			return x.fail(mismatch("%s: the debug build replied %s, the default build %s", showArgs(st.A), a, b))
		}
	}
	for _, s := range []*session{x, y} {
		if f := s.finish(); f != nil {
			return f
		}
	}
	o.nontrivial = x.nets >= 3 && x.data >= 2
	return nil
}

func init() {
	register(&Prop{ID: "C11", Rule: "a case is a history with queries inserted at many points: it is executed without them on one server and with them (each twice in a row) on another, both against the model, and the common replies are compared; it is non-trivial if at least 3 commands changed the database and at least 5 inserted queries were answered without error; distinct by the text of the case",
		Quick: 3000, Thorough: 80000, Gen: genQueries, New: newHist, Run: runQueries, Shrink: shrinkHist})
	register(&Prop{ID: "C12", Rule: "a case is a common beginning and two histories on disjoint (often nearly equal) keys with an interleaving: it is executed interleaved on three connections, and with each history alone, all against the model, and the replies are compared step by step; it is non-trivial if at least 6 commands changed the database and at least 2 queries returned something; distinct by the text of the case",
		Quick: 3000, Thorough: 80000, Gen: genIndependent, New: newHist, Run: runIndependent, Shrink: shrinkHist})
	register(&Prop{ID: "C15", Rule: histRule + "; keys, values, fields and members come from families of nearly equal byte strings of all kinds and sizes up to 400 kB",
		Quick: 3500, Thorough: 80000, Gen: genBytes, New: newHist, Run: runHist("default"), Shrink: shrinkHist})
	register(&Prop{ID: "C20", Rule: "case i takes command i modulo their number: every spelling and every too small number of arguments for it, and names that are nearly its name, on a server with a key of each type, each reply compared to the model and the whole database compared after most; it is non-trivial if at least 2 calls were executed and one unknown name was refused; distinct by the text of the case",
		Quick: 2200, Thorough: 60000, Gen: genNames, New: newHist, Run: runNames, Shrink: shrinkHist})
	register(&Prop{ID: "C23", Rule: "a case is a history executed on a freshly started debug server, whose whole database is first compared with the documented contents, and on a default server, both against the model, and the replies to commands that do not name preloaded keys are compared; it is non-trivial if at least 3 commands changed the database and at least 2 queries returned something; distinct by the text of the case",
		Quick: 2500, Thorough: 60000, Gen: genDebug, New: newHist, Run: runDebug, Shrink: shrinkHist})
}
