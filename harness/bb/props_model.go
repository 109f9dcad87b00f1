package main

// C01 to C09: one data type each, against the model.

func histProp(id string, quick, thorough int, gen func(g *Gen, i int) any) {
	register(&Prop{ID: id, Rule: histRule, Quick: quick, Thorough: thorough, Gen: gen, New: newHist, Run: runHist("default"), Shrink: shrinkHist})
}

func init() {
	histProp("C01", 6000, 150000, histGen(weigh(map[string]int{"string": 20, "keys": 3},
		map[string]int{"incr": 2, "decrby": 2, "rpush": 3, "sadd": 3, "hset": 3, "zadd": 3, "lpop": 2, "srem": 2, "keys": -2}), nil, nil))
	histProp("C02", 6000, 150000, genCounters)
	histProp("C03", 6000, 150000, histGen(weigh(map[string]int{"list": 20, "keys": 1},
		map[string]int{"set": 1, "lrem": 10, "linsert": 6, "rpush": 6, "lpush": 6}), []string{"list"}, nil))
	histProp("C04", 6000, 150000, histGen(weigh(map[string]int{"hash": 20, "keys": 1},
		map[string]int{"set": 1, "hset": 10, "hdel": 6}), []string{"hash"}, nil))
	histProp("C05", 6000, 150000, histGen(weigh(map[string]int{"set": 20, "keys": 1},
		map[string]int{"set": 1, "sadd": 20, "smove": 10, "sunion": 2, "sinterstore": 2}), []string{"set"}, nil))
	histProp("C06", 6000, 150000, histGen(weigh(map[string]int{"set": 3, "alg": 12, "keys": 1},
		map[string]int{"set": 1, "rpush": 1, "sadd": 25, "srem": 5, "smembers": 6}), []string{"set", "set"}, func(h *HG) {
		h.keys["set"] = h.all
		if len(h.members) > 12 && h.chance(0.5) {
			h.members = h.members[:8]
		}
	}))
	histProp("C07", 5000, 120000, histGen(weigh(map[string]int{"keys": 1},
		map[string]int{"set": 1, "zadd": 40, "zincr": 20, "zrem": 16, "zpopmin": 8, "zpopmax": 8, "zscore": 10, "zcard": 4, "zrange": 2, "zrank": 2, "zcount": 2}), []string{"zset"}, nil))
	histProp("C08", 5000, 120000, histGen(weigh(map[string]int{},
		map[string]int{"set": 1, "del": 1, "zadd": 30, "zincr": 12, "zrem": 10, "zpopmin": 3, "zpopmax": 3, "zrange": 20, "zrevrange": 15, "zrank": 12, "zcount": 15, "zrangebyscore": 20}), []string{"zset"}, func(h *HG) {
		if h.chance(0.6) {
			h.keys["zset"] = h.all[:1]
			h.cross = 0.02
		}
	}))
	histProp("C09", 6000, 150000, histGen(weigh(map[string]int{"keys": 30},
		map[string]int{"set": 4, "mset": 4, "append": 3, "incr": 3, "decrby": 2, "get": 1, "rpush": 5, "lpush": 5, "lpop": 6, "rpop": 6, "lrem": 5, "linsert": 2, "lset": 2,
			"hset": 5, "hmset": 3, "hsetnx": 4, "hdel": 8, "hincrby": 3, "hincrbyfloat": 3, "sadd": 6, "srem": 6, "spop": 6, "smove": 8,
			"sunionstore": 4, "sinterstore": 5, "sdiffstore": 5, "zadd": 8, "zincr": 4, "zrem": 6, "zpopmin": 4, "zpopmax": 4}), []string{"list", "hash", "set", "zset"}, func(h *HG) {
		if h.chance(0.6) { // few elements, so that values empty often
			h.vals = h.vals[:min(2, len(h.vals))]
			h.fields = h.fields[:min(2, len(h.fields))]
			h.members = h.members[:min(2, len(h.members))]
		}
		if h.chance(0.5) {
			for _, k := range kinds {
				h.keys[k] = h.all
			}
		}
		if h.chance(0.15) { // many keys
			h.all = append(h.all, numbered("key:", 60)...)
			h.keys["string"], h.keys["set"] = h.all, h.all
		}
	}))
	register(&Prop{ID: "C10", Rule: "a case is a generated history on a fresh server with many commands that must fail (wrong type, missing, malformed, odd or out-of-range arguments), every reply compared to the model, all keys compared after some of the commands and at the end; it is non-trivial if at least 2 commands were refused while at least 2 keys existed; distinct by the text of the case",
		Quick: 5000, Thorough: 120000, Gen: genErrors, New: newHist, Run: runErrors, Shrink: shrinkHist})
}

// genCounters mixes counters at the limits of 64 bits with stored texts that are no integers.
func genCounters(g *Gen, i int) any {
	h := newHG(g, weigh(map[string]int{"count": 20}, map[string]int{"hincrby": 30, "get": 6, "hget": 8, "set": 12, "hset": 14, "del": 2, "append": 2, "mset": 1, "hdel": 2, "hincrbyfloat": 1, "rpush": 1, "hsetnx": 2}))
	h.vals = append(g.subset(intTexts, 4), g.subset(append(badInts, oddVals...), 3)...)
	if g.chance(0.5) {
		h.vals = intTexts
	}
	h.fields = h.fields[:min(3, len(h.fields))]
	h.cross, h.errP = 0.04, pick(g, []float64{0.02, 0.15})
	steps := h.history(g.between(5, 60), 1, 0.3, nil)
	return &Hist{Conns: 1, Steps: steps}
}

func genErrors(g *Gen, i int) any {
	gw := map[string]int{}
	for k := range groups {
		gw[k] = 2
	}
	gw["misc"] = 0
	h := newHG(g, weigh(gw, map[string]int{"del": -1, "smove": 4, "sunionstore": 2, "sinterstore": 2, "sdiffstore": 2, "mset": 3, "hset": 2, "zadd": 6, "linsert": 1}))
	h.cross, h.errP = pick(g, []float64{0.1, 0.4, 0.7}), pick(g, []float64{0.05, 0.2, 0.4})
	var steps []Step
	for _, k := range kinds {
		for j := g.between(1, 2); j > 0; j-- {
			steps = append(steps, Step{A: h.fill(k, g.between(1, min(h.maxFill, 10)))})
		}
	}
	steps = append(steps, h.history(g.between(5, 50), 1, 0.25, nil)...)
	return &Hist{Conns: 1, Steps: steps}
}

// runErrors looks at all keys after a command with P, not only at those it names.
func runErrors(e *Env, c any, o *Obs) *Failure {
	h := c.(*Hist)
	x, f := newSession(e, "default", 1, o)
	if f != nil {
		return f
	}
	defer x.close()
	refused := 0
	for _, st := range h.Steps {
		rep, f := x.step(0, st.A)
		if f != nil {
			return f
		}
		if isErr(rep) && len(x.m.keys) >= 2 {
			refused++
		}
		if st.P {
			if f := x.sweepAll(0); f != nil {
				return f
			}
		}
	}
	if f := x.finish(); f != nil {
		return f
	}
	o.nontrivial = refused >= 2
	return nil
}
