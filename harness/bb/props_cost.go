package main

// C28: what a command costs does not depend on how much other data there is.

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Cost compares what a probe costs on little and on much data.
type Cost struct {
	Probe   string `json:"probe"`
	Small   int    `json:"small"`
	Large   int    `json:"large"`
	Order   string `json:"order"`   // of names and scores: up, down, mixed, same
	Width   int    `json:"width"`   // of a name
	Ballast int    `json:"ballast"` // other keys
}

type costRun struct {
	*Cost
	on   string
	n    int
	wide string
}

// id is the name of the element j.
func (c *costRun) id(j int) string {
	switch c.Order {
	case "down":
		j = 1<<30 - j
	case "mixed":
		return fmt.Sprintf("%x%s", uint32(j)*2654435761, c.wide)
	}
	return fmt.Sprintf("e%d%s", j, c.wide)
}

func (c *costRun) score(j int) string {
	switch c.Order {
	case "down":
		return strconv.Itoa(-j)
	case "mixed":
		return strconv.Itoa(int(uint32(j) * 2654435761 % 100003))
	case "same":
		return "1"
	}
	return strconv.Itoa(j)
}

// batch makes commands with many arguments.
func (c *costRun) batch(name, key string, n int, f func(j int) []string) (out [][]B) {
	for i := 0; i < n; i += 400 {
		a := []string{name}
		if key != "" {
			a = append(a, key)
		}
		for j := i; j < min(n, i+400); j++ {
			a = append(a, f(j)...)
		}
		out = append(out, bs(a))
	}
	return out
}

func (c *costRun) one(j int) []string { return []string{c.id(j)} }

var costBuild = map[string]func(c *costRun) [][]B{
	"keys": func(c *costRun) [][]B {
		return c.batch("mset", "", c.n, func(j int) []string { return []string{c.id(j), "1"} })
	},
	"hash": func(c *costRun) [][]B {
		return c.batch("hset", "k", c.n, func(j int) []string { return []string{c.id(j), "1"} })
	},
	"set": func(c *costRun) [][]B { return c.batch("sadd", "k", c.n, c.one) },
	"zset": func(c *costRun) [][]B {
		return c.batch("zadd", "k", c.n, func(j int) []string { return []string{c.score(j), c.id(j)} })
	},
	"list":  func(c *costRun) [][]B { return c.batch("rpush", "k", c.n, c.one) },
	"llist": func(c *costRun) [][]B { return c.batch("lpush", "k", c.n, c.one) },
	"conns": func(c *costRun) [][]B { return nil },
	// a small set beside a large one
	"sets": func(c *costRun) [][]B {
		return append(c.batch("sadd", "k", c.n, c.one), bs(w("sadd", "small", "other", c.id(3), c.id(c.n/2))))
	},
	// many sets of one member
	"manysets": func(c *costRun) (out [][]B) {
		for j := 0; j < c.n; j++ {
			out = append(out, bs(w("sadd", c.id(j), "m"+c.id(j))))
		}
		return append(out, c.batch("sadd", "k", c.n, func(j int) []string { return w("m" + c.id(2*j)) })...)
	},
	"none": func(c *costRun) [][]B { return nil },
}

// costProbe is one command, or some which leave the data as it was.
type costProbe struct {
	on     string // what costBuild makes
	op     func(c *costRun, j int) [][]B
	linear bool // op is asked for once and is as large as the data
}

func cmds(xs ...[]string) (out [][]B) {
	for _, x := range xs {
		out = append(out, bs(x))
	}
	return out
}

func w(xs ...string) []string { return xs }

// at spreads j over the elements.
func (c *costRun) at(j int) int { return int(uint32(j)*2654435761) % c.n }

var costProbes = map[string]costProbe{
	// one key among many
	"get":       {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("get", c.id(c.at(j)))) }},
	"get-miss":  {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("get", "absent"+c.id(j))) }},
	"set":       {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("set", c.id(c.at(j)), "2")) }},
	"set-del":   {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("set", "new"+c.id(j), "2"), w("del", "new"+c.id(j))) }},
	"del-set":   {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("del", c.id(c.at(j))), w("set", c.id(c.at(j)), "1")) }},
	"incr":      {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("incr", c.id(c.at(j))), w("decrby", c.id(c.at(j)), "1")) }},
	"exists":    {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("exists", c.id(c.at(j)), "absent")) }},
	"type":      {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("type", c.id(c.at(j)))) }},
	"mget":      {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("mget", c.id(c.at(j)), "absent", c.id(c.at(j+1)))) }},
	"mset":      {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("mset", c.id(c.at(j)), "3", c.id(c.at(j+1)), "4")) }},
	"append":    {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("append", c.id(c.at(j)), "x")) }},
	"wrongtype": {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("lpush", c.id(c.at(j)), "x")) }},
	"unknown":   {on: "keys", op: func(c *costRun, j int) [][]B { return cmds(w("nosuch" + c.id(j))) }},
	"others": {on: "keys", op: func(c *costRun, j int) [][]B {
		return cmds(w("rpush", "x-list", "a"), w("lpop", "x-list"), w("hset", "x-hash", "a", "1"), w("hdel", "x-hash", "a"), w("sadd", "x-set", "a"), w("srem", "x-set", "a"), w("zadd", "x-zset", "1", "a"), w("zrem", "x-zset", "a"))
	}},
	"conns": {on: "conns", op: func(c *costRun, j int) [][]B { return cmds(w("set", "k", "x"), w("get", "k")) }},
	// hashes
	"hget":  {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hget", "k", c.id(c.at(j)))) }},
	"hmget": {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hmget", "k", c.id(c.at(j)), "absent")) }},
	"hset":  {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hset", "k", c.id(c.at(j)), "2")) }},
	"hset-del": {on: "hash", op: func(c *costRun, j int) [][]B {
		return cmds(w("hset", "k", "new"+c.id(j), "2"), w("hdel", "k", "new"+c.id(j)))
	}},
	"hdel-set": {on: "hash", op: func(c *costRun, j int) [][]B {
		return cmds(w("hdel", "k", c.id(c.at(j))), w("hset", "k", c.id(c.at(j)), "1"))
	}},
	"hexists": {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hexists", "k", c.id(c.at(j)))) }},
	"hlen":    {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hlen", "k")) }},
	"hincrby": {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hincrby", "k", c.id(c.at(j)), "1")) }},
	"hincrf": {on: "hash", op: func(c *costRun, j int) [][]B {
		return cmds(w("hset", "k", c.id(c.at(j)), "1.5"), w("hincrbyfloat", "k", c.id(c.at(j)), "0.5"))
	}},
	"hsetnx": {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("hsetnx", "k", c.id(c.at(j)), "1")) }},
	"h-type": {on: "hash", op: func(c *costRun, j int) [][]B { return cmds(w("type", "k"), w("exists", "k"), w("get", "k")) }},
	// lists
	"llen":        {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("llen", "k")) }},
	"rpush-rpop":  {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("rpush", "k", "x"), w("rpop", "k")) }},
	"lpush-lpop":  {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lpush", "k", "x"), w("lpop", "k", "1")) }},
	"rpush-lpop":  {on: "llist", op: func(c *costRun, j int) [][]B { return cmds(w("rpush", "k", "x"), w("lpop", "k")) }},
	"lpush-rpop":  {on: "llist", op: func(c *costRun, j int) [][]B { return cmds(w("lpush", "k", "x"), w("rpop", "k", "1")) }},
	"lindex-head": {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lindex", "k", strconv.Itoa(j%8))) }},
	"lindex-tail": {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lindex", "k", strconv.Itoa(-1-j%8))) }},
	"lindex-out": {on: "list", op: func(c *costRun, j int) [][]B {
		return cmds(w("lindex", "k", strconv.Itoa(c.n+j)), w("lindex", "k", strconv.Itoa(-c.n-1-j)))
	}},
	"lset-head":   {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lset", "k", strconv.Itoa(j%8), "x")) }},
	"lset-tail":   {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lset", "k", strconv.Itoa(-1-j%8), "x")) }},
	"lrange-head": {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lrange", "k", strconv.Itoa(j%5), "8")) }},
	"lrange-tail": {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lrange", "k", "-8", strconv.Itoa(-1-j%5))) }},
	"lrem-head":   {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("lpush", "k", "x"), w("lrem", "k", "1", "x")) }},
	"lrem-tail":   {on: "list", op: func(c *costRun, j int) [][]B { return cmds(w("rpush", "k", "x"), w("lrem", "k", "-1", "x")) }},
	"linsert": {on: "list", op: func(c *costRun, j int) [][]B {
		return cmds(w("lpush", "k", "pivot"), w("linsert", "k", "after", "pivot", "x"), w("lpop", "k", "2"))
	}},
	// sets
	"sismember": {on: "set", op: func(c *costRun, j int) [][]B {
		return cmds(w("sismember", "k", c.id(c.at(j))), w("sismember", "k", "absent"))
	}},
	"scard": {on: "set", op: func(c *costRun, j int) [][]B { return cmds(w("scard", "k")) }},
	"sadd-srem": {on: "set", op: func(c *costRun, j int) [][]B {
		return cmds(w("sadd", "k", "new"+c.id(j)), w("srem", "k", "new"+c.id(j)))
	}},
	"srem-sadd": {on: "set", op: func(c *costRun, j int) [][]B {
		return cmds(w("srem", "k", c.id(c.at(j))), w("sadd", "k", c.id(c.at(j))))
	}},
	"sadd-dup": {on: "set", op: func(c *costRun, j int) [][]B { return cmds(w("sadd", "k", c.id(c.at(j)))) }},
	"smove": {on: "set", op: func(c *costRun, j int) [][]B {
		return cmds(w("smove", "k", "to", c.id(c.at(j))), w("smove", "to", "k", c.id(c.at(j))))
	}},
	"sinter": {on: "sets", op: func(c *costRun, j int) [][]B {
		return cmds(w("sinter", "k", "small"), w("sinter", "small", "k", "k"), w("sinterstore", "to", "k", "small"))
	}},
	"sdiff": {on: "sets", op: func(c *costRun, j int) [][]B {
		return cmds(w("sdiff", "small", "k"), w("sdiffstore", "to", "small", "k"))
	}},
	"spop": {on: "set", op: func(c *costRun, j int) [][]B { return cmds(w("sadd", "k", "new"+c.id(j)), w("spop", "k")) }},
	// sorted sets
	"zscore": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zscore", "k", c.id(c.at(j))), w("zscore", "k", "absent"))
	}},
	"zcard": {on: "zset", op: func(c *costRun, j int) [][]B { return cmds(w("zcard", "k")) }},
	"zrank": {on: "zset", op: func(c *costRun, j int) [][]B { return cmds(w("zrank", "k", c.id(c.at(j)))) }},
	"zadd-zrem": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zadd", "k", c.score(c.at(j)), "new"+c.id(j)), w("zrem", "k", "new"+c.id(j)))
	}},
	"zrem-zadd": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zrem", "k", c.id(c.at(j))), w("zadd", "k", c.score(c.at(j)), c.id(c.at(j))))
	}},
	"zadd-up": {on: "zset", op: func(c *costRun, j int) [][]B { return cmds(w("zadd", "k", strconv.Itoa(2000000+j), c.id(c.at(j)))) }},
	"zadd-to": {on: "zset", op: func(c *costRun, j int) [][]B { return cmds(w("zadd", "k", c.score(c.at(j+7)), c.id(c.at(j)))) }},
	"zadd-same": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zadd", "k", "nx", "1", c.id(c.at(j))), w("zadd", "k", "xx", "1", "absent"))
	}},
	"zincr": {on: "zset", op: func(c *costRun, j int) [][]B { return cmds(w("zincr", "k", "3", c.id(c.at(j)))) }},
	"zcount": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zcount", "k", "-inf", c.score(c.at(j))), w("zcount", "k", "("+c.score(c.at(j)), "+inf"))
	}},
	"zrange": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zrange", "k", strconv.Itoa(c.at(j)), strconv.Itoa(c.at(j)+3)))
	}},
	"zrevrange": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zrevrange", "k", strconv.Itoa(c.at(j)), strconv.Itoa(c.at(j)+3), "withscores"))
	}},
	"zrangebys": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zadd", "k", "5000000", "a", "5000001", "b"), w("zrangebyscore", "k", "5000000", "5000002"), w("zrangebyscore", "k", "6000000", "7000000"))
	}},
	"zpopmin": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zadd", "k", c.score(c.n+j), "new"+c.id(j)), w("zpopmin", "k"))
	}},
	"zpopmax": {on: "zset", op: func(c *costRun, j int) [][]B {
		return cmds(w("zadd", "k", c.score(c.n+j), "new"+c.id(j)), w("zpopmax", "k", "1"))
	}},
	// as large as the data, or all of it away
	"all-keys":    {on: "keys", linear: true, op: func(c *costRun, j int) [][]B { return cmds(w("keys", "*")) }},
	"all-mget":    {on: "keys", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("mget", 1)) }},
	"all-exists":  {on: "keys", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("exists", 1)) }},
	"all-mset":    {on: "keys", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("mset", 2)) }},
	"all-del":     {on: "keys", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(c.all("del", 1)), c.build()...) }},
	"all-hgetall": {on: "hash", linear: true, op: func(c *costRun, j int) [][]B { return cmds(w("hgetall", "k"), w("hkeys", "k"), w("hvals", "k")) }},
	"all-hdel":    {on: "hash", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(c.all("hdel", 1)), c.build()...) }},
	"all-hmget":   {on: "hash", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("hmget", 1)) }},
	"all-lrange":  {on: "list", linear: true, op: func(c *costRun, j int) [][]B { return cmds(w("lrange", "k", "0", "-1")) }},
	"all-lpop":    {on: "list", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(w("lpop", "k", strconv.Itoa(c.n))), c.build()...) }},
	"all-rpush":   {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("rpush", 1), w("del", "k")) }},
	"all-lpush":   {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("lpush", 1), w("del", "k")) }},
	"all-sadd":    {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("sadd", 1), w("del", "k")) }},
	"all-hset":    {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("hset", 2), w("del", "k")) }},
	"all-hmset":   {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("hmset", 2), w("del", "k")) }},
	"all-zadd": {on: "none", linear: true, op: func(c *costRun, j int) [][]B {
		a := w("zadd", "k")
		for j := 0; j < c.n; j++ {
			a = append(a, c.score(j), c.id(j))
		}
		return cmds(a, w("del", "k"))
	}},
	"all-lrem": {on: "none", linear: true, op: func(c *costRun, j int) [][]B {
		return append(c.batch("lpush", "k", c.n, func(int) []string { return w("x") }), bs(w("lrem", "k", "0", "x")))
	}},
	"all-smembers": {on: "set", linear: true, op: func(c *costRun, j int) [][]B { return cmds(w("smembers", "k")) }},
	"all-srem":     {on: "set", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(c.all("srem", 1)), c.build()...) }},
	"all-spop":     {on: "set", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(w("spop", "k", strconv.Itoa(c.n))), c.build()...) }},
	"all-sinter": {on: "set", linear: true, op: func(c *costRun, j int) [][]B {
		return cmds(w("sinter", "k", "k"), w("sunion", "k", "k"), w("sdiff", "k", "k"), w("sunionstore", "to", "k"))
	}},
	"many-sunion": {on: "manysets", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("sunion", 1)) }},
	"many-sunst":  {on: "manysets", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("sunionstore", 1), w("del", "k")) }},
	"many-sdiff":  {on: "manysets", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("sdiff", 1)) }},
	"many-sdiffs": {on: "manysets", linear: true, op: func(c *costRun, j int) [][]B { return cmds(append(w("sdiffstore", "to"), c.all("sdiff", 1)[1:]...)) }},
	"many-sinter": {on: "manysets", linear: true, op: func(c *costRun, j int) [][]B { return cmds(c.all("sinter", 1)) }},
	"all-zrange": {on: "zset", linear: true, op: func(c *costRun, j int) [][]B {
		return cmds(w("zrange", "k", "0", "-1", "withscores"), w("zrevrange", "k", "0", "-1"), w("zrangebyscore", "k", "-inf", "+inf"))
	}},
	"all-zpopmin":   {on: "zset", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(w("zpopmin", "k", strconv.Itoa(c.n))), c.build()...) }},
	"all-zpopmax":   {on: "zset", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(w("zpopmax", "k", strconv.Itoa(c.n))), c.build()...) }},
	"all-zrem":      {on: "zset", linear: true, op: func(c *costRun, j int) [][]B { return append(cmds(c.all("zrem", 1)), c.build()...) }},
	"each-lpop":     {on: "list", linear: true, op: func(c *costRun, j int) [][]B { return append(c.each("lpop"), c.build()...) }},
	"each-spop":     {on: "set", linear: true, op: func(c *costRun, j int) [][]B { return append(c.each("spop"), c.build()...) }},
	"each-zpopmin":  {on: "zset", linear: true, op: func(c *costRun, j int) [][]B { return append(c.each("zpopmin"), c.build()...) }},
	"each-hdel":     {on: "hash", linear: true, op: func(c *costRun, j int) [][]B { return append(c.named("hdel"), c.build()...) }},
	"each-zrem":     {on: "zset", linear: true, op: func(c *costRun, j int) [][]B { return append(c.named("zrem"), c.build()...) }},
	"each-zadd":     {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return append(c.zadds(), bs(w("del", "k"))) }},
	"each-lrem":     {on: "list", linear: true, op: func(c *costRun, j int) [][]B { return append(c.lrems(), c.build()...) }},
	"pipeline":      {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return c.each("llen") }},
	"pipeline-bulk": {on: "none", linear: true, op: func(c *costRun, j int) [][]B { return c.named("get") }},
	"value": {on: "none", linear: true, op: func(c *costRun, j int) [][]B {
		return cmds(w("set", "k", strings.Repeat("v", 200*c.n)), w("get", "k"), w("type", "k"))
	}},
	"key": {on: "none", linear: true, op: func(c *costRun, j int) [][]B {
		k := strings.Repeat("k", 200*c.n)
		return cmds(w("set", k, "x"), w("get", k), w("del", k))
	}},
}

func (c *costRun) build() [][]B { return costBuild[c.on](c) }

// all names all elements in one command.
func (c *costRun) all(name string, width int) []string {
	a := []string{name}
	if c.on != "keys" {
		a = append(a, "k")
	}
	for j := 0; j < c.n; j++ {
		a = append(a, c.id(j))
		if width == 2 {
			a = append(a, "v")
		}
	}
	return a
}

func (c *costRun) each(name string) (out [][]B) {
	x := bs(w(name, "k"))
	for j := 0; j < c.n; j++ {
		out = append(out, x)
	}
	return out
}

func (c *costRun) named(name string) (out [][]B) {
	for j := 0; j < c.n; j++ {
		out = append(out, bs(w(name, "k", c.id(j))))
	}
	return out
}

func (c *costRun) zadds() (out [][]B) {
	for j := 0; j < c.n; j++ {
		out = append(out, bs(w("zadd", "k", c.score(j), c.id(j))))
	}
	return out
}

func (c *costRun) lrems() (out [][]B) {
	for j := 0; j < c.n; j++ {
		out = append(out, bs(w("lrem", "k", "1", c.id(j))))
	}
	return out
}

var costNames = func() (out []string) {
	for name := range costProbes {
		out = append(out, name)
	}
	slices.Sort(out)
	return out
}()

func genCost(g *Gen, i int) any {
	c := &Cost{Probe: costNames[i%len(costNames)]}
	c.Order = pick(g, []string{"up", "down", "mixed", "same"})
	c.Width = pick(g, []int{0, 0, 10, 60})
	if g.chance(0.2) {
		c.Ballast = 50000
	}
	c.Small = g.between(1000, 2000)
	c.Large = g.between(200, 300) * 1000
	if costProbes[c.Probe].on == "zset" {
		c.Large *= 2
	}
	if costProbes[c.Probe].linear {
		c.Small = g.between(400, 800)
		c.Large = g.between(60, 90) * 1000
	}
	return c
}

// cpuTime is the processor time a process has used, in seconds, or the time itself if that cannot be known.
func cpuTime(pid int) float64 {
	var ts syscall.Timespec
	clock := ^pid<<3 | 2
	if _, _, errno := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, uintptr(clock), uintptr(unsafe.Pointer(&ts)), 0); errno == 0 {
		return float64(ts.Nano()) / 1e9
	}
	noCPUClock.Store(true)
	return float64(time.Now().UnixNano()) / 1e9
}

var noCPUClock atomic.Bool

// measure is the least processor time of the server for one operation, or for one element of one that is as large as the data.
func (d *Cost) measure(e *Env, n int, o *Obs) (best float64, f *Failure) {
	p := costProbes[d.Probe]
	c := &costRun{Cost: d, on: p.on, n: n, wide: strings.Repeat("w", d.Width)}
	s := e.startServer("default", "GOGC=off", "GOMEMLIMIT=3GiB")
	defer s.kill()
	x, err := s.dial()
	if err != nil {
		return 0, (&Conn{s: s}).why(err)
	}
	defer x.close()
	pid := s.cmd.Process.Pid
	burst := func(cmds [][]B) *Failure {
		from := cpuTime(pid)
		for len(cmds) > 0 {
			if used := cpuTime(pid) - from; used > 5+100e-6*float64(n) {
				return mismatch("a part of %s, with %d elements, has taken %.1f s of processor time and is not at its end", d.Probe, n, used)
			}
			k := 0
			for args := 0; k < len(cmds) && args < 8000; k++ {
				args += len(cmds[k])
			}
			if strings.HasPrefix(d.Probe, "pipeline") {
				k = len(cmds)
			}
			var b []byte
			for _, a := range cmds[:k] {
				b = append(b, encodeReq(a)...)
			}
			sent := make(chan error, 1)
			go func() { sent <- x.send(b) }()
			for range cmds[:k] {
				if _, err := x.read(); err != nil {
					return x.why(err)
				}
			}
			if err := <-sent; err != nil {
				return x.why(err)
			}
			cmds = cmds[k:]
		}
		return nil
	}
	if p.on == "conns" { // which have nothing to say
		for k := 0; k < n/250; k++ {
			idle, err := s.dial()
			if err != nil {
				return 0, (&Conn{s: s}).why(err)
			}
			defer idle.close()
			if _, err := idle.do(cmdline("llen", "k")...); err != nil {
				return 0, idle.why(err)
			}
		}
	}
	if d.Ballast > 0 {
		f = burst(c.batch("mset", "", d.Ballast, func(j int) []string { return []string{fmt.Sprint("ballast:", j), "x"} }))
	}
	if f == nil {
		f = burst(c.build())
	}
	rounds, ops := 6, 1000
	if p.linear {
		rounds, ops = 3, max(1, 3000/n)
	}
	for r := 0; r < rounds && f == nil; r++ {
		from := cpuTime(pid)
		done := 0
		for done < ops && f == nil && cpuTime(pid)-from < 2 {
			var cs [][]B
			for k := min(20, ops-done); k > 0; k-- {
				cs = append(cs, p.op(c, r*ops+done)...)
				done++
			}
			f = burst(cs)
			o.actions += len(cs)
		}
		used := cpuTime(pid) - from
		cost := used / float64(done)
		if p.linear {
			cost /= float64(n)
		}
		if r == 0 || cost < best {
			best = cost
		}
		if used > 2 { // as good as infinite
			break
		}
	}
	return best, f
}

func runCost(e *Env, v any, o *Obs) *Failure {
	d := v.(*Cost)
	p, ok := costProbes[d.Probe]
	if !ok {
		harness("no probe %q", d.Probe)
	}
	floor, most := 20e-6, 300e-6
	if p.linear {
		floor, most = 3e-6, 15e-6
	}
	var small, large float64
	for try := 0; try < 3; try++ {
		a, f := d.measure(e, d.Small, o)
		if f != nil {
			return f
		}
		b, f := d.measure(e, d.Large, o)
		if f != nil {
			return f
		}
		if try == 0 {
			small, large = a, b
		}
		small, large = min(most, max(small, a)), min(large, b)
		if large <= 5*small+floor {
			break
		}
	}
	o.label("probe:" + d.Probe)
	o.label("order:" + d.Order)
	if large > 5*small+floor {
		unit := "each time"
		if p.linear {
			unit = "for each element"
		}
		return mismatch("%s takes %.1f µs of processor time %s with %d elements, and %.1f µs with %d", d.Probe, small*1e6, unit, d.Small, large*1e6, d.Large)
	}
	o.nontrivial = true
	return nil
}

func shrinkCost(v any) []any {
	d := v.(*Cost)
	var out []any
	with := func(f func(n *Cost)) {
		n := *d
		f(&n)
		out = append(out, &n)
	}
	if d.Ballast > 0 {
		with(func(n *Cost) { n.Ballast = 0 })
	}
	if d.Width > 0 {
		with(func(n *Cost) { n.Width = 0 })
	}
	if d.Order != "up" {
		with(func(n *Cost) { n.Order = "up" })
	}
	if d.Large > 40*d.Small {
		with(func(n *Cost) { n.Large /= 2 })
	}
	return out
}

func init() {
	register(&Prop{ID: "C28", Rule: "a case executes the operations of a probe (a command on one element, or commands as large as the data) on a fresh server with little and on another with much data, and compares the processor time the two servers need per operation (or per element); it is non-trivial if both were measured; distinct by the text of the case",
		Quick: 2 * len(costProbes), Thorough: 40 * len(costProbes), Gen: genCost, New: func() any { return &Cost{} }, Run: runCost, Shrink: shrinkCost, Tries: 1})
}
