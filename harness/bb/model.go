package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Model is the reference database: plain Go values, no sharing with the code under test.
// Apply takes a command and the reply observed for it, returns an error if the reply is not one
// the specification allows, and otherwise moves to the state after the command. Where the
// specification leaves a choice (which members SPOP takes) the reply resolves it.
type Model struct {
	keys map[string]*Obj
}

// Obj is the value of a key; kind is the TYPE name.
type Obj struct {
	kind string
	str  string
	list []string
	hash map[string]hval
	set  map[string]struct{}
	zset map[string]float64
	ord  []zm // the zset in order, once asked for and until it changes
}

// hval is a field value: its text, and whether the text was produced by HINCRBYFLOAT.
type hval struct {
	text  string
	float bool
}

func newModel() *Model { return &Model{keys: map[string]*Obj{}} }

func (o *Obj) clone() *Obj {
	c := &Obj{kind: o.kind, str: o.str}
	if o.list != nil {
		c.list = append([]string(nil), o.list...)
	}
	if o.hash != nil {
		c.hash = make(map[string]hval, len(o.hash))
		for k, v := range o.hash {
			c.hash[k] = v
		}
	}
	if o.set != nil {
		c.set = make(map[string]struct{}, len(o.set))
		for k := range o.set {
			c.set[k] = struct{}{}
		}
	}
	if o.zset != nil {
		c.zset = make(map[string]float64, len(o.zset))
		for k, v := range o.zset {
			c.zset[k] = v
		}
	}
	return c
}

func (m *Model) clone() *Model {
	c := newModel()
	for k, o := range m.keys {
		c.keys[k] = o.clone()
	}
	return c
}

// fingerprint is a canonical text of the whole state.
func (m *Model) fingerprint() string {
	var sb strings.Builder
	for _, k := range sortedKeys(m.keys) {
		o := m.keys[k]
		fmt.Fprintf(&sb, "%q=%s:", k, o.kind)
		switch o.kind {
		case "string":
			fmt.Fprintf(&sb, "%q", o.str)
		case "list":
			fmt.Fprintf(&sb, "%q", o.list)
		case "hash":
			for _, f := range sortedKeys(o.hash) {
				fmt.Fprintf(&sb, "%q:%q,%v;", f, o.hash[f].text, o.hash[f].float)
			}
		case "set":
			fmt.Fprintf(&sb, "%q", sortedKeys(o.set))
		case "zset":
			for _, f := range sortedKeys(o.zset) {
				fmt.Fprintf(&sb, "%q:%v;", f, o.zset[f])
			}
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Model) look(key, kind string) (o *Obj, wrong bool) {
	o = m.keys[key]
	if o == nil {
		return nil, false
	}
	if o.kind != kind {
		return nil, true
	}
	return o, false
}

func (m *Model) dropIfEmpty(key string) {
	o := m.keys[key]
	if o == nil {
		return
	}
	switch o.kind {
	case "list":
		if len(o.list) == 0 {
			delete(m.keys, key)
		}
	case "hash":
		if len(o.hash) == 0 {
			delete(m.keys, key)
		}
	case "set":
		if len(o.set) == 0 {
			delete(m.keys, key)
		}
	case "zset":
		if len(o.zset) == 0 {
			delete(m.keys, key)
		}
	}
}

// ---- reply predicates

func bad(rep Val, want string, a ...any) error {
	return fmt.Errorf("replied %v, want %s", rep, fmt.Sprintf(want, a...))
}

func wInt(rep Val, n int64) error {
	if rep.Kind != ':' || rep.Int != n {
		return bad(rep, "(integer) %d", n)
	}
	return nil
}

func wErr(rep Val) error {
	if rep.Kind != '-' {
		return bad(rep, "an error")
	}
	return nil
}

func wBulk(rep Val, s string) error {
	if rep.Kind != '$' || rep.Str != s {
		return bad(rep, "%s", show(s))
	}
	return nil
}

func wNil(rep Val) error {
	if rep.Kind != '_' {
		return bad(rep, "nil")
	}
	return nil
}

func wStatus(rep Val, s string) error {
	if rep.Kind != '+' || rep.Str != s {
		return bad(rep, "+%s", s)
	}
	return nil
}

func bulks(ss []string) Val {
	v := Val{Kind: '*'}
	for _, s := range ss {
		v.Arr = append(v.Arr, Val{Kind: '$', Str: s})
	}
	return v
}

func wArr(rep Val, ss []string) error {
	if rep.Kind == '*' && len(rep.Arr) == len(ss) {
		ok := true
		for i, e := range rep.Arr {
			if e.Kind != '$' || e.Str != ss[i] {
				ok = false
			}
		}
		if ok {
			return nil
		}
	}
	return bad(rep, "%v", bulks(ss))
}

// wBag wants the same elements in any order.
func wBag(rep Val, ss []string) error {
	if rep.Kind == '*' && len(rep.Arr) == len(ss) {
		cnt := map[string]int{}
		for _, s := range ss {
			cnt[s]++
		}
		ok := true
		for _, e := range rep.Arr {
			if e.Kind != '$' || cnt[e.Str] == 0 {
				ok = false
				break
			}
			cnt[e.Str]--
		}
		if ok {
			return nil
		}
	}
	return bad(rep, "%v in any order", bulks(ss))
}

func numText(s string, f float64) bool {
	g, err := strconv.ParseFloat(s, 64)
	return err == nil && g == f
}

// wScored wants members and scores alternating.
func wScored(rep Val, ms []zm, with bool) error {
	step := 1
	if with {
		step = 2
	}
	if rep.Kind == '*' && len(rep.Arr) == len(ms)*step {
		ok := true
		for i, m := range ms {
			e := rep.Arr[i*step]
			if e.Kind != '$' || e.Str != m.member {
				ok = false
			}
			if with {
				s := rep.Arr[i*step+1]
				if s.Kind != '$' || !numText(s.Str, m.score) {
					ok = false
				}
			}
		}
		if ok {
			return nil
		}
	}
	var want []string
	for _, m := range ms {
		want = append(want, m.member)
		if with {
			want = append(want, strconv.FormatFloat(m.score, 'g', -1, 64))
		}
	}
	return bad(rep, "%v", bulks(want))
}

type zm struct {
	member string
	score  float64
}

// ordered returns the members in rank order, which the caller must not change.
func (o *Obj) ordered() []zm {
	if o.ord != nil {
		return o.ord
	}
	ms := make([]zm, 0, len(o.zset))
	for k, s := range o.zset {
		ms = append(ms, zm{k, s})
	}
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].score != ms[j].score {
			return ms[i].score < ms[j].score
		}
		return ms[i].member < ms[j].member
	})
	o.ord = ms
	return ms
}

func (o *Obj) reversed() []zm {
	ms := slices.Clone(o.ordered())
	slices.Reverse(ms)
	return ms
}

// clip turns start and stop of a range command into a half-open interval of positions.
func clip(start, stop int64, n int) (int, int) {
	l := int64(n)
	if start < 0 {
		start += l
		if start < 0 {
			start = 0
		}
	}
	if stop < 0 {
		stop += l
	}
	if stop >= l {
		stop = l - 1
	}
	if start > stop {
		return 0, 0
	}
	return int(start), int(stop) + 1
}

type bound struct {
	v    float64
	open bool
}

func parseBound(s string) (bound, bool) {
	b := bound{}
	if strings.HasPrefix(s, "(") {
		b.open = true
		s = s[1:]
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return b, false
	}
	b.v = f
	return b, true
}

func (o *Obj) between(lo, hi bound) []zm {
	var res []zm
	for _, m := range o.ordered() {
		if m.score < lo.v || (lo.open && m.score == lo.v) || m.score > hi.v || (hi.open && m.score == hi.v) {
			continue
		}
		res = append(res, m)
	}
	return res
}

func i64(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func addExact(a, b int64) (int64, bool) {
	s := new(big.Int).Add(big.NewInt(a), big.NewInt(b))
	return s.Int64(), s.IsInt64()
}

func ss(args []B) []string {
	r := make([]string, len(args))
	for i, a := range args {
		r[i] = string(a)
	}
	return r
}

// minArgs is the number of arguments (without the name) every implemented command needs.
var minArgs = map[string]int{
	"set": 2, "mset": 2, "get": 1, "mget": 1, "incr": 1, "incrby": 2, "decr": 1, "decrby": 2, "append": 2,
	"lpush": 2, "rpush": 2, "lpop": 1, "rpop": 1, "llen": 1, "lrange": 3, "lrem": 3, "lindex": 2, "lset": 3, "linsert": 4,
	"hdel": 2, "hexists": 2, "hget": 2, "hgetall": 1, "hincrby": 3, "hincrbyfloat": 3, "hkeys": 1, "hlen": 1,
	"hmget": 2, "hmset": 3, "hset": 3, "hsetnx": 3, "hvals": 1,
	"sadd": 2, "scard": 1, "sdiff": 1, "sdiffstore": 2, "sinter": 1, "sinterstore": 2, "sunion": 1, "sunionstore": 2,
	"sismember": 2, "smembers": 1, "smove": 3, "srem": 2, "spop": 1,
	"zadd": 3, "zscore": 2, "zrank": 2, "zrem": 2, "zcard": 1, "zcount": 3, "zincr": 3, "zrange": 3,
	"zrangebyscore": 3, "zrevrange": 3, "zpopmin": 1, "zpopmax": 1,
	"keys": 1, "exists": 1, "del": 1, "type": 1, "ping": 0, "command": 0,
}

// Apply checks the reply and moves on. A reply that does not fit leaves the model unchanged.
func (m *Model) Apply(args []B, rep Val) error {
	if rep.Kind == 0 {
		return fmt.Errorf("no reply")
	}
	a := ss(args)
	name := strings.ToLower(a[0])
	a = a[1:]
	need, known := minArgs[name]
	if !known || len(a) < need {
		return wErr(rep)
	}
	switch name {
	case "ping":
		return wStatus(rep, "PONG")
	case "command":
		if isErr(rep) {
			return bad(rep, "any value that is not an error")
		}
		return nil
	}
	switch name[0] {
	case 'l', 'r':
		return m.applyList(name, a, rep)
	case 'h':
		return m.applyHash(name, a, rep)
	case 'z':
		if o := m.keys[a[0]]; o != nil && !isQuery[name] {
			defer func() { o.ord = nil }()
		}
		return m.applyZSet(name, a, rep)
	}
	if name[0] == 's' && name != "set" {
		return m.applySet(name, a, rep)
	}
	return m.applyStringOrKey(name, a, rep)
}

func (m *Model) setStr(k, v string) { m.keys[k] = &Obj{kind: "string", str: v} }

func (m *Model) applyStringOrKey(name string, a []string, rep Val) error {
	key := a[0]
	switch name {
	case "set":
		if err := wStatus(rep, "OK"); err != nil {
			return err
		}
		m.setStr(a[0], a[1])
		return nil
	case "mset":
		if len(a)%2 != 0 {
			return wErr(rep)
		}
		if err := wStatus(rep, "OK"); err != nil {
			return err
		}
		for i := 0; i < len(a); i += 2 {
			m.setStr(a[i], a[i+1])
		}
		return nil
	case "get":
		o, wrong := m.look(key, "string")
		switch {
		case wrong:
			return wErr(rep)
		case o == nil:
			return wNil(rep)
		}
		return wBulk(rep, o.str)
	case "mget":
		return wMaybe(rep, a, func(k string) (string, bool) {
			o, _ := m.look(k, "string")
			if o == nil {
				return "", false
			}
			return o.str, true
		})
	case "append":
		o, wrong := m.look(key, "string")
		if wrong {
			return wErr(rep)
		}
		s := a[1]
		if o != nil {
			s = o.str + s
		}
		if err := wInt(rep, int64(len(s))); err != nil {
			return err
		}
		m.setStr(key, s)
		return nil
	case "incr", "decr", "incrby", "decrby":
		delta := big.NewInt(1)
		if strings.HasSuffix(name, "by") {
			n, ok := i64(a[1])
			if !ok {
				return wErr(rep)
			}
			delta = big.NewInt(n)
		}
		smallest := delta.Cmp(big.NewInt(math.MinInt64)) == 0
		if name[0] == 'd' {
			delta.Neg(delta)
		}
		o, wrong := m.look(key, "string")
		if wrong {
			return wErr(rep)
		}
		cur := int64(0)
		if o != nil {
			n, ok := i64(o.str)
			if !ok {
				return wErr(rep)
			}
			cur = n
		}
		sum := new(big.Int).Add(big.NewInt(cur), delta)
		if !sum.IsInt64() {
			return wErr(rep)
		}
		if name == "decrby" && smallest && isErr(rep) {
			return nil // the amount has no 64-bit negation: refusing it is allowed
		}
		if err := wInt(rep, sum.Int64()); err != nil {
			return err
		}
		m.setStr(key, sum.String())
		return nil
	case "exists", "del":
		n := int64(0)
		seen := map[string]bool{}
		for _, k := range a {
			if m.keys[k] != nil && !(name == "del" && seen[k]) {
				n++
			}
			seen[k] = true
		}
		if err := wInt(rep, n); err != nil {
			return err
		}
		if name == "del" {
			for _, k := range a {
				delete(m.keys, k)
			}
		}
		return nil
	case "type":
		t := "none"
		if o := m.keys[key]; o != nil {
			t = o.kind
		}
		return wStatus(rep, t)
	case "keys":
		if !simplePattern(key) {
			return nil // other patterns are not specified
		}
		var want []string
		for k := range m.keys {
			if globMatch(key, k) {
				want = append(want, k)
			}
		}
		return wBag(rep, want)
	}
	return fmt.Errorf("model: command %s", name)
}

// wMaybe wants one element for each of ks, nil where f has none.
func wMaybe(rep Val, ks []string, f func(string) (string, bool)) error {
	ok := rep.Kind == '*' && len(rep.Arr) == len(ks)
	want := Val{Kind: '*'}
	for i, k := range ks {
		w := Val{Kind: '_'}
		if s, has := f(k); has {
			w = Val{Kind: '$', Str: s}
		}
		want.Arr = append(want.Arr, w)
		if ok && (rep.Arr[i].Kind != w.Kind || rep.Arr[i].Str != w.Str) {
			ok = false
		}
	}
	if !ok {
		return bad(rep, "%v", want)
	}
	return nil
}

// simplePattern tells whether the pattern has only literal characters (not parts of characters), * and ?,
// a backslash before a special character, classes of letters and digits or one range of them, with or without
// a ! before them, and alternatives of such characters, * and ?.
func simplePattern(p string) bool {
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '{':
			n := strings.IndexByte(p[i:], '}')
			if n < 0 || !simpleAlternatives(p[i+1:i+n]) {
				return false
			}
			i += n
		case 0:
			if strings.ContainsAny(p, `[{\`) {
				return false // the parser of the other patterns ends at a NUL
			}
		case '\\':
			i++
			if i == len(p) || strings.IndexByte(`*?[]{}\`, p[i]) < 0 {
				return false
			}
		case '[':
			n := strings.IndexByte(p[i:], ']')
			if n < 0 || !simpleClass(p[i+1:i+n]) {
				return false
			}
			i += n
		}
	}
	return utf8.ValidString(p)
}

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// simpleAlternatives tells whether s is like ab,c*,?d.
func simpleAlternatives(s string) bool {
	for _, alt := range strings.Split(s, ",") {
		for i := range alt {
			if !alnum(alt[i]) && strings.IndexByte("*?_:", alt[i]) < 0 {
				return false
			}
		}
		if alt == "" {
			return false
		}
	}
	return true
}

// simpleClass tells whether c is like abc or a-c, or !abc or !a-c.
func simpleClass(c string) bool {
	c = strings.TrimPrefix(c, "!")
	if len(c) == 3 && c[1] == '-' {
		return alnum(c[0]) && alnum(c[2]) && c[0] <= c[2]
	}
	for i := range c {
		if !alnum(c[i]) {
			return false
		}
	}
	return c != ""
}

func globMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if s == "" && p[0] != '{' {
		return false
	}
	switch p[0] {
	case '?':
		_, n := utf8.DecodeRuneInString(s)
		return globMatch(p[1:], s[n:])
	case '\\':
		p = p[1:]
	case '[':
		n := strings.IndexByte(p, ']')
		class, not := strings.CutPrefix(p[1:n], "!")
		in := strings.IndexByte(class, s[0]) >= 0
		if len(class) == 3 && class[1] == '-' {
			in = class[0] <= s[0] && s[0] <= class[2]
		}
		_, size := utf8.DecodeRuneInString(s)
		return in != not && globMatch(p[n+1:], s[size:])
	case '{':
		n := strings.IndexByte(p, '}')
		for _, alt := range strings.Split(p[1:n], ",") {
			if globMatch(alt+p[n+1:], s) {
				return true
			}
		}
		return false
	}
	return p[0] == s[0] && globMatch(p[1:], s[1:])
}

func rev(l []string) []string {
	r := make([]string, len(l))
	for i, s := range l {
		r[len(l)-1-i] = s
	}
	return r
}

func (m *Model) applyList(name string, a []string, rep Val) error {
	key := a[0]
	o, wrong := m.look(key, "list")
	var l []string
	if o != nil {
		l = o.list
	}
	store := func(l []string) {
		if len(l) == 0 {
			delete(m.keys, key)
			return
		}
		m.keys[key] = &Obj{kind: "list", list: l}
	}
	left := name[0] == 'l'
	switch name {
	case "lpush", "rpush":
		if wrong {
			return wErr(rep)
		}
		if err := wInt(rep, int64(len(l)+len(a)-1)); err != nil {
			return err
		}
		n := append([]string(nil), l...)
		if left {
			n = append(rev(a[1:]), n...)
		} else {
			n = append(n, a[1:]...)
		}
		store(n)
		return nil
	case "lpop", "rpop":
		count := int64(1)
		if len(a) > 1 {
			c, ok := i64(a[1])
			if !ok || c < 0 {
				return wErr(rep)
			}
			if c == 0 && !wrong && (isErr(rep) || rep.Kind == '*' && len(rep.Arr) == 0 || rep.Kind == '_' || rep.Kind == '~') {
				return nil // count 0 removes nothing; refusing it is allowed
			}
			count = c
		}
		if wrong {
			return wErr(rep)
		}
		if o == nil {
			if len(a) > 1 && (rep.Kind == '~' || rep.Kind == '*' && len(rep.Arr) == 0) {
				return nil
			}
			return wNil(rep)
		}
		if !left {
			l = rev(l)
		}
		n := int(min(count, int64(len(l))))
		if len(a) > 1 {
			if err := wArr(rep, l[:n]); err != nil {
				return err
			}
		} else if err := wBulk(rep, l[0]); err != nil {
			return err
		}
		rest := append([]string(nil), l[n:]...)
		if !left {
			rest = rev(rest)
		}
		store(rest)
		return nil
	case "llen":
		if wrong {
			return wErr(rep)
		}
		return wInt(rep, int64(len(l)))
	case "lrange":
		start, ok1 := i64(a[1])
		stop, ok2 := i64(a[2])
		if !ok1 || !ok2 || wrong {
			return wErr(rep)
		}
		i, j := clip(start, stop, len(l))
		return wArr(rep, l[i:j])
	case "lindex":
		i, ok := i64(a[1])
		if !ok || wrong {
			return wErr(rep)
		}
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return wNil(rep)
		}
		return wBulk(rep, l[i])
	case "lset":
		i, ok := i64(a[1])
		if !ok || wrong {
			return wErr(rep)
		}
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return wErr(rep)
		}
		if err := wStatus(rep, "OK"); err != nil {
			return err
		}
		n := append([]string(nil), l...)
		n[i] = a[2]
		store(n)
		return nil
	case "linsert":
		where := strings.ToLower(a[1])
		if where != "before" && where != "after" || wrong {
			return wErr(rep)
		}
		if o == nil {
			return wInt(rep, 0)
		}
		for i, s := range l {
			if s != a[2] {
				continue
			}
			if err := wInt(rep, int64(len(l)+1)); err != nil {
				return err
			}
			if where == "after" {
				i++
			}
			n := append([]string(nil), l[:i]...)
			n = append(n, a[3])
			store(append(n, l[i:]...))
			return nil
		}
		return wInt(rep, -1)
	case "lrem":
		c, ok := i64(a[1])
		if !ok || wrong {
			return wErr(rep)
		}
		if c == math.MinInt64 && isErr(rep) {
			return nil // has no positive counterpart: refusing it is allowed
		}
		n := append([]string(nil), l...)
		limit := uint64(len(n))
		if c > 0 {
			limit = uint64(c)
		}
		if c < 0 {
			n = rev(n)
			limit = uint64(-c) // also right for the smallest integer
		}
		var keep []string
		removed := uint64(0)
		for _, s := range n {
			if s == a[2] && removed < limit {
				removed++
				continue
			}
			keep = append(keep, s)
		}
		if err := wInt(rep, int64(removed)); err != nil {
			return err
		}
		if c < 0 {
			keep = rev(keep)
		}
		store(keep)
		return nil
	}
	return fmt.Errorf("model: command %s", name)
}

func finite(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil && !math.IsInf(f, 0) && !math.IsNaN(f)
}

func (m *Model) applyHash(name string, a []string, rep Val) error {
	key := a[0]
	o, wrong := m.look(key, "hash")
	h := map[string]hval{}
	if o != nil {
		h = o.hash
	}
	write := func(kv ...string) {
		if o == nil {
			o = &Obj{kind: "hash", hash: map[string]hval{}}
			m.keys[key] = o
		}
		for i := 0; i < len(kv); i += 2 {
			o.hash[kv[i]] = hval{text: kv[i+1]}
		}
	}
	has := func(f string) bool { _, ok := h[f]; return ok }
	switch name {
	case "hset", "hmset":
		if len(a)%2 == 0 || wrong {
			return wErr(rep)
		}
		if name == "hmset" {
			if err := wStatus(rep, "OK"); err != nil {
				return err
			}
		} else {
			added := map[string]bool{}
			for i := 1; i < len(a); i += 2 {
				if !has(a[i]) {
					added[a[i]] = true
				}
			}
			if err := wInt(rep, int64(len(added))); err != nil {
				return err
			}
		}
		write(a[1:]...)
		return nil
	case "hsetnx":
		if wrong {
			return wErr(rep)
		}
		if has(a[1]) {
			return wInt(rep, 0)
		}
		if err := wInt(rep, 1); err != nil {
			return err
		}
		write(a[1], a[2])
		return nil
	case "hdel":
		if wrong {
			return wErr(rep)
		}
		gone := map[string]bool{}
		for _, f := range a[1:] {
			if has(f) {
				gone[f] = true
			}
		}
		if err := wInt(rep, int64(len(gone))); err != nil {
			return err
		}
		for f := range gone {
			delete(h, f)
		}
		m.dropIfEmpty(key)
		return nil
	case "hexists":
		if wrong {
			return wErr(rep)
		}
		if has(a[1]) {
			return wInt(rep, 1)
		}
		return wInt(rep, 0)
	case "hget":
		if wrong {
			return wErr(rep)
		}
		if !has(a[1]) {
			return wNil(rep)
		}
		return wBulk(rep, h[a[1]].text)
	case "hmget":
		if wrong {
			return wErr(rep)
		}
		return wMaybe(rep, a[1:], func(f string) (string, bool) { return h[f].text, has(f) })
	case "hlen":
		if wrong {
			return wErr(rep)
		}
		return wInt(rep, int64(len(h)))
	case "hkeys":
		if wrong {
			return wErr(rep)
		}
		return wBag(rep, sortedKeys(h))
	case "hvals":
		if wrong {
			return wErr(rep)
		}
		var vs []string
		for _, v := range h {
			vs = append(vs, v.text)
		}
		return wBag(rep, vs)
	case "hgetall":
		if wrong {
			return wErr(rep)
		}
		return wPairs(rep, h)
	case "hincrby":
		n, ok := i64(a[2])
		if !ok || wrong {
			return wErr(rep)
		}
		cur := int64(0)
		if has(a[1]) {
			c, ok := i64(h[a[1]].text)
			if !ok {
				return wErr(rep)
			}
			cur = c
		}
		sum, ok := addExact(cur, n)
		if !ok {
			return wErr(rep)
		}
		if h[a[1]].float && isErr(rep) {
			return nil // a floating-point sum that happens to be integral
		}
		if err := wInt(rep, sum); err != nil {
			return err
		}
		write(a[1], strconv.FormatInt(sum, 10))
		return nil
	case "hincrbyfloat":
		f, ok := finite(a[2])
		if !ok || wrong {
			return wErr(rep)
		}
		cur, integral := 0.0, false
		if has(a[1]) {
			c, ok := finite(h[a[1]].text)
			if !ok {
				return wErr(rep)
			}
			cur = c
			if _, isInt := i64(h[a[1]].text); isInt && !h[a[1]].float {
				integral = true
			}
		}
		sum := cur + f
		if math.IsInf(sum, 0) {
			return wErr(rep)
		}
		if integral && isErr(rep) {
			return nil // only fields holding a floating-point number are promised to be incremented
		}
		if rep.Kind != '$' || !numText(rep.Str, sum) {
			return bad(rep, "%v as a bulk string", sum)
		}
		write(a[1], rep.Str)
		o.hash[a[1]] = hval{text: rep.Str, float: true}
		return nil
	}
	return fmt.Errorf("model: command %s", name)
}

func wPairs(rep Val, h map[string]hval) error {
	ok := rep.Kind == '*' && len(rep.Arr) == 2*len(h)
	if ok {
		seen := map[string]bool{}
		for i := 0; i < len(rep.Arr); i += 2 {
			f, v := rep.Arr[i], rep.Arr[i+1]
			w, has := h[f.Str]
			if f.Kind != '$' || v.Kind != '$' || !has || seen[f.Str] || v.Str != w.text {
				ok = false
			}
			seen[f.Str] = true
		}
	}
	if !ok {
		var want []string
		for _, f := range sortedKeys(h) {
			want = append(want, f, h[f].text)
		}
		return bad(rep, "the pairs %v", bulks(want))
	}
	return nil
}

func (m *Model) applySet(name string, a []string, rep Val) error {
	key := a[0]
	o, wrong := m.look(key, "set")
	s := map[string]struct{}{}
	if o != nil {
		s = o.set
	}
	has := func(x string) bool { _, ok := s[x]; return ok }
	switch name {
	case "sadd":
		if wrong {
			return wErr(rep)
		}
		added := map[string]bool{}
		for _, x := range a[1:] {
			if !has(x) {
				added[x] = true
			}
		}
		if err := wInt(rep, int64(len(added))); err != nil {
			return err
		}
		if o == nil {
			m.keys[key] = &Obj{kind: "set", set: s}
		}
		for x := range added {
			s[x] = struct{}{}
		}
		return nil
	case "srem":
		if wrong {
			return wErr(rep)
		}
		gone := map[string]bool{}
		for _, x := range a[1:] {
			if has(x) {
				gone[x] = true
			}
		}
		if err := wInt(rep, int64(len(gone))); err != nil {
			return err
		}
		for x := range gone {
			delete(s, x)
		}
		m.dropIfEmpty(key)
		return nil
	case "scard":
		if wrong {
			return wErr(rep)
		}
		return wInt(rep, int64(len(s)))
	case "sismember":
		if wrong {
			return wErr(rep)
		}
		if has(a[1]) {
			return wInt(rep, 1)
		}
		return wInt(rep, 0)
	case "smembers":
		if wrong {
			return wErr(rep)
		}
		return wBag(rep, sortedKeys(s))
	case "spop":
		single := len(a) == 1
		count := int64(1)
		if !single {
			c, ok := i64(a[1])
			if !ok {
				return wErr(rep)
			}
			count = c
		}
		if wrong {
			return wErr(rep)
		}
		if count < 0 {
			if isErr(rep) {
				return nil
			}
			count = 0
		}
		if o == nil {
			if single {
				return wNil(rep)
			}
			if rep.Kind == '_' || rep.Kind == '~' {
				return nil
			}
			return wArr(rep, nil)
		}
		var popped []string
		if single {
			if rep.Kind != '$' {
				return bad(rep, "one member as a bulk string")
			}
			popped = []string{rep.Str}
		} else {
			n := min(count, int64(len(s)))
			if rep.Kind != '*' || int64(len(rep.Arr)) != n {
				return bad(rep, "%d distinct members", n)
			}
			for _, e := range rep.Arr {
				if e.Kind != '$' {
					return bad(rep, "%d distinct members", n)
				}
				popped = append(popped, e.Str)
			}
		}
		seen := map[string]bool{}
		for _, x := range popped {
			if !has(x) || seen[x] {
				return bad(rep, "distinct members of %v", bulks(sortedKeys(s)))
			}
			seen[x] = true
		}
		for x := range seen {
			delete(s, x)
		}
		m.dropIfEmpty(key)
		return nil
	case "smove":
		if wrong {
			return wErr(rep)
		}
		_, wrong2 := m.look(a[1], "set")
		if wrong2 {
			if o == nil && rep.Kind == ':' && rep.Int == 0 {
				return nil // nothing to move; either answer will do
			}
			return wErr(rep)
		}
		if !has(a[2]) {
			return wInt(rep, 0)
		}
		if err := wInt(rep, 1); err != nil {
			return err
		}
		if a[0] == a[1] {
			return nil
		}
		delete(s, a[2])
		m.dropIfEmpty(key)
		t := m.keys[a[1]]
		if t == nil {
			t = &Obj{kind: "set", set: map[string]struct{}{}}
			m.keys[a[1]] = t
		}
		t.set[a[2]] = struct{}{}
		return nil
	}

	// algebra
	store := strings.HasSuffix(name, "store")
	ops := a
	if store {
		ops = a[1:]
	}
	var sets []map[string]struct{}
	for _, k := range ops {
		so, w := m.look(k, "set")
		if w {
			return wErr(rep)
		}
		if so == nil {
			sets = append(sets, nil)
		} else {
			sets = append(sets, so.set)
		}
	}
	res := map[string]struct{}{}
	in := func(s map[string]struct{}, x string) bool { _, ok := s[x]; return ok }
	switch strings.TrimSuffix(name, "store") {
	case "sunion":
		for _, s := range sets {
			for x := range s {
				res[x] = struct{}{}
			}
		}
	case "sinter", "sdiff":
		want := name[1] == 'i'
		for x := range sets[0] {
			keep := true
			for _, s := range sets[1:] {
				if in(s, x) != want {
					keep = false
				}
			}
			if keep {
				res[x] = struct{}{}
			}
		}
	default:
		return fmt.Errorf("model: command %s", name)
	}
	if !store {
		return wBag(rep, sortedKeys(res))
	}
	if err := wInt(rep, int64(len(res))); err != nil {
		return err
	}
	m.keys[a[0]] = &Obj{kind: "set", set: res}
	m.dropIfEmpty(a[0])
	return nil
}

func (m *Model) applyZSet(name string, a []string, rep Val) error {
	key := a[0]
	o, wrong := m.look(key, "zset")
	z := map[string]float64{}
	if o != nil {
		z = o.zset
	}
	has := func(x string) bool { _, ok := z[x]; return ok }
	score := func(s string) (float64, bool) {
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil && !math.IsNaN(f)
	}
	switch name {
	case "zadd":
		nx, xx, incr := false, false, false
		i := 1
	flags:
		for ; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "incr":
				incr = true
			default:
				break flags
			}
		}
		pairs := a[i:]
		if len(pairs) == 0 || len(pairs)%2 != 0 || wrong {
			return wErr(rep)
		}
		next := map[string]float64{}
		for k, v := range z {
			next[k] = v
		}
		nan := false
		for i := 0; i < len(pairs); i += 2 {
			f, ok := score(pairs[i])
			if !ok {
				return wErr(rep)
			}
			cur, exists := next[pairs[i+1]]
			if incr && exists && math.IsNaN(cur+f) {
				nan = true
			}
			if exists && nx || !exists && xx {
				continue
			}
			if incr && exists {
				f += cur
			}
			next[pairs[i+1]] = f
		}
		if nan && isErr(rep) || incr && len(pairs) > 2 && isErr(rep) {
			return nil // INCR of several members may be refused
		}
		for _, f := range next {
			if math.IsNaN(f) {
				return wErr(rep)
			}
		}
		if nx && xx && isErr(rep) {
			return nil
		}
		if incr {
			// the reply of ZADD INCR is not specified here, its effect is
			if isErr(rep) {
				return bad(rep, "a reply that is not an error")
			}
		} else if err := wInt(rep, int64(len(next)-len(z))); err != nil {
			return err
		}
		if len(next) > 0 {
			m.keys[key] = &Obj{kind: "zset", zset: next}
		}
		return nil
	case "zincr":
		f, ok := score(a[1])
		if !ok || wrong {
			return wErr(rep)
		}
		sum := z[a[2]] + f
		if math.IsNaN(sum) {
			return wErr(rep)
		}
		if rep.Kind != '$' || !numText(rep.Str, sum) {
			return bad(rep, "%v as a bulk string", sum)
		}
		if o == nil {
			m.keys[key] = &Obj{kind: "zset", zset: z}
		}
		z[a[2]] = sum
		return nil
	case "zscore":
		if wrong {
			return wErr(rep)
		}
		if !has(a[1]) {
			return wNil(rep)
		}
		if rep.Kind != '$' || !numText(rep.Str, z[a[1]]) {
			return bad(rep, "%v as a bulk string", z[a[1]])
		}
		return nil
	case "zcard":
		if wrong {
			return wErr(rep)
		}
		return wInt(rep, int64(len(z)))
	case "zrem":
		if wrong {
			return wErr(rep)
		}
		gone := map[string]bool{}
		for _, x := range a[1:] {
			if has(x) {
				gone[x] = true
			}
		}
		if err := wInt(rep, int64(len(gone))); err != nil {
			return err
		}
		for x := range gone {
			delete(z, x)
		}
		m.dropIfEmpty(key)
		return nil
	case "zpopmin", "zpopmax":
		count := int64(1)
		if len(a) > 1 {
			c, ok := i64(a[1])
			if !ok {
				return wErr(rep)
			}
			count = c
		}
		if wrong {
			return wErr(rep)
		}
		if count < 0 {
			if isErr(rep) {
				return nil
			}
			count = 0
		}
		var ms []zm
		if o != nil && name == "zpopmax" {
			ms = o.reversed()
		} else if o != nil {
			ms = o.ordered()
		}
		ms = ms[:min(count, int64(len(ms)))]
		if err := wScored(rep, ms, true); err != nil {
			return err
		}
		for _, x := range ms {
			delete(z, x.member)
		}
		m.dropIfEmpty(key)
		return nil
	case "zrank":
		if wrong {
			return wErr(rep)
		}
		if !has(a[1]) {
			return wNil(rep)
		}
		for i, x := range o.ordered() {
			if x.member == a[1] {
				return wInt(rep, int64(i))
			}
		}
	case "zcount", "zrangebyscore":
		lo, ok1 := parseBound(a[1])
		hi, ok2 := parseBound(a[2])
		if wrong {
			return wErr(rep)
		}
		if !ok1 || !ok2 {
			return wErr(rep)
		}
		var ms []zm
		if o != nil {
			ms = o.between(lo, hi)
		}
		if name == "zcount" {
			return wInt(rep, int64(len(ms)))
		}
		return wScored(rep, ms, hasOpt(a[3:], "withscores"))
	case "zrange", "zrevrange":
		if wrong {
			return wErr(rep)
		}
		with := hasOpt(a[3:], "withscores")
		var ms []zm
		if name == "zrange" && hasOpt(a[3:], "byscore") {
			lo, ok1 := parseBound(a[1])
			hi, ok2 := parseBound(a[2])
			if !ok1 || !ok2 {
				return wErr(rep)
			}
			if o != nil {
				ms = o.between(lo, hi)
			}
			return wScored(rep, ms, with)
		}
		start, ok1 := i64(a[1])
		stop, ok2 := i64(a[2])
		if !ok1 || !ok2 {
			return wErr(rep)
		}
		if o != nil && name == "zrevrange" {
			ms = o.reversed()
		} else if o != nil {
			ms = o.ordered()
		}
		i, j := clip(start, stop, len(ms))
		return wScored(rep, ms[i:j], with)
	}
	return fmt.Errorf("model: command %s", name)
}

func hasOpt(opts []string, name string) bool {
	for _, o := range opts {
		if strings.EqualFold(o, name) {
			return true
		}
	}
	return false
}
