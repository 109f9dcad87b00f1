package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Generators of keys, values and commands. Alphabets are small, so that commands meet on the same
// keys, fields and members, and every alphabet contains the awkward spellings of its domain.

// HG generates the commands of one history.
type HG struct {
	*Gen
	keys    map[string][]string // favourite keys of each kind
	all     []string
	vals    []string // values, list elements
	fields  []string
	members []string
	scores  []string
	cross   float64  // probability of a key of another kind
	errP    float64  // probability of a malformed argument
	pieces  []string // of all keys, if not nil
	ascii   bool     // all keys are ASCII (then ? is generated in patterns)
	maxFill int      // arguments of a filling command
	noRand  bool     // no command with a random result
	wide    bool     // about as many keys, too
	big     int      // if not 0, values get about this many elements
	anyCase bool     // names in any letter case
	names   []string
	weights []int
	total   int
}

var kinds = []string{"string", "list", "hash", "set", "zset"}

var plainKeys = []string{"a", "b", "c", "k", "k1", "k2", "k10", "key", "foo", "bar", "x:1", "x:2", "user", "User", "USER", "0", "1", "-1", "zz", "nil", "list", "set", "ok", "a.b", "a b"}

var oddKeys = []string{"", " ", "  ", "a ", " a", "\x00", "a\x00", "\r\n", "a\r\n", "$1\r\na\r\n", "*1\r\n", "\xff", "\xff\xfe", "é", "e\u0301", "日本", "\t", "+OK", "-ERR", ":1", "\"q\"", "'", "(nil)", "%s%d", "A", "01", "1.0", "+1"}

var oddVals = []string{"", " ", "0", "00", "-0", "1", "01", "+1", "1.0", "1.10", "1e3", "1E3", ".5", "5.", "0x10", "0b1", "1_000", " 1", "1 ", "inf", "-inf", "Infinity", "nan", "NaN", "true", "nil", "null", "(nil)", "OK", "\x00", "\r\n", "\r", "\n", "$-1\r\n", "*0\r\n", "+OK\r\n", "-ERR x\r\n", "\xff\x00\xfe", "é", "\xc3", "😀",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "123456789012345678901234567890", "3.141592653589793238", "0.1", "1e400", "-1e-400", "hello world", "{}", "%d"}

// twins are pairs with the same hash: FNV-1, FNV-1a, CRC-32, Java's and djb2 of 32 bits, Adler-32.
var twins = [][2]string{{"nbwowh", "retpsa"}, {"oduofd", "jusgnp"}, {"lzgmap", "wrmgdv"}, {"lomtvc", "srdzjb"}, {"jqxkss", "lqcsfw"}, {"lnbhno", "azplth"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"altarage", "zinke"}, {"plumless", "buckeroo"}, {"codding", "gnu"}, {"Aa", "BB"}, {"AaAa", "BBBB"}, {"vmdypv", "hykwun"}, {"qkjpdw", "cwqnio"}, {"ab", "bA"}}

// optWords are words with a meaning somewhere in the protocol or in a command.
var optWords = []string{"nx", "xx", "incr", "ch", "gt", "lt", "NX", "XX", "INCR", "withscores", "WITHSCORES", "WithScores", "byscore", "BYSCORE", "bylex", "limit", "rev", "before", "after", "AFTER", "ex", "px", "get", "keepttl", "count", "match", "store", "weights", "aggregate", "-inf", "+inf", "(1", "[a", "-", "+", "none", "string", "list", "hash", "zset", "set", "PING", "QUIT", "del", "int64", "float64", "true", "error"}

var intTexts = []string{"0", "1", "-1", "2", "-2", "3", "5", "10", "-10", "100", "4294967296", "-4294967297", "9007199254740993", "-9007199254740993",
	"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "4611686018427387904", "-4611686018427387904", "4611686018427387903"}

var badInts = []string{"abc", "", "1.5", "1.0", "1e2", "99999999999999999999", "-99999999999999999999", "9223372036854775808", "-9223372036854775809", " 1", "1 ", "--1", "nan", "inf", "0x10", "1a", "\x00", "１"}

var badFloats = []string{"abc", "", "nan", "NaN", "-nan", "1.2.3", " 1", "1 ", "--1", "1e", "one", "\x00", "1,5", "(1"}

var scoreTexts = []string{"0", "-0", "1", "2", "3", "-1", "-2", "1.5", "1.25", "-1.5", "0.1", "0.2", "0.30000000000000004", "1e10", "-1e10", "1e308", "-1e308", "1.7976931348623157e308", "5e-324", "-5e-324", "1e-300", "inf", "-inf", "+inf", "9007199254740993", "3.0000000000000004", "1000000", "123456789.123456789", "1e21", "1e20"}

var floatTexts = []string{"0", "1", "-1", "0.5", "0.1", "0.2", "-0.1", "1.5", "2.25", "1e3", "1e-3", "1e308", "-1e308", "1.7e308", "5e-324", "10.50", "3.14159", "-2", "100", "1e17", "123456.789"}

func (g *Gen) subset(xs []string, n int) []string {
	if n >= len(xs) {
		n = len(xs)
	}
	p := g.Perm(len(xs))
	out := make([]string, n)
	for i := range out {
		out[i] = xs[p[i]]
	}
	return out
}

// confusable returns near copies of s: strings a sloppy comparison would take for s.
func (g *Gen) confusable(s string) string {
	switch g.Intn(13) {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return s + "\x00"
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.ToLower(s)
	case 5:
		return s + "\r\n"
	case 6:
		return s + s
	case 7:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return "\x00"
	case 8:
		if len(s) > 0 {
			i := g.Intn(len(s))
			return s[:i] + string(s[i]^0x80) + s[i+1:]
		}
		return "\x80"
	case 9:
		return "0" + s
	case 10:
		if len(s) > 1 {
			i := g.Intn(len(s) - 1)
			return s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:]
		}
		return s + "\n"
	case 11: // the same 31-fold hash
		if len(s) > 1 {
			i := g.Intn(len(s) - 1)
			return s[:i] + string([]byte{s[i] + 1, s[i+1] - 31}) + s[i+2:]
		}
		return s + "\t"
	}
	if len(s) > 0 {
		b := []byte(s)
		b[g.Intn(len(b))] ^= byte(1 << g.Intn(8))
		return string(b)
	}
	return "\n"
}

func (g *Gen) bytes(n int) string {
	b := make([]byte, n)
	switch g.Intn(4) {
	case 0:
		g.Read(b)
	case 1:
		for i := range b {
			b[i] = "abcdefgh"[g.Intn(8)]
		}
	case 2:
		for i := range b {
			b[i] = "\r\n$*:+-0123456789\x00"[g.Intn(18)]
		}
	default:
		c := byte(g.Intn(256))
		for i := range b {
			b[i] = c
		}
	}
	return string(b)
}

// bigSize favours the sizes around buffers and power-of-two limits.
func (g *Gen) bigSize(limit int) int {
	edges := []int{16, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4094, 4095, 4096, 4097, 8192, 16383, 16384, 32768, 65534, 65535, 65536, 65537, 131072, 262144, 400000}
	for {
		n := pick(g, edges) + g.between(-3, 3)
		if g.chance(0.2) {
			n = 1 + g.Intn(limit)
		}
		if n <= limit {
			return n
		}
	}
}

func (g *Gen) keyAlphabet(n int, odd float64) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		k := pick(g, plainKeys)
		if g.chance(odd) {
			k = pick(g, oddKeys)
		}
		if len(out) > 0 && g.chance(0.15) && odd > 0 {
			k = g.confusable(pick(g, out))
		}
		if g.chance(0.1) {
			k = fmt.Sprintf("k%d", g.Intn(1000))
		}
		if g.chance(0.05) {
			k = pick(g, optWords)
		}
		if g.chance(0.06) {
			t := pick(g, twins)
			k = t[g.Intn(2)]
			if seen[k] { // the same word may have two twins
				continue
			}
			seen[k] = true
			out = append(out, k)
			if k == t[0] {
				k = t[1]
			} else {
				k = t[0]
			}
			n++
		}
		if odd > 0 && g.chance(0.02) {
			k = g.bytes(g.bigSize(5000))
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func numbered(prefix string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = prefix + strconv.Itoa(i)
	}
	return out
}

// newHG draws the alphabets of one history.
func newHG(g *Gen, weights map[string]int) *HG {
	h := &HG{Gen: g, keys: map[string][]string{}, cross: 0.06, errP: 0.03, maxFill: 8}
	odd := 0.0
	switch g.Intn(4) {
	case 0:
		odd = 0.3
	case 1:
		odd = 0.8
	}
	h.ascii = odd == 0
	h.all = g.keyAlphabet(g.between(2, 7), odd)
	if g.chance(0.05) { // many keys that patterns can confuse
		pieces := []string{"a", "a", "b", "ab", "ba", ":"}
		if !h.ascii {
			pieces = append(pieces, "é", "日", "é", "aé")
		}
		h.pieces = pieces
		h.all = nil
		for n := g.between(4, 20); n > 0; n-- {
			h.all = append(h.all, h.pieced(nil, 7))
		}
	}
	if g.chance(0.5) {
		for _, k := range kinds {
			h.keys[k] = g.subset(h.all, g.between(1, 3))
		}
	} else {
		for i, k := range kinds { // homes without overlap, types mix through cross only
			for j := i % len(h.all); j < len(h.all); j += 5 {
				h.keys[k] = append(h.keys[k], h.all[j])
			}
		}
	}
	switch g.Intn(3) {
	case 0:
		h.vals = g.subset(oddVals, g.between(2, 6))
	case 1:
		h.vals = []string{"a", "b", "c"}
	default:
		h.vals = append(g.subset(intTexts, 3), g.subset(oddVals, 4)...)
	}
	size := pick(g, []int{2, 4, 4, 8, 8, 20, 60})
	h.members = g.elements(size)
	h.fields = g.elements(pick(g, []int{1, 2, 4, 8, 20}))
	h.scores = g.subset(scoreTexts, g.between(2, 8))
	if g.chance(0.4) {
		h.scores = []string{"1", "2", "3"}[:g.between(1, 3)]
	}
	if size > 10 {
		h.maxFill = size
		if g.chance(0.5) {
			h.scores = append(h.scores, numbered("", 40)...)
		}
	}
	if g.chance(0.15) {
		h.maxFill = 200
	}
	if g.chance(0.15) {
		h.vals = append(h.vals, pick(g, optWords), pick(g, optWords))
	}
	if g.chance(0.1) {
		h.fields = append(h.fields, pick(g, optWords))
		h.members = append(h.members, pick(g, optWords), pick(g, optWords))
	}
	if g.chance(0.15) { // names with the same hash
		for i := g.between(1, 3); i > 0; i-- {
			t := pick(g, twins)
			h.fields = append(h.fields, t[:]...)
			h.members = append(h.members, t[:]...)
		}
	}
	if g.chance(0.03) {
		h.vals = append(h.vals, g.bytes(g.bigSize(70000)))
	}
	if g.chance(0.04) {
		h.grow(g.collSize())
	}
	for _, n := range sortedKeys(weights) {
		h.names = append(h.names, n)
		h.weights = append(h.weights, weights[n])
		h.total += weights[n]
	}
	return h
}

// collSize favours the sizes around powers of two.
func (g *Gen) collSize() int {
	n := pick(g, []int{33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 500, 512, 513, 600, 1000, 1024, 1025, 1100, 2048, 2100}) + g.between(-2, 2)
	if g.chance(0.05) {
		n = g.between(4000, 5000)
	}
	if g.chance(0.02) {
		n = pick(g, []int{8192, 10000, 16384, 20000, 65536}) + g.between(-2, 60)
	}
	return n
}

// grow makes the history one of big values.
func (h *HG) grow(n int) {
	h.big, h.maxFill = n, n
	pre := pick(h.Gen, []string{"m", "", "element-", "\x00", "x y"})
	h.members = append(h.members, numbered(pre, n)...)
	h.fields = append(h.fields, numbered(pre, n)...)
	if h.chance(0.6) {
		h.vals = append(h.vals, numbered(pre, n)...)
	}
	if h.chance(0.6) {
		h.scores = append(h.scores, numbered("", n)...)
	}
	h.errP /= 2
	if h.chance(0.3) {
		h.widen(pick(h.Gen, []string{"key:", "", "k"}))
	}
}

// widen gives the history many keys.
func (h *HG) widen(pre string) {
	ks := numbered(pre, h.big)
	h.wide = true
	h.all = append(append([]string(nil), h.all...), ks...)
	h.keys["string"] = append(append([]string(nil), h.keys["string"]...), ks...)
}

// many returns keys from a list: around as many as a big value has elements, all different.
func (h *HG) many(from []string) []string {
	if len(from) == 0 {
		from = h.all
	}
	return h.subset(from, max(1, min(h.around(), len(from))))
}

// around draws a number near the size of a big value, or below.
func (h *HG) around() int {
	switch h.Intn(4) {
	case 0:
		return h.between(0, h.big)
	case 1:
		return h.big/2 + h.between(-4, 4)
	}
	return h.big + h.between(-6, 4)
}

func (g *Gen) elements(n int) []string {
	var out []string
	if g.chance(0.5) {
		out = append(out, "a", "b", "c", "d")
		if g.chance(0.5) {
			out = append(out, "A", "aa", "ab", "B")
		}
	} else {
		out = append(out, g.subset(oddVals, n)...)
	}
	for i := 0; len(out) < n; i++ {
		out = append(out, "m"+strconv.Itoa(i))
	}
	return g.subset(out, n)
}

func (h *HG) key(kind string) string {
	if h.chance(h.cross) || len(h.keys[kind]) == 0 {
		return pick(h.Gen, h.all)
	}
	return pick(h.Gen, h.keys[kind])
}

func (h *HG) val() string    { return pick(h.Gen, h.vals) }
func (h *HG) field() string  { return pick(h.Gen, h.fields) }
func (h *HG) member() string { return pick(h.Gen, h.members) }

func (h *HG) score() string {
	if h.chance(h.errP) {
		return pick(h.Gen, badFloats)
	}
	if h.chance(0.1) {
		return pick(h.Gen, scoreTexts)
	}
	if h.chance(0.05) {
		return strconv.FormatFloat(math.Float64frombits(h.Uint64()&^(1<<62)), 'g', -1, 64) // finite, any magnitude below 2
	}
	return pick(h.Gen, h.scores)
}

func (h *HG) badInt() (string, bool) {
	if h.chance(h.errP) {
		return pick(h.Gen, badInts), true
	}
	return "", false
}

func (h *HG) index() string {
	if s, bad := h.badInt(); bad {
		return s
	}
	if h.big > 0 && h.chance(0.5) {
		n := h.around()
		if h.chance(0.5) {
			n = -n
		}
		return strconv.Itoa(n)
	}
	switch h.Intn(12) {
	case 0:
		return pick(h.Gen, intTexts)
	case 1:
		return strconv.Itoa(h.between(-70, 70))
	}
	return strconv.Itoa(h.between(-9, 9))
}

func (h *HG) count() string {
	if s, bad := h.badInt(); bad {
		return s
	}
	if h.big > 0 && h.chance(0.3) {
		return strconv.Itoa(max(1, h.around()))
	}
	switch h.Intn(12) {
	case 0:
		return pick(h.Gen, []string{"9223372036854775807", "4294967297", "2147483648", "1000000"})
	case 1:
		return pick(h.Gen, []string{"-1", "-9223372036854775808", "-3"})
	case 2:
		return "0"
	case 3:
		return strconv.Itoa(h.between(5, 80))
	}
	return strconv.Itoa(h.between(1, 4))
}

func (h *HG) bound() string {
	if h.chance(h.errP) {
		return pick(h.Gen, []string{"abc", "", "(", "((1", "1(", "nan", "(nan", "( 1"})
	}
	s := pick(h.Gen, h.scores)
	switch h.Intn(8) {
	case 0:
		s = "-inf"
	case 1:
		s = "+inf"
	case 2:
		s = pick(h.Gen, scoreTexts)
	case 3:
		s = strconv.Itoa(h.between(-3, 12))
	}
	if h.chance(0.3) {
		s = "(" + s
	}
	return s
}

// some returns 1.. arguments from f, now and then many.
func (h *HG) some(f func() string) []string {
	n := 1
	switch h.Intn(10) {
	case 0, 1, 2, 3:
		n = h.between(1, 3)
	case 4:
		n = h.between(1, h.maxFill)
	case 5:
		if h.big > 0 {
			n = max(1, h.around())
		}
	}
	out := make([]string, n)
	for i := range out {
		out[i] = f()
	}
	return out
}

// pieced makes a key, or a pattern, from the pieces of keys.
func (h *HG) pieced(more []string, n int) string {
	var b strings.Builder
	for k := h.between(1, n); k > 0; k-- {
		b.WriteString(pick(h.Gen, append(h.pieces, more...)))
	}
	return b.String()
}

func (h *HG) pattern() string {
	if h.pieces != nil && h.chance(0.9) {
		more := []string{"*", "*", "*"}
		if h.ascii {
			more = append(more, "?")
		}
		if h.chance(0.3) {
			more = append(more, "[ab]", "[!a]", "{a,b:}", "{ab,*}", "[!a-b]", "\\*")
		}
		return h.pieced(more, 6)
	}
	switch h.Intn(6) {
	case 0:
		return "*"
	case 1:
		if h.ascii {
			return strings.Repeat("?", h.between(1, 4)) + pick(h.Gen, []string{"", "*"})
		}
		return "**"
	}
	k := pick(h.Gen, h.all)
	if len(k) > 40 || !utf8.ValidString(k) {
		return "*"
	}
	if strings.IndexByte(k, 0) < 0 && h.chance(0.3) {
		return h.class(k)
	}
	if strings.ContainsAny(k, "*?[{\\") {
		return "*"
	}
	if h.chance(0.2) {
		return k
	}
	i := h.Intn(len(k) + 1)
	j := h.between(i, len(k))
	mid := "*"
	if h.ascii && h.chance(0.3) {
		mid = strings.Repeat("?", h.between(0, j-i+1))
	}
	return k[:i] + mid + k[j:]
}

// class makes a pattern with classes and escapes from a key.
func (h *HG) class(k string) string {
	var b strings.Builder
	for i := 0; i < len(k); i++ {
		switch c := k[i]; {
		case strings.IndexByte(`*?[]{}\`, c) >= 0:
			b.WriteByte('\\')
			b.WriteByte(c)
		case alnum(c) && h.chance(0.3):
			switch h.Intn(10) {
			case 5:
				fmt.Fprintf(&b, "[!%s]", pick(h.Gen, []string{"b", "xyz", "a-f", "0-9", "Z", string(c)}))
			case 6:
				fmt.Fprintf(&b, "{%s,%c}", pick(h.Gen, []string{"a", "b1", "*", "x?", "_:"}), c)
			case 7:
				j := h.between(i+1, len(k))
				if simpleAlternatives(k[i:j]) && !strings.ContainsAny(k[i:j], "*?") {
					fmt.Fprintf(&b, "{%s,%s%s}", k[i:j], pick(h.Gen, []string{"a", "zz", "q*"}), pick(h.Gen, []string{"", ",1", ",?"}))
					i = j - 1
				} else {
					b.WriteByte(c)
				}
			case 0:
				fmt.Fprintf(&b, "[%c]", c)
			case 1:
				fmt.Fprintf(&b, "[%cxyz]", c)
			case 2:
				fmt.Fprintf(&b, "[ab%c1]", c)
			case 3:
				fmt.Fprintf(&b, "[0-%c]", c)
			default:
				fmt.Fprintf(&b, "[%c-z]", c)
			}
		case c < 0x80 && h.chance(0.05):
			b.WriteByte('?')
		default:
			b.WriteByte(c)
		}
	}
	if h.chance(0.3) {
		b.WriteByte('*')
	}
	return b.String()
}

func (h *HG) anyKey() string { return pick(h.Gen, h.all) }

func (h *HG) name() string {
	x := h.Intn(h.total)
	for i, w := range h.weights {
		if x -= w; x < 0 {
			return h.names[i]
		}
	}
	panic("weights")
}

func randCase(g *Gen, s string) string {
	b := []byte(s)
	for i := range b {
		if g.chance(0.5) && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// next makes one command.
func (h *HG) next() []B {
	name := h.name()
	args := h.args(name)
	if h.chance(h.errP * 0.7) {
		// too few arguments; the model knows what that means for the command
		if n := minArgs[name]; n > 0 {
			args = args[:min(h.Intn(n), len(args))]
		}
	}
	spelled := name
	if h.anyCase || h.chance(0.05) {
		spelled = randCase(h.Gen, name)
	}
	return append([]B{B(spelled)}, bs(args)...)
}

func bs(ss []string) []B {
	out := make([]B, len(ss))
	for i, s := range ss {
		out[i] = B(s)
	}
	return out
}

func (h *HG) args(name string) []string {
	switch name {
	case "set":
		return []string{h.key("string"), h.val()}
	case "mset":
		n := 1
		if h.chance(0.6) {
			n = h.between(1, 4)
		}
		if h.chance(0.03) {
			n = h.between(5, 80)
		}
		var a []string
		if h.wide && h.chance(0.5) {
			for _, k := range h.many(h.keys["string"]) {
				a = append(a, k, h.val())
			}
			n = 0
		}
		for i := 0; i < n; i++ {
			a = append(a, h.key("string"), h.val())
		}
		if h.chance(h.errP) {
			a = append(a, h.key("string"))
		}
		return a
	case "get":
		return []string{h.key("string")}
	case "mget":
		if h.wide && h.chance(0.3) {
			return h.many(h.all)
		}
		return h.some(func() string {
			if h.chance(0.2) {
				return h.anyKey()
			}
			return h.key("string")
		})
	case "append":
		return []string{h.key("string"), h.val()}
	case "incr", "decr":
		return []string{h.key("string")}
	case "incrby", "decrby":
		return []string{h.key("string"), h.delta()}
	case "lpush", "rpush":
		return append([]string{h.key("list")}, h.some(h.val)...)
	case "lpop", "rpop":
		a := []string{h.key("list")}
		if h.chance(0.35) {
			a = append(a, h.count())
		}
		return a
	case "llen":
		return []string{h.key("list")}
	case "lrange":
		return []string{h.key("list"), h.index(), h.index()}
	case "lrem":
		return []string{h.key("list"), pick(h.Gen, []string{"0", "1", "-1", "2", "-2", "3", "-3", h.index(), h.index()}), h.val()}
	case "lindex":
		return []string{h.key("list"), h.index()}
	case "lset":
		return []string{h.key("list"), h.index(), h.val()}
	case "linsert":
		where := pick(h.Gen, []string{"before", "after", "BEFORE", "AFTER", "Before"})
		if h.chance(h.errP) {
			where = pick(h.Gen, []string{"", "between", "befor", "1"})
		}
		return []string{h.key("list"), where, h.val(), h.val()}
	case "hset", "hmset":
		a := []string{h.key("hash")}
		for _, f := range h.some(h.field) {
			a = append(a, f, h.hval())
		}
		if h.chance(h.errP) {
			a = append(a, h.field())
		}
		return a
	case "hsetnx":
		return []string{h.key("hash"), h.field(), h.hval()}
	case "hget", "hexists":
		return []string{h.key("hash"), h.field()}
	case "hdel", "hmget":
		return append([]string{h.key("hash")}, h.some(h.field)...)
	case "hgetall", "hkeys", "hvals", "hlen":
		return []string{h.key("hash")}
	case "hincrby":
		return []string{h.key("hash"), h.field(), h.delta()}
	case "hincrbyfloat":
		f := pick(h.Gen, floatTexts)
		if h.chance(h.errP * 2) {
			f = pick(h.Gen, append([]string{"inf", "-inf"}, badFloats...))
		}
		return []string{h.key("hash"), h.field(), f}
	case "sadd", "srem":
		return append([]string{h.key("set")}, h.some(h.member)...)
	case "scard", "smembers":
		return []string{h.key("set")}
	case "sismember":
		return []string{h.key("set"), h.member()}
	case "smove":
		return []string{h.key("set"), h.key("set"), h.member()}
	case "spop":
		a := []string{h.key("set")}
		if h.chance(0.5) {
			a = append(a, h.count())
		}
		return a
	case "sunion", "sinter", "sdiff", "sunionstore", "sinterstore", "sdiffstore":
		n := h.between(1, 4)
		if h.chance(0.03) {
			n = h.between(5, 40)
		}
		if strings.HasSuffix(name, "store") {
			n++
		}
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, h.key("set"))
		}
		return a
	case "zadd":
		a := []string{h.key("zset")}
		if h.chance(0.25) {
			a = append(a, pick(h.Gen, []string{"nx", "xx", "NX", "XX", "Nx", "incr", "INCR"}))
			if h.chance(0.2) {
				a = append(a, "incr")
			}
		}
		ms := h.some(h.member)
		for _, m := range ms {
			if len(ms) > 6 {
				a = append(a, pick(h.Gen, h.scores), m)
			} else {
				a = append(a, h.score(), m)
			}
		}
		if len(ms) > 6 && h.chance(0.2) || h.chance(h.errP) { // only the end is wrong
			a = append(a, pick(h.Gen, badFloats), h.member())
		}
		if h.chance(h.errP) {
			a = append(a, h.score())
		}
		return a
	case "zincr":
		return []string{h.key("zset"), h.score(), h.member()}
	case "zscore", "zrank":
		return []string{h.key("zset"), h.member()}
	case "zrem":
		return append([]string{h.key("zset")}, h.some(h.member)...)
	case "zcard":
		return []string{h.key("zset")}
	case "zpopmin", "zpopmax":
		a := []string{h.key("zset")}
		if h.chance(0.5) {
			a = append(a, h.count())
		}
		return a
	case "zcount":
		return []string{h.key("zset"), h.bound(), h.bound()}
	case "zrangebyscore":
		a := []string{h.key("zset"), h.bound(), h.bound()}
		return h.opt(a, "withscores")
	case "zrange":
		if h.chance(0.3) {
			a := []string{h.key("zset"), h.bound(), h.bound(), pick(h.Gen, []string{"byscore", "BYSCORE"})}
			return h.opt(a, "withscores")
		}
		return h.opt([]string{h.key("zset"), h.index(), h.index()}, "withscores")
	case "zrevrange":
		return h.opt([]string{h.key("zset"), h.index(), h.index()}, "withscores")
	case "keys":
		return []string{h.pattern()}
	case "exists", "del":
		if h.wide && h.chance(0.2) {
			return h.many(h.all)
		}
		if h.chance(0.5) {
			return []string{h.anyKey()}
		}
		n := h.between(1, 4)
		if h.chance(0.05) {
			n = h.between(5, 100)
		}
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, h.anyKey())
		}
		return a
	case "type":
		return []string{h.anyKey()}
	case "ping", "command":
		return nil
	}
	panic("gen: " + name)
}

func (h *HG) opt(a []string, o string) []string {
	if h.chance(0.4) {
		a = append(a, randCase(h.Gen, o))
	}
	return a
}

func (h *HG) delta() string {
	if s, bad := h.badInt(); bad {
		return s
	}
	switch h.Intn(4) {
	case 0:
		return pick(h.Gen, intTexts)
	case 1:
		return strconv.FormatInt(int64(h.Uint64()), 10)
	}
	return strconv.Itoa(h.between(-5, 5))
}

func (h *HG) hval() string {
	switch h.Intn(6) {
	case 0:
		return pick(h.Gen, floatTexts)
	case 1:
		return pick(h.Gen, intTexts)
	}
	return h.val()
}

// fill returns a command that makes a big value of a kind, and drain one that empties it.
func (h *HG) fill(kind string, n int) []B {
	if kind == "string" && h.wide {
		a := []B{B("mset")}
		for _, k := range h.subset(h.keys[kind], n) {
			a = append(a, B(k), B(h.val()))
		}
		return a
	}
	a := []string{h.key(kind)}
	name := ""
	el := func(xs []string) func() string { return func() string { return pick(h.Gen, xs) } }
	if h.big > 0 && n > h.big/2 { // different ones
		el = func(xs []string) func() string {
			p, i := h.Perm(len(xs)), 0
			return func() string { i++; return xs[p[i%len(p)]] }
		}
	}
	member, field := el(h.members), el(h.fields)
	for i := 0; i < n; i++ {
		switch kind {
		case "list":
			name = pick(h.Gen, []string{"lpush", "rpush"})
			a = append(a, h.val())
		case "set":
			name = "sadd"
			a = append(a, member())
		case "hash":
			name = "hset"
			a = append(a, field(), h.hval())
		case "zset":
			name = "zadd"
			a = append(a, pick(h.Gen, h.scores), member())
		default:
			return append([]B{"set"}, bs([]string{a[0], h.val()})...)
		}
	}
	return append([]B{B(name)}, bs(a)...)
}

func (h *HG) drain(kind string) [][]B {
	k := h.key(kind)
	one := func(a ...string) [][]B { return [][]B{bs(a)} }
	if h.big > 0 && kind != "string" && h.chance(0.7) { // all but a few
		n := max(1, h.big+h.between(-5, 2))
		part := func(xs []string) []string { return h.subset(xs, n) }
		switch kind {
		case "list":
			return one(pick(h.Gen, []string{"lpop", "rpop"}), k, strconv.Itoa(n))
		case "hash":
			return one(append([]string{"hdel", k}, part(h.fields)...)...)
		case "set":
			if h.noRand || h.chance(0.6) {
				return one(append([]string{"srem", k}, part(h.members)...)...)
			}
			return one("spop", k, strconv.Itoa(n))
		}
		if h.chance(0.4) {
			return one(append([]string{"zrem", k}, part(h.members)...)...)
		}
		return one(pick(h.Gen, []string{"zpopmin", "zpopmax"}), k, strconv.Itoa(n))
	}
	switch kind {
	case "list":
		switch h.Intn(4) {
		case 0:
			return one("lpop", k, "10000")
		case 1:
			return one("rpop", k, "10000")
		case 2:
			var out [][]B
			for _, v := range h.vals {
				out = append(out, bs([]string{"lrem", k, "0", v}))
			}
			return out
		}
		var out [][]B
		for i := 0; i < 6; i++ {
			out = append(out, bs([]string{pick(h.Gen, []string{"lpop", "rpop"}), k}))
		}
		return out
	case "hash":
		return one(append([]string{"hdel", k}, h.fields...)...)
	case "set":
		if h.noRand || h.chance(0.6) {
			return one(append([]string{"srem", k}, h.members...)...)
		}
		return one("spop", k, "10000")
	case "zset":
		return one(pick(h.Gen, [][]string{append([]string{"zrem", k}, h.members...), {"zpopmin", k, "10000"}, {"zpopmax", k, "10000"}})...)
	}
	return one("del", k)
}

// isQuery lists the commands that must not change anything.
var isQuery = map[string]bool{}

func init() {
	for _, n := range strings.Fields("get mget exists type keys llen lrange lindex hget hmget hgetall hkeys hvals hlen hexists scard sismember smembers sdiff sinter sunion zscore zrank zcard zcount zrange zrevrange zrangebyscore ping command") {
		isQuery[n] = true
	}
}

// groups of commands for the profiles
var groups = map[string][]string{
	"string": strings.Fields("set mset get mget append"),
	"count":  strings.Fields("incr incrby decr decrby"),
	"list":   strings.Fields("lpush rpush lpop rpop llen lrange lrem lindex lset linsert"),
	"hash":   strings.Fields("hset hmset hsetnx hget hmget hgetall hkeys hvals hlen hexists hdel hincrby hincrbyfloat"),
	"set":    strings.Fields("sadd srem scard sismember smembers smove spop"),
	"alg":    strings.Fields("sunion sinter sdiff sunionstore sinterstore sdiffstore"),
	"zset":   strings.Fields("zadd zincr zscore zrank zrem zcard zcount zrange zrangebyscore zrevrange zpopmin zpopmax"),
	"keys":   strings.Fields("keys exists del type"),
	"misc":   strings.Fields("ping command"),
}

// weigh spreads group weights over their commands; own weights of commands are added.
func weigh(gw map[string]int, own map[string]int) map[string]int {
	w := map[string]int{}
	for g, n := range gw {
		for _, c := range groups[g] {
			w[c] += n
		}
	}
	for c, n := range own {
		w[c] += n
	}
	for c, n := range w {
		if n <= 0 {
			delete(w, c)
		}
	}
	return w
}

// kindOf tells the kind a command works on.
func kindOf(name string) string {
	for g, cs := range groups {
		for _, c := range cs {
			if c == name {
				switch g {
				case "count":
					return "string"
				case "alg":
					return "set"
				case "keys", "misc":
					return ""
				}
				return g
			}
		}
	}
	return ""
}
