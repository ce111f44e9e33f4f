package main

// The reference model of a JSON document, its generators, the builder through
// the public API and the structural comparison through public accessors.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
	ju "yunion.io/x/jsonutils"
)

type Kind int

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat
	KString
	KArray
	KDict
)

func (k Kind) String() string {
	return [...]string{"null", "bool", "int", "float", "string", "array", "dict"}[k]
}

// V is a model value.
type V struct {
	K   Kind
	B   bool
	I   int64
	F   float64
	F32 bool // build F as a float32 (which has the same text)
	S   string
	J   *V // the string is the text of this document
	A   []*V
	D   map[string]*V
	Ord []string // insertion order of D
}

func vNull() *V           { return &V{K: KNull} }
func vBool(b bool) *V     { return &V{K: KBool, B: b} }
func vInt(i int64) *V     { return &V{K: KInt, I: i} }
func vFloat(f float64) *V { return &V{K: KFloat, F: f} }
func vStr(s string) *V    { return &V{K: KString, S: s} }
func vArr(a ...*V) *V     { return &V{K: KArray, A: a} }
func vDict() *V           { return &V{K: KDict, D: map[string]*V{}} }
func (v *V) set(k string, x *V) *V {
	if _, ok := v.D[k]; !ok {
		v.Ord = append(v.Ord, k)
	}
	v.D[k] = x
	return v
}

// some adds x to a container.
func (v *V) some(k string, x *V) {
	if v.K == KDict {
		v.set(k, x)
	} else {
		v.A = append(v.A, x)
	}
}

func (v *V) del(k string) {
	if _, ok := v.D[k]; ok {
		delete(v.D, k)
		for i := range v.Ord {
			if v.Ord[i] == k {
				v.Ord = append(append([]string{}, v.Ord[:i]...), v.Ord[i+1:]...)
				break
			}
		}
	}
}
func (v *V) keys() []string {
	ks := make([]string, 0, len(v.D))
	for k := range v.D {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (v *V) clone() *V {
	if v == nil {
		return nil
	}
	n := *v
	if v.K == KArray {
		n.A = make([]*V, len(v.A))
		for i := range v.A {
			n.A[i] = v.A[i].clone()
		}
	}
	if v.K == KDict {
		n.D = map[string]*V{}
		n.Ord = append([]string{}, v.Ord...)
		for k, x := range v.D {
			n.D[k] = x.clone()
		}
	}
	return &n
}
func (v *V) shallow() *V {
	n := *v
	if v.K == KArray {
		n.A = append([]*V{}, v.A...)
	}
	if v.K == KDict {
		n.D = map[string]*V{}
		n.Ord = append([]string{}, v.Ord...)
		for k, x := range v.D {
			n.D[k] = x
		}
	}
	return &n
}
func (v *V) size() int {
	n := 1
	for _, x := range v.A {
		n += x.size()
	}
	for _, x := range v.D {
		n += x.size()
	}
	return n
}
func (v *V) depth() int {
	d := 0
	for _, x := range v.A {
		if e := x.depth(); e > d {
			d = e
		}
	}
	for _, x := range v.D {
		if e := x.depth(); e > d {
			d = e
		}
	}
	if v.K == KArray || v.K == KDict {
		return d + 1
	}
	return 0
}
func (v *V) walk(f func(*V)) {
	f(v)
	for _, x := range v.A {
		x.walk(f)
	}
	for _, k := range v.Ord {
		v.D[k].walk(f)
	}
}

// eq is exact equality; a float equals an int only if intFloat.
func eqV(a, b *V, intFloat bool) bool {
	if a.K != b.K {
		if intFloat && (a.K == KInt && b.K == KFloat || a.K == KFloat && b.K == KInt) {
			f, i := a, b
			if a.K == KInt {
				f, i = b, a
				if i.I > 1<<53 || i.I < -1<<53 {
					// a float has no room for every integer of that size
					return false
				}
			}
			return f.F == float64(i.I) && math.Abs(f.F) <= 1<<63
		}
		return false
	}
	switch a.K {
	case KBool:
		return a.B == b.B
	case KInt:
		return a.I == b.I
	case KFloat:
		return a.F == b.F
	case KString:
		if a.J != nil && a.S != b.S {
			d, err := stdRead(b.S)
			return err == nil && eqV(norm(a.J), norm(d), true) && compactText(b.S)
		}
		return a.S == b.S
	case KArray:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !eqV(a.A[i], b.A[i], intFloat) {
				return false
			}
		}
	case KDict:
		if len(a.D) != len(b.D) {
			return false
		}
		for k, x := range a.D {
			y, ok := b.D[k]
			if !ok || !eqV(x, y, intFloat) {
				return false
			}
		}
	}
	return true
}

// debug text of a model value (Go syntax-like, not made by the library)
func (v *V) String() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}
func (v *V) write(sb *strings.Builder) {
	switch v.K {
	case KNull:
		sb.WriteString("null")
	case KBool:
		sb.WriteString(strconv.FormatBool(v.B))
	case KInt:
		sb.WriteString(strconv.FormatInt(v.I, 10))
	case KFloat:
		sb.WriteString(strconv.FormatFloat(v.F, 'g', -1, 64))
		sb.WriteByte('f')
	case KString:
		sb.WriteString(strconv.Quote(v.S))
	case KArray:
		sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				sb.WriteString(", ")
			}
			x.write(sb)
		}
		sb.WriteByte(']')
	case KDict:
		sb.WriteByte('{')
		for i, k := range v.Ord {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(strconv.Quote(k))
			sb.WriteString(": ")
			v.D[k].write(sb)
		}
		sb.WriteByte('}')
	}
}

// build makes the document through constructors and mutators, inserting dict
// keys in v.Ord order.
func build(v *V) ju.JSONObject {
	switch v.K {
	case KNull:
		return ju.JSONNull
	case KBool:
		return ju.NewBool(v.B)
	case KInt:
		return ju.NewInt(v.I)
	case KFloat:
		if v.F32 {
			return ju.NewFloat32(float32(v.F))
		}
		if math.Float64bits(v.F)&1 == 1 {
			return ju.NewFloat(v.F)
		}
		return ju.NewFloat64(v.F)
	case KString:
		return ju.NewString(v.S)
	case KArray:
		// by each of the ways to fill an array
		var items []ju.JSONObject
		a := ju.NewArray()
		for _, x := range v.A {
			if len(v.A)%3 == 0 {
				a.Add(build(x))
			} else {
				items = append(items, build(x))
			}
		}
		if len(v.A)%3 == 1 {
			return ju.NewArray(items...)
		}
		a.Add(items...)
		return a
	case KDict:
		d := ju.NewDict()
		for _, k := range v.Ord {
			d.Set(k, build(v.D[k]))
		}
		return d
	}
	panic("kind")
}

// read turns a document into a model value through typed accessors only.
func read(o ju.JSONObject) (*V, error) { return readDepth(o, 0) }

func readDepth(o ju.JSONObject, depth int) (*V, error) {
	if depth > 100000 {
		return nil, fmt.Errorf("too deep")
	}
	switch x := o.(type) {
	case nil:
		return nil, fmt.Errorf("nil object")
	case *ju.JSONDict:
		if x == nil {
			return nil, fmt.Errorf("nil dict")
		}
		m, err := x.GetMap()
		if err != nil {
			return nil, err
		}
		v := vDict()
		ks := x.SortedKeys()
		if len(ks) != len(m) || x.Length() != len(m) || x.Size() != len(m) {
			return nil, fmt.Errorf("dict has %d keys, Length %d, Size %d, GetMap %d", len(ks), x.Length(), x.Size(), len(m))
		}
		for _, k := range ks {
			e, ok := m[k]
			if !ok {
				return nil, fmt.Errorf("key %q of SortedKeys is not in GetMap", k)
			}
			c, err := readDepth(e, depth+1)
			if err != nil {
				return nil, fmt.Errorf("[%q]: %v", k, err)
			}
			v.set(k, c)
		}
		return v, nil
	case *ju.JSONArray:
		if x == nil {
			return nil, fmt.Errorf("nil array")
		}
		a, err := x.GetArray()
		if err != nil {
			return nil, err
		}
		if x.Length() != len(a) || x.Size() != len(a) {
			return nil, fmt.Errorf("array length %d size %d GetArray %d", x.Length(), x.Size(), len(a))
		}
		v := &V{K: KArray}
		for i, e := range a {
			c, err := readDepth(e, depth+1)
			if err != nil {
				return nil, fmt.Errorf("[%d]: %v", i, err)
			}
			v.A = append(v.A, c)
		}
		return v, nil
	case *ju.JSONString:
		s, err := x.GetString()
		return vStr(s), err
	case *ju.JSONInt:
		i, err := x.Int()
		return vInt(i), err
	case *ju.JSONFloat:
		f, err := x.Float()
		return vFloat(f), err
	case *ju.JSONBool:
		b, err := x.Bool()
		return vBool(b), err
	case *ju.JSONValue:
		if x != ju.JSONNull && x == nil {
			return nil, fmt.Errorf("nil value")
		}
		return vNull(), nil
	}
	return nil, fmt.Errorf("unexpected object type %T", o)
}

// show describes a document for messages without using the printers under test.
func show(o ju.JSONObject) string {
	v, err := read(o)
	if err != nil {
		return fmt.Sprintf("<%T: %v>", o, err)
	}
	return clip(v.String(), 1500)
}

// mustRead fails the case when the document is not well-formed.
func (c *C) mustRead(what string, o ju.JSONObject) *V {
	v, err := read(o)
	if err != nil {
		c.Failf("%s: document cannot be read back through its accessors: %v", what, err)
	}
	return v
}

func (c *C) sameDoc(what string, want *V, got ju.JSONObject, intFloat bool) {
	g := c.mustRead(what, got)
	if !eqV(want, g, intFloat) {
		c.Failf("%s: documents differ\n want %s\n got  %s", what, clip(want.String(), 2000), clip(g.String(), 2000))
	}
}

// norm is the value a document has after being printed and parsed: a float with
// an integral value prints without a fraction and is read as an integer when it
// fits (documented restriction), everything else is unchanged.
func printedFloat(f float64) *V {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return vInt(i)
	}
	return vFloat(f)
}
func norm(v *V) *V {
	n := v.clone()
	var rec func(*V)
	rec = func(x *V) {
		if x.K == KFloat {
			*x = *printedFloat(x.F)
		}
		for _, e := range x.A {
			rec(e)
		}
		for _, e := range x.D {
			rec(e)
		}
	}
	rec(n)
	return n
}

// ---------- generators ----------

func (c *C) intn(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(c.rt, l) }
func (c *C) flip(l string) bool            { return rapid.Bool().Draw(c.rt, l) }

// oneIn is true with probability about 1/n (a full-range draw, not a biased one).
func (c *C) oneIn(n int, l string) bool {
	bits := 0
	for 1<<bits < n {
		bits++
	}
	x := 0
	for i := 0; i < bits; i++ {
		x = x*2 + b2i(rapid.Bool().Draw(c.rt, l))
	}
	return x == 1<<bits-1
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// uni is a uniform draw in [0,n) that shrinks to 0.
func (c *C) uni(n int, l string) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	bits += 4
	x := 0
	for i := 0; i < bits; i++ {
		x = x*2 + b2i(rapid.Bool().Draw(c.rt, l))
	}
	return x * n >> bits
}
func pick[T any](c *C, l string, xs ...T) T { return xs[c.uni(len(xs), l)] }

var specialInts = []int64{0, 1, -1, 2, 9, 10, 42, 100, 127, 128, 255, 256, 1000, 65535, 65536, 999999, 1000000, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 999999999999999999, 1000000000000000000, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, -999, -1000000}

func (c *C) genInt() int64 {
	switch c.uni(4, "ik") {
	case 0:
		return int64(c.intn(-20, 200, "i"))
	case 1:
		return specialInts[c.uni(len(specialInts), "is")]
	case 2:
		return rapid.Int64().Draw(c.rt, "i64")
	}
	// random number of bits
	n := uint(1 + c.uni(63, "ib"))
	x := int64(rapid.Uint64().Draw(c.rt, "iu") & (1<<n - 1))
	if c.flip("neg") {
		x = -x
	}
	return x
}

var specialFloats = []float64{0.5, -0.5, 0.1, 1.5, 3.14159, 1e-7, 1e-6, 1e-5, 123.456, 1e15, 1e20, 1e21, 1e22, 1e300, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 0.1 + 0.2, 1.0 / 3, 100.0, 1e6, 123456789.123456789, 9007199254740993, 9.2233720368547758e18, 1.8446744073709552e19, -9.2233720368547758e18, 4.35, 0.000001234, 16777217, 3.4028234663852886e38, 99999999.99, 1e100}

// same32 tells whether f is a float32 that prints as the float64 does.
func same32(f float64) bool {
	return float64(float32(f)) == f && strconv.FormatFloat(f, 'f', -1, 32) == strconv.FormatFloat(f, 'f', -1, 64)
}

// some32 makes some of the floats of v float32 values with float32 digits.
func (c *C) some32(v *V) {
	v.walk(func(x *V) {
		if x.K == KFloat && c.flip("to32") {
			if f := float64(float32(x.F)); !math.IsInf(f, 0) {
				x.F, x.F32 = f, true
			}
		}
	})
}

func (c *C) genFloat() float64 {
	var f float64
	switch c.uni(5, "fk") {
	case 4:
		f = float64(c.intn(-3000, 3000, "f2")) / float64(int(1)<<uint(c.uni(8, "f2d")))
	case 0:
		f = specialFloats[c.uni(len(specialFloats), "fs")]
	case 1:
		f = float64(c.intn(-100000, 100000, "fn")) / math.Pow(10, float64(c.uni(8, "fd")))
	case 2:
		f = math.Float64frombits(rapid.Uint64().Draw(c.rt, "fb"))
	default:
		f = rapid.Float64().Draw(c.rt, "f")
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 1.25
	}
	if f == 0 {
		f = 0 // -0 prints as 0 (documented restriction)
	}
	return f
}

var tokenStrings = []string{"null", "true", "false", "yes", "no", "none", "on", "off", "True", "NULL", "NaN", "Infinity", "inf", "-inf", "1", "-1", "+1", "0", "00", "007", "1.5", "1e5", ".5", "5.", "0x10", "1_000", "<1>", "<0>", "<x>", "<", "{", "}", "[", "]", "{}", "[]", ",", ":", "\"", "'", "\\", "\\n", "\\u0041", "~", "-", "- a", "a: b", "#c", "a #b", "? x", "&a", "*a", "!t", "|", ">", "%", "@", "`", "=", "2020-01-02", "2020-01-02T03:04:05Z", "12:30", "0o7", "1,000.50", "___jnid_", "key=val&x=y", "a+b", "%41", "a.b", " a", "a ", " ", "\t", "\n", "\r\n", "a\nb", "é", "日本語", "\U0001F600", "\u2028", "\ufeff", "\u0000", "\x7f", "\x1f", "\u0085", "<script>", "/", "\u00a0", "---", "...", "\n---\n", "--- ", "%2C", "%25", "%252F", "%2", "a%20b", "%d", "%s", "<<", "\\x41", "0b1", "1e39", "2e-50", "-9e99", "1e-400", "\"a\"", "'a'", "${a}", "a:b", "//", "/*", "*/", "NULL", "nil", "undefined", "None", "Null", "0.0", "-0", "1.", "+.5", "12:30:45", "1h", "1_0.5", "=1"}

// genStr draws a valid UTF-8 string.
func (c *C) genStr() string { return c.genStrN(4) }

func (c *C) genStrN(chunks int) string {
	switch c.uni(8, "sk") {
	case 0:
		return ""
	case 1, 2:
		return tokenStrings[c.uni(len(tokenStrings), "st")]
	case 3:
		return rapid.StringMatching(`[a-zA-Z0-9_ ]{0,12}`).Draw(c.rt, "sa")
	case 4:
		n := c.intn(0, 8, "sn")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(c.genRune())
		}
		return sb.String()
	case 5:
		// pieces of special strings, glued
		n := 1 + c.intn(0, chunks, "sp")
		var sb strings.Builder
		lines := c.oneIn(6, "slines")
		for i := 0; i < n; i++ {
			if lines && i > 0 {
				sb.WriteByte('\n')
			}
			switch c.uni(5, "sw") {
			case 0, 1:
				sb.WriteString(tokenStrings[c.uni(len(tokenStrings), "st")])
			case 2:
				// what looks like an escape
				sb.WriteByte('\\')
				sb.WriteByte(byte(0x20 + c.uni(0x5f, "esc")))
			default:
				sb.WriteRune(c.genRune())
			}
		}
		return sb.String()
	case 6:
		// rare: long strings with a special character somewhere
		if !c.oneIn(4, "slong") {
			return rapid.StringMatching(`[a-z]{1,4}`).Draw(c.rt, "sl")
		}
		n := pick(c, "slen", 30, 60, 64, 100, 127, 128, 255, 256, 257, 500, 1023, 1024, 1025, 3000)
		if c.oneIn(32, "shuge") {
			n = pick(c, "shugen", 4095, 4097, 5000, 8193, 10000, 16385, 20000, 40000, 70000)
		}
		at := c.uni(n+1, "sat")
		r := c.genRune()
		return strings.Repeat("x", at) + string(r) + strings.Repeat("y", n-at)
	}
	return rapid.String().Draw(c.rt, "s")
}

func (c *C) genRune() rune {
	switch c.uni(7, "rk") {
	case 0:
		return rune(c.intn(0x20, 0x7e, "r"))
	case 1:
		return rune(c.uni(0x20, "rc"))
	case 2:
		return []rune{'"', '\\', '/', '\'', '\b', '\f', '\n', '\r', '\t', 0x7f, 0, '{', '}', '[', ']', ':', ',', '<', '>', '&', '=', '+', '%', '.', '#'}[c.uni(25, "re")]
	case 3:
		return rune(0x80 + c.uni(0x780, "r2"))
	case 4:
		return rune(0x800 + c.uni(0xd800-0x800, "r3"))
	case 5:
		return rune(0x10000 + c.uni(0x100000, "r4"))
	}
	return []rune{0x2028, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x85, 0xa0, 0x80, 0x7ff, 0x800, 0xff, 0x100, 0xc3, 0xe9}[c.uni(19, "rs")]
}

// genBytes draws a string of arbitrary bytes (possibly invalid UTF-8).
func (c *C) genBytes() string {
	if c.uni(3, "bk") == 0 {
		return c.genStr()
	}
	n := c.intn(0, 10, "bn")
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.uni(256, "b"))
	}
	if c.oneIn(32, "blong") {
		return strings.Repeat("z", pick(c, "blen", 7, 15, 31, 63, 64, 100, 127, 255, 256, 1000)) + string(b)
	}
	return string(b)
}

const idKey = "___jnid_"

// genKey draws a dict key; keys collide often, also up to letter case.
func (c *C) genKey() string {
	var k string
	switch c.uni(9, "kk") {
	case 8:
		// long keys that differ in one place
		n := pick(c, "kl", 7, 15, 16, 20, 24, 31, 32, 63, 64)
		k = strings.Repeat("k", n) + pick(c, "km", "a", "b", "c", "A", ".", "_") + strings.Repeat("e", pick(c, "kn", 0, 1, 8, 16))
	case 0, 1, 2:
		k = pick(c, "ka", "a", "b", "c", "d", "e", "f")
	case 3:
		k = pick(c, "kb", "name", "Name", "NAME", "Id", "id", "ID", "aB", "Ab", "ab", "AB")
	case 4:
		k = rapid.StringMatching(`[a-c_.0-9A-C]{1,5}`).Draw(c.rt, "kc")
	case 5:
		k = c.genStrN(2)
	case 6:
		k = pick(c, "kd", "", "0", "1", "10", "2", "a.b", "a.0", "é", "É", "ß", "日本", "\U0001F600", "a b", "\"", "\\", "{", ":", "null", "true", "___jnid", "___jnid__", "__jnid_", "k\n", "\x00")
	default:
		k = rapid.StringMatching(`[a-z]{1,10}`).Draw(c.rt, "ke")
	}
	if k == idKey {
		k = "jnid"
	}
	return k
}

type genOpt struct {
	depth, width int
	str          func() string
	key          func() string
	float        func() float64
	noFloat      bool
	noNull       bool
}

func (c *C) opt(depth, width int) *genOpt {
	return &genOpt{depth: depth, width: width, str: c.genStr, key: c.genKey, float: c.genFloat}
}

func (c *C) genScalar(o *genOpt) *V {
	for {
		switch c.uni(8, "vk") {
		case 0:
			if o.noNull {
				return vInt(0)
			}
			return vNull()
		case 1:
			return vBool(c.flip("vb"))
		case 2, 3:
			return vInt(c.genInt())
		case 4:
			if o.noFloat {
				return vInt(c.genInt())
			}
			v := vFloat(o.float())
			v.F32 = same32(v.F) && c.flip("f32")
			return v
		default:
			return vStr(o.str())
		}
	}
}

func (c *C) genV(o *genOpt) *V { return c.genVd(o, o.depth) }

func (c *C) genVd(o *genOpt, d int) *V {
	if d <= 0 || c.uni(5, "vs") < 2 {
		return c.genScalar(o)
	}
	if c.uni(5, "va") < 2 {
		return c.genArr(o, d)
	}
	return c.genDictD(o, d)
}

func (c *C) genArr(o *genOpt, d int) *V {
	v := &V{K: KArray}
	n := c.intn(0, o.width, "an")
	if c.oneIn(32, "abig") {
		n = 11 + c.uni(6, "ab")
	}
	for i := 0; i < n; i++ {
		v.A = append(v.A, c.genVd(o, d-1))
	}
	return v
}

func (c *C) genDictD(o *genOpt, d int) *V {
	v := vDict()
	n := c.intn(0, o.width, "dn")
	if c.oneIn(32, "dbig") {
		n = 9 + c.uni(24, "db")
		for i := 0; i < n; i++ {
			v.set(fmt.Sprintf("%s%d", pick(c, "dp", "k", "K", "key"), c.uni(40, "dk")), c.genVd(o, d-2))
		}
		return v
	}
	for i := 0; i < n; i++ {
		v.set(o.key(), c.genVd(o, d-1))
	}
	return v
}

func (c *C) genDict(depth, width int) *V {
	o := c.opt(depth, width)
	return c.genDictD(o, depth)
}

// genDoc draws any document, sometimes very deep.
func (c *C) genDoc() *V {
	o := c.opt(4, 5)
	v := c.genV(o)
	if c.oneIn(96, "huge") {
		v = c.huge(v)
	}
	if c.oneIn(64, "deep") {
		n := pick(c, "deepn", 10, 17, 33, 64, 100, 200)
		for i := 0; i < n; i++ {
			if c.flip("deepk") {
				v = vArr(v)
			} else {
				v = vDict().set(pick(c, "deepkey", "a", "b", ""), v)
			}
		}
	}
	return v
}

// huge puts a big array or dict around or into v.
func (c *C) huge(v *V) *V {
	n := pick(c, "hugen", 33, 65, 130, 260, 520, 1030, 2100, 4200)
	at, mode := c.uni(n, "hugeat"), c.uni(4, "hugek")
	key := pick(c, "hugekey", "%d", "k%d", "K%03d", "%x.%[1]d")
	h := vArr()
	if c.flip("hugedict") {
		h = vDict()
	}
	for i := 0; i < n; i++ {
		x := vInt(int64(i))
		switch {
		case i == at:
			x = v
		case mode == 1:
			x = vStr(fmt.Sprintf("%d", i))
		case mode == 2:
			x = vArr(x)
		case mode == 3:
			x = vDict().set("k", x)
		}
		if h.K == KArray {
			h.A = append(h.A, x)
		} else {
			h.set(fmt.Sprintf(key, i*7919%n), x)
		}
	}
	return h
}

func docNontrivial(v *V) bool { return v.K == KArray && len(v.A) > 0 || v.K == KDict && len(v.D) > 0 }

// labelDoc records the distribution of document shapes.
func (c *C) labelDoc(v *V) {
	c.Label("root:" + v.K.String())
	d := v.depth()
	switch {
	case d >= 10:
		c.Label("depth>=10")
	case d >= 3:
		c.Label("depth 3-9")
	}
	esc, nonASCII, long, bigArr, bigDict := false, false, false, false, false
	chk := func(s string) {
		for i := 0; i < len(s); i++ {
			if s[i] < 0x20 || s[i] == '"' || s[i] == '\\' {
				esc = true
			}
			if s[i] >= 0x80 {
				nonASCII = true
			}
		}
		if len(s) >= 255 {
			long = true
		}
	}
	v.walk(func(x *V) {
		if x.K == KString {
			chk(x.S)
		}
		if x.K == KDict {
			for _, k := range x.Ord {
				chk(k)
			}
			if len(x.D) > 8 {
				bigDict = true
			}
		}
		if x.K == KArray && len(x.A) > 10 {
			bigArr = true
		}
	})
	c.LabelIf(esc, "has char to escape")
	c.LabelIf(nonASCII, "has non-ASCII")
	c.LabelIf(long, "string>=255 bytes")
	c.LabelIf(bigArr, "array>10")
	c.LabelIf(bigDict, "dict>8")
}

// ---------- reference JSON ----------

// stdRead reads JSON text with encoding/json (numbers kept exact) into a model.
// Integers that fit int64 become KInt, other finite numbers KFloat.
func stdRead(text string) (*V, error) {
	dec := json.NewDecoder(bytes.NewReader([]byte(text)))
	dec.UseNumber()
	var x interface{}
	if err := dec.Decode(&x); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return stdToV(x)
}

func numToV(s string) (*V, error) {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return vInt(i), nil
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, fmt.Errorf("number %s: %v", s, err)
	}
	return vFloat(f), nil
}

func stdToV(x interface{}) (*V, error) {
	switch t := x.(type) {
	case nil:
		return vNull(), nil
	case bool:
		return vBool(t), nil
	case string:
		return vStr(t), nil
	case json.Number:
		return numToV(string(t))
	case []interface{}:
		v := &V{K: KArray}
		for _, e := range t {
			w, err := stdToV(e)
			if err != nil {
				return nil, err
			}
			v.A = append(v.A, w)
		}
		return v, nil
	case map[string]interface{}:
		v := vDict()
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w, err := stdToV(t[k])
			if err != nil {
				return nil, err
			}
			v.set(k, w)
		}
		return v, nil
	}
	return nil, fmt.Errorf("type %T", x)
}

// refText writes a model value as compact JSON with an own, independent writer.
func refText(v *V) string {
	var sb strings.Builder
	var rec func(*V)
	rec = func(v *V) {
		switch v.K {
		case KNull:
			sb.WriteString("null")
		case KBool:
			sb.WriteString(strconv.FormatBool(v.B))
		case KInt:
			sb.WriteString(strconv.FormatInt(v.I, 10))
		case KFloat:
			sb.WriteString(strconv.FormatFloat(v.F, 'f', -1, 64))
		case KString:
			sb.WriteString(refQuote(v.S))
		case KArray:
			sb.WriteByte('[')
			for i, x := range v.A {
				if i > 0 {
					sb.WriteByte(',')
				}
				rec(x)
			}
			sb.WriteByte(']')
		case KDict:
			sb.WriteByte('{')
			for i, k := range v.keys() {
				if i > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(refQuote(k))
				sb.WriteByte(':')
				rec(v.D[k])
			}
			sb.WriteByte('}')
		}
	}
	rec(v)
	return sb.String()
}

func refQuote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '"' || ch == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(ch)
		case ch < 0x20:
			fmt.Fprintf(&sb, "\\u%04x", ch)
		default:
			sb.WriteByte(ch)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func validUTF8V(v *V) bool {
	ok := true
	v.walk(func(x *V) {
		if !utf8.ValidString(x.S) {
			ok = false
		}
		for _, k := range x.Ord {
			if !utf8.ValidString(k) {
				ok = false
			}
		}
	})
	return ok
}

// genVeryDeep draws a document nested hundreds to thousands of levels deep.
// It also gives what is at the bottom, and the number of levels above.
func (c *C) genVeryDeep() (*V, *V, int) {
	v := c.genV(c.opt(2, 3))
	inner := v
	n := pick(c, "vdeep", 130, 260, 520, 1030, 2100, 4500)
	n += c.uni(n/2, "vdeepn")
	mode := c.uni(4, "vdeepk")
	for i := 0; i < n; i++ {
		switch {
		case mode == 0 || mode > 1 && i%mode == 0:
			v = vArr(v)
		case mode == 3 && i%7 == 0:
			v = vDict().set("b", vInt(int64(i))).set("a", v)
		default:
			v = vDict().set("a", v)
		}
	}
	return v, inner, n
}

// compactText tells whether a text of JSON has no white space outside of its
// strings.
func compactText(s string) bool {
	in := false
	for i := 0; i < len(s); i++ {
		switch {
		case in && s[i] == '\\':
			i++
		case s[i] == '"':
			in = !in
		case !in && (s[i] == '\n' || s[i] == '\t' || s[i] == '\r'):
			return false
		}
	}
	return true
}
