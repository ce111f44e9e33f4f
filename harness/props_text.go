package main

// P01..P07: parsing and printing.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	ju "yunion.io/x/jsonutils"
)

// ---------- P01 parse totality ----------

var soupTokens = []string{"{", "}", "[", "]", ",", ":", "\"", "'", "\\", "\"a\"", "'b'", "null", "true", "no", "none", "1", "-1.5", "1e9", "<1>", "<2>", "<a>", "<-1>", "<0>", "<9223372036854775807>", "<-9223372036854775808>", "\"___jnid_\":-9223372036854775808", "\"___jnid_\":9223372036854775807", "<", ">", "<>", "___jnid_", "\"___jnid_\":1", "\"___jnid_\":", "{\"___jnid_\":1}", "\\u0041", "\\ud83d\\ude00", "\\ud83d", "\\u", "\\x41", "\\x", " ", "\t", "\n", "\r\n", "a", "\x00", "\xff", "é", "[[", "]]", "{\"a\":", "[1,", "\"abc", "//", "#", "-", "+", "e", ".", "NaN", "\"\\", "9223372036854775808", "99999999999999999999999999", "\u2028"}

func (c *C) genSoup() string {
	n := c.intn(0, 14, "soupn")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(soupTokens[c.uni(len(soupTokens), "soup")])
	}
	return sb.String()
}

// mutate edits a text at byte level.
func (c *C) mutate(s string) string {
	n := 1 + c.uni(3, "mutn")
	b := []byte(s)
	for i := 0; i < n; i++ {
		at := c.uni(len(b)+1, "mutat")
		switch c.uni(5, "mutk") {
		case 0: // delete a span
			e := at + c.uni(4, "mutl")
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:at:at], b[e:]...)
		case 1: // insert a token
			b = append(append(append([]byte{}, b[:at]...), soupTokens[c.uni(len(soupTokens), "mutt")]...), b[at:]...)
		case 2: // change a byte
			if at < len(b) {
				b = append([]byte{}, b...)
				b[at] = byte(c.uni(256, "mutb"))
			}
		case 3: // truncate
			b = b[:at:at]
		default: // repeat a span
			e := at + c.uni(8, "mutl")
			if e > len(b) {
				e = len(b)
			}
			b = append(append(append([]byte{}, b[:e]...), b[at:e]...), b[e:]...)
		}
	}
	return string(b)
}

func (c *C) genAnyText() (string, string) {
	switch c.uni(6, "textk") {
	case 0:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(c.rt, "raw")), "raw bytes"
	case 1, 2:
		return c.genSoup(), "token soup"
	case 3:
		return refText(c.genDoc()), "valid document"
	case 4:
		n := pick(c, "nest", 1, 2, 5, 10, 20, 50, 100, 150)
		if c.oneIn(32, "nestdeep") {
			n = 800
		}
		o := pick(c, "nesto", "[", "{\"a\":", "[1,", "{\"a\":1,\"b\":", "[{\"a\":")
		s := strings.Repeat(o, n) + c.genSoup()
		if c.flip("nestc") {
			s += strings.Repeat("]", n)
		}
		return s, "deep nesting"
	}
	return c.mutate(refText(c.genDoc())), "mutated document"
}

func useDoc(d ju.JSONObject) string {
	s := d.String()
	_ = d.PrettyString()
	_ = d.QueryString()
	_ = d.Interface()
	_ = d.Contains("a")
	d.Get("a", "b")
	d.GetIgnoreCases("A")
	d.GetAt(0)
	d.GetArray()
	d.GetMap()
	d.GetString()
	d.Int()
	d.Float()
	d.Bool()
	d.GetTime()
	cp := ju.DeepCopy(d)
	if cp == nil || cp.String() != s {
		return "copy differs"
	}
	// the lenient parser accepts NaN, which equals nothing, itself included
	if !strings.Contains(s, "NaN") && !d.Equals(cp) {
		return "not equal to its copy"
	}
	return ""
}

func init() {
	reg("P01", "parse", 12000, "a byte string (raw bytes, JSON token soup, deep nesting, a valid document, or a mutated document) parsed at a random offset; non-trivial: longer than 2 bytes and contains a bracket, brace or quote", func(c *C) {
		s, class := c.genAnyText()
		if c.oneIn(8, "cutescape") {
			// a text that ends within an escape
			e := pick(c, "esc", "\\ud83d\\ude00", "\\ud83d\\u00", "\\udc00\\ud800", "\\u0041\\x41", "\\ud8ff\\udfff", "\\x4\\", "\\u00e9")
			s = pick(c, "pre", "", "[", "{", "{\"a\":", "[1,", s) + pick(c, "quote", "\"", "'") + pick(c, "word", "", "a", "é") + e[:1+c.uni(len(e), "cutat")]
			class = "ends within an escape"
		}
		off := 0
		if c.oneIn(4, "useoff") {
			off = c.uni(len(s)+1, "off")
		}
		c.Case(len(s) > 2 && strings.ContainsAny(s, "[{\"'"), fmt.Sprintf("ParseStream(%q, %d)", s, off))
		c.Label(class)
		// a slice without spare capacity, and one with bytes behind its end that
		// must not be read
		in := make([]byte, len(s))
		copy(in, s)
		more := append([]byte(s), pick(c, "behind", "0041\"}]", "00}]'", "\"]}", "e5,1]", ":1}", "true]")...)[:len(s)]
		var d1, d2, d3 ju.JSONObject
		var e1, e2, e3 error
		var o1, o2 int
		c.Guard("ParseStream", func() {
			d1, o1, e1 = ju.ParseStream(in, off)
			d2, o2, e2 = ju.ParseStream(more, off)
			d3, e3 = ju.Parse(in[off:])
		})
		if string(in) != s {
			c.Failf("ParseStream changed its input %q to %q", s, in)
		}
		if (e1 == nil) != (e2 == nil) || o1 != o2 {
			c.Failf("parsing twice differs: %v/%d vs %v/%d", e1, o1, e2, o2)
		}
		if (e1 == nil) != (e3 == nil) {
			c.Failf("ParseStream(%q,%d) error %v but Parse(%q) error %v", s, off, e1, s[off:], e3)
		}
		if (e1 == nil) != (d1 != nil) {
			c.Failf("ParseStream(%q,%d) returned document %v with error %v", s, off, d1, e1)
		}
		if o1 < off || o1 > len(s) {
			c.Failf("ParseStream(%q, %d) returned offset %d outside of the input (%v)", s, off, o1, e1)
		}
		if e1 != nil {
			c.Label("rejected")
			c.Guard("error text", func() { _ = e1.Error() })
			return
		}
		c.Label("accepted")
		c.Guard("using the parsed document", func() {
			if d1.String() != d2.String() || d1.String() != d3.String() {
				c.Failf("parsing %q twice gives %s, %s and %s", s, d1, d2, d3)
			}
			if msg := useDoc(d1); msg != "" {
				c.Failf("document parsed from %q: %s", s, msg)
			}
			t := d1.String()
			if _, err := read(d3); err == nil && !strings.Contains(d3.String(), "NaN") && c.oneIn(4, "parts") {
				c.checkParts(fmt.Sprintf("document parsed from %q", clip(s, 1000)), d3)
			}
			for i := range in { // the text belongs to the caller
				in[i] = 'x'
			}
			if u := d1.String(); u != t {
				c.Failf("the document parsed from %q changes with its text from %s to %s", s, t, u)
			}
		})
	})
	reg("P01", "helpers", 5000, "a byte string given to ParseString, ParseJsonStreams, ParseQueryString and NewJSONError at any position; non-trivial: longer than 2 bytes", func(c *C) {
		s, class := c.genAnyText()
		if len(s) > 250 { // every '[' restarts the stream parser: quadratic by design
			s = s[:250]
		}
		if c.oneIn(3, "qs") {
			s = c.genQueryText()
			class = "query text"
		}
		pos := c.intn(-30, len(s)+30, "pos")
		c.Case(len(s) > 2, fmt.Sprintf("helpers(%q, %d)", s, pos))
		c.Label(class)
		c.Guard("ParseString", func() { ju.ParseString(s) })
		c.Guard("ParseJsonStreams", func() {
			ds, err := ju.ParseJsonStreams([]byte(s))
			if err != nil && len(ds) > 0 {
				c.Failf("ParseJsonStreams(%q) returned documents and error %v", s, err)
			}
			for _, d := range ds {
				if d == nil {
					c.Failf("ParseJsonStreams(%q) returned a nil document", s)
				}
				if msg := useDoc(d); msg != "" {
					c.Failf("document of stream %q: %s", s, msg)
				}
			}
		})
		c.Guard("ParseQueryString", func() {
			d, err := ju.ParseQueryString(s)
			if (err == nil) != (d != nil) {
				c.Failf("ParseQueryString(%q) returned %v, %v", s, d, err)
			}
			if err == nil {
				if msg := useDoc(d); msg != "" {
					c.Failf("document of query %q: %s", s, msg)
				}
			}
		})
		c.Guard("NewJSONError", func() {
			if !strings.Contains(ju.NewJSONError([]byte(s), pos, "some message").Error(), "some message") {
				c.Failf("NewJSONError(%q,%d) lost its message", s, pos)
			}
		})
	})
	reg("P01", "yaml", 1500, "a byte string given to ParseYAML; non-trivial: longer than 2 bytes", func(c *C) {
		s, class := c.genAnyText()
		if len(s) > 400 {
			s = s[:400]
		}
		if c.flip("blk") {
			s = c.genYamlSoup()
			class = "yaml soup"
		}
		c.Case(len(s) > 2, fmt.Sprintf("ParseYAML(%q)", s))
		c.Label(class)
		c.Guard("ParseYAML", func() {
			d, err := ju.ParseYAML(s)
			if (err == nil) != (d != nil) {
				c.Failf("ParseYAML(%q) returned %v, %v", s, d, err)
			}
			if err == nil {
				if msg := useDoc(d); msg != "" {
					c.Failf("document of yaml %q: %s", s, msg)
				}
			}
		})
	})
	regFixed("P01", "regress", "inputs that once crashed the parser", func(c *C) {
		for _, s := range []string{"[,1]", "{\"a\":}", ",", "]", "}", ":", "[", "{", "{\"___jnid_\":\"a\"}", "{\"___jnid_\":{}}", "[{\"___jnid_\":1},{\"___jnid_\":1}]", "{\"___jnid_\":1,\"___jnid_\":2}", "<1>", "[<1>]", "<>", "<", "", " ", "\"", "\"\\", "\"\\u", "\"\\u12", "\"\\x", "'"} {
			s := s
			c.Case(true, fmt.Sprintf("Parse(%q)", s))
			c.Guard(fmt.Sprintf("Parse(%q)", s), func() {
				d, err := ju.ParseString(s)
				if (err == nil) != (d != nil) {
					c.Failf("Parse(%q) returned %v, %v", s, d, err)
				}
				if err == nil {
					if msg := useDoc(d); msg != "" {
						c.Failf("document parsed from %q: %s", s, msg)
					}
				}
				ju.ParseJsonStreams([]byte(s))
			})
		}
		for _, s := range []string{"{\"___jnid_\":\"a\"}", "{\"___jnid_\":{}}", "[{\"___jnid_\":1},{\"___jnid_\":1}]"} {
			if _, err := ju.ParseString(s); err == nil {
				c.Failf("malformed node id %s accepted", s)
			}
		}
		for pos := -3; pos < 4; pos++ {
			_ = ju.NewJSONError(nil, pos, "m").Error()
			_ = ju.NewJSONError([]byte("a"), pos, "m").Error()
		}
	})
}

// ---------- P02 / P03 printing ----------

// genBytesDoc is a document whose strings and keys may hold any bytes.
func (c *C) genBytesDoc() *V {
	o := c.opt(3, 4)
	o.str = c.genBytes
	key := o.key
	o.key = func() string {
		if c.oneIn(4, "bkey") {
			if k := c.genBytes(); k != idKey {
				return k
			}
		}
		return key()
	}
	return c.genV(o)
}

// shuffled is a copy of v whose dict keys are in another insertion order.
func (c *C) shuffled(v *V) *V {
	n := v.clone()
	n.walk(func(x *V) {
		if x.K == KDict && len(x.Ord) > 1 {
			for i := len(x.Ord) - 1; i > 0; i-- {
				j := c.uni(i+1, "perm")
				x.Ord[i], x.Ord[j] = x.Ord[j], x.Ord[i]
			}
		}
	})
	return n
}

// stdKeyOrder checks with encoding/json tokens that the keys of every object
// of the text are in strictly ascending byte order.
func stdKeyOrder(text string) error {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	type frame struct {
		obj     bool
		wantKey bool
		last    string
		n       int
	}
	var stack []*frame
	done := func() {
		if len(stack) > 0 {
			stack[len(stack)-1].wantKey = true
		}
	}
	for {
		t, err := dec.Token()
		if err != nil {
			break
		}
		if len(stack) > 0 {
			f := stack[len(stack)-1]
			if s, ok := t.(string); ok && f.obj && f.wantKey {
				if f.n > 0 && s <= f.last {
					return fmt.Errorf("key %q after %q", s, f.last)
				}
				f.last = s
				f.n++
				f.wantKey = false
				continue
			}
		}
		if d, ok := t.(json.Delim); ok {
			switch d {
			case '{':
				stack = append(stack, &frame{obj: true, wantKey: true})
			case '[':
				stack = append(stack, &frame{})
			default:
				stack = stack[:len(stack)-1]
				done()
			}
			continue
		}
		done()
	}
	return nil
}

func checkRoundTrip(c *C, v *V, what string) {
	d := build(v)
	c.sameDoc(what+": building", v, d, false)
	var text string
	var back ju.JSONObject
	var err error
	c.Guard(what, func() {
		text = d.String()
		back, err = ju.ParseString(text)
	})
	if err != nil {
		c.Failf("%s: text %s of %s is not parsed: %v", what, clip(text, 1000), clip(v.String(), 1000), err)
	}
	c.sameDoc(what+": text "+clip(text, 1000), norm(v), back, false)
	if t2 := back.String(); t2 != text {
		c.Failf("%s: printing the parsed document differs\n first  %q\n second %q", what, clip(text, 1500), clip(t2, 1500))
	}
	// the whole text is consumed
	_, off, err := ju.ParseStream([]byte(text), 0)
	if err != nil || off != len(text) {
		c.Failf("%s: parsing %q consumed %d of %d bytes (%v)", what, clip(text, 1000), off, len(text), err)
	}
	if gs, err := d.GetString(); v.K != KString && (err != nil || gs != text) {
		c.Failf("%s: GetString() %q, %v differs from String() %q", what, clip(gs, 1000), err, clip(text, 1000))
	}
}

func checkOrderIndependent(c *C, v *V) {
	a, b := build(v), build(c.shuffled(v))
	ta, tb := a.String(), b.String()
	if ta != tb {
		c.Failf("insertion order changes the text\n %s\n %s", clip(ta, 1500), clip(tb, 1500))
	}
	if d, ok := a.(*ju.JSONDict); ok {
		ks := d.SortedKeys()
		if !sort.StringsAreSorted(ks) {
			c.Failf("SortedKeys not ascending: %q", ks)
		}
		if strings.Join(ks, "\x00\x01") != strings.Join(v.keys(), "\x00\x01") {
			c.Failf("SortedKeys %q, want %q", ks, v.keys())
		}
	}
	if validUTF8V(v) {
		if err := stdKeyOrder(ta); err != nil {
			c.Failf("keys out of order in %s: %v", clip(ta, 1500), err)
		}
	}
}

func checkStdReads(c *C, what, text string, v *V) {
	if !json.Valid([]byte(text)) {
		c.Failf("%s: output is not valid JSON: %q (document %s)", what, clip(text, 1500), clip(v.String(), 1500))
	}
	w, err := stdRead(text)
	if err != nil {
		c.Failf("%s: encoding/json rejects %q: %v", what, clip(text, 1500), err)
	}
	if !eqV(norm(v), w, false) {
		c.Failf("%s: encoding/json reads another document\n text %q\n want %s\n got  %s", what, clip(text, 1500), clip(norm(v).String(), 1500), clip(w.String(), 1500))
	}
}

func init() {
	const rule = "a document built through the API (nested dicts/arrays/scalars, special strings and numbers, colliding keys, sometimes 10-200 levels deep); non-trivial: a non-empty dict or array"
	reg("P02", "roundtrip", 10000, rule, func(c *C) {
		v := c.genDoc()
		c.Case(docNontrivial(v), v.String())
		c.labelDoc(v)
		checkRoundTrip(c, v, "round trip")
	})
	reg("P02", "bytes", 6000, "as roundtrip, with strings and keys of arbitrary bytes; non-trivial: some string is not valid UTF-8 or the document is a non-empty container", func(c *C) {
		v := c.genBytesDoc()
		c.Case(docNontrivial(v) || !validUTF8V(v), v.String())
		c.LabelIf(!validUTF8V(v), "invalid UTF-8")
		checkRoundTrip(c, v, "round trip")
	})
	reg("P02", "order", 5000, "a document built in two insertion orders; non-trivial: a dict with 2 or more keys", func(c *C) {
		v := c.genDict(3, 6)
		c.Case(len(v.D) > 1, v.String())
		checkOrderIndependent(c, v)
	})
	reg("P02", "scalars", 5000, "one scalar (int64, float64, float32, string of any bytes) alone, in an array and as dict value; non-trivial: always", func(c *C) {
		switch c.uni(4, "sck") {
		case 0:
			i := c.genInt()
			c.Case(true, fmt.Sprintf("int %d", i))
			for _, v := range []*V{vInt(i), vArr(vInt(i), vInt(i)), vDict().set("k", vInt(i))} {
				checkRoundTrip(c, v, "int")
			}
		case 1:
			f := c.genFloat()
			c.Case(true, fmt.Sprintf("float %x", f))
			for _, v := range []*V{vFloat(f), vArr(vFloat(f), vFloat(f)), vDict().set("k", vFloat(f))} {
				checkRoundTrip(c, v, "float")
			}
		case 2:
			f := float32(c.genFloat())
			if f != f || f-f != 0 {
				f = 0.1
			}
			c.Case(true, fmt.Sprintf("float32 %x", f))
			text := ju.NewFloat32(f).String()
			back, err := ju.ParseString("[" + text + "]")
			if err != nil {
				c.Failf("float32 %v prints as %q: %v", f, text, err)
			}
			g, err := strconv.ParseFloat(text, 32)
			if err != nil || float32(g) != f {
				c.Failf("float32 %v prints as %q", f, text)
			}
			e, _ := back.GetAt(0)
			x, err := e.Float()
			if err != nil || float32(x) != f {
				c.Failf("float32 %v prints as %q, which is read as %v (%v)", f, text, x, err)
			}
		default:
			s := c.genBytes()
			c.Case(true, fmt.Sprintf("string %q", s))
			for _, v := range []*V{vStr(s), vArr(vStr(s), vStr(s))} {
				checkRoundTrip(c, v, "string")
			}
			if s != idKey {
				checkRoundTrip(c, vDict().set(s, vStr(s)).set(s+"x", vNull()), "string")
			}
		}
	})
	reg("P02", "notations", 4000, "a document read from a text with floats written with an exponent, many digits or few, then printed and read again; non-trivial: the printed text differs from the text", func(c *C) {
		var want []float64
		text := "["
		for i := 1 + c.uni(4, "n"); i > 0; i-- {
			var s string
			if c.flip("short") {
				s = fmt.Sprintf("%d%s%d", c.intn(-99, 99, "m"), pick(c, "e", "e", "E", "e+", "e-", "E-", ".5e", ".25e-"), c.uni(pick(c, "er", 20, 50, 300), "x"))
			} else {
				s = strconv.FormatFloat(c.genFloat(), pick(c, "fmt", byte('e'), 'E', 'f', 'g'), pick(c, "prec", -1, -1, 0, 1, 3, 17, 30), 64)
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil || !strings.ContainsAny(s, ".eE") {
				s, f = "0.5", 0.5
			}
			if f == 0 {
				s, f = "0.0", 0
			}
			want = append(want, f)
			if len(text) > 1 {
				text += ","
			}
			text += s
		}
		text += "]"
		var d, back ju.JSONObject
		var err, err2 error
		printed := ""
		c.Guard("reading and printing", func() {
			if d, err = ju.ParseString(text); err == nil {
				printed = d.String()
				back, err2 = ju.ParseString(printed)
			}
		})
		c.Case(printed != text, text)
		if err != nil || err2 != nil {
			c.Failf("%s printed as %s: %v, %v", text, clip(printed, 1000), err, err2)
		}
		for _, x := range []ju.JSONObject{d, back} {
			for i, f := range want {
				e, _ := x.GetAt(i)
				if e == nil {
					c.Failf("%s printed as %s has no element %d", text, clip(printed, 1000), i)
				}
				if g, err := e.Float(); err != nil || g != f {
					c.Failf("element %d of %s, printed as %s, is %v, not %v (%v)", i, text, clip(printed, 1000), g, f, err)
				}
			}
		}
	})
	regFixed("P02", "regress", "plain cases", func(c *C) {
		for _, v := range []*V{vFloat(0.1), vFloat(1e100), vStr("\u0000\u001f\u007f\"\\/\b\f\n\r\t"), vStr("\U0001F600"), vArr(), vDict(), vArr(vArr(), vDict()), vDict().set("", vNull()), vDict().set("\"\\\n", vStr("'")), vStr("<1>"), vArr(vStr("null"), vStr("true"), vStr("1"), vStr("")), vInt(-1 << 63)} {
			c.Case(true, v.String())
			checkRoundTrip(c, v, "plain case")
		}
	})

	reg("P03", "valid", 12000, rule+"; strings are valid UTF-8", func(c *C) {
		v := c.genDoc()
		c.Case(docNontrivial(v), v.String())
		c.labelDoc(v)
		d := build(v)
		c.Guard("String", func() {
			checkStdReads(c, "String", d.String(), v)
			checkStdReads(c, "PrettyString", d.PrettyString(), v)
		})
		c.LabelIf(v.K == KDict, "dict root")
	})
	reg("P03", "chars", 3000, "a string of 1-6 characters from the whole of Unicode, as value and as key; non-trivial: always", func(c *C) {
		n := 1 + c.uni(6, "n")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(c.genRune())
		}
		s := sb.String()
		if s == idKey {
			s += "x"
		}
		c.Case(true, fmt.Sprintf("%q", s))
		v := vDict().set(s, vArr(vStr(s)))
		d := build(v)
		checkStdReads(c, "String", d.String(), v)
		checkStdReads(c, "PrettyString", d.PrettyString(), v)
		checkStdReads(c, "scalar", build(vStr(s)).String(), vStr(s))
	})
	regFixed("P03", "allchars", "every control and ASCII character, and the borders of the UTF-8 lengths, as value and key", func(c *C) {
		rs := []rune{}
		for r := rune(0); r < 0x180; r++ {
			rs = append(rs, r)
		}
		rs = append(rs, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff)
		for _, r := range rs {
			s := string(r)
			c.Case(true, fmt.Sprintf("%q", s))
			v := vDict().set(s, vStr(s+"a"+s)).set("a"+s, vArr(vStr(s)))
			d := build(v)
			checkStdReads(c, "String", d.String(), v)
			checkStdReads(c, "PrettyString", d.PrettyString(), v)
			checkRoundTrip(c, v, "char")
		}
	})
}

// ---------- P04 RFC 8259 texts ----------

// rfcWriter renders a model value as RFC 8259 text with random freedom.
type rfcWriter struct {
	c       *C
	sb      strings.Builder
	escapes bool
	stats   map[string]bool
}

func (w *rfcWriter) ws() {
	if w.c.uni(4, "ws") == 0 {
		n := 1 + w.c.uni(3, "wsn")
		if w.c.oneIn(128, "wslong") {
			s := strings.Repeat(pick(w.c, "wsl", " ", "\n", "\t", "\r\n", " \n"), pick(w.c, "wsln", 20, 70, 140, 300, 600, 1100, 4200, 70000))
			w.sb.WriteString(s)
		}
		for i := 0; i < n; i++ {
			w.sb.WriteByte(" \t\n\r"[w.c.uni(4, "wsc")])
		}
		w.stats["whitespace"] = true
	}
}

func (w *rfcWriter) hex4(r uint16) {
	w.sb.WriteString(`\u` + w.c.hexCase(fmt.Sprintf("%04x", r)))
}

// hexCase writes hex digits in lower case, in upper case or mixed.
func (c *C) hexCase(h string) string {
	switch c.uni(3, "hexcase") {
	case 0:
		return h
	case 1:
		return strings.ToUpper(h)
	}
	b := []byte(h)
	for i := range b {
		if b[i] >= 'a' && c.flip("hexup") {
			b[i] -= 32
		}
	}
	return string(b)
}

func (w *rfcWriter) str(s string) {
	w.sb.WriteByte('"')
	for _, r := range s {
		esc := 0
		if w.escapes {
			esc = w.c.uni(4, "esc")
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[r]
		must := r < 0x20 || r == '"' || r == '\\'
		switch {
		case short != "" && (must && esc < 2 || esc == 1):
			w.sb.WriteString(short)
			w.stats["short escape"] = true
		case must || esc == 3:
			if r > 0xffff {
				r -= 0x10000
				w.hex4(uint16(0xd800 + r>>10))
				w.hex4(uint16(0xdc00 + r&0x3ff))
				w.stats["surrogate pair"] = true
			} else {
				w.hex4(uint16(r))
				w.stats["\\u escape"] = true
			}
		default:
			w.sb.WriteRune(r)
		}
	}
	w.sb.WriteByte('"')
}

func (w *rfcWriter) digits(lo, hi int) string {
	n := lo + w.c.uni(hi-lo+1, "dign")
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(w.c.uni(10, "dig"))
	}
	return string(b)
}

// number draws a number by the RFC grammar whose value is a finite float64.
func (w *rfcWriter) number() string {
	s := ""
	if w.c.flip("nneg") {
		s = "-"
	}
	if w.c.uni(3, "nint") == 0 {
		s += "0"
	} else {
		s += string(rune('1'+w.c.uni(9, "n1"))) + w.digits(0, pick(w.c, "nlen", 1, 3, 8, 16, 19, 25))
	}
	if s != "0" && s != "-0" && w.c.oneIn(32, "nlong") {
		// long but finite
		s += strings.Repeat(w.digits(1, 4), pick(w.c, "nlongn", 5, 12, 20, 40, 60))
	}
	if w.c.oneIn(32, "nlongfrac") {
		s += "." + strings.Repeat(w.digits(1, 4), pick(w.c, "nlongn", 3, 12, 20, 40, 100, 300, 1000))
		w.stats["long fraction"] = true
	} else if w.c.uni(3, "nfrac") == 0 {
		s += "." + w.digits(1, 6)
		w.stats["fraction"] = true
	}
	if w.c.uni(3, "nexp") == 0 && len(s) < 200 {
		s += pick(w.c, "e", "e", "E", "e+", "E-", "e-", "E+") + pick(w.c, "ed", "0", "1", "2", "5", "05", "10", "20", "100", "007", "00", "000")
		w.stats["exponent"] = true
	}
	return s
}

func (w *rfcWriter) val(v *V) {
	w.ws()
	switch v.K {
	case KArray:
		w.sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			w.val(x)
		}
		if len(v.A) == 0 {
			w.ws()
		}
		w.sb.WriteByte(']')
	case KDict:
		w.sb.WriteByte('{')
		for i, k := range v.Ord {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			if w.c.oneIn(16, "dup") {
				// a duplicate of the key: the last one wins
				w.ws()
				w.str(k)
				w.ws()
				w.sb.WriteByte(':')
				w.val(w.c.genScalar(w.c.opt(0, 0)))
				w.sb.WriteByte(',')
				w.stats["duplicate key"] = true
			}
			w.ws()
			w.str(k)
			w.ws()
			w.sb.WriteByte(':')
			w.val(v.D[k])
		}
		if len(v.Ord) == 0 {
			w.ws()
		}
		w.sb.WriteByte('}')
	case KString:
		if w.escapes && w.c.oneIn(16, "lone") {
			w.stats["lone surrogate"] = true
			w.sb.WriteString(pick(w.c, "lonek", `"\ud800"`, `"\ude00x"`, `"a\ud83d\u0041"`, `"\ud83d\ud83d\ude00"`, `"\ude00\ud83d"`, `"\uD83D\n"`, `"\ud83d\\u0041"`, `"\ud83d"`, `"\uDBFF\uDFFF"`, `"\uD800\uDC00"`, `"\ud83dude00"`))
			return
		}
		w.str(v.S)
	case KInt, KFloat:
		if w.c.flip("numform") {
			w.sb.WriteString(w.number())
			w.stats["number form"] = true
			return
		}
		w.sb.WriteString(refText(v))
	default:
		w.sb.WriteString(refText(v))
	}
	w.ws()
}

func init() {
	reg("P04", "rfc", 12000, "an RFC 8259 text made by a grammar (free whitespace, every escape form, surrogate pairs and lone surrogates, number forms, duplicate keys, scalar roots), read by the library and by encoding/json; non-trivial: uses at least one of these freedoms", func(c *C) {
		var v *V
		if c.oneIn(6, "scal") {
			v = c.genScalar(c.opt(0, 0))
		} else {
			v = c.genV(c.opt(3, 4))
		}
		w := &rfcWriter{c: c, escapes: c.flip("escapes"), stats: map[string]bool{}}
		w.val(v)
		text := w.sb.String()
		c.Case(len(w.stats) > 0, text)
		for k := range w.stats {
			c.Label(k)
		}
		c.Label("root:" + v.K.String())
		want, err := stdRead(text)
		if err != nil {
			panic(fmt.Sprintf("generator made an invalid text %q: %v", text, err))
		}
		var d ju.JSONObject
		c.Guard("Parse", func() { d, err = ju.ParseString(text) })
		if err != nil {
			c.Failf("RFC 8259 text %q rejected: %v", clip(text, 2000), err)
		}
		c.sameDoc("text "+clip(strconv.Quote(text), 2000), want, d, false)
	})
	regFixed("P04", "regress", "plain cases", func(c *C) {
		for _, s := range []string{`"\ud83d\ude00"`, `["\uD83D\uDE00x"]`, `"\ud83d"`, `"\ud83d\u0041"`, ` [ ] `, `{ }`, `-0`, `1E400x`, `[1e2,1E-2,-0.0e+1]`, `{"a":1,"a":2}`, `"\/\b\f\n\r\t\"\\\u0000"`, `[[],{},[{}]]`, "\t\r\n[\t\r\n1\t\r\n,\t\r\n2\t\r\n]\t\r\n", `true`, `false`, `null`, `12345678901234567890`, `9223372036854775807`, `-9223372036854775808`, `9223372036854775808`} {
			want, err := stdRead(s)
			if err != nil {
				continue
			}
			c.Case(true, s)
			d, err := ju.ParseString(s)
			if err != nil {
				c.Failf("%q rejected: %v", s, err)
			}
			c.sameDoc(s, want, d, false)
		}
	})
}

// ---------- P05 truncated and malformed texts ----------

// tok is a token of a rendered document.
type tok struct {
	s    string
	kind byte // one of [ ] { } : , or 's' quoted string, 'v' bare scalar
}

func tokens(v *V) []tok {
	var out []tok
	var rec func(*V)
	rec = func(v *V) {
		switch v.K {
		case KArray:
			out = append(out, tok{"[", '['})
			for i, x := range v.A {
				if i > 0 {
					out = append(out, tok{",", ','})
				}
				rec(x)
			}
			out = append(out, tok{"]", ']'})
		case KDict:
			out = append(out, tok{"{", '{'})
			for i, k := range v.Ord {
				if i > 0 {
					out = append(out, tok{",", ','})
				}
				out = append(out, tok{refQuote(k), 's'}, tok{":", ':'})
				rec(v.D[k])
			}
			out = append(out, tok{"}", '}'})
		case KString:
			out = append(out, tok{refQuote(v.S), 's'})
		default:
			out = append(out, tok{refText(v), 'v'})
		}
	}
	rec(v)
	return out
}

func joinToks(ts []tok, sep string) string {
	ss := make([]string, len(ts))
	for i := range ts {
		ss[i] = ts[i].s
	}
	return strings.Join(ss, sep)
}

func (c *C) mustReject(what, text string) {
	var err error
	var d ju.JSONObject
	if len(text)%2 == 0 {
		c.Guard("Parse", func() { d, err = ju.ParseString(text) })
	} else {
		// with bytes behind the text, which must not be read
		b := append([]byte(text), "\"0041\"}]}]"...)
		c.Guard("Parse", func() { d, err = ju.Parse(b[:len(text):len(text)]) })
		if err != nil && d == nil {
			c.Guard("Parse", func() { d, err = ju.Parse(b[:len(text)]) })
		}
	}
	if err == nil {
		c.Failf("%s is accepted: %q is parsed as %s", what, clip(text, 2000), show(d))
	}
	if d != nil {
		c.Failf("%s: %q is rejected (%v), but returns %s", what, clip(text, 2000), err, show(d))
	}
}

func init() {
	reg("P05", "prefix", 2500, "all proper prefixes (a sample of 80 for texts over 300 bytes) of the text of a container or a quoted string; non-trivial: the text has more than 2 bytes", func(c *C) {
		var v *V
		if c.oneIn(4, "str") {
			v = vStr(c.genStr())
		} else if c.flip("dict") {
			v = c.genDict(3, 4)
		} else {
			v = c.genArr(c.opt(3, 4), 3)
		}
		v = c.wrapped(v)
		sep := pick(c, "sep", "", " ", "\n")
		text := joinToks(tokens(v), sep)
		if c.oneIn(4, "pretty") {
			text = build(v).PrettyString()
		}
		c.Case(len(text) > 2, text)
		c.Label("root:" + v.K.String())
		if _, err := ju.ParseString(text); err != nil {
			c.Failf("complete text %q rejected: %v", clip(text, 2000), err)
		}
		step := 1
		if len(text) > 300 {
			step = len(text) / 80
		}
		for i := 0; i < len(text); i += step {
			c.mustReject("truncated text", text[:i])
		}
		c.mustReject("truncated text", text[:len(text)-1])
	})
	reg("P05", "lax", 2500, "all proper prefixes (a sample of 80 for texts over 300 bytes) of a text in relaxed notations, which is a container or between single quotes; non-trivial: a relaxed notation occurs", func(c *C) {
		o := c.opt(2, 4)
		o.str = c.laxStr
		v := norm(c.genV(o))
		w := &laxWriter{c: c, stats: map[string]bool{}}
		if v.K == KArray || v.K == KDict {
			bad := false
			v.walk(func(x *V) { bad = bad || x.D[idKey] != nil })
			if !bad {
				w.val(v, false)
			}
		} else {
			w.quoted(c.laxStr())
		}
		text := strings.TrimRight(w.sb.String(), " \t\r\n")
		c.Case(len(w.stats) > 0, text)
		if text == "" {
			return
		}
		if _, err := ju.ParseString(text); err != nil {
			c.Failf("complete text %q rejected: %v", clip(text, 2000), err)
		}
		step := 1
		if len(text) > 300 {
			step = len(text) / 80
		}
		for i := 0; i < len(text); i += step {
			c.mustReject("truncated text", text[:i])
		}
		c.mustReject("truncated text", text[:len(text)-1])
	})
	reg("P05", "malformed", 8000, "a document text with one structural error: a colon or comma missing or doubled into the other, an opening or closing bracket of the wrong kind, a broken \\u or \\x escape; non-trivial: always", func(c *C) {
		v := c.genDict(3, 4)
		if c.flip("arr") {
			v = c.genArr(c.opt(3, 4), 3)
		}
		v = c.wrapped(v)
		ts := tokens(v)
		var colons, commas, opens, closes, strs []int
		for i, t := range ts {
			switch t.kind {
			case ':':
				colons = append(colons, i)
			case ',':
				commas = append(commas, i)
			case '[', '{':
				opens = append(opens, i)
			case ']', '}':
				closes = append(closes, i)
			case 's':
				strs = append(strs, i)
			}
		}
		what := ""
		edit := append([]tok{}, ts...)
		at := func(l []int) int { return l[c.uni(len(l), "at")] }
		flip := map[byte]string{'[': "{", '{': "[", ']': "}", '}': "]"}
		// around the tokens, and in the place of the missing one
		sep := pick(c, "sep", " ", " ", "", "\n", "\t", "\r\n", "\n ", "  ")
		blank := pick(c, "blank", " ", " ", "\n", "\t", "\r", "\r\n", "\n\n", "  ", "")
		k := c.uni(8, "err")
		if k > 1 && sep == "" {
			sep = " "
		}
		switch {
		case k == 7:
			// inside the outermost container, in front of any token but the first
			var places []int
			for i := 1; i < len(ts); i++ {
				// where the junk cannot be an element or a value of its own
				if strings.IndexByte(":,[{", ts[i-1].kind) < 0 || strings.IndexByte("]}", ts[i].kind) < 0 {
					places = append(places, i)
				}
			}
			if len(places) == 0 {
				c.Case(false, "empty container")
				return
			}
			i := at(places)
			junk := pick(c, "junk", "/*x*/", "/**/", "/*,*/", "/* a b */", "//x\n", "//\n", "// x, y\n", "#x\n", "#\n", ";", "|", "=", "--x", "\u00a0", "\ufeff", "\u2028", "\x00", "/", "\\", "~", "<!-- -->", "x", "null", "1", "\"\"", "?", "@a", "+", "\x7f")
			edit[i].s = junk + sep + edit[i].s
			what = "junk between tokens"
		case k == 0 && len(colons) > 0:
			edit[at(colons)].s = blank
			what = "missing colon"
		case k == 1 && len(commas) > 0:
			i := at(commas)
			if blank+sep == "" && ts[i-1].kind == 'v' {
				// would be one word
				blank = "\n"
			}
			edit[i].s = blank
			what = "missing comma"
		case k == 2 && len(colons) > 0:
			edit[at(colons)].s = pick(c, "bad", ",", "=", "]", "}", ": :", "=>", "->", ":=", "::", "=:", ":,", ";", "\uff1a", "\u2236", "\ufe55", "|", "/:", "\u00a0:", "\ufeff:")
			what = "wrong character for a colon"
		case k == 3 && len(commas) > 0:
			// a colon where a comma belongs
			edit[at(commas)].s = pick(c, "badc", ":", ";x", ";", "\uff0c", "\u3001", "\u060c", "\ufe50", "|", "&", "&&", "/,", "\u00a0,", "\ufeff,", ",;", "=>", "\\,")
			what = "wrong character for a comma"
		case k == 4:
			i := at(opens)
			edit[i].s = flip[ts[i].kind]
			what = "wrong opening bracket"
		case k == 5 && len(strs) > 0:
			i := at(strs)
			bad := pick(c, "badesc", `\u00g0`, `\u12`, `\u`, `\uzzzz`, `\xg0`, `\x4`, `\x`, `\u 041`, `\u-041`, `\u004`)
			s := ts[i].s
			if c.flip("badplace") {
				// after other escapes, with more text behind
				lead := pick(c, "badlead", "", `\ud83d`, `\ude00`, `\ud83d\ude00`, `\ud83dx`, `\u0041`, `\\`, `\n`, `\x41`, `\"`)
				tail := pick(c, "badtail", "", " ", "zzzzzz ", `\u0041`, `\n`, "\u00e9", `\ude00`, "xyzxyzxyzxyz")
				edit[i].s = `"` + pick(c, "badhead", "", "x", "\u00e9") + lead + bad + tail + s[1:]
				if strings.IndexByte("0123456789abcdefABCDEF", (tail + s[1:])[0]) >= 0 && strings.IndexAny(bad, "gz -") < 0 {
					// the digits would be completed
					edit[i].s = `"` + lead + bad + `"`
				}
			} else {
				edit[i].s = s[:len(s)-1] + bad + `"`
			}
			what = "broken escape"
		default:
			i := at(closes)
			edit[i].s = flip[ts[i].kind]
			what = "wrong closing bracket"
		}
		text := joinToks(edit, sep)
		c.Case(true, text)
		c.Label(what)
		c.mustReject(what, text)
	})
	regFixed("P05", "regress", "plain cases", func(c *C) {
		for _, s := range []string{"[", "{", "[1,", `{"a":1,`, `"abc`, `'abc`, `{"a"`, `{"a":`, `[1 2]`, `{"a" 1}`, `{"a":1 "b":2}`, `[1}`, `{"a":1]`, `["\u12"]`, "", " "} {
			c.Case(true, s)
			c.mustReject("plain case", s)
		}
	})
}

// wrapped puts a container around some times now and then.
func (c *C) wrapped(v *V) *V {
	if !c.oneIn(10, "wrap") {
		return v
	}
	n, how := pick(c, "wrapn", 3, 5, 9, 9, 17, 17, 20, 24, 33, 40), c.uni(3, "wraphow")
	at := c.uni(n, "wrapat") // a dict among the arrays, an array among the dicts
	for i := 0; i < n; i++ {
		if how == 0 || how == 2 && i == at || how == 1 && i != at {
			v = vDict().set("a", v)
		} else {
			v = vArr(v)
		}
	}
	c.Label("many levels")
	return v
}

// ---------- P06 streams ----------

func (c *C) genNoise(l string) string {
	if c.flip(l + "no") {
		return pick(c, l, "", " ", "\n", "\r\n\t")
	}
	s := pick(c, l+"k", "", ",", ";", "}", "]", "x", "\"", "'", "\\", "null", "1", "2020-01-01 INFO ", "a:b,c ", "\x00\xff", "\"}]", "é", ": ") + pick(c, l+"k2", "", " ", "log: ", "\n", "\"\"", "<1>")
	return s
}

func init() {
	reg("P06", "offset", 6000, "a document text at a random offset inside other bytes; non-trivial: there are bytes before and after the document", func(c *C) {
		var v *V
		if c.oneIn(3, "str") {
			v = vStr(c.genStr())
		} else if c.flip("dict") {
			v = c.genDict(3, 4)
		} else {
			v = c.genArr(c.opt(3, 4), 3)
		}
		before := c.genNoise("before")
		ws := pick(c, "ws", "", " ", "\n\t", "   ")
		after := c.genNoise("after")
		doc := refText(v)
		if c.flip("pretty") {
			doc = build(v).PrettyString()
		}
		if c.oneIn(4, "another") {
			after += refText(c.genV(c.opt(2, 3)))
		}
		text := before + ws + doc + after
		c.Case(before != "" && after != "", fmt.Sprintf("%q at %d", text, len(before)))
		var d ju.JSONObject
		var off int
		var err error
		c.Guard("ParseStream", func() { d, off, err = ju.ParseStream([]byte(text), len(before)) })
		if err != nil {
			c.Failf("ParseStream(%q, %d): %v", clip(text, 2000), len(before), err)
		}
		c.sameDoc("stream "+strconv.Quote(clip(text, 1000)), norm(v), d, false)
		if want := len(before) + len(ws) + len(doc); off != want {
			c.Failf("ParseStream(%q, %d) returned offset %d, the document ends at %d", clip(text, 2000), len(before), off, want)
		}
	})
	reg("P06", "bare", 2000, "a bare scalar followed by a delimiter; non-trivial: the rest is not empty", func(c *C) {
		o := c.opt(0, 0)
		v := c.genScalar(o)
		for i := 0; v.K == KString; i++ {
			v = vInt(c.genInt())
		}
		doc := refText(v)
		after := pick(c, "after", "", " ", ",", "]", "}", "\n1", ", 2", " x", "\t\"a\"", ":1", "\r\n[2]")
		text := "  " + doc + after
		c.Case(after != "", text)
		d, off, err := ju.ParseStream([]byte(text), 0)
		if err != nil {
			c.Failf("ParseStream(%q): %v", text, err)
		}
		c.sameDoc("stream "+text, norm(v), d, false)
		if off != 2+len(doc) {
			c.Failf("ParseStream(%q) returned offset %d, the scalar ends at %d", text, off, 2+len(doc))
		}
	})
	reg("P06", "concat", 5000, "a stream of 0-6 documents (dicts and arrays) with noise without brackets between them, sometimes cut off inside a last document; non-trivial: 2 or more documents", func(c *C) {
		n := c.intn(0, 6, "n")
		var want []*V
		var sb strings.Builder
		sb.WriteString(c.genNoise("n0"))
		for i := 0; i < n; i++ {
			var v *V
			if c.flip("dict") {
				v = c.genDict(2, 3)
			} else {
				v = c.genArr(c.opt(2, 3), 2)
			}
			if i > 0 && c.oneIn(4, "again") {
				v = want[c.uni(i, "which")].clone()
				c.Label("a document twice")
			} else if c.oneIn(6, "long") {
				// of some size
				v.some("pad", vStr(strings.Repeat(pick(c, "pad", "x", "]{", "\"", "é"), pick(c, "padn", 30, 100, 300, 1100))))
			}
			want = append(want, norm(v))
			if c.oneIn(4, "pretty") {
				sb.WriteString(build(v).PrettyString())
			} else {
				sb.WriteString(refText(v))
			}
			sb.WriteString(c.genNoise("n"))
		}
		cut := c.oneIn(4, "cut")
		if cut {
			last := c.genDict(2, 3)
			if c.oneIn(4, "cutbig") {
				// many brackets, any of which may start a document
				some := &V{K: KArray}
				for i := pick(c, "cutn", 10, 33, 65, 100, 129, 257, 300); i > 0; i-- {
					some.A = append(some.A, vDict().set("a", vInt(1)))
				}
				last.set("zz", some)
				c.Label("cut in a large document")
			}
			t := refText(last)
			if c.oneIn(4, "cutdeep") {
				t = strings.Repeat(pick(c, "cutopen", "[", `{"a":`, `["x",{"b":`), pick(c, "cutd", 10, 33, 65, 100, 129, 257)) + t
				c.Label("cut in a deep document")
			}
			sb.WriteString(t[:1+c.uni(len(t)-1, "cutat")])
		}
		text := sb.String()
		c.Case(n > 1, text)
		c.LabelIf(cut, "cut off")
		c.Label(fmt.Sprintf("docs:%d", n))
		var ds []ju.JSONObject
		var err error
		c.Guard("ParseJsonStreams", func() { ds, err = ju.ParseJsonStreams([]byte(text)) })
		if cut && len(ds) == 0 {
			// nothing but a broken document
			if err == nil {
				c.Failf("ParseJsonStreams(%q) finds no document and reports no error", clip(text, 2000))
			}
			err = nil
		}
		if err != nil {
			c.Failf("ParseJsonStreams(%q): %v", clip(text, 2000), err)
		}
		if len(ds) != n && !(cut && len(ds) > n) {
			c.Failf("ParseJsonStreams(%q) found %d documents, there are %d", clip(text, 2000), len(ds), n)
		}
		for i := range want {
			c.sameDoc(fmt.Sprintf("document %d of stream %q", i, clip(text, 1000)), want[i], ds[i], false)
		}
	})
	reg("P06", "bulk", 60, "a stream of up to some thousand documents, 100 to 200000 bytes altogether, separated by little or nothing, with some larger ones; non-trivial: more than 64 KiB", func(c *C) {
		var want []string
		var sb strings.Builder
		big := pick(c, "total", 100, 3000, 5000, 9000, 20000, 40000, 66000, 70000, 140000, 200000)
		sep := pick(c, "sep", "", "", "\n", " ", ",\n")
		size := pick(c, "size", 1, 4, 30, 300, 3000)
		for sb.Len() < big {
			i := len(want)
			doc := fmt.Sprintf(`{"n":%d,"pad":"%s"}`, i, strings.Repeat("x", i*31%size))
			if i%2 == 1 {
				doc = fmt.Sprintf(`[[%d],"%s"]`, i, strings.Repeat("y]", i*17%size))
			}
			want = append(want, doc)
			sb.WriteString(doc + sep)
		}
		text := sb.String()
		c.Case(len(text) > 1<<16, fmt.Sprintf("%d documents in %d bytes, separated by %q, padded by up to %d", len(want), len(text), sep, size))
		var ds []ju.JSONObject
		var err error
		c.Guard("ParseJsonStreams", func() { ds, err = ju.ParseJsonStreams([]byte(text)) })
		if err != nil || len(ds) != len(want) {
			c.Failf("ParseJsonStreams found %d of %d documents in %d bytes (%q between them, padded by up to %d): %v", len(ds), len(want), len(text), sep, size, err)
		}
		off := 0
		for i := range want {
			if got := ds[i].String(); got != want[i] {
				c.Failf("document %d of %d is %q, not %q", i, len(want), clip(got, 200), clip(want[i], 200))
			}
			if len(text) < 20000 {
				d, next, err := ju.ParseStream([]byte(text), off)
				if err != nil || d.String() != want[i] || next != off+len(want[i]) {
					c.Failf("ParseStream at %d of %d bytes: %v, %v, next %d", off, len(text), d, err, next)
				}
				off = next + len(sep)
			}
		}
	})
	reg("P06", "nodes", 2500, "a stream of up to five documents with node ids and references, the ids of each count from one again; non-trivial: two documents or more with ids", func(c *C) {
		var want []string
		var sb strings.Builder
		ids := 0
		for i := 1 + c.uni(5, "n"); i > 0; i-- {
			next := 0
			t := c.genNd(3, func() string { next++; return strconv.Itoa(next) })
			if t.kind != 'd' && t.kind != 'a' {
				continue
			}
			ids += b2i(next > 0)
			want = append(want, t.plain())
			sb.WriteString(pick(c, "sep", "", " ", "\n", ",", "log: "))
			t.write(&sb)
		}
		text := sb.String()
		c.Case(ids > 1, text)
		var ds []ju.JSONObject
		var err error
		c.Guard("ParseJsonStreams", func() { ds, err = ju.ParseJsonStreams([]byte(text)) })
		if err != nil || len(ds) != len(want) {
			c.Failf("ParseJsonStreams(%q) found %d documents, there are %d: %v", clip(text, 2000), len(ds), len(want), err)
		}
		for i := range want {
			if ds[i].String() != want[i] {
				c.Failf("document %d of stream %q is\n%s, want\n%s", i, clip(text, 2000), ds[i], want[i])
			}
		}
	})
	regFixed("P06", "regress", "plain cases", func(c *C) {
		for s, n := range map[string]int{`{}{}`: 2, `[] []`: 2, `x{"a":1}y[1]z`: 2, ``: 0, `abc`: 0, `{"a":"}{"}[1,"]["]`: 2} {
			c.Case(true, s)
			ds, err := ju.ParseJsonStreams([]byte(s))
			if err != nil || len(ds) != n {
				c.Failf("ParseJsonStreams(%q) = %d documents, %v", s, len(ds), err)
			}
		}
	})
}

// ---------- P07 pretty printing ----------

// stripSpace removes the white space outside of strings.
func stripSpace(s string) string {
	var sb strings.Builder
	quoted := false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case quoted && ch == '\\' && i+1 < len(s):
			sb.WriteByte(ch)
			i++
			ch = s[i]
		case ch == '"':
			quoted = !quoted
		case !quoted && (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'):
			continue
		}
		sb.WriteByte(ch)
	}
	return sb.String()
}

// prettyRef is the layout of PrettyString: every item on a line of its own, two
// spaces deeper than its container, a container as dict value below its key.
func prettyRef(v *V, indent string) string {
	var items []string
	switch v.K {
	case KDict:
		for _, k := range v.keys() {
			key, x := indent+"  "+ju.NewString(k).String()+":", v.D[k]
			if x.K == KDict || x.K == KArray {
				items = append(items, key+"\n"+prettyRef(x, indent+"    "))
			} else {
				items = append(items, key+" "+build(x).String())
			}
		}
	case KArray:
		for _, x := range v.A {
			items = append(items, prettyRef(x, indent+"  "))
		}
	default:
		return indent + build(v).String()
	}
	open, shut := "{", "}"
	if v.K == KArray {
		open, shut = "[", "]"
	}
	if len(items) == 0 {
		return indent + open + shut
	}
	return indent + open + "\n" + strings.Join(items, ",\n") + "\n" + indent + shut
}

func checkPretty(c *C, v *V) {
	d := build(v)
	var text string
	c.Guard("PrettyString", func() { text = d.PrettyString() })
	if t := stripSpace(text); t != d.String() {
		c.Failf("pretty text %q without white space is %q, String gives %q", clip(text, 1500), clip(t, 1500), clip(d.String(), 1500))
	}
	if want := prettyRef(v, ""); text != want {
		c.Failf("layout of the pretty text\n%s\nwant\n%s", clip(text, 1500), clip(want, 1500))
	}
	back, err := ju.ParseString(text)
	if err != nil {
		c.Failf("pretty text %q of %s is not parsed: %v", clip(text, 1500), clip(v.String(), 1000), err)
	}
	c.sameDoc("pretty text "+strconv.Quote(clip(text, 1000)), norm(v), back, false)
	if !back.Equals(mustParse(c, d.String())) {
		c.Failf("pretty text %q is not Equal to the plain text %q", clip(text, 1000), clip(d.String(), 1000))
	}
	if t2 := back.PrettyString(); t2 != text {
		c.Failf("pretty printing twice differs\n %q\n %q", clip(text, 1500), clip(t2, 1500))
	}
	c.sameDoc("document after printing", v, d, false)
	if validUTF8V(v) {
		checkStdReads(c, "PrettyString", text, v)
	}
}

func mustParse(c *C, s string) ju.JSONObject {
	d, err := ju.ParseString(s)
	if err != nil {
		c.Failf("text %q is not parsed: %v", clip(s, 1500), err)
	}
	return d
}

func init() {
	reg("P07", "pretty", 9000, "a document built through the API; non-trivial: a non-empty dict or array", func(c *C) {
		v := c.genDoc()
		c.Case(docNontrivial(v), v.String())
		c.labelDoc(v)
		checkPretty(c, v)
	})
	reg("P07", "bytes", 4000, "a document whose strings and keys are arbitrary bytes; non-trivial: a non-empty dict or array", func(c *C) {
		v := c.genBytesDoc()
		c.Case(docNontrivial(v), v.String())
		checkPretty(c, v)
	})
	reg("P07", "parsed", 4000, "a document parsed from a text with node ids and node pointers; non-trivial: has both", func(c *C) {
		text := c.genNodeText()
		c.Case(strings.Contains(text, idKey) && strings.Contains(text, "<"), text)
		d, err := ju.ParseString(text)
		if err != nil {
			c.Failf("text %q rejected: %v", text, err)
		}
		p := d.PrettyString()
		if t := stripSpace(p); t != d.String() {
			c.Failf("pretty text %q without white space is %q, String gives %q", p, t, d.String())
		}
		back, err := ju.ParseString(p)
		if err != nil {
			c.Failf("pretty text %q of %q rejected: %v", p, text, err)
		}
		if back.String() != d.String() {
			c.Failf("pretty text %q reads as %s, the document is %s", p, back.String(), d.String())
		}
	})
	regFixed("P07", "regress", "plain cases", func(c *C) {
		for _, v := range []*V{vDict().set("a\"b", vInt(1)), vDict().set("\\", vStr("\n")), vDict().set("\n", vDict().set("\t", vArr())), vArr(vArr(), vDict(), vArr(vInt(1))), vStr("x"), vNull(), vDict(), vArr()} {
			c.Case(true, v.String())
			checkPretty(c, v)
		}
	})
}

// genNodeText is a text with node ids and pointers to them.
func (c *C) genNodeText() string {
	n := 1 + c.uni(3, "nodes")
	var parts []string
	for i := 1; i <= n; i++ {
		ptr := fmt.Sprintf("<%d>", 1+c.uni(n, "to"))
		inner := pick(c, "inner", `"p":`+ptr, `"l":[`+ptr+`,1]`, `"d":{"q":`+ptr+`}`, `"x":1`, `"p":`+ptr+`,"e":{},"f":[]`, "")
		if inner == "" {
			// a node without any entries
			parts = append(parts, fmt.Sprintf(`{"%s":%d}`, idKey, i))
			continue
		}
		parts = append(parts, fmt.Sprintf(`{"%s":%d,%s}`, idKey, i, inner))
	}
	switch c.uni(3, "nshape") {
	case 0:
		return "[" + strings.Join(parts, ",") + "]"
	case 1:
		var kv []string
		for i, p := range parts {
			kv = append(kv, refQuote(string(rune('a'+i)))+":"+p)
		}
		return "{" + strings.Join(kv, ",") + "}"
	}
	return "[<1>," + strings.Join(parts, ",") + "]"
}
