package main

// P28 relaxed notations, P29 places of errors.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	ju "yunion.io/x/jsonutils"
)

// ---------- P28 ----------

type laxWriter struct {
	c     *C
	sb    strings.Builder
	stats map[string]bool
}

func (w *laxWriter) ws() {
	for w.c.oneIn(3, "ws") {
		w.sb.WriteString(pick(w.c, "wsk", " ", "\t", "\n", "\r", "\r\n  "))
	}
}

// anyCase writes a word in any letter case.
func (w *laxWriter) anyCase(s string) {
	switch w.c.uni(4, "case") {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToUpper(s[:1]) + s[1:]
	case 2:
		b := []byte(s)
		for i := range b {
			if w.c.flip("up") {
				b[i] -= 'a' - 'A'
			}
		}
		s = string(b)
	}
	w.sb.WriteString(s)
}

const laxDelims = " :,\t\r\n}]"

func bareKeyOK(s string) bool {
	return s != "" && s[0] != '"' && s[0] != '\'' && !strings.ContainsAny(s, laxDelims)
}

func bareStrOK(s string) bool {
	if !bareKeyOK(s) || s[0] == '{' || s[0] == '[' || s[0] == '<' {
		return false
	}
	switch strings.ToLower(s) {
	case "null", "none", "true", "yes", "false", "no":
		return false
	}
	_, e1 := strconv.ParseInt(s, 10, 64)
	_, e2 := strconv.ParseFloat(s, 64)
	return e1 != nil && e2 != nil
}

// quoted writes a string between quotes with any escapes.
func (w *laxWriter) quoted(s string) {
	q := pick(w.c, "q", byte('"'), '\'', '\'')
	if q == '\'' {
		w.stats["single quotes"] = true
	}
	w.sb.WriteByte(q)
	esc := w.c.uni(3, "esc") // how often
	for i := 0; i < len(s); {
		b := s[i]
		r, n := utf8.DecodeRuneInString(s[i:])
		must := b == q || b == '\\'
		if !must && (esc == 0 || esc == 1 && !w.c.oneIn(4, "escape")) {
			if b < 0x20 {
				w.stats["raw control"] = true
			}
			w.sb.WriteByte(b)
			i++
			continue
		}
		i++
		switch w.c.uni(4, "kind") {
		case 0:
			w.stats["\\x"] = true
			w.sb.WriteString(`\x` + w.c.hexCase(fmt.Sprintf("%02x", b)))
			continue
		case 1:
			if r < 0x10000 && r != utf8.RuneError && (r < 0xd800 || r > 0xdfff) {
				w.stats["\\u"] = true
				w.sb.WriteString(`\u` + w.c.hexCase(fmt.Sprintf("%04x", r)))
				i += n - 1
				continue
			}
		case 2:
			if k := strings.IndexByte("\n\r\t\b\f", b); k >= 0 {
				w.sb.WriteString(`\` + "nrtbf"[k:k+1])
				continue
			}
		}
		if strings.IndexByte("nrtbfux", b) >= 0 {
			w.sb.WriteByte(b)
			continue
		}
		if !must && b != '/' {
			w.stats["needless escape"] = true
		}
		w.sb.WriteString(`\` + s[i-1:i])
	}
	w.sb.WriteByte(q)
}

func (w *laxWriter) key(s string) {
	if bareKeyOK(s) && w.c.flip("bare key") {
		w.stats["bare key"] = true
		w.sb.WriteString(s)
		return
	}
	w.quoted(s)
}

// val writes v; inDict allows the value to be left out.
func (w *laxWriter) val(v *V, inDict bool) {
	w.ws()
	switch v.K {
	case KNull:
		if inDict && w.c.oneIn(3, "left out") {
			w.stats["value left out"] = true
		} else {
			w.stats["null word"] = true
			w.anyCase(pick(w.c, "null", "null", "none"))
		}
	case KBool:
		w.stats["boolean word"] = true
		if v.B {
			w.anyCase(pick(w.c, "true", "true", "yes"))
		} else {
			w.anyCase(pick(w.c, "false", "false", "no"))
		}
	case KInt:
		s := strconv.FormatInt(v.I, 10)
		switch w.c.uni(4, "int") {
		case 0:
			w.stats["leading zeros"] = true
			neg := strings.HasPrefix(s, "-")
			zeros := 1 + w.c.uni(3, "zeros")
			if w.c.oneIn(8, "manyzeros") || (v.I > 1<<53 || v.I < -1<<53) && w.c.flip("bigzeros") {
				zeros = pick(w.c, "zerosn", 5, 12, 18, 19, 20, 21, 40, 70, 310)
			}
			s = strings.Repeat("0", zeros) + strings.TrimPrefix(s, "-")
			if neg {
				s = "-" + s
			}
		case 1:
			if v.I >= 0 {
				w.stats["plus sign"] = true
				s = "+" + s
			}
		}
		w.sb.WriteString(s)
	case KFloat:
		s := strconv.FormatFloat(v.F, 'f', -1, 64)
		if w.c.flip("short float") {
			s = strings.Replace(s, "0.", ".", 1)
			if s[0] == '.' || s[:2] == "-." {
				w.stats["leading point"] = true
			} else {
				s = strconv.FormatFloat(v.F, 'e', -1, 64)
			}
		}
		w.sb.WriteString(s)
	case KString:
		if bareStrOK(v.S) && w.c.flip("bare") {
			w.stats["bare string"] = true
			w.sb.WriteString(v.S)
		} else {
			w.quoted(v.S)
		}
	case KArray:
		w.sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			w.val(x, false)
		}
		w.end(len(v.A) > 0)
		w.sb.WriteByte(']')
	case KDict:
		w.sb.WriteByte('{')
		for i, k := range v.Ord {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			w.ws()
			w.key(k)
			w.ws()
			w.sb.WriteByte(':')
			w.val(v.D[k], true)
		}
		w.end(len(v.Ord) > 0)
		w.sb.WriteByte('}')
	}
	w.ws()
}

func (w *laxWriter) end(items bool) {
	if items && w.c.oneIn(4, "trailing comma") {
		w.stats["trailing comma"] = true
		w.sb.WriteByte(',')
	}
	w.ws()
}

// laxStr is a text that may be written without quotes.
func (c *C) laxStr() string {
	switch c.uni(4, "lax") {
	case 0:
		return c.genStr()
	case 1:
		return c.genBytes()
	}
	s := ""
	for i := 1 + c.uni(3, "parts"); i > 0; i-- {
		s += pick(c, "part", "a", "null", "none", "no", "yes", "true", "Z", "x1", "-", "1", "0x1", "_", "é", "'", "\"", "{", "[", "/", "\\", "#", "<", ">", "on", "off", ".", "e5", "inf", "nan", "=", "\u00a0", "名", "\x80", "+", "\\u0041", ";", "(", "0x12345678", "0X0fffffffffff", "deadbeef", "0b10101010", "0o777777", "1e", "1E+", "99999999999999999999x", "1.2.3", "1:2", "12:30:45", "100_000_000", "1h30m", "12kb", "`", "`a`", "$", "@", "!", "~", "^", "|", "*", "&", "%41", "&lt;", "?", "\u2018a\u2019", "\u00aba\u00bb", "-->", "--", "//", "/*", "*/", "..", "\\n", "\\", "0777777778", "+-1")
	}
	return s
}

func init() {
	reg("P28", "lax", 12000, "a document written with any relaxed notations (single quotes, bare words, words for null and booleans in any case, \\x and needless escapes, raw control characters, signs and leading zeros, values left out, trailing commas, any white space) and parsed; non-trivial: at least one relaxed notation occurs", func(c *C) {
		o := c.opt(3, 4)
		o.str = c.laxStr
		o.key = func() string {
			if c.flip("laxkey") {
				return c.laxStr()
			}
			return c.genKey()
		}
		v := norm(c.genV(o))
		bad := false
		v.walk(func(x *V) {
			if x.D["___jnid_"] != nil {
				bad = true
			}
		})
		w := &laxWriter{c: c, stats: map[string]bool{}}
		if !bad {
			w.val(v, false)
		}
		text := w.sb.String()
		c.Case(len(w.stats) > 0, text)
		for _, k := range []string{"single quotes", "bare key", "bare string", "null word", "boolean word", "\\x", "\\u", "needless escape", "raw control", "leading zeros", "plus sign", "leading point", "value left out", "trailing comma"} {
			c.LabelIf(w.stats[k], k)
		}
		if bad {
			return
		}
		var d ju.JSONObject
		var err error
		c.Guard("Parse", func() { d, err = ju.ParseString(text) })
		if err != nil {
			c.Failf("%q is rejected: %v; it stands for %s", clip(text, 2000), err, v)
		}
		c.sameDoc(fmt.Sprintf("parsed %q", clip(text, 2000)), v, d, true)
	})
	regFixed("P28", "words", "every spelling of the words, plain and as parts of longer words, as value, item, key and whole text", func(c *C) {
		words := map[string]*V{"null": vNull(), "none": vNull(), "true": vBool(true), "yes": vBool(true), "false": vBool(false), "no": vBool(false)}
		try := func(text string, want *V) {
			c.Case(true, text)
			for _, x := range []struct {
				t string
				v *V
			}{{text, want}, {"[" + text + "]", vArr(want)}, {"{a:" + text + "}", vDict().set("a", want)}, {"{'a' : " + text + " , b:1}", vDict().set("a", want).set("b", vInt(1))}, {"{" + text + ":1}", vDict().set(text, vInt(1))}, {"'" + text + "'", vStr(text)}, {"[\"" + text + "\"]", vArr(vStr(text))}} {
				d, err := ju.ParseString(x.t)
				if err != nil {
					c.Failf("%q is rejected: %v", x.t, err)
				}
				c.sameDoc(fmt.Sprintf("parsed %q", x.t), x.v, d, false)
			}
		}
		for w, v := range words {
			for m := 0; m < 1<<len(w); m++ {
				b := []byte(w)
				for i := range b {
					if m>>i&1 == 1 {
						b[i] -= 'a' - 'A'
					}
				}
				try(string(b), v)
			}
			for _, x := range []string{w + "s", "x" + w, w[:len(w)-1], w + "_", w + "1", "-" + w, w + w, "\\" + w} {
				if words[x] == nil && !strings.Contains(x, "\\") {
					try(x, vStr(x))
				}
			}
		}
		for _, x := range []string{"on", "off", "t", "f", "y", "n", "nil", "undefined", "1__0", "1x", "0x10", "0x123456789abcdef", "0XFFFFFFFF", "-0x1f4a", "0b10101010101010", "0o7777777777", "1h30m", "\uff11\uff12", "\u0661\u0662", "1e", "--1", "1-1", "10.0.0.1", "2020-01-01", "é", "1e999", "+", "-", ".", "a\"b", "it's"} {
			c.Case(true, x)
			d, err := ju.ParseString("[" + x + "]")
			if err != nil {
				c.Failf("[%s] is rejected: %v", x, err)
			}
			c.sameDoc(x, vArr(vStr(x)), d, false)
		}
	})
}

// ---------- P29 ----------

var errPlace = regexp.MustCompile(`(?s)JSON error (.*?) at (\d+): (.*)\.\.\.$`)

// refExcerpt is the text around a place.
func refExcerpt(text string, pos int) string {
	a, b := pos-10, pos+10
	if a < 0 {
		a = 0
	}
	if b > len(text) {
		b = len(text)
	}
	return text[a:pos] + "^" + text[pos:b]
}

// checkPlace parses a text that has to be refused at a place.
func (c *C) checkPlace(what, text string, pos int) {
	var err error
	c.Guard("Parse", func() { _, err = ju.ParseString(text) })
	c.placeOf(what, text, pos, err)
}

func (c *C) placeOf(what, text string, pos int, err error) {
	if err == nil {
		c.Failf("%s: %q is accepted", what, clip(text, 2000))
	}
	m := errPlace.FindStringSubmatch(err.Error())
	if m == nil {
		c.Failf("%s: the error for %q names no place: %v", what, clip(text, 2000), err)
	}
	if got, _ := strconv.Atoi(m[2]); got != pos {
		c.Failf("%s: the error for %q names place %d, not %d: %v", what, clip(text, 2000), got, pos, err)
	}
	if m[3] != refExcerpt(text, pos) {
		c.Failf("%s: the error for %q shows %q, not %q", what, clip(text, 2000), m[3], refExcerpt(text, pos))
	}
}

func init() {
	reg("P29", "places", 8000, "a document text in any white space with one error at a known place, alone or in a stream behind other documents; the error has to name the place and show the bytes around it; non-trivial: the place is not the first or last byte", func(c *C) {
		v := c.genDict(3, 4)
		if c.flip("arr") {
			v = c.genArr(c.opt(3, 4), 3)
		}
		ts := tokens(v)
		pre := ""
		if c.oneIn(4, "pre") {
			pre = pick(c, "prek", " ", "\n\n", `{"a":1} `, "[1,2]", "xxx ")
		}
		start := len(pre)
		// layout
		var sb strings.Builder
		sb.WriteString(pre)
		at := make([]int, len(ts))
		for i, t := range ts {
			if c.oneIn(4, "ws") {
				sb.WriteString(pick(c, "wsk", " ", "\n", "\t ", "\r\n"))
			}
			at[i] = sb.Len()
			sb.WriteString(t.s)
		}
		good := sb.String()
		var colons, commas, closes, strs []int
		for i, t := range ts {
			switch t.kind {
			case ':':
				colons = append(colons, i)
			case ',':
				commas = append(commas, i)
			case ']', '}':
				closes = append(closes, i)
			case 's':
				strs = append(strs, i)
			}
		}
		one := func(l []int) int { return l[c.uni(len(l), "at")] }
		text, pos, what := "", 0, ""
		repl := func(p, n int, s string) { text = good[:p] + s + good[p+n:] }
		switch k := c.uni(6, "err"); {
		case k == 0 && len(colons) > 0:
			i := one(colons)
			what, pos = "wrong character for a colon", at[i]
			repl(pos, 1, pick(c, "bad", ",", "=", "]", "}", ";", "\"", "1", "x", "é", "\x00"))
		case k == 1 && len(commas) > 0:
			i := one(commas)
			what, pos = "wrong character for a comma", at[i]
			// behind a bare scalar only a blank ends the word
			repl(pos, 1, pick(c, "badc", " ;", " =", " \"", " 1", " x", ":", " [", " {"))
			if text[pos] == ' ' {
				pos++
			}
		case k == 2 && len(strs) > 0:
			i := one(strs)
			what = "broken escape"
			esc := pick(c, "esc", `\u00g0`, `\uzzzz`, `\xg0`, `\x0 `, `\u"041`, `\u-041`)
			p := at[i] + len(ts[i].s) - 1
			repl(p, 0, esc+"    ")
			pos = p + 2
		case k == 3:
			i := one(closes)
			what, pos = "wrong closing bracket", at[i]
			other := "]"
			if ts[i].kind == ']' {
				other = "}"
			}
			repl(pos, 1, other)
		default:
			n := start + 1 + c.uni(len(good)-start-1, "cut")
			what, pos = "truncated", n-1
			text = good[:n]
			if cutsUnicode(text) {
				// the error is reported where the incomplete escape begins
				c.Case(false, text)
				return
			}
		}
		c.Case(pos > 0 && pos < len(text)-1, fmt.Sprintf("%s at %d: %s", what, pos, text))
		c.Label(what)
		c.LabelIf(start > 0, "behind other text")
		if start > 0 {
			var err error
			var ofs int
			c.Guard("ParseStream", func() { _, ofs, err = ju.ParseStream([]byte(text), start) })
			c.placeOf(what, text, pos, err)
			if ofs < pos || ofs > len(text) {
				c.Failf("%s at %d: ParseStream of %q returns offset %d", what, pos, text, ofs)
			}
			return
		}
		c.checkPlace(what, text, pos)
	})
	reg("P29", "stream", 4000, "a byte stream whose only document is broken at a known place behind other text: the error of ParseJsonStreams names that place in the whole stream; non-trivial: there is text before it", func(c *C) {
		pre := pick(c, "pre", "", " ", "x", "log: ", "2020-01-01 INFO ", "\"a\", 'b' ", "\n\n\n", "é", "}", ", ")
		for c.flip("more") {
			pre += pick(c, "morek", " ", "more text ", "\x00", ":", "0123456789")
		}
		// only scalars inside: every bracket would be another start
		v := c.genV(c.opt(1, 4))
		if v.K != KArray && v.K != KDict {
			v = vArr(v)
		}
		for _, t := range tokens(v) {
			if t.kind == 's' && strings.ContainsAny(t.s, "[{") {
				c.Case(false, v.String())
				return
			}
		}
		text := refText(v)
		if n := strings.Count(text, "[") + strings.Count(text, "{"); n != 1 {
			c.Case(false, v.String())
			return
		}
		pos := 0
		if c.flip("truncated") {
			text = pre + text[:1+c.uni(len(text)-1, "at")]
			if cutsUnicode(text) {
				c.Case(false, text)
				return
			}
			pos = len(text) - 1
		} else {
			pos = len(pre) + len(text) - 1
			end := "}"
			if text[0] == '{' {
				end = "]"
			}
			text = pre + text[:len(text)-1] + end + pick(c, "behind", "", " ", " tail", "\n12345678901234567890")
		}
		c.Case(pre != "", fmt.Sprintf("%d of %q", pos, text))
		var ds []ju.JSONObject
		var err error
		c.Guard("ParseJsonStreams", func() { ds, err = ju.ParseJsonStreams([]byte(text)) })
		if err == nil {
			c.Failf("ParseJsonStreams(%q) finds %d documents", clip(text, 2000), len(ds))
		}
		if want := fmt.Sprintf(" at %d: %s...", pos, refExcerpt(text, pos)); !strings.Contains(err.Error(), want) {
			c.Failf("ParseJsonStreams(%q): the error does not say %q: %v", clip(text, 2000), want, err)
		}
	})
	reg("P29", "excerpt", 5000, "NewJSONError with any bytes, any position (also outside) and message; non-trivial: the text is longer than the excerpt", func(c *C) {
		b := c.genBytes()
		for c.flip("more") && len(b) < 200 {
			b += c.genBytes() + c.genStr()
		}
		pos := pick(c, "pos", -1, 0, 1, 9, 10, 11, len(b)-11, len(b)-10, len(b)-9, len(b)-1, len(b), len(b)+1, -1<<62, 1<<62)
		if c.flip("any") {
			pos = c.uni(len(b)+1, "posn")
		}
		msg := pick(c, "msg", "Truncated", "", "x at 3: y", "é", c.genStr())
		c.Case(len(b) > 20, fmt.Sprintf("%q %d %q", b, pos, msg))
		p := pos
		if p > len(b)-1 {
			p = len(b) - 1
		}
		if p < 0 {
			p = 0
		}
		want := fmt.Sprintf("JSON error %s at %d: %s...", msg, p, refExcerpt(b, p))
		if len(b) == 0 {
			want = fmt.Sprintf("JSON error %s at 0: ...", msg)
		}
		in := []byte(b)
		var got string
		c.Guard("NewJSONError", func() {
			e := ju.NewJSONError(in, pos, msg)
			for i := range in {
				in[i] = '#'
			}
			got = e.Error()
		})
		if got != want {
			c.Failf("NewJSONError(%q, %d, %q) reads %q, not %q", b, pos, msg, got, want)
		}
	})
}

// cutsUnicode tells whether a text ends inside a \u or \x escape.
func cutsUnicode(s string) bool {
	in := byte(0)
	for i := 0; i < len(s); i++ {
		switch {
		case in == 0 && s[i] == '"':
			in = '"'
		case in != 0 && s[i] == '\\':
			i++
			if i < len(s) && (s[i] == 'u' && i+5 >= len(s) || s[i] == 'x' && i+3 >= len(s)) {
				return true
			}
		case in != 0 && s[i] == in:
			in = 0
		}
	}
	return false
}
