package main

// P08 YAML, P09 query strings.

import (
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode"

	ju "yunion.io/x/jsonutils"
)

// ---------- P08 ----------

func (c *C) genYamlSoup() string {
	toks := []string{"a", ": ", "- ", "\n", "\n  ", "\n    ", "1", "b: c", "[", "]", "{", "}", ", ", "\"", "'", "# x", "&a ", "*a", "|\n  ", ">\n  ", "---\n", "...", "null", "~", "yes", "? ", "!!str ", "<<: ", "1.5", "key: [1, 2]", "\t", "é", "%YAML", "@", "`"}
	n := c.intn(0, 12, "yn")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(toks[c.uni(len(toks), "y")])
	}
	return sb.String()
}

// yamlPrintable: what YAML can hold and the YAML library prints correctly.
func yamlPrintable(s string) bool {
	for _, r := range s {
		if r == '\n' || r == '\t' || r >= 0x20 && r < 0x7f {
			continue
		}
		if r < 0xa0 || r == 0xfeff || r == 0xfffd || r == 0x2028 || r == 0x2029 || r >= 0xfffe && r <= 0xffff || !unicode.IsPrint(r) {
			return false
		}
	}
	return len(s) < 900
}

func (c *C) genYamlStr() string {
	s := c.genStr()
	if !yamlPrintable(s) {
		var sb strings.Builder
		for _, r := range s {
			if yamlPrintable(string(r)) && sb.Len() < 800 {
				sb.WriteRune(r)
			}
		}
		s = sb.String()
	}
	return s
}

func (c *C) yamlOpt() *genOpt {
	o := c.opt(4, 4)
	o.str = c.genYamlStr
	o.key = func() string {
		k := c.genKey()
		if !yamlPrintable(k) || len(k) > 100 {
			k = "k" + strconv.Itoa(len(k)%7)
		}
		if k == "<<" {
			k = "<<<" // YAML merges what is below <<; the YAML library does not quote such a key
		}
		return k
	}
	return o
}

// yamlBlock writes the document as block style YAML with an own emitter.
func yamlBlock(v *V, indent string, sb *strings.Builder) {
	switch {
	case v.K == KArray && len(v.A) > 0:
		for _, x := range v.A {
			sb.WriteString(indent + "-")
			yamlChild(x, indent+"  ", sb)
		}
	case v.K == KDict && len(v.D) > 0:
		for _, k := range v.Ord {
			sb.WriteString(indent + refQuote(k) + ":")
			yamlChild(v.D[k], indent+"  ", sb)
		}
	default:
		sb.WriteString(indent + refText(v) + "\n")
	}
}

func yamlChild(x *V, indent string, sb *strings.Builder) {
	if x.K == KArray && len(x.A) > 0 || x.K == KDict && len(x.D) > 0 {
		sb.WriteString("\n")
		yamlBlock(x, indent, sb)
		return
	}
	sb.WriteString(" " + refText(x) + "\n")
}

func init() {
	const rule = "a document whose strings and keys are printable; non-trivial: a non-empty dict or array"
	reg("P08", "roundtrip", 4000, rule, func(c *C) {
		v := c.genV(c.yamlOpt())
		c.Case(docNontrivial(v), v.String())
		c.labelDoc(v)
		d := build(v)
		var y string
		var back ju.JSONObject
		var err error
		c.Guard("YAML", func() {
			y = d.YAMLString()
			back, err = ju.ParseYAML(y)
		})
		if err != nil {
			c.Failf("YAML text %q of %s is rejected: %v", clip(y, 1500), clip(v.String(), 1000), err)
		}
		c.sameDoc("YAML text "+strconv.Quote(clip(y, 1500)), v, back, true)
		c.sameDoc("document after printing YAML", v, d, false)
	})
	reg("P08", "block", 3000, rule+"; written as block style YAML by an independent emitter", func(c *C) {
		v := c.genV(c.yamlOpt())
		var sb strings.Builder
		yamlBlock(v, "", &sb)
		y := sb.String()
		c.Case(docNontrivial(v), y)
		d, err := ju.ParseYAML(y)
		if err != nil {
			c.Failf("YAML text %q is rejected: %v", clip(y, 1500), err)
		}
		c.sameDoc("YAML text "+strconv.Quote(clip(y, 1500)), v, d, true)
	})
	reg("P08", "json", 3000, rule+"; its JSON text given to ParseYAML (JSON is YAML)", func(c *C) {
		v := c.genV(c.yamlOpt())
		d := build(v)
		text := d.String()
		c.Case(docNontrivial(v), text)
		back, err := ju.ParseYAML(text)
		if err != nil {
			c.Failf("JSON text %q is rejected as YAML: %v", clip(text, 1500), err)
		}
		c.sameDoc("YAML of JSON text "+strconv.Quote(clip(text, 1500)), v, back, true)
	})
	regFixed("P08", "regress", "plain cases", func(c *C) {
		for _, v := range []*V{vDict().set("a", vArr(vStr("yes"), vStr("1"), vStr("null"), vStr(""), vStr("multi\nline\n"), vStr(" lead"), vStr("trail "), vStr("# no comment"), vStr("a: b"), vStr("- a"), vStr("2020-01-01"), vStr("0x1F"), vStr("1e3"), vStr("~"))), vArr(), vDict(), vArr(vDict(), vArr()), vInt(7), vStr("x"), vNull(), vBool(true), vFloat(1.5)} {
			c.Case(true, v.String())
			d := build(v)
			y := d.YAMLString()
			back, err := ju.ParseYAML(y)
			if err != nil {
				c.Failf("YAML text %q of %s: %v", y, v, err)
			}
			c.sameDoc("YAML text "+y, v, back, true)
		}
	})
}

// ---------- P09 ----------

func canonicalIndex(s string) bool {
	i, err := strconv.ParseInt(s, 10, 64)
	return err == nil && i >= 0 && strconv.FormatInt(i, 10) == s
}

func (c *C) queryKey() string {
	switch c.uni(4, "qk") {
	case 0:
		return pick(c, "qa", "a", "b", "c", "ab", "B", "05", "+5", "-1", "1x", "x1", "00", "1e1", "a b", "é", "&", "=", "a=b", "%", "+", "#", "[0]", "a;b", "?", "/", "\"", "\n")
	case 1:
		return pick(c, "qb", "name", "filter", "limit", "k1", "k10", "k2")
	}
	k := strings.ReplaceAll(c.genKey(), ".", "_")
	if k == "" || canonicalIndex(k) {
		k = "k" + k
	}
	return k
}

// qgen draws a nested value that a query string can carry. Arrays hold no
// empty containers, since those leave no parameter behind.
func (c *C) qgen(d int, inArr bool) *V {
	if d > 0 && c.uni(5, "qs") >= 2 {
		if c.flip("qd") {
			v := vDict()
			n := c.intn(b2i(inArr), 4, "qn")
			for i := 0; i < n; i++ {
				v.set(c.queryDictKey(false), c.qgen(d-1, inArr))
			}
			if !inArr || len(v.D) > 0 {
				return v
			}
		} else {
			n := c.intn(b2i(inArr), 4, "qn")
			if c.oneIn(16, "qbig") {
				n = 9 + c.uni(6, "qbn")
			}
			v := &V{K: KArray}
			if c.oneIn(128, "qhuge") {
				// indexes of three and four digits, mostly plain items
				n = pick(c, "qhn", 101, 101, 130, 1001)
				for i := 0; i < n; i++ {
					v.A = append(v.A, vInt(int64(i)))
				}
				v.A[c.uni(n, "qhat")] = c.qgen(d-1, true)
				c.Label("array of more than 100 items")
				return v
			}
			for i := 0; i < n; i++ {
				v.A = append(v.A, c.qgen(d-1, true))
			}
			if !inArr || len(v.A) > 0 {
				return v
			}
		}
	}
	o := c.opt(0, 0)
	o.str = c.genBytes
	return c.genScalar(o)
}

// qnorm is what remains of a document after it travelled as a query string.
func qnorm(v *V) *V {
	switch v.K {
	case KNull:
		return vStr("")
	case KString:
		return v
	case KDict:
		n := vDict()
		for _, k := range v.keys() {
			if x := qnorm(v.D[k]); x != nil {
				n.set(k, x)
			}
		}
		if len(n.D) == 0 {
			return nil
		}
		return n
	case KArray:
		n := &V{K: KArray}
		for _, e := range v.A {
			if x := qnorm(e); x != nil {
				n.A = append(n.A, x)
			}
		}
		if len(n.A) == 0 {
			return nil
		}
		return n
	}
	return vStr(refText(v))
}

func (c *C) genQueryDoc() *V {
	v := vDict()
	n := c.intn(0, 5, "qroot")
	for i := 0; i < n; i++ {
		x := c.qgen(3, false)
		if c.oneIn(16, "qchain") {
			for j := pick(c, "qchainn", 2, 4, 5, 6, 8, 12, 20, 40); j > 0; j-- {
				if c.oneIn(4, "qchaina") && qnorm(x) != nil {
					x = vArr(x)
				} else {
					x = vDict().set(c.queryDictKey(false), x)
				}
			}
			c.Label("many levels")
		}
		v.set(c.queryDictKey(true), x)
	}
	return v
}

// queryDictKey may also be a number: one item with the number 0 makes an array
// of the container, unless it is the document itself.
func (c *C) queryDictKey(root bool) string {
	if !root && c.oneIn(16, "emptykey") {
		return ""
	}
	if !c.oneIn(8, "digits") {
		return c.queryKey()
	}
	if root && c.oneIn(4, "zero") {
		return "0"
	}
	return pick(c, "digit", "1", "2", "3", "9", "10", "12", "100", "9223372036854775807")
}

func (c *C) genQueryText() string {
	n := c.intn(0, 7, "qtn")
	segs := []string{"a", "b", "0", "1", "2", "c", "", "05", "10", "x"}
	var parts []string
	for i := 0; i < n; i++ {
		k := segs[c.uni(len(segs), "qt")]
		deep := c.uni(4, "qtd")
		// deep keys, some of mostly empty segments
		segs := segs
		if c.oneIn(16, "qtdeep") {
			deep = 4 + c.uni(12, "qtdeepn")
			if c.flip("qtempty") {
				segs = []string{"a", "", "", "b", "1"}
			}
		}
		for j := deep; j > 0; j-- {
			k += "." + segs[c.uni(len(segs), "qt")]
		}
		p := url.QueryEscape(k)
		switch c.uni(8, "qtv") {
		case 0:
		case 1:
			p += "="
		case 2:
			p += "=" + url.QueryEscape(c.genBytes())
		case 3:
			p += pick(c, "qtw", "=%zz", "=1;b=2", "%", "=a=b", "=%41+b", "=%")
		default:
			p += "=v" + strconv.Itoa(c.uni(3, "qtx"))
		}
		parts = append(parts, p)
		if c.oneIn(48, "qtmany") {
			for j := pick(c, "qtmanyn", 5, 10, 16, 17, 20, 33, 70, 130, 300); j > 0; j-- {
				parts = append(parts, url.QueryEscape(k)+"="+strconv.Itoa(j))
			}
		}
	}
	return strings.Join(parts, pick(c, "qtsep", "&", "&", "&", "&&"))
}

// reachable finds the value of a parameter in a parsed query document.
func reachable(v *V, segs []string) *V {
	for _, s := range segs {
		switch v.K {
		case KDict:
			x, ok := v.D[s]
			if !ok {
				return nil
			}
			v = x
		case KArray:
			i, err := strconv.Atoi(s)
			if err != nil || i < 0 || i >= len(v.A) {
				return nil
			}
			v = v.A[i]
		default:
			return nil
		}
	}
	return v
}

func leaves(v *V) int {
	n := 0
	if v.K != KArray && v.K != KDict {
		return 1
	}
	for _, x := range v.A {
		n += leaves(x)
	}
	for _, x := range v.D {
		n += leaves(x)
	}
	return n
}

func init() {
	reg("P09", "roundtrip", 7000, "a dict of nested dicts and arrays (keys without dots) sent through QueryString and ParseQueryString, with the parameters in another order too; non-trivial: has a nested container", func(c *C) {
		v := c.genQueryDoc()
		nest := v.depth() > 1
		c.Case(nest, v.String())
		c.LabelIf(v.depth() > 2, "depth>2")
		d := build(v).(*ju.JSONDict)
		want := qnorm(v)
		if want == nil {
			want = vDict()
		}
		var q string
		var back ju.JSONObject
		var err error
		c.Guard("QueryString", func() {
			q = d.QueryString()
			back, err = ju.ParseQueryString(q)
		})
		if err != nil {
			c.Failf("query %q of %s is rejected: %v", clip(q, 1500), clip(v.String(), 1000), err)
		}
		c.sameDoc("query "+strconv.Quote(clip(q, 1500)), want, back, false)
		// the order of the parameters does not matter
		ps := strings.Split(q, "&")
		for i := len(ps) - 1; i > 0; i-- {
			j := c.uni(i+1, "qperm")
			ps[i], ps[j] = ps[j], ps[i]
		}
		q2 := strings.Join(ps, "&")
		c.Guard("ParseQueryString", func() { back, err = ju.ParseQueryString(q2) })
		if err != nil {
			c.Failf("query %q is rejected, %q is not: %v", clip(q2, 1500), clip(q, 1500), err)
		}
		c.sameDoc("reordered query "+strconv.Quote(clip(q2, 1500)), want, back, false)
	})
	reg("P09", "lossless", 7000, "a query string of parameters with dotted keys over a small alphabet, which often conflict; either it is rejected, or every parameter is found at its place; non-trivial: two parameters share their first segment", func(c *C) {
		q := c.genQueryText()
		vals, perr := url.ParseQuery(q)
		keys := make([]string, 0)
		firsts := map[string]int{}
		for k := range vals {
			keys = append(keys, k)
			firsts[strings.SplitN(k, ".", 2)[0]]++
		}
		sort.Strings(keys)
		shared := false
		for _, n := range firsts {
			if n > 1 {
				shared = true
			}
		}
		c.Case(shared, q)
		var d ju.JSONObject
		var err error
		c.Guard("ParseQueryString", func() { d, err = ju.ParseQueryString(q) })
		if err != nil {
			c.Label("rejected")
			// a single well-formed parameter path is never a conflict
			if perr == nil && len(keys) <= 1 && (len(keys) == 0 || !strings.Contains(keys[0], ".")) {
				c.Failf("query %q rejected: %v", q, err)
			}
			// no conflict: no array, and no key is the beginning of another
			clash := false
			for i, k := range keys {
				for _, s := range strings.Split(k, ".") {
					clash = clash || s == "0"
				}
				for j, l := range keys {
					clash = clash || i != j && strings.HasPrefix(l, k+".")
				}
			}
			if perr == nil && !clash {
				c.Failf("query %q, whose parameters do not conflict, is rejected: %v", q, err)
			}
			c.LabelIf(perr == nil, "rejected for a conflict")
			return
		}
		if perr != nil {
			c.Failf("query %q is malformed (%v) but accepted as %s", q, perr, show(d))
		}
		c.Label("accepted")
		c.LabelIf(shared, "accepted with shared prefix")
		v := c.mustRead("query", d)
		for _, k := range keys {
			x := reachable(v, strings.Split(k, "."))
			if x == nil {
				c.Failf("query %q: parameter %q is lost in %s", q, k, v)
			}
			if len(vals[k]) == 1 {
				if x.K != KString || x.S != vals[k][0] {
					c.Failf("query %q: parameter %q has value %s, want %q (%s)", q, k, x, vals[k][0], v)
				}
				continue
			}
			if x.K != KArray || len(x.A) < len(vals[k]) {
				c.Failf("query %q: parameter %q has value %s, want %q (%s)", q, k, x, vals[k], v)
			}
			for i, s := range vals[k] {
				if x.A[i].K != KString || x.A[i].S != s {
					c.Failf("query %q: parameter %q has value %s, want %q (%s)", q, k, x, vals[k], v)
				}
			}
		}
		n := 0
		for _, k := range keys {
			n += len(vals[k])
		}
		if l := leaves(v); n != l && !(n == 0 && len(v.D) == 0) {
			c.Failf("query %q has %d values, the document %s has %d", q, n, v, l)
		}
	})
	reg("P09", "large", 60, "a dict with an array or a dict of up to 5000 entries in some place, sent through QueryString and ParseQueryString; non-trivial: always", func(c *C) {
		n := pick(c, "n", 99, 101, 128, 129, 255, 257, 999, 1001, 1023, 1025, 2000, 2049, 4095, 5000)
		kind := c.uni(5, "kind")
		v := &V{K: KArray}
		if kind == 4 {
			v = vDict()
		}
		for i := 0; i < n; i++ {
			switch {
			case kind == 4:
				v.set(fmt.Sprintf("k%d", i), vInt(int64(i)))
			case kind == 1 || kind == 3 && i%7 == 0:
				v.A = append(v.A, vDict().set("id", vInt(int64(i))))
			case kind == 2:
				v.A = append(v.A, vArr(vInt(int64(i)), vBool(i%2 == 0)))
			default:
				v.A = append(v.A, vInt(int64(i)))
			}
		}
		what := fmt.Sprintf("%d items of kind %d", n, kind)
		for i := c.uni(3, "up"); i > 0; i-- {
			if c.flip("inarr") {
				v = vArr(vStr("x"), v, vStr("y"))
				what += " in an array"
			} else {
				v = vDict().set("m", v).set("o", vStr("z"))
				what += " in a dict"
			}
		}
		v = vDict().set("a", v).set("z", vStr("end"))
		c.Case(true, what)
		d := build(v).(*ju.JSONDict)
		var q string
		var back ju.JSONObject
		var err error
		c.Guard("QueryString", func() {
			q = d.QueryString()
			back, err = ju.ParseQueryString(q)
		})
		if err != nil {
			c.Failf("the query of %s is rejected: %s", what, clip(err.Error(), 500))
		}
		c.sameDoc("query of "+what, qnorm(v), back, false)
	})
	regFixed("P09", "regress", "plain cases", func(c *C) {
		for q, want := range map[string]*V{
			"a.05=1":                      vDict().set("a", vDict().set("05", vStr("1"))),
			"a.b.c=1&a.b=":                nil,
			"a.0=x&a.1.b=y&a.2=z":         vDict().set("a", vArr(vStr("x"), vDict().set("b", vStr("y")), vStr("z"))),
			"a.10=k&a.2=c":                vDict().set("a", vDict().set("10", vStr("k")).set("2", vStr("c"))),
			"a.0=1&a.b=2":                 nil,
			"a=1&a=2":                     vDict().set("a", vArr(vStr("1"), vStr("2"))),
			"a.0.b.0=1&a.0.b.1=2&a.1.b=3": vDict().set("a", vArr(vDict().set("b", vArr(vStr("1"), vStr("2"))), vDict().set("b", vStr("3")))),
			"a.0=1&a.2=2":                 nil,
			"":                            vDict(),
		} {
			c.Case(true, q)
			d, err := ju.ParseQueryString(q)
			if want == nil {
				if err == nil {
					c.Failf("conflicting query %q accepted: %s", q, show(d))
				}
				continue
			}
			if err != nil {
				c.Failf("query %q: %v", q, err)
			}
			c.sameDoc(fmt.Sprintf("query %q", q), want, d, false)
		}
	})
}
