package main

// Documents with thousands of items, entries or bytes, for every property that
// speaks of all documents.

import (
	"fmt"
	"reflect"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// genLarge draws a document that is large in one way, and says which.
func (c *C) genLarge(max int) (*V, string) {
	sizes := []int{}
	for _, n := range []int{129, 257, 513, 1001, 1025, 2049, 3000, 4097, 5000, 8193, 10001, 16385, 20000, 33000} {
		if n <= max {
			sizes = append(sizes, n+c.uni(3, "more"))
		}
	}
	n := sizes[c.uni(len(sizes), "size")]
	what := pick(c, "large", "items", "entries", "records", "columns", "bytes", "levels and items")
	kind := c.uni(6, "itemkind")
	item := func(i int) *V {
		switch kind {
		case 0:
			return vInt(int64(i))
		case 1:
			return vStr(fmt.Sprintf("s%d", i))
		case 2:
			return vArr(vInt(int64(i)))
		case 3:
			return vDict().set("n", vInt(int64(i)))
		case 4:
			return []*V{vArr(), vDict(), vNull(), vBool(i%10 == 4), vInt(0), vStr("")}[i%6]
		}
		return []*V{vInt(int64(i)), vStr(fmt.Sprint(i)), vFloat(float64(i) + 0.5), vArr(vNull(), vInt(int64(i))), vDict().set("a", vArr())}[i%5]
	}
	key := pick(c, "key", "%d", "k%d", "k%05d", "K%05d", "%x.", "é%d")
	v := vArr()
	switch what {
	case "items":
		for i := 0; i < n; i++ {
			v.A = append(v.A, item(i))
		}
	case "entries":
		v = vDict()
		for i := 0; i < n; i++ {
			v.set(fmt.Sprintf(key, i), item(i))
		}
	case "records":
		for i := 0; i < n/4; i++ {
			v.A = append(v.A, vDict().set("id", vInt(int64(i))).set("name", vStr(fmt.Sprint("n", i))).set("part", item(i)))
		}
	case "columns":
		v = vDict()
		for k := 0; k < 8; k++ {
			a := vArr()
			for i := 0; i < n/8; i++ {
				a.A = append(a.A, item(i+k))
			}
			v.set(fmt.Sprintf(key, k), a)
		}
	case "bytes":
		s := strings.Repeat(pick(c, "unit", "x", "ab", "é", "\"", "\\", "\n", " ", "0", "x y ", "日本", "a,"), n)
		switch c.uni(3, "place") {
		case 0:
			v = vArr(vStr(s), vStr(s+"!"), vStr("!"+s))
		case 1:
			v = vDict().set("k", vStr(s)).set("l", vStr(s+"!"))
		default:
			v = vDict().set(s, vInt(1)).set(s+"!", vInt(2))
		}
	default:
		v = vDict().set("end", vArr())
		for i := 0; i < 60; i++ {
			a := vArr()
			for k := 0; k < n/60; k++ {
				a.A = append(a.A, item(k))
			}
			v = vDict().set("a", a).set("b", v)
		}
	}
	return v, fmt.Sprintf("%s, %d, kind %d, %s", what, n, kind, v.K)
}

// checkParts adds something to every container of a new document: each of them
// is a part of its own.
func (c *C) checkParts(what string, d ju.JSONObject) {
	v := c.mustRead(what, d)
	n := 0
	var rec func(v *V, o ju.JSONObject)
	rec = func(v *V, o ju.JSONObject) {
		switch v.K {
		case KArray:
			a := o.(*ju.JSONArray)
			for i, x := range v.A {
				e, err := a.GetAt(i)
				if err != nil {
					c.Failf("%s: element %d of %d: %v", what, i, len(v.A), err)
				}
				rec(x, e)
			}
			n++
			a.Add(ju.NewInt(int64(n)))
			v.A = append(v.A, vInt(int64(n)))
		case KDict:
			d := o.(*ju.JSONDict)
			for _, k := range v.keys() {
				e, err := d.Get(k)
				if err != nil {
					c.Failf("%s: entry %q: %v", what, k, err)
				}
				rec(v.D[k], e)
			}
			n++
			d.Set("added", ju.NewInt(int64(n)))
			v.set("added", vInt(int64(n)))
		}
	}
	c.Guard(what+", with something added to every part", func() { rec(v, d) })
	c.sameDoc(what+", with something added to every part", v, d, false)
}

func init() {
	const rule = "a document of some hundred to 33000 items, entries or bytes; non-trivial: always"
	large := func(prop string, quick, max int, fn func(c *C, v *V)) {
		reg(prop, "large", quick, rule, func(c *C) {
			v, what := c.genLarge(max)
			c.Case(true, what)
			c.Label(strings.SplitN(what, ",", 2)[0])
			fn(c, v)
		})
	}
	parse := func(c *C, text string) ju.JSONObject {
		var d ju.JSONObject
		var err error
		c.Guard("Parse", func() { d, err = ju.ParseString(text) })
		if err != nil {
			c.Failf("text of %d bytes rejected: %s", len(text), clip(err.Error(), 500))
		}
		return d
	}
	large("P01", 60, 20000, func(c *C, v *V) {
		text := refText(v)
		if c.oneIn(3, "mutate") {
			// something is wrong near the end
			at := len(text) - 1 - c.uni(min(len(text)-1, 60), "at")
			text = text[:at] + pick(c, "put", "", "]", "}", ",", "\"", "\x00", "\\") + text[at+c.uni(2, "del"):]
			var d ju.JSONObject
			var err error
			c.Guard("Parse", func() { d, err = ju.ParseString(text) })
			if (err == nil) != (d != nil) {
				c.Failf("document and error %v", err)
			}
			if err != nil {
				return
			}
			c.Guard("using it", func() {
				if msg := useDoc(d); msg != "" {
					c.Failf("%s", msg)
				}
			})
			return
		}
		d := parse(c, text)
		c.Guard("using it", func() {
			if msg := useDoc(d); msg != "" {
				c.Failf("%s", msg)
			}
		})
		c.checkParts("parsed document", d)
	})
	large("P02", 60, 33000, func(c *C, v *V) {
		checkRoundTrip(c, v, "large document")
		if v.K == KDict {
			checkOrderIndependent(c, v)
		}
	})
	large("P03", 60, 33000, func(c *C, v *V) {
		d := build(v)
		checkStdReads(c, "String", d.String(), v)
	})
	large("P04", 60, 33000, func(c *C, v *V) {
		text := refText(v)
		if c.flip("spaced") {
			text = joinToks(tokens(v), pick(c, "sep", " ", "\n", "\r\n\t"))
		}
		if c.flip("rich") {
			// small texts in all notations, many times
			var parts []string
			for i := 0; i < 4; i++ {
				w := &rfcWriter{c: c, escapes: i > 0, stats: map[string]bool{}}
				w.val(c.genDoc())
				parts = append(parts, w.sb.String())
			}
			parts = append(parts, pick(c, "esc", `"a\\\\/b\/\\\\u0041\\\\n"`, `"\\\\"`, `"\\\"\\\\\\\""`, `"\ud83d\ude00\\\\ud83d"`, `"\u005c\u005c/"`))
			max := pick(c, "size", 5000, 40000, 66000, 140000)
			var sb strings.Builder
			sb.WriteByte('[')
			for i := 0; sb.Len() < max; i++ {
				if i > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(parts[i*i%len(parts)])
			}
			sb.WriteByte(']')
			text = sb.String()
		}
		want, err := stdRead(text)
		if err != nil {
			panic(err)
		}
		c.sameDoc("large text", want, parse(c, text), false)
	})
	large("P05", 60, 33000, func(c *C, v *V) {
		text := refText(v)
		for i := 0; i < 6; i++ {
			n := c.uni(len(text), "cut")
			if c.flip("near") {
				n = len(text) - 1 - c.uni(min(len(text), 20), "cut")
			}
			var d ju.JSONObject
			var err error
			c.Guard("Parse", func() { d, err = ju.ParseString(text[:n]) })
			if err == nil || d != nil {
				c.Failf("the first %d of %d bytes are accepted (%v): ...%s", n, len(text), err, clip(text[max(0, n-60):n], 100))
			}
		}
		ts := tokens(v)
		var at []int
		for i, t := range ts {
			if t.kind != 's' && t.kind != 'v' && i > 0 {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return
		}
		i := at[c.uni(len(at), "at")]
		if c.flip("near") {
			i = at[len(at)-1-c.uni(min(len(at), 5), "at")]
		}
		bad := map[byte]string{',': " ", ':': " ", '[': "{", '{': "[", ']': "}", '}': "]"}[ts[i].kind]
		old := ts[i].s
		ts[i].s = bad
		c.mustReject(fmt.Sprintf("large text with %q instead of %q at token %d of %d", bad, old, i, len(ts)), joinToks(ts, " "))
	})
	large("P06", 60, 33000, func(c *C, v *V) {
		w, _ := c.genLarge(3000)
		t1, t2 := refText(v), refText(w)
		sep := pick(c, "sep", "", " ", "\n", "log: ")
		all := []byte(sep + t1 + sep + t2)
		var ds []ju.JSONObject
		var err error
		c.Guard("ParseJsonStreams", func() { ds, err = ju.ParseJsonStreams(all) })
		if err != nil || len(ds) != 2 {
			c.Failf("%d of 2 documents, %v", len(ds), err)
		}
		c.sameDoc("first document", v, ds[0], false)
		c.sameDoc("second document", w, ds[1], false)
		var d ju.JSONObject
		var n int
		c.Guard("ParseStream", func() { d, n, err = ju.ParseStream(all, len(sep)) })
		if err != nil || n != len(sep)+len(t1) {
			c.Failf("ParseStream: offset %d, want %d, %v", n, len(sep)+len(t1), err)
		}
		c.sameDoc("document", v, d, false)
	})
	large("P07", 40, 20000, func(c *C, v *V) { checkPretty(c, v) })
	large("P08", 40, 5000, func(c *C, v *V) {
		if len(v.Ord) > 0 && len(v.Ord[0]) > 100 {
			v = vArr(vStr(v.Ord[0])) // YAML has no keys of that length
		}
		var y string
		var back ju.JSONObject
		var err error
		c.Guard("YAML", func() {
			y = build(v).YAMLString()
			back, err = ju.ParseYAML(y)
		})
		if err != nil {
			c.Failf("YAML text of %d bytes is rejected: %v", len(y), err)
		}
		c.sameDoc("document read from YAML", v, back, true)
	})
	large("P13", 60, 20000, func(c *C, v *V) {
		a := build(v)
		b, _ := c.byRoute(v, "route")
		checkEquals(c, "large documents", v, v, a, b)
		var conts []*V
		v.walk(func(x *V) {
			if x.K == KArray && len(x.A) > 0 {
				conts = append(conts, x)
			}
		})
		if len(conts) == 0 {
			return
		}
		x := conts[c.uni(len(conts), "cont")]
		if c.flip("first") {
			x = conts[0]
		}
		i := c.uni(len(x.A), "item")
		if c.flip("near") {
			i = len(x.A) - 1 - c.uni(min(len(x.A), 3), "item")
		}
		old := x.A[i]
		x.A[i] = vArr(old)
		d := build(v)
		if a.Equals(d) || d.Equals(a) || b.Equals(d) || d.Equals(b) {
			c.Failf("large documents that differ in item %d of %d are equal", i, len(x.A))
		}
	})
	large("P14", 60, 20000, func(c *C, v *V) {
		a := build(v)
		var b ju.JSONObject
		c.Guard("DeepCopy", func() { b = ju.DeepCopy(a) })
		c.sameDoc("deep copy", v, b, false)
		c.checkParts("deep copy", b)
		c.sameDoc("the original, after its copy has changed", v, a, false)
	})
	large("P15", 60, 20000, func(c *C, v *V) {
		d := build(v)
		l, err := d.GetArray()
		if (err == nil) != (v.K == KArray) || len(l) != len(v.A) {
			c.Failf("GetArray gives %d of %d items, %v", len(l), len(v.A), err)
		}
		m, err := d.GetMap()
		if (err == nil) != (v.K == KDict) || len(m) != len(v.D) {
			c.Failf("GetMap gives %d of %d entries, %v", len(m), len(v.D), err)
		}
		for i := 0; i < 20; i++ {
			if v.K == KArray {
				k := c.uni(len(v.A), "item")
				got, err := d.GetAt(k)
				if err != nil || l[k] != got {
					c.Failf("item %d of %d: %v", k, len(v.A), err)
				}
				c.sameDoc(fmt.Sprint("item ", k), v.A[k], got, false)
				continue
			}
			ks := v.keys()
			k := ks[c.uni(len(ks), "entry")]
			got, err := d.Get(k)
			if err != nil || m[k] != got {
				c.Failf("entry %q of %d: %v", clip(k, 100), len(v.D), err)
			}
			c.sameDoc("entry "+clip(k, 100), v.D[k], got, false)
			if got, err = d.GetIgnoreCases(k); err != nil || !got.Equals(m[k]) {
				c.Failf("entry %q of %d by GetIgnoreCases: %v", clip(k, 100), len(v.D), err)
			}
			if d.Contains(k+"?") || !d.Contains(k) {
				c.Failf("Contains %q", clip(k, 100))
			}
		}
	})
	large("P24", 60, 20000, func(c *C, v *V) {
		d := build(v)
		var x interface{}
		c.Guard("Interface", func() { x = d.Interface() })
		if !reflect.DeepEqual(x, ifaceV(v)) {
			c.Failf("the plain value differs from the document")
		}
	})
	large("P16", 60, 20000, func(c *C, v *V) {
		// plain values, strings and numbers of any number
		var err error
		x := ifaceV(v)
		var d, back ju.JSONObject
		c.Guard("MarshalAll and Unmarshal", func() {
			d = ju.MarshalAll(x)
			err = d.Unmarshal(&back)
		})
		if err != nil {
			c.Failf("Unmarshal: %v", err)
		}
		c.sameDoc("marshalled", v, d, false)
		c.sameDoc("unmarshalled into a document", v, back, false)
		n := 1 + c.uni(5000, "n")
		zero := c.uni(n+1, "zero")
		ints, strs, m := []int{}, []string{}, map[string]int{}
		for i := 0; i < n; i++ {
			k := i + 1
			if i >= zero {
				k = 0 // zero values to the end
			}
			ints = append(ints, k)
			strs = append(strs, strings.Repeat("x", k%5))
			m[fmt.Sprint(i)] = k
		}
		ptrs := make([]*int, n)
		for i := range ptrs {
			ptrs[i] = &ints[i]
		}
		type all struct {
			Ints   []int
			Strs   []string
			Ptrs   []*int
			M      map[string]int
			Nested [][]int
			Any    []struct{ A int }
		}
		in := all{Ints: ints, Strs: strs, Ptrs: ptrs, M: m, Nested: [][]int{ints, ints}, Any: make([]struct{ A int }, n)}
		for i := range in.Any {
			in.Any[i].A = ints[i]
		}
		var out all
		c.Guard("Marshal and Unmarshal", func() { err = ju.Marshal(in).Unmarshal(&out) })
		if err != nil || !reflect.DeepEqual(in, out) {
			c.Failf("%d items (zero from %d on) come back as %d, %d, %d, %d, %d, %v", n, zero, len(out.Ints), len(out.Strs), len(out.Ptrs), len(out.M), len(out.Any), err)
		}
	})
}
