package main

// P24 plain Go values, P25 request helpers, P26 times and grouped numbers.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
)

// ---------- P24 ----------

func ifaceV(v *V) interface{} {
	switch v.K {
	case KNull:
		return nil
	case KBool:
		return v.B
	case KInt:
		return v.I
	case KFloat:
		return v.F
	case KString:
		return v.S
	case KArray:
		l := make([]interface{}, len(v.A))
		for i, x := range v.A {
			l[i] = ifaceV(x)
		}
		return l
	}
	m := map[string]interface{}{}
	for k, x := range v.D {
		m[k] = ifaceV(x)
	}
	return m
}

func zeroV(v *V) bool {
	switch v.K {
	case KNull:
		return true
	case KBool:
		return !v.B
	case KInt:
		return v.I == 0
	case KFloat:
		return v.F == 0
	case KString:
		return v.S == ""
	case KArray:
		return len(v.A) == 0
	}
	return len(v.D) == 0
}

// checkPlain compares all plain views of every part of a document.
func checkPlain(c *C, v *V, d ju.JSONObject) {
	if got, want := d.Interface(), ifaceV(v); !reflect.DeepEqual(got, want) {
		c.Failf("Interface of %s is %#v, not %#v", clip(v.String(), 1500), got, want)
	}
	if d.IsZero() != zeroV(v) {
		c.Failf("IsZero of %s is %v", v, d.IsZero())
	}
	n := -1
	switch x := d.(type) {
	case *ju.JSONBool:
		if x.Value() != v.B {
			c.Failf("Value of %s is %v", v, x.Value())
		}
	case *ju.JSONInt:
		if x.Value() != v.I {
			c.Failf("Value of %s is %v", v, x.Value())
		}
	case *ju.JSONFloat:
		if x.Value() != v.F {
			c.Failf("Value of %s is %v", v, x.Value())
		}
	case *ju.JSONString:
		if x.Value() != v.S || x.Length() != len(v.S) {
			c.Failf("Value, Length of %s are %q, %d", v, x.Value(), x.Length())
		}
	case *ju.JSONArray:
		n = len(v.A)
		l := x.Value()
		if x.Length() != n || x.Size() != n || len(l) != n {
			c.Failf("Length, Size, Value of %s: %d %d %d", v, x.Length(), x.Size(), len(l))
		}
		for i := range l {
			checkPlain(c, v.A[i], l[i])
		}
	case *ju.JSONDict:
		n = len(v.D)
		m := x.Value()
		if x.Length() != n || x.Size() != n || len(m) != n {
			c.Failf("Length, Size, Value of %s: %d %d %d", v, x.Length(), x.Size(), len(m))
		}
		for k, e := range m {
			if v.D[k] == nil {
				c.Failf("Value of %s has the key %q", v, k)
			}
			checkPlain(c, v.D[k], e)
		}
	}
}

func initPlain() {
	reg("P24", "interface", 9000, "a document and its plain Go value (Interface, Value, IsZero, Length) against the reference; the plain value marshalled again by MarshalAll and by encoding/json gives the same document; non-trivial: a non-empty container", func(c *C) {
		v := c.genDoc()
		d, how := c.byRoute(v, "how")
		c.Case(docNontrivial(v), how+" "+v.String())
		c.labelDoc(v)
		c.Guard("plain values", func() { checkPlain(c, v, d) })
		var back ju.JSONObject
		c.Guard("MarshalAll", func() { back = ju.MarshalAll(d.Interface()) })
		c.sameDoc("the plain value marshalled again", v, back, false)
		if validUTF8V(v) {
			b, err := json.Marshal(d.Interface())
			if err != nil {
				c.Failf("encoding/json cannot marshal the plain value of %s: %v", v, err)
			}
			sv, err := stdRead(string(b))
			if err != nil || !eqV(v, sv, true) {
				c.Failf("encoding/json writes the plain value of %s as %s (%v)", v, b, err)
			}
		}
	})
	reg("P24", "graph", 1500, "the dicts of a document marshalled from a graph of shared and cyclic pointers: Length, IsZero, Value and SortedKeys tell their members; non-trivial: a node has an id", func(c *C) {
		ns, _, cyclic := c.genGraph(false)
		d := ju.Marshal(ns[0])
		t := d.String()
		c.Case(strings.Contains(t, "___jnid_"), t)
		c.LabelIf(cyclic, "cyclic")
		for _, o := range nodesOf(d) {
			switch x := o.(type) {
			case *ju.JSONDict:
				n := len(x.SortedKeys())
				if x.Length() != n || len(x.Value()) != n || n > 0 && x.IsZero() {
					c.Failf("dict %s of %d keys: Length %d, Value of %d, IsZero %v", x, n, x.Length(), len(x.Value()), x.IsZero())
				}
				for k := range x.Value() {
					if k == "___jnid_" {
						c.Failf("Value of %s has the key %q", x, k)
					}
				}
			case *ju.JSONArray:
				n := x.Length()
				if len(x.Value()) != n || x.IsZero() != (n == 0) {
					c.Failf("array %s of %d items: Value of %d, IsZero %v", x, n, len(x.Value()), x.IsZero())
				}
			}
		}
	})
	reg("P24", "independent", 6000, "a document and its plain Go value; changing the one does not change the other; non-trivial: a non-empty container", func(c *C) {
		v := c.genDoc()
		d := build(v)
		if c.flip("shared") {
			// the same part at several places of the document
			part := c.genV(c.opt(2, 3))
			w := vArr(part, part, v, part)
			if c.flip("sharedict") {
				w = vDict()
				for _, k := range []string{"a", "b", "c"} {
					w.set(k, vArr(part, part, vArr(part)))
				}
			}
			v, d = w, buildShared(w)
			c.Label("shared parts")
		}
		c.Case(docNontrivial(v), v.String())
		x := d.Interface()
		if err := distinct(reflect.ValueOf([]interface{}{x}), "plain value", map[uintptr]string{}); err != nil {
			c.Failf("%v\n of %s", err, v)
		}
		if c.flip("which") {
			spoil(x)
			c.sameDoc("after its plain value changed", v, d, false)
			return
		}
		for i := 0; i < 3; i++ {
			if cs := containers(d); len(cs) > 0 {
				c.mangle(cs[c.uni(len(cs), "cont")])
			}
		}
		if !reflect.DeepEqual(x, ifaceV(v)) {
			c.Failf("the plain value of %s changed with the document: %#v", v, x)
		}
	})
	regFixed("P24", "plain", "plain cases", func(c *C) {
		c.Case(true, "null, float32")
		if ju.JSONNull.Interface() != nil || !ju.JSONNull.IsZero() {
			c.Failf("null")
		}
		f := float32(1.1)
		if ju.NewFloat32(f).Interface() != float64(f) || ju.NewFloat32(f).String() != "1.1" || ju.NewFloat64(float64(f)).String() == "1.1" {
			c.Failf("float32 1.1 gives %v %s", ju.NewFloat32(f).Interface(), ju.NewFloat32(f))
		}
	})
}

// spoil changes every container of a plain value.
func spoil(x interface{}) {
	switch y := x.(type) {
	case map[string]interface{}:
		for k, e := range y {
			spoil(e)
			y[k] = "spoilt"
		}
		y["new"] = 1
	case []interface{}:
		for i, e := range y {
			spoil(e)
			y[i] = "spoilt"
		}
		_ = append(y, 1)
	}
}

// ---------- P25 ----------

// textV is what GetString gives for a value.
func textV(v *V) string {
	switch v.K {
	case KString:
		return v.S
	}
	return printV(v)
}

// printV is the printed text of a value, from the reference writer: sorted
// keys, no spaces.
func printV(v *V) string { return build(v).String() }

func boolWord(s string) bool {
	switch strings.ToLower(strings.TrimSpace(s)) {
	case "1", "true", "on", "yes":
		return true
	}
	return false
}

// runLen is the length of a list, seldom a great one.
func (c *C) runLen(l string) int {
	if c.oneIn(24, l+"big") {
		return pick(c, l+"b", 20, 33, 65, 100, 101, 129, 150, 257, 300, 600, 1025)
	}
	return 1 + c.uni(13, l)
}

// reqDoc is a document as it is made from a request.
func (c *C) reqDoc() *V {
	keys := []string{"a", "b", "k", "a.0", "a.1", "a.2", "a.3", "k.0", "k.1", "k.10", "0", "1", "A", "", "k.", "k.00", "k.-1", "50%d", "50%d.0", "%"}
	v := vDict()
	leaf := func() *V {
		switch c.uni(9, "leaf") {
		case 0:
			return vNull()
		case 1:
			return vStr("")
		case 2:
			return vStr(pick(c, "bw", "true", "Yes", "on", "1", "0", "false", "off", " true ", "TRUE", "t"))
		case 3:
			return c.smallV(2)
		}
		return vStr(c.genStr())
	}
	for i := c.intn(0, 10, "n"); i > 0; i-- {
		var x *V
		switch c.uni(6, "kind") {
		case 0:
			x = vArr()
			for j := c.intn(0, 4, "an"); j > 0; j-- {
				x.A = append(x.A, leaf())
			}
		case 1, 2:
			x = vDict()
			for j := c.intn(0, 13, "dn"); j > 0; j-- {
				if c.oneIn(6, "seq") {
					// a run of indexes
					n := c.runLen("run")
					for q := 0; q < n; q++ {
						x.set(strconv.Itoa(q), leaf())
					}
				} else {
					x.set(pick(c, "ik", "0", "1", "2", "3", "4", "00", "01", "10", "-1", "x", ""), leaf())
				}
			}
		default:
			x = leaf()
		}
		v.set(keys[c.uni(len(keys), "key")], x)
	}
	if c.oneIn(4, "prefix") {
		p := pick(c, "pp", "a", "k", "", "p.q", "50%", "%d", "%s%d", "p q", "a[b]", "$1", "*")
		n := c.runLen("pn")
		for q := n; q > 0; q-- {
			x := leaf()
			if x.K == KNull && n > 13 && !c.oneIn(64, "nullin") {
				x = vInt(int64(q))
			}
			v.set(fmt.Sprintf("%s.%d", p, q-1), x)
		}
		if n > 13 && c.flip("plong") {
			return v
		}
		if c.oneIn(3, "hole") {
			v.del(fmt.Sprintf("%s.%d", p, c.uni(4, "holeat")))
		}
	}
	return v
}

func initHelpers() {
	reg("P25", "lookups", 10000, "a request document, a key and a list of keys; GetQueryStringArray, GetArrayOfPrefix, GetAnyString, GetStringArray, QueryBoolean and CheckRequiredFields against their references; non-trivial: a looked up key is present", func(c *C) {
		v := c.reqDoc()
		keyOf := func(l string) string {
			if ks := v.keys(); len(ks) > 0 && c.uni(4, l+"h") > 0 {
				k := ks[c.uni(len(ks), l)]
				if i := strings.LastIndexByte(k, '.'); i >= 0 && c.flip(l+"p") {
					k = k[:i]
				}
				return k
			}
			return pick(c, l, "a", "b", "k", "p.q", "zz", "")
		}
		key := keyOf("key")
		if ks := v.keys(); len(ks) > 13 && c.flip("longkey") {
			// the prefix of most keys
			if i := strings.LastIndexByte(ks[len(ks)/2], '.'); i >= 0 {
				key = ks[len(ks)/2][:i]
			}
		}
		var keys []string
		nk := c.uni(5, "nk")
		if c.oneIn(6, "manykeys") {
			nk = 5 + c.uni(16, "nk")
		}
		for i := nk; i > 0; i-- {
			keys = append(keys, keyOf("ks"))
		}
		given := append(make([]string, 0, len(keys)+2), keys...)
		if c.oneIn(12, "scalar") {
			v = c.smallV(1)
		}
		hit := v.D[key]
		c.Case(hit != nil, fmt.Sprintf("%s key %q keys %q", v, key, keys))
		d, _ := c.byRoute(v, "how")

		// GetQueryStringArray
		var want []string
		if hit != nil {
			c.Label("GetQueryStringArray:" + hit.K.String())
			switch hit.K {
			case KArray:
				want = []string{}
				for _, x := range hit.A {
					want = append(want, textV(x))
				}
			case KString:
				want = []string{hit.S}
			case KDict:
				want = []string{}
				for i := 0; hit.D[strconv.Itoa(i)] != nil; i++ {
					want = append(want, textV(hit.D[strconv.Itoa(i)]))
				}
			}
		}
		same := func(what string, got, want []string) {
			if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
				c.Failf("%s of %s, %q is %q, not %q", what, v, key, got, want)
			}
		}
		c.Guard("GetQueryStringArray", func() { same("GetQueryStringArray", ju.GetQueryStringArray(d, key), want) })

		// GetStringArray: a scalar counts as an array of one
		var ws []string
		wantErr := hit == nil || hit.K == KDict || hit.K == KNull
		if !wantErr {
			if hit.K == KArray {
				for _, x := range hit.A {
					ws = append(ws, textV(x))
				}
			} else {
				ws = []string{textV(hit)}
			}
		}
		c.Guard("GetStringArray", func() {
			got, err := ju.GetStringArray(d, key)
			if v.K != KDict {
				if err == nil {
					c.Failf("GetStringArray of %s by a key gives %q", v, got)
				}
				return
			}
			if (err != nil) != wantErr {
				c.Failf("GetStringArray of %s, %q: %q, %v", v, key, got, err)
			}
			same("GetStringArray", got, ws)
		})

		// GetArrayOfPrefix
		c.Guard("GetArrayOfPrefix", func() {
			got := ju.GetArrayOfPrefix(d, key)
			n := 0
			for {
				x := v.D[fmt.Sprintf("%s.%d", key, n)]
				if x == nil || x.K == KNull {
					break
				}
				if n >= len(got) {
					c.Failf("GetArrayOfPrefix of %s, %q stops after %d", v, key, n)
				}
				c.sameDoc(fmt.Sprintf("GetArrayOfPrefix of %s, %q at %d", v, key, n), x, got[n], false)
				n++
			}
			if len(got) != n {
				c.Failf("GetArrayOfPrefix of %s, %q has %d items, not %d", v, key, len(got), n)
			}
			c.LabelIf(n > 1, "GetArrayOfPrefix: several")
		})

		// GetAnyString
		wv, wk := "", ""
		for _, k := range keys {
			if x := v.D[k]; x != nil && textV(x) != "" {
				wv, wk = textV(x), k
				break
			}
		}
		c.Guard("GetAnyString", func() {
			gv, gk := ju.GetAnyString2(d, keys)
			if gv != wv || gk != wk || ju.GetAnyString(d, keys) != wv {
				c.Failf("GetAnyString2 of %s, %q is %q at %q, not %q at %q", v, keys, gv, gk, wv, wk)
			}
		})

		// QueryBoolean
		c.Guard("QueryBoolean", func() {
			for _, def := range []bool{false, true} {
				w := def
				if hit != nil {
					w = boolWord(textV(hit))
				}
				if got := ju.QueryBoolean(d, key, def); got != w {
					c.Failf("QueryBoolean of %s, %q, %v is %v", v, key, def, got)
				}
			}
		})

		// CheckRequiredFields
		c.Guard("CheckRequiredFields", func() {
			err := ju.CheckRequiredFields(d, keys)
			var w error
			name := ""
			for _, k := range keys {
				x := v.D[k]
				if x == nil {
					w, name = ju.ErrMissingInputField, k
					break
				}
				if x.K == KNull {
					w, name = ju.ErrNilInputField, k
					break
				}
			}
			if v.K != KDict {
				w, name = anyErr, ""
			}
			if !errOK(err, w) {
				c.Failf("CheckRequiredFields of %s, %q is %v, not %v", v, keys, err, w)
			}
			if w != nil && !strings.Contains(err.Error(), name) {
				c.Failf("CheckRequiredFields of %s, %q is %v, the first field it misses is %q", v, keys, err, name)
			}
		})
		c.sameDoc("after the lookups", v, d, false)
		if strings.Join(keys, "\x00") != strings.Join(given, "\x00") {
			c.Failf("the list of keys %q has become %q", given, keys)
		}
	})
	reg("P25", "arrays", 6000, "a list of strings turned into an array and back; non-trivial: two strings or more", func(c *C) {
		l := make([]string, c.runLen("n")-1)
		for i := range l {
			l[i] = c.genStr()
		}
		c.Case(len(l) >= 2, fmt.Sprintf("%q", l))
		a := ju.NewStringArray(l)
		want := &V{K: KArray}
		for _, s := range l {
			want.A = append(want.A, vStr(s))
		}
		c.sameDoc("NewStringArray", want, a, false)
		objs, _ := a.GetArray()
		for what, got := range map[string][]string{"GetStringArray": a.GetStringArray(), "JSONArray2StringArray": ju.JSONArray2StringArray(objs)} {
			if len(got) != len(l) || len(l) > 0 && !reflect.DeepEqual(got, l) {
				c.Failf("%s of %q is %q", what, l, got)
			}
		}
		d := ju.NewDict()
		d.Set("k", a)
		d.Set("l", ju.NewDict())
		got, err := ju.GetStringArray(d, "k")
		if err != nil || len(got) != len(l) || len(l) > 0 && !reflect.DeepEqual(got, l) {
			c.Failf("GetStringArray of %q is %q %v", l, got, err)
		}
		if q := ju.GetQueryStringArray(d, "k"); len(q) != len(l) || len(l) > 0 && !reflect.DeepEqual(q, l) {
			c.Failf("GetQueryStringArray of %q is %q", l, q)
		}
	})
	reg("P25", "fromquery", 5000, "a list of strings put into a query string in one of the usual ways (repeated key, key.N, one value) and read back by the helpers; non-trivial: two strings or more", func(c *C) {
		l := make([]string, c.runLen("n"))
		for i := range l {
			l[i] = c.genStr()
		}
		key := pick(c, "key", "a", "filter", "Key", "a_b", "x-y")
		form := c.uni(3, "form")
		q := ""
		for i, s := range l {
			k := key
			if form == 1 {
				k = fmt.Sprintf("%s.%d", key, i)
			} else if form == 2 {
				k = fmt.Sprintf("%s.%d", key, len(l)-1-i)
			}
			if q != "" {
				q += "&"
			}
			q += k + "=" + pctAll(s)
		}
		c.Case(len(l) >= 2, q)
		c.LabelIf(len(l) > 10, "more than 10")
		d, err := ju.ParseQueryString(q)
		if err != nil {
			c.Failf("query %s: %v", q, err)
		}
		want := l
		if form == 2 {
			want = make([]string, len(l))
			for i := range l {
				want[len(l)-1-i] = l[i]
			}
		}
		if got := ju.GetQueryStringArray(d, key); !reflect.DeepEqual(got, want) {
			c.Failf("GetQueryStringArray of %s (%s) is %q, not %q", q, d, got, want)
		}
	})
	regFixed("P25", "nil", "plain cases", func(c *C) {
		c.Case(true, "nil documents")
		if x, k := ju.GetAnyString2(nil, []string{"a"}); x != "" || k != "" {
			c.Failf("GetAnyString2 finds %q of %q in a nil document", x, k)
		}
		if ju.GetQueryStringArray(nil, "a") != nil || ju.GetAnyString(nil, []string{"a"}) != "" || len(ju.GetArrayOfPrefix(nil, "a")) != 0 || !ju.QueryBoolean(nil, "a", true) || ju.QueryBoolean(nil, "a", false) {
			c.Failf("a helper finds something in a nil document")
		}
	})
}

// pctAll percent-encodes everything but letters and digits.
func pctAll(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' {
			sb.WriteByte(ch)
		} else {
			fmt.Fprintf(&sb, "%%%02X", ch)
		}
	}
	return sb.String()
}

// ---------- P26 ----------

// timeLayouts are the formats that are understood, with the precision they keep.
var timeLayouts = []struct {
	layout string
	keep   time.Duration
	zone   bool // the text carries a zone
	field  bool // understood by time.Time fields, too
}{
	{"2006-01-02T15:04:05Z07:00", time.Second, true, true},
	{"2006-01-02T15:04Z07:00", time.Minute, true, true},
	{"2006-01-02T15:04:05.000Z07:00", time.Millisecond, true, true},
	{"2006-01-02T15:04:05.000000Z07:00", time.Microsecond, true, true},
	{"2006-01-02T15:04:05.000000000Z07:00", time.Nanosecond, true, true},
	{"2006-01-02 15:04:05Z07:00", time.Second, true, true},
	{"2006-01-02 15:04Z07:00", time.Minute, true, true},
	{"2006-01-02 15:04:05", time.Second, false, true},
	{"2006-01-02T15:04:05", time.Second, false, true},
	{"2006-01-02T15:04:05.000000", time.Microsecond, false, true},
	{"20060102150405", time.Second, false, true},
	{"2006-01-02", 24 * time.Hour, false, true},
	{"20060102", 24 * time.Hour, false, true},
	{"2006-01-02T15:04:05.0Z07:00", 100 * time.Millisecond, true, false},
	{time.RFC1123, time.Second, false, true},
}

// groupNum writes a number in the given style: digits in groups of three.
func groupNum(n int64, group, dec string, frac string) string {
	s := strconv.FormatInt(n, 10)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	out := ""
	for len(s) > 3 {
		out = group + s[len(s)-3:] + out
		s = s[:len(s)-3]
	}
	out = s + out
	if frac != "" {
		out += dec + frac
	}
	if neg {
		out = "-" + out
	}
	return out
}

type timeT struct {
	A  int
	T  time.Time
	P  *time.Time
	L  []time.Time
	M  map[string]time.Time
	D  []time.Time `json:"dd"`
	S  string
	Z  int
	TT *struct{ T time.Time }
}

func initTimes() {
	reg("P26", "times", 8000, "an instant of the years 1 to 9999, any zone, written in one of the usual formats and read by GetTime and into time fields; non-trivial: not midnight UTC", func(c *C) {
		lay := timeLayouts[c.uni(len(timeLayouts), "layout")]
		t := time.Unix(int64(c.intn(-62135596800+86400*2, 253402300799-86400*2, "sec")), int64(c.intn(0, 999999999, "ns"))).UTC()
		if c.flip("recent") {
			t = time.Unix(int64(c.intn(0, 4102444800, "rsec")), t.UnixNano()%1000).UTC()
		}
		loc := time.UTC
		if lay.zone && c.flip("zone") {
			loc = time.FixedZone("", 60*c.intn(-14*60, 14*60, "off"))
			if c.oneIn(4, "local") {
				loc = time.Local
			}
		}
		text := t.In(loc).Format(lay.layout)
		want := t.In(loc)
		// what the text keeps of it
		y, mo, da := want.Date()
		h, mi, se := want.Clock()
		ns := want.Nanosecond()
		switch lay.keep {
		case 24 * time.Hour:
			h, mi, se, ns = 0, 0, 0, 0
		case time.Minute:
			se, ns = 0, 0
		default:
			ns -= ns % int(lay.keep)
			if lay.keep == time.Second {
				ns = 0
			}
		}
		want = time.Date(y, mo, da, h, mi, se, ns, loc)
		c.Case(t.Unix()%86400 != 0, text)
		c.Label(lay.layout)
		got, err := ju.NewString(text).GetTime()
		if err != nil || !got.Equal(want) {
			c.Failf("GetTime of %q is %v %v, not %v", text, got, err, want)
		}
		d := vDict().set("when", vStr(text)).set("other", vInt(1))
		got, err = build(vDict().set("x", d)).(*ju.JSONDict).GetTime("x", "when")
		if err != nil || !got.Equal(want) {
			c.Failf("GetTime of a dict with %q is %v %v, not %v", text, got, err, want)
		}
		if !lay.field {
			return
		}
		x := timeT{T: time.Unix(1, 0), S: "old", Z: 7}
		one := vStr(text)
		ptr := one
		if _, err := time.Parse(time.RFC3339, text); err != nil {
			ptr = vNull() // *time.Time takes RFC 3339 only
		}
		doc := vDict().set("a", vInt(5)).set("t", one).set("p", ptr).set("l", vArr(one, vStr(""), one)).set("m", vDict().set("k", one)).set("s", one).set("z", vInt(8)).set("tt", vDict().set("t", one))
		if err := build(doc).Unmarshal(&x); err != nil {
			c.Failf("Unmarshal of %s: %v", doc, err)
		}
		if !x.T.Equal(want) || (ptr == one) != (x.P != nil) || x.P != nil && !x.P.Equal(want) || len(x.L) != 3 || !x.L[0].Equal(want) || !x.L[1].IsZero() || !x.L[2].Equal(want) || !x.M["k"].Equal(want) || x.TT == nil || !x.TT.T.Equal(want) || x.S != text || x.A != 5 || x.Z != 8 {
			c.Failf("Unmarshal of %s gives %+v, not %v", doc, x, want)
		}
	})
	reg("P26", "marshal", 5000, "a struct of instants marshalled and read back, and NewTimeString; times are written in UTC with the documented precision; non-trivial: has a fraction of a second or a zone", func(c *C) {
		t := c.genTimeVal()
		if c.flip("zone") {
			off := 60 * c.intn(-14*60, 14*60, "off")
			if c.oneIn(8, "seconds") {
				off += c.uni(60, "offsec") // as before zones were standardized
			}
			t = t.In(time.FixedZone(pick(c, "zonename", "x", "", "UTC", "GMT", "Local", "Z", "EST", "+00"), off))
			if c.oneIn(4, "local") {
				t = t.In(time.Local)
			}
		}
		if !t.IsZero() && c.oneIn(4, "nanos") {
			// finer than what is written
			t = t.Truncate(time.Second).Add(time.Duration(pick(c, "ns", 1, 999, 1001, 499999999, 500000000, 999999000, 999999499, 999999500, 999999999, c.uni(1000000000, "nsr"))))
		}
		_, off := t.Zone()
		c.Case(t.Nanosecond() != 0 || off != 0, t.Format(time.RFC3339Nano))
		if y := t.UTC().Year(); y >= 1 && y <= 9999 {
			u := t.UTC()
			want := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), u.Second())
			if got := ju.NewTimeString(t).Value(); got != want {
				c.Failf("NewTimeString of %v is %s", t, got)
			}
			back, err := ju.NewTimeString(t).GetTime()
			if err != nil || !back.Equal(t.Truncate(time.Second)) {
				c.Failf("GetTime of %s is %v %v", want, back, err)
			}
			wantF := fmt.Sprintf("%s.%06dZ", want[:len(want)-1], u.Nanosecond()/1000)
			d := ju.Marshal(struct {
				T time.Time
				L []time.Time
			}{t, []time.Time{t}})
			if t.IsZero() {
				return
			}
			c.sameDoc("marshalled time", vDict().set("t", vStr(wantF)).set("l", vArr(vStr(wantF))), d, false)
			x := timeT{}
			if err := mustParse(c, d.String()).Unmarshal(&x); err != nil || !x.T.Equal(t.Truncate(time.Microsecond)) || len(x.L) != 1 || !x.L[0].Equal(x.T) {
				c.Failf("%s reads back as %+v %v", d, x, err)
			}
		}
	})
	reg("P26", "notimes", 5000, "texts that are no times (damaged times, words, numbers, empty): GetTime reports an error, a time field becomes the zero time and its neighbours are set; non-trivial: the text has a digit", func(c *C) {
		var s string
		switch c.uni(4, "kind") {
		case 0:
			s = pick(c, "w", "", "now", "2020", "20-20", "2020-13-01", "2020-00-10", "2020-02-30", "2021-02-29T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-1-1", "12:00", "T", "0", "2020-01-01T00:00:00+25:99x", "2020-01-01T", "2020/01/01")
		case 1:
			t := time.Unix(int64(c.intn(0, 4102444800, "sec")), 0).UTC().Format(timeLayouts[c.uni(len(timeLayouts), "layout")].layout)
			i := c.uni(len(t), "at")
			s = t[:i] + pick(c, "dmg", "x", "::", "#", "?") + t[i:]
		default:
			s = "~" + c.genStr()
		}
		c.Case(strings.ContainsAny(s, "0123456789"), s)
		var err error
		var got time.Time
		c.Guard("GetTime", func() { got, err = ju.NewString(s).GetTime() })
		if err == nil || !got.IsZero() {
			c.Failf("GetTime of %q is %v, %v", s, got, err)
		}
		x := timeT{T: time.Unix(5, 0)}
		doc := vDict().set("a", vInt(5)).set("t", vStr(s)).set("l", vArr(vStr("2020-01-02"), vStr(s))).set("s", vStr(s)).set("z", vInt(8))
		c.Guard("Unmarshal", func() { err = build(doc).Unmarshal(&x) })
		if err != nil || !x.T.IsZero() || len(x.L) != 2 || x.L[0].Day() != 2 || !x.L[1].IsZero() || x.A != 5 || x.Z != 8 || x.S != s {
			c.Failf("Unmarshal of %s gives %+v, %v", doc, x, err)
		}
		for _, v := range []*V{vInt(20200101), vFloat(1.5), vBool(true), vNull(), vArr(vStr("2020-01-01")), vDict()} {
			if tm, err := build(v).GetTime(); err == nil {
				c.Failf("GetTime of %s is %v", v, tm)
			}
		}
	})
	reg("P26", "grouped", 9000, "a number written with US (1,234.50) or EU (1.234,50) digit groups and unmarshalled into number fields; non-trivial: has a group separator", func(c *C) {
		n := int64(c.intn(0, 1<<40, "n"))
		switch c.uni(5, "mag") {
		case 4:
			n = c.genInt()
			if n < 0 {
				n = ^n
			}
		case 0:
			n = int64(c.intn(0, 9999, "ns"))
		case 1:
			n = int64(c.intn(1000000, 999999999, "nm"))
		}
		frac := ""
		if c.flip("frac") {
			for i := 1 + c.uni(3, "fn"); i > 0; i-- {
				frac += string(rune('0' + c.uni(10, "fd")))
			}
		}
		us := c.flip("us")
		text := groupNum(n, ",", ".", frac)
		if !us {
			text = groupNum(n, ".", ",", frac)
		}
		// 1.234 is US style: a fraction; 0,123 and 12,345 are EU fractions or US
		// groups: the US reading goes first
		want, _ := strconv.ParseFloat(strconv.FormatInt(n, 10)+"."+frac+"0", 64)
		if !us {
			switch {
			case strings.Count(text, ".") == 1 && frac == "":
				// one dot only: a decimal point
				want, _ = strconv.ParseFloat(text, 64)
			case strings.Count(text, ".") == 0 && len(frac) == 3 && n > 0:
				// one comma before three digits: a thousands separator
				want, _ = strconv.ParseFloat(strings.ReplaceAll(text, ",", ""), 64)
			case strings.Count(text, ".") == 0 && len(frac) == 3:
				// 0,123
				want = -1
			}
		}
		skip := want < 0
		if us && frac != "" && n > 99 && c.oneIn(8, "zerogroup") {
			// a group of zeros in front
			s := strconv.FormatInt(n, 10)
			if len(s)%3 == 0 {
				text = pick(c, "zg", "0,", "00,", "000,") + text
			}
		}
		if sign := pick(c, "sign", "", "", "-", "+"); sign != "" && !skip {
			text = sign + text
			if sign == "-" {
				want, n = -want, -n
			}
			c.Label("sign")
		}
		c.Case(strings.ContainsAny(text, ",."), text)
		c.LabelIf(us, "US")
		c.LabelIf(!us, "EU")
		if skip {
			return
		}
		x := struct {
			F  float64
			I  int64
			P  *float64
			L  []float64
			S  string
			Nx float32
		}{I: -7}
		doc := vDict().set("f", vStr(text)).set("p", vStr(text)).set("l", vArr(vStr(text), vStr(text))).set("s", vStr(text))
		if err := build(doc).Unmarshal(&x); err != nil || x.F != want || x.P == nil || *x.P != want || len(x.L) != 2 || x.L[1] != want || x.S != text {
			c.Failf("Unmarshal of %s gives %+v %v, not %v", doc, x, err, want)
		}
		err := build(vDict().set("i", vStr(text))).Unmarshal(&x)
		if frac == "" && (us || !strings.Contains(text, ".") || strings.Count(text, ".") > 1) {
			if err != nil || x.I != n {
				c.Failf("Unmarshal of %q into an int gives %d %v", text, x.I, err)
			}
		} else if want != math.Trunc(want) && (err == nil || x.I != -7) {
			c.Failf("Unmarshal of %q into an int gives %d %v", text, x.I, err)
		}
	})
}

func init() {
	initPlain()
	initHelpers()
	initTimes()
}
