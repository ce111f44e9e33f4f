package main

// Documents nested hundreds to thousands of levels deep, for every property
// that speaks of all documents.

import (
	"fmt"
	"reflect"

	ju "yunion.io/x/jsonutils"
)

// bottomOf follows n levels of a document made by genVeryDeep.
func bottomOf(c *C, o ju.JSONObject, n int) ju.JSONObject {
	for i := 0; i < n; i++ {
		var e ju.JSONObject
		var err error
		if a, ok := o.(*ju.JSONArray); ok {
			e, err = a.GetAt(0)
		} else {
			e, err = o.Get("a")
		}
		if err != nil {
			c.Failf("level %d of %d cannot be reached: %v", i, n, err)
		}
		o = e
	}
	return o
}

func init() {
	const rule = "a document 130-6750 levels deep; non-trivial: always"
	deep := func(prop string, quick int, fn func(c *C, v, inner *V, n int)) {
		reg(prop, "deep", quick, rule, func(c *C) {
			v, inner, n := c.genVeryDeep()
			c.Case(true, fmt.Sprintf("%d levels, %s around %s", n, v.K, clip(inner.String(), 200)))
			c.Label(fmt.Sprintf("levels>=%d", n/1000*1000))
			fn(c, v, inner, n)
		})
	}
	deep("P02", 600, func(c *C, v, inner *V, n int) { checkRoundTrip(c, v, "deep document") })
	deep("P04", 800, func(c *C, v, inner *V, n int) {
		text := refText(v)
		want, err := stdRead(text)
		if err != nil {
			panic(err)
		}
		var d ju.JSONObject
		c.Guard("Parse", func() { d, err = ju.ParseString(text) })
		if err != nil {
			c.Failf("text of %d levels rejected: %v", n, clip(err.Error(), 300))
		}
		c.sameDoc("deep text", want, d, false)
	})
	deep("P05", 300, func(c *C, v, inner *V, n int) {
		text := refText(v)
		cut := text[:1+c.uni(len(text)-1, "cut")]
		var d ju.JSONObject
		var err error
		c.Guard("Parse", func() { d, err = ju.ParseString(cut) })
		if err == nil || d != nil {
			c.Failf("the first %d of %d bytes of a text of %d levels are accepted", len(cut), len(text), n)
		}
	})
	deep("P13", 600, func(c *C, v, inner *V, n int) {
		a := build(v)
		b, _ := c.byRoute(v, "route")
		checkEquals(c, "deep documents", v, v, a, b)
		if inner.K == KDict && len(inner.D) > 0 || inner.K == KArray && len(inner.A) > 0 {
			w := inner.clone()
			m, what := c.mutant(w)
			old := *inner
			*inner = *m // inner is part of v
			d := build(v)
			if eqV(&old, m, false) {
				return
			}
			c.Label("changed at the bottom")
			if a.Equals(d) || d.Equals(a) {
				c.Failf("documents of %d levels that differ at the bottom (%s: %s, %s) are equal", n, what, old.String(), m)
			}
		}
	})
	deep("P14", 600, func(c *C, v, inner *V, n int) {
		a := build(v)
		var b ju.JSONObject
		c.Guard("DeepCopy", func() { b = ju.DeepCopy(a) })
		c.sameDoc("deep copy", v, b, false)
		x, y := a, b
		if c.flip("which") {
			x, y = b, a
		}
		at := c.uni(n+1, "at")
		switch t := bottomOf(c, x, at).(type) {
		case *ju.JSONDict:
			t.Set("changed", ju.NewInt(1))
			t.Remove("a")
		case *ju.JSONArray:
			t.Add(ju.NewInt(1))
			t.SetAt(0, ju.NewInt(2))
		}
		c.sameDoc(fmt.Sprintf("other document after a change at level %d", at), v, y, false)
	})
	deep("P15", 400, func(c *C, v, inner *V, n int) {
		keys := []string{}
		want := v
		for want.K == KDict && len(keys) < n {
			keys = append(keys, "a")
			want = want.D["a"]
		}
		if len(keys) == 0 {
			return
		}
		c.Label("long path")
		d := build(v)
		var got ju.JSONObject
		var err error
		c.Guard("Get", func() { got, err = d.Get(keys...) })
		if err != nil {
			c.Failf("Get with %d keys: %v", len(keys), err)
		}
		c.sameDoc("long path", want, got, false)
	})
	deep("P24", 400, func(c *C, v, inner *V, n int) {
		d := build(v)
		var x interface{}
		c.Guard("Interface", func() { x = d.Interface() })
		for i := 0; i < n; i++ {
			switch t := x.(type) {
			case map[string]interface{}:
				x = t["a"]
			case []interface{}:
				x = t[0]
			default:
				c.Failf("level %d of %d is %T", i, n, x)
			}
		}
		if !reflect.DeepEqual(x, ifaceV(inner)) {
			c.Failf("bottom of %d levels: %#v instead of %s", n, x, inner)
		}
		var back ju.JSONObject
		c.Guard("MarshalAll", func() { back = ju.MarshalAll(d.Interface()) })
		c.sameDoc("the plain value marshalled again", v, back, false)
	})
}
