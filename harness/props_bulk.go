package main

// Containers made of long argument lists, maps of many entries, cycles through
// pointers to maps, types with one JSON method only.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// ouInt, ouStr, ouMap and ouRec have no other method than UnmarshalJSON,
// omInt, omList and omRec none but MarshalJSON.
type ouInt int

func (o *ouInt) UnmarshalJSON(b []byte) error {
	n, err := strconv.Atoi(string(b))
	*o = ouInt(n + 1000)
	return err
}

type ouStr string

func (o *ouStr) UnmarshalJSON(b []byte) error {
	var s string
	err := json.Unmarshal(b, &s)
	*o = ouStr("<" + s + ">")
	return err
}

type ouMap map[string]int

func (o *ouMap) UnmarshalJSON(b []byte) error {
	m := map[string]int{}
	err := json.Unmarshal(b, &m)
	m["+"] = len(m)
	*o = m
	return err
}

type ouRec struct{ A, B int }

func (o *ouRec) UnmarshalJSON(b []byte) error {
	var l []int
	err := json.Unmarshal(b, &l)
	if err == nil && len(l) == 2 {
		o.A, o.B = l[1], l[0]
	}
	return err
}

type omInt int

func (o omInt) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(int(o) + 1000)), nil }

type omList []int

func (o omList) MarshalJSON() ([]byte, error) {
	return json.Marshal(append([]int{len(o)}, o...))
}

type omRec struct{ A, B int }

func (o omRec) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"a":%d,"b":%d}`, o.B, o.A)), nil
}

type oneWay struct {
	I  ouInt
	IP *ouInt
	IL []ouInt
	IM map[string]*ouInt
	S  ouStr
	SL []ouStr
	M  ouMap
	R  ouRec
	RL []*ouRec
}

type oneWayM struct {
	I  omInt
	IP *omInt
	IL []omInt
	IM map[string]omInt
	L  omList
	R  omRec
	RP *omRec
	RL []omRec
}

// cycRec is a node of a graph; another kind is map[string]interface{}.
type cycRec struct {
	Id   int
	A, B interface{}
	L    []interface{}
}

type cycEdge struct {
	key string
	to  int
}

func init() {
	reg("P22", "oneway", 2500, "values of types whose only method is UnmarshalJSON or MarshalJSON, in fields, pointers, elements and entries; non-trivial: every case", func(c *C) {
		i := c.uni(500, "i")
		s := c.genKey()
		k := c.genKey()
		if c.flip("marshal") {
			in := oneWayM{I: omInt(i), IL: []omInt{1, omInt(i)}, IM: map[string]omInt{k: omInt(i)}, L: omList{i, 2}, R: omRec{i, 1}, RL: []omRec{{1, i}, {i, 3}}}
			p := omInt(i + 1)
			in.IP, in.RP = &p, &omRec{4, i}
			n := func(i int) *V { return vInt(int64(i)) }
			rec := func(a, b int) *V { return vDict().set("a", n(a)).set("b", n(b)) }
			want := vDict().set("i", n(i+1000)).set("ip", n(i+1001)).set("il", vArr(n(1001), n(i+1000))).
				set("im", vDict().set(k, n(i+1000))).set("l", vArr(n(2), n(i), n(2))).set("r", rec(1, i)).
				set("rp", rec(i, 4)).set("rl", vArr(rec(i, 1), rec(3, i)))
			c.Case(true, want.String())
			var m ju.JSONObject
			var err error
			var back oneWayM
			c.Guard("Marshal and Unmarshal", func() {
				m = ju.Marshal(in)
				err = m.Unmarshal(&back)
			})
			c.sameDoc(fmt.Sprintf("Marshal of %+v", in), want, m, false)
			p2 := omInt(i + 1001)
			read := oneWayM{I: omInt(i + 1000), IP: &p2, IL: []omInt{1001, omInt(i + 1000)}, IM: map[string]omInt{k: omInt(i + 1000)}, L: omList{2, i, 2}, R: omRec{1, i}, RP: &omRec{i, 4}, RL: []omRec{{i, 1}, {3, i}}}
			if err != nil || !reflect.DeepEqual(back, read) {
				c.Failf("%s read back by the rules of the types: %s, want %s, %v", m, goShow(reflect.ValueOf(back)), goShow(reflect.ValueOf(read)), err)
			}
			return
		}
		n := func(i int) *V { return vInt(int64(i)) }
		doc := vDict().set("i", n(i)).set("ip", n(i+1)).set("il", vArr(n(3), n(i))).set("im", vDict().set(k, n(i))).
			set("s", vStr(s)).set("sl", vArr(vStr("x"), vStr(s))).set("m", vDict().set(k, n(i))).
			set("r", vArr(n(i), n(2))).set("rl", vArr(vArr(n(i), n(4)), vArr(n(5), n(i))))
		c.Case(true, doc.String())
		p, q := ouInt(i+1001), ouInt(i+1000)
		want := oneWay{I: q, IP: &p, IL: []ouInt{1003, q}, IM: map[string]*ouInt{k: &q}, S: ouStr("<" + s + ">"), SL: []ouStr{"<x>", ouStr("<" + s + ">")},
			M: ouMap{k: i, "+": 1}, R: ouRec{2, i}, RL: []*ouRec{{4, i}, {i, 5}}}
		if k == "+" {
			want.M = ouMap{"+": 1}
		}
		var got oneWay
		var err error
		c.Guard("Unmarshal", func() { err = build(doc).Unmarshal(&got) })
		if err != nil || !reflect.DeepEqual(got, want) {
			c.Failf("%s is read as %s, want %s, %v", doc, goShow(reflect.ValueOf(got)), goShow(reflect.ValueOf(want)), err)
		}
		var l []ouInt
		var one ouInt
		var rec ouRec
		c.Guard("Unmarshal", func() {
			err = ju.NewInt(int64(i)).Unmarshal(&one)
			if err == nil {
				err = build(doc.D["il"]).Unmarshal(&l)
			}
			if err == nil {
				err = build(doc.D["r"]).Unmarshal(&rec)
			}
		})
		if err != nil || one != q || !reflect.DeepEqual(l, want.IL) || rec != want.R {
			c.Failf("parts of %s alone: %v %v %v, %v", doc, one, l, rec, err)
		}
	})

	sizes := []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025}
	reg("P11", "bulk", 2500, "an array made by NewArray, Add or NewStringArray of a list of up to 1025 objects, which the caller changes afterwards, and more operations; non-trivial: more than two items", func(c *C) {
		n := sizes[c.uni(len(sizes), "n")]
		objs := make([]ju.JSONObject, n, n+c.uni(3, "spare"))
		strs := make([]string, n)
		want := vArr()
		how := c.uni(3, "how")
		c.Case(n > 2, fmt.Sprintf("%d objects by way %d, %d to spare", n, how, cap(objs)-n))
		if how == 2 {
			for i := range strs {
				strs[i] = strconv.Itoa(i)
				want.A = append(want.A, vStr(strs[i]))
			}
		} else {
			for i := range objs {
				objs[i] = ju.NewInt(int64(i))
				want.A = append(want.A, vInt(int64(i)))
			}
		}
		var a, b *ju.JSONArray
		c.Guard("making arrays", func() {
			switch how {
			case 0:
				a, b = ju.NewArray(objs...), ju.NewArray(objs...)
			case 1:
				a, b = ju.NewArray(), ju.NewArray()
				a.Add(objs...)
				b.Add(objs...)
			default:
				a, b = ju.NewStringArray(strs), ju.NewStringArray(strs)
			}
		})
		what := fmt.Sprintf("array of %d objects by %s", n, []string{"NewArray", "Add", "NewStringArray"}[how])
		c.sameDoc(what, want, a, false)
		change := func(where string) {
			for i := range objs {
				if c.oneIn(3, "put") || i == 0 || i == n-1 {
					objs[i], strs[i] = ju.JSONTrue, "changed"
				}
			}
			_ = append(objs, ju.JSONFalse)
			c.sameDoc(what+", after the caller's list has changed, "+where, want, a, false)
		}
		change("at once")
		other := want.clone()
		c.Guard("operations", func() {
			for i := 1 + c.uni(4, "ops"); i > 0; i-- {
				if n > 0 && c.flip("set") {
					k := c.uni(n, "at")
					a.SetAt(k, ju.NewString("set"))
					want.A[k] = vStr("set")
				} else {
					m := pick(c, "more", 1, 2, 3, 60, 70)
					var l []ju.JSONObject
					for j := 0; j < m; j++ {
						l = append(l, ju.NewInt(int64(j)))
						want.A = append(want.A, vInt(int64(j)))
					}
					a.Add(l...)
					l[0], l[m-1] = ju.JSONTrue, ju.JSONTrue
				}
			}
		})
		c.sameDoc(what+", after more operations", want, a, false)
		c.sameDoc(what+", after operations on another one of the same list", other, b, false)
		change("later")
		if n > 0 && how < 2 {
			// the list is not written to either
			for _, o := range objs {
				if s := o.String(); s == `"set"` {
					c.Failf("%s: SetAt has changed the caller's list", what)
				}
			}
		}
	})
	reg("P10", "bulk", 2500, "a dict of up to 1025 entries, set in any order and some of them twice, then removed one by one in another order; non-trivial: more than two entries", func(c *C) {
		n := sizes[c.uni(len(sizes), "n")]
		form := pick(c, "form", "%d", "k%04d", "%x")
		d := ju.NewDict()
		want := vDict()
		for i := 0; i < n; i++ {
			k := fmt.Sprintf(form, (i*7)%max(n, 1))
			if c.oneIn(12, "other") {
				k = pick(c, "key", "", " ", "0", "~", "k0001", "1", "a")
			}
			if c.flip("add") {
				if err := d.Add(ju.NewInt(int64(i)), k); err != nil {
					c.Failf("Add of %q: %v", k, err)
				}
			} else {
				d.Set(k, ju.NewInt(int64(i)))
			}
			want.set(k, vInt(int64(i))) // the last one counts
		}
		c.Case(n > 2, fmt.Sprint(n, form))
		what := fmt.Sprintf("dict of %d pairs", n)
		c.sameDoc(what, want, d, false)
		if d.Length() != len(want.D) || d.Size() != len(want.D) || len(d.SortedKeys()) != len(want.D) {
			c.Failf("%s: %d, %d entries, want %d", what, d.Length(), d.Size(), len(want.D))
		}
		// remove them in another order
		ks := want.keys()
		for i := len(ks) - 1; i > 0; i-- {
			j := c.uni(i+1, "perm")
			ks[i], ks[j] = ks[j], ks[i]
		}
		for i, k := range ks {
			if !d.Contains(k) || !d.Remove(k) || d.Contains(k) {
				c.Failf("%s: removal %d, of %q", what, i, k)
			}
			want.del(k)
			if i%40 == 0 || len(ks)-i < 4 {
				c.sameDoc(fmt.Sprintf("%s without %d of them", what, i+1), want, d, false)
			}
		}
	})

	reg("P10", "unseen", 6000, "a dict changed by runs of Set, Add, Remove, Update and UpdateDefault with one of its views (SortedKeys, GetMap, Value, String, Length, Copy) taken between some of them; non-trivial: it was changed between two views", func(c *C) {
		keys := []string{"a", "b", "c", "aa", "A", "", "z9"}
		key := func() string { return keys[c.uni(len(keys), "key")] }
		d, want := ju.NewDict(), vDict()
		desc := []string{}
		views, between, dirty := 0, 0, false
		for i := 2 + c.uni(14, "steps"); i >= 0; i-- {
			k, x := key(), int64(c.uni(3, "x"))
			op := c.uni(12, "op")
			if i == 0 {
				op = 8
			}
			desc = append(desc, fmt.Sprint(op, k, x))
			if op < 8 {
				dirty = true
			}
			switch op {
			case 0, 1:
				d.Set(k, ju.NewInt(x))
				want.set(k, vInt(x))
			case 2:
				if err := d.Add(ju.NewInt(x), k); err != nil {
					c.Failf("Add after %q: %v", desc, err)
				}
				want.set(k, vInt(x))
			case 3, 4, 5:
				_, has := want.D[k]
				if d.Remove(k) != has {
					c.Failf("Remove of %q is not %v: %q", k, has, desc)
				}
				want.del(k)
			case 6, 7:
				e := ju.NewDict()
				for j := c.uni(3, "n"); j >= 0; j-- {
					l := key()
					e.Set(l, ju.NewInt(x+5))
					if _, has := want.D[l]; op == 6 || !has {
						want.set(l, vInt(x+5))
					}
				}
				if op == 6 {
					d.Update(e)
				} else {
					d.UpdateDefault(e)
				}
			default:
				views++
				if dirty && views > 1 {
					between++
				}
				dirty = false
				view := c.uni(6, "view")
				desc[len(desc)-1] = fmt.Sprint("view", view)
				what := fmt.Sprintf("%q", desc)
				if view == 1 && c.flip("swap") {
					d = d.Copy()
				}
				if view == 0 || i == 0 {
					if ks := d.SortedKeys(); strings.Join(ks, "|") != strings.Join(want.keys(), "|") {
						c.Failf("%s: SortedKeys %q, want %q", what, ks, want.keys())
					}
				}
				if view == 1 || i == 0 {
					c.sameDoc(what, want, d, false)
				}
				if view == 2 || i == 0 {
					m, err := d.GetMap()
					if err != nil || len(m) != len(want.D) {
						c.Failf("%s: GetMap %d entries, %v, want %d", what, len(m), err, len(want.D))
					}
					for l, y := range want.D {
						if m[l] == nil || m[l].String() != y.String() {
							c.Failf("%s: GetMap at %q %v, want %s", what, l, m[l], y)
						}
					}
				}
				if view == 3 || i == 0 {
					if v, err := stdRead(d.String()); err != nil || !eqV(v, want, false) {
						c.Failf("%s: String %s, want %s", what, d.String(), want)
					}
				}
				if view == 4 || i == 0 {
					if d.Length() != len(want.D) || d.Size() != len(want.D) || d.IsZero() != (len(want.D) == 0) {
						c.Failf("%s: %d entries, want %d", what, d.Length(), len(want.D))
					}
				}
				if view == 5 || i == 0 {
					m := d.Value()
					if len(m) != len(want.D) {
						c.Failf("%s: Value %d entries, want %d", what, len(m), len(want.D))
					}
					for l := range want.D {
						if !d.Contains(l) || m[l] == nil {
							c.Failf("%s: %q is not there", what, l)
						}
					}
				}
			}
		}
		c.Case(between > 0, strings.Join(desc, " "))
	})

	reg("P17", "bigmap", 800, "a map of up to 1100 entries, some under unusual keys, of numbers, texts, booleans or pointers, marshalled and read back; non-trivial: more than 100 entries", func(c *C) {
		n := pick(c, "n", 3, 60, 64, 129, 255, 256, 257, 300, 511, 513, 600, 1000, 1025, 1100)
		form := pick(c, "form", "%d", "k%d", "%x", "K-%d", "é%d")
		keys := []string{}
		seen := map[string]bool{}
		add := func(k string) {
			if !seen[k] {
				seen[k] = true
				keys = append(keys, k)
			}
		}
		for i := 0; i < n; i++ {
			add(fmt.Sprintf(form, i))
		}
		for i := c.uni(5, "special"); i > 0; i-- {
			add(pick(c, "key", "", " ", "~", "\x00", "\u007f", "\uffff", "0", "-1", "null", "___jnid", c.genKey()))
		}
		c.Case(len(keys) > 100, fmt.Sprintf("%d keys like %s, last %q", len(keys), form, keys[len(keys)-1]))
		want := vDict()
		var x, back interface{}
		switch kind := c.uni(5, "kind"); kind {
		case 0, 1:
			m := map[string]int{}
			for i, k := range keys {
				m[k] = i + 1
				want.set(k, vInt(int64(i+1)))
			}
			x, back = m, &map[string]int{}
		case 2:
			m := map[string]string{}
			for i, k := range keys {
				m[k] = fmt.Sprint("v", i)
				want.set(k, vStr(m[k]))
			}
			x, back = m, &map[string]string{}
		case 3:
			m := map[string]*int{}
			for i, k := range keys {
				j := i + 1
				m[k] = &j
				want.set(k, vInt(int64(j)))
			}
			x, back = m, &map[string]*int{}
		case 4:
			m := map[string][]bool{}
			for i, k := range keys {
				m[k] = []bool{true, i%2 == 0}
				want.set(k, vArr(vBool(true), vBool(i%2 == 0)))
			}
			x, back = m, &map[string][]bool{}
		}
		var m, all, in ju.JSONObject
		var err error
		c.Guard("Marshal and Unmarshal", func() {
			m, all = ju.Marshal(x), ju.MarshalAll(x)
			in = ju.Marshal(struct{ M interface{} }{x})
			err = m.Unmarshal(back)
		})
		c.sameDoc("Marshal of a map", want, m, false)
		c.sameDoc("MarshalAll of a map", want, all, false)
		c.sameDoc("Marshal of a struct with a map", vDict().set("m", want), in, false)
		if err != nil || !reflect.DeepEqual(reflect.ValueOf(back).Elem().Interface(), x) {
			c.Failf("a map of %d entries is read back as one of %d entries, %v", len(keys), reflect.ValueOf(back).Elem().Len(), err)
		}
		ks, _ := m.GetMap()
		if len(ks) != len(keys) {
			c.Failf("GetMap: %d entries, want %d", len(ks), len(keys))
		}
		sorted := append([]string{}, keys...)
		sort.Strings(sorted)
		if got := m.(*ju.JSONDict).SortedKeys(); !reflect.DeepEqual(got, sorted) {
			c.Failf("the keys of the document: %q, want %q", clip(fmt.Sprint(got), 300), clip(fmt.Sprint(sorted), 300))
		}
	})

	reg("P18", "maps", 4000, "a graph of pointers to maps of interfaces and pointers to structs with interface fields, also in slices; Marshal ends, and following the references in its document arrives at the right objects; non-trivial: the graph has a cycle reachable from the root", func(c *C) {
		n := 1 + c.uni(4, "n")
		objs := make([]interface{}, n)
		edges := make([][]cycEdge, n)
		for i := range objs {
			if c.oneIn(3, "rec") {
				objs[i] = &cycRec{Id: i + 1}
			} else {
				objs[i] = &map[string]interface{}{"id": i + 1}
			}
		}
		cyclic := false
		var tree func(i int, on map[int]bool, budget *int)
		tree = func(i int, on map[int]bool, budget *int) {
			*budget--
			if *budget < 0 {
				return
			}
			if on[i] {
				cyclic = true
				return
			}
			on[i] = true
			for _, e := range edges[i] {
				tree(e.to, on, budget)
			}
			delete(on, i)
		}
		for m := 1 + c.uni(7, "m"); m > 0; m-- {
			i, j := c.uni(n, "from"), c.uni(n, "to")
			old := edges[i]
			var e cycEdge
			var set func()
			switch x := objs[i].(type) {
			case *cycRec:
				k := c.uni(2, "field")
				e = cycEdge{[]string{"a", "b"}[k], j}
				if k == 0 && x.A != nil || k == 1 && x.B != nil {
					continue
				}
				set = func() {
					if k == 0 {
						x.A = objs[j]
					} else {
						x.B = objs[j]
					}
				}
			case *map[string]interface{}:
				e = cycEdge{pick(c, "key", "a", "b", "c", "z", "jd"), j}
				if (*x)[e.key] != nil {
					continue
				}
				set = func() { (*x)[e.key] = objs[j] }
			}
			edges[i] = append(append([]cycEdge{}, old...), e)
			budget := 300
			if tree(0, map[int]bool{}, &budget); budget < 0 {
				edges[i] = old
				continue
			}
			set()
		}
		budget := 400
		cyclic = false
		tree(0, map[int]bool{}, &budget)
		var sb strings.Builder
		for i := range objs {
			fmt.Fprintf(&sb, "%T %d: %v; ", objs[i], i+1, edges[i])
		}
		show := sb.String()
		src := objs[0]
		in := c.uni(4, "in")
		switch in {
		case 1:
			src = []interface{}{objs[0], objs[0]}
		case 2:
			src = map[string]interface{}{"root": objs[0]}
		}
		c.Case(cyclic, show)
		var m ju.JSONObject
		c.Guard("Marshal", func() { m = ju.Marshal(src) })
		text := m.String()
		if again := ju.Marshal(src).String(); again != text {
			c.Failf("Marshal of %s differs between calls:\n %s\n %s", show, text, again)
		}
		if cyclic != strings.Contains(text, `"___jnid_":`) {
			c.Failf("cyclic=%v, but the document of %s is %s", cyclic, show, text)
		}
		back, err := ju.ParseString(text)
		if err != nil || back.String() != text {
			c.Failf("the document of %s is not parsed as printed: %v\n %s\n %s", show, err, text, back)
		}
		root := m
		switch in {
		case 1:
			root, err = m.GetAt(c.uni(2, "rootat"))
		case 2:
			root, err = m.Get("root")
		}
		if err != nil {
			c.Failf("the root of %s: %v", text, err)
		}
		for w := 0; w < 3; w++ {
			cur, at := root, 0
			var keys []string
			for i := c.uni(9, "steps"); i > 0 && len(edges[at]) > 0; i-- {
				e := edges[at][c.uni(len(edges[at]), "step")]
				keys, at = append(keys, e.key), e.to
				if cur, err = cur.Get(e.key); err != nil {
					c.Failf("following %q: %v\n graph %s\n document %s", keys, err, show, text)
				}
			}
			if id, err := cur.Int("id"); err != nil || id != int64(at+1) {
				c.Failf("following %q leads to %d, %v; want %d\n graph %s\n document %s", keys, id, err, at+1, show, text)
			}
		}
	})
}
