package main

// P10..P15: dicts, arrays, algebra, equality, copies and typed accessors.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"
)

// ---------- a heap of real objects and their models ----------

// hp mirrors a graph of documents that refer to each other: a model value
// points to the model of the very object the real container holds, so aliasing
// is modelled as well.
type hp struct {
	c     *C
	real  map[*V]ju.JSONObject
	long  map[*V][]string // a path of many levels, by dict
	conts []*V            // containers, in order of creation
	log   []string
	keys  []string
}

func newHeap(c *C) *hp {
	h := &hp{c: c, real: map[*V]ju.JSONObject{}, long: map[*V][]string{}}
	pools := [][]string{
		{"a", "b", "c", "A", "B"},
		{"a", "aa", "ab", "b", "ba", "Aa", "AB", "aB", ""},
		{"k1", "K1", "k2", "k10", "k11", "K10", "k", "K", "\u212a", "k-1"},
		{"é", "É", "e", "E", "ſ", "s", "S", "日", "\x00", "\xff", "\"", "a.b"},
		{"a", " a", "a ", " a ", "b", "\tb", "b\n", "", " ", "a b", "A", " A"},
	}
	h.keys = pools[c.uni(len(pools), "pool")]
	return h
}

func (h *hp) logf(f string, a ...interface{}) {
	h.log = append(h.log, fmt.Sprintf(f, a...))
	h.c.Journal(strings.Join(h.log, "; "))
}
func (h *hp) failf(f string, a ...interface{}) {
	h.c.Failf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(h.log, "; "))
}

// addTree registers a real document built from v (all its containers).
func (h *hp) addTree(v *V) ju.JSONObject {
	switch v.K {
	case KArray:
		a := ju.NewArray()
		for _, x := range v.A {
			a.Add(h.addTree(x))
		}
		h.real[v] = a
		h.conts = append(h.conts, v)
		return a
	case KDict:
		d := ju.NewDict()
		for _, k := range v.Ord {
			d.Set(k, h.addTree(v.D[k]))
		}
		h.real[v] = d
		h.conts = append(h.conts, v)
		return d
	}
	r := build(v)
	h.real[v] = r
	return r
}

// adopt takes a real object with all its parts.
func (h *hp) adopt(v *V, r ju.JSONObject) {
	h.real[v] = r
	switch v.K {
	case KArray:
		for i, x := range v.A {
			e, err := r.(*ju.JSONArray).GetAt(i)
			if err != nil {
				h.failf("element %d of %s: %v", i, r, err)
			}
			h.adopt(x, e)
		}
		h.conts = append(h.conts, v)
	case KDict:
		for k, x := range v.D {
			e, err := r.(*ju.JSONDict).Get(k)
			if err != nil {
				h.failf("entry %q of %s: %v", k, r, err)
			}
			h.adopt(x, e)
		}
		h.conts = append(h.conts, v)
	}
}

func (h *hp) id(v *V) string {
	for i, x := range h.conts {
		if x == v {
			return "#" + strconv.Itoa(i)
		}
	}
	return v.String()
}

func (h *hp) pickCont(k Kind, l string) *V {
	var l2 []*V
	for _, x := range h.conts {
		if x.K == k {
			l2 = append(l2, x)
		}
	}
	if len(l2) == 0 {
		v := &V{K: k}
		if k == KDict {
			v = vDict()
		}
		h.addTree(v)
		return v
	}
	return l2[h.c.uni(len(l2), l)]
}

func reach(from, to *V) bool {
	if from == to {
		return true
	}
	for _, x := range from.A {
		if reach(x, to) {
			return true
		}
	}
	for _, x := range from.D {
		if reach(x, to) {
			return true
		}
	}
	return false
}

// genVal draws a value to store into a container: fresh, or an object that is
// already in the heap and does not contain any of the given containers.
func (h *hp) genVal(into ...*V) *V {
	c := h.c
	if len(h.conts) > 0 && c.uni(4, "alias") == 0 {
		v := h.conts[c.uni(len(h.conts), "aliaswhich")]
		ok := true
		for _, x := range into {
			if reach(v, x) {
				ok = false
			}
		}
		if ok && v.size() < 60 {
			c.Label("aliased value")
			return v
		}
	}
	o := c.opt(2, 2)
	o.key = func() string { return h.key("vk") }
	v := c.genV(o)
	h.addTree(v)
	return v
}

func (h *hp) key(l string) string { return h.keys[h.c.uni(len(h.keys), l)] }

// path draws a path, usually one that exists at least in part.
func (h *hp) path(from *V, max int, l string) []string {
	c := h.c
	n := c.intn(0, max, l+"n")
	var p []string
	cur := from
	for i := 0; i < n; i++ {
		k := h.key(l)
		if cur != nil && cur.K == KDict && len(cur.D) > 0 && c.uni(4, l+"e") > 0 {
			ks := cur.keys()
			k = ks[c.uni(len(ks), l+"k")]
			if c.uni(4, l+"case") == 0 {
				k = pick(c, l+"cs", strings.ToUpper(k), strings.ToLower(k))
			}
		}
		p = append(p, k)
		if cur != nil && cur.K == KDict {
			cur = cur.D[k]
		} else {
			cur = nil
		}
	}
	return p
}

// check compares every object of the heap with its model.
func (h *hp) check(what string) {
	for i, v := range h.conts {
		r, err := read(h.real[v])
		if err != nil {
			h.failf("%s: #%d: %v", what, i, err)
		}
		if !eqV(v, r, false) {
			h.failf("%s: #%d differs\n want %s\n got  %s", what, i, clip(v.String(), 1500), clip(r.String(), 1500))
		}
	}
}

// views checks that an object with a history shows itself as a newly made one
// of the same content does.
func (h *hp) views(v *V, all bool) {
	if v.size() > 400 {
		return
	}
	o, twin := h.real[v], build(v)
	type view struct {
		name string
		of   func(ju.JSONObject) interface{}
	}
	vs := []view{{"String", func(o ju.JSONObject) interface{} { return o.String() }},
		{"keys or length", func(o ju.JSONObject) interface{} {
			if d, ok := o.(*ju.JSONDict); ok {
				return fmt.Sprint(d.SortedKeys(), d.Length(), d.Size(), d.IsZero())
			}
			a := o.(*ju.JSONArray)
			return fmt.Sprint(a.Length(), a.Size(), a.IsZero(), a.GetStringArray())
		}}}
	if all {
		vs = append(vs, view{"PrettyString", func(o ju.JSONObject) interface{} { return o.PrettyString() }},
			view{"YAMLString", func(o ju.JSONObject) interface{} { return o.YAMLString() }},
			view{"QueryString", func(o ju.JSONObject) interface{} { return o.QueryString() }},
			view{"Interface", func(o ju.JSONObject) interface{} { return o.Interface() }},
			view{"Equals", func(o ju.JSONObject) interface{} { return o.Equals(twin) && twin.Equals(o) }},
			view{"Marshal", func(o ju.JSONObject) interface{} { return ju.Marshal(o).String() }},
			view{"DeepCopy", func(o ju.JSONObject) interface{} { return ju.DeepCopy(o).String() }})
	}
	for _, w := range vs {
		if got, want := w.of(o), w.of(twin); !reflect.DeepEqual(got, want) {
			h.failf("%s: %s is\n %v\n that of a new object of the same content\n %v", h.id(v), w.name, clip(fmt.Sprint(got), 1500), clip(fmt.Sprint(want), 1500))
		}
	}
}

func isErr(err, kind error) bool { return err != nil && errors.Cause(err) == kind }

// ---------- reference lookups ----------

func foldGet(d *V, k string) (*V, bool) {
	if x, ok := d.D[k]; ok {
		return x, true
	}
	for _, s := range d.keys() {
		if strings.EqualFold(s, k) {
			return d.D[s], true
		}
	}
	return nil, false
}

func refGet(d *V, fold bool, keys []string) (*V, error) {
	cur := d
	for i, k := range keys {
		if cur.K != KDict {
			return nil, ju.ErrInvalidJsonDict
		}
		var x *V
		var ok bool
		if fold {
			x, ok = foldGet(cur, k)
		} else {
			x, ok = cur.D[k]
		}
		if !ok {
			return nil, ju.ErrJsonDictKeyNotFound
		}
		cur = x
		_ = i
	}
	return cur, nil
}

// ---------- P10 dict = map ----------

func (h *hp) dictOp() {
	c := h.c
	v := h.pickCont(KDict, "d")
	d := h.real[v].(*ju.JSONDict)
	name := h.id(v)
	switch c.uni(11, "op") {
	case 0, 1, 2:
		k := h.key("k")
		if c.uni(3, "big") == 0 {
			k = fmt.Sprintf("%s%d", pick(c, "kp", "n", "N"), c.uni(30, "kn"))
		}
		x := h.genVal(v)
		h.logf("%s.Set(%q, %s)", name, k, h.id(x))
		d.Set(k, h.real[x])
		v.set(k, x)
	case 3, 4:
		p := h.path(v, 4, "p")
		long := false
		if h.long[v] != nil && c.uni(3, "plagain") == 0 {
			// through what was added deep inside before
			p = append(append([]string{}, h.long[v]...), h.key("plend"))
			c.Label("Add behind many levels again")
		} else if c.oneIn(12, "plong") {
			for i := pick(c, "plongn", 5, 9, 12, 20); i > 0; i-- {
				p = append(p, h.key("plk"))
			}
			h.long[v] = p
			long = true
			c.Label("Add of many levels")
		}
		// containers on the path must not become part of themselves
		into := []*V{v}
		cur := v
		for _, k := range p {
			if cur.K != KDict {
				break
			}
			nx, ok := cur.D[k]
			if !ok {
				break
			}
			cur = nx
			into = append(into, cur)
		}
		x := h.genVal(into...)
		if long && c.flip("plzero") {
			x = vDict()
			h.real[x] = &ju.JSONDict{}
			h.conts = append(h.conts, x)
		}
		h.logf("%s.Add(%s, %q)", name, h.id(x), p)
		err := d.Add(h.real[x], p...)
		cur = v
		for i, k := range p {
			if i == len(p)-1 {
				cur.set(k, x)
				break
			}
			nx, ok := cur.D[k]
			if !ok || nx.K == KNull {
				// a new dict, known only through the path
				nx = vDict()
				cur.set(k, nx)
				r, gerr := h.real[cur].(*ju.JSONDict).Get(k)
				if gerr != nil {
					h.failf("Add did not create the dict at %q: %v", p[:i+1], gerr)
				}
				rd, ok := r.(*ju.JSONDict)
				if !ok {
					h.failf("Add created %T at %q", r, p[:i+1])
				}
				h.real[nx] = rd
				h.conts = append(h.conts, nx)
				c.Label("Add creates a dict")
			}
			if nx.K != KDict {
				c.Label("Add through a non-dict")
				if !isErr(err, ju.ErrInvalidJsonDict) {
					h.failf("Add through the %s at %q returned %v", nx.K, p[:i+1], err)
				}
				return
			}
			cur = nx
		}
		if err != nil {
			h.failf("Add(%q) returned %v", p, err)
		}
	case 5:
		k := h.key("k")
		if ks := v.keys(); len(ks) > 0 && c.flip("exist") {
			k = ks[c.uni(len(ks), "kk")]
		}
		h.logf("%s.Remove(%q)", name, k)
		_, want := v.D[k]
		if got := d.Remove(k); got != want {
			h.failf("Remove(%q) returned %v", k, got)
		}
		v.del(k)
	case 6:
		k := h.key("k")
		h.logf("%s.RemoveIgnoreCase(%q)", name, k)
		want := false
		for _, s := range v.keys() {
			if strings.EqualFold(s, k) {
				want = true
				v.del(s)
			}
		}
		if got := d.RemoveIgnoreCase(k); got != want {
			h.failf("RemoveIgnoreCase(%q) returned %v", k, got)
		}
	case 7:
		h.logf("%s.Copy()", name)
		cp := d.Copy()
		n := v.shallow()
		h.real[n] = cp
		h.conts = append(h.conts, n)
	case 8:
		// returned maps and key lists are snapshots
		p := h.path(v, 2, "p")
		h.logf("%s.GetMap(%q)", name, p)
		want, werr := refGet(v, false, p)
		m, err := d.GetMap(p...)
		if werr != nil {
			if !isErr(err, werr) {
				h.failf("GetMap(%q) returned %v, want %v", p, err, werr)
			}
			return
		}
		if want.K != KDict {
			if !isErr(err, ju.ErrInvalidJsonDict) {
				h.failf("GetMap(%q) of a %s returned %v", p, want.K, err)
			}
			return
		}
		if err != nil || len(m) != len(want.D) {
			h.failf("GetMap(%q) returned %d entries, %v", p, len(m), err)
		}
		if len(p) == 0 && c.flip("value") {
			m = d.Value()
		}
		for k, x := range want.D {
			g, err := read(m[k])
			if err != nil || !eqV(g, x, false) {
				h.failf("the map of %s holds %s (%v) at %q, want %s", h.id(want), show(m[k]), err, k, clip(x.String(), 500))
			}
		}
		for k := range m {
			if c.flip("mdel") {
				delete(m, k)
			} else {
				m[k] = ju.NewString("overwritten")
			}
		}
		m["extra"] = ju.JSONNull
		ks := d.SortedKeys()
		for i := range ks {
			ks[i] = "zzz"
		}
	default:
		fold := c.flip("fold")
		p := h.path(v, 3, "p")
		h.logf("%s.Get(fold=%v, %q)", name, fold, p)
		want, werr := refGet(v, fold, p)
		var got ju.JSONObject
		var err error
		var has bool
		if fold {
			got, err = d.GetIgnoreCases(p...)
			has = d.ContainsIgnoreCases(p...)
		} else {
			got, err = d.Get(p...)
			has = d.Contains(p...)
		}
		if has != (werr == nil) {
			h.failf("Contains(%q) is %v", p, has)
		}
		if werr != nil {
			if !isErr(err, werr) {
				h.failf("Get(%q) returned %v, want %v", p, err, werr)
			}
			return
		}
		if err != nil {
			h.failf("Get(%q) returned %v", p, err)
		}
		if (want.K == KDict || want.K == KArray) && got != h.real[want] {
			h.failf("Get(%q) is another object than the one stored", p)
		}
		if g, gerr := read(got); gerr != nil || !eqV(g, want, false) {
			h.failf("Get(%q) returned %s, want %s", p, show(got), want)
		}
	}
}

func (h *hp) checkDict(v *V) {
	d := h.real[v].(*ju.JSONDict)
	ks := d.SortedKeys()
	if !sort.StringsAreSorted(ks) || strings.Join(ks, "\x00\x01") != strings.Join(v.keys(), "\x00\x01") {
		h.failf("%s: SortedKeys %q, want %q", h.id(v), ks, v.keys())
	}
	if d.Length() != len(v.D) || d.Size() != len(v.D) || d.IsZero() != (len(v.D) == 0) {
		h.failf("%s: Length %d Size %d IsZero %v with %d keys", h.id(v), d.Length(), d.Size(), d.IsZero(), len(v.D))
	}
}

// ---------- P11 array = list ----------

func (h *hp) arrayOp() {
	c := h.c
	v := h.pickCont(KArray, "a")
	a := h.real[v].(*ju.JSONArray)
	name := h.id(v)
	switch c.uni(9, "op") {
	case 8:
		// the variable of an array copied, items added to that of the copy
		n := pick(c, "valn", 1, 2, 9, 20)
		h.logf("b := *%s; b.Add(%d items)", name, n)
		b := *a
		var rs []ju.JSONObject
		for i := 0; i < n; i++ {
			rs = append(rs, ju.NewInt(int64(i)))
		}
		b.Add(rs...)
		if b.Length() != len(v.A)+n {
			h.failf("length %d", b.Length())
		}
	case 0, 1, 2:
		n := c.intn(0, 3, "addn")
		if c.oneIn(8, "addbig") {
			n = 9 + c.uni(9, "addb")
		}
		var xs []*V
		var rs []ju.JSONObject
		var ids []string
		for i := 0; i < n; i++ {
			x := h.genVal(v)
			xs = append(xs, x)
			rs = append(rs, h.real[x])
			ids = append(ids, h.id(x))
		}
		h.logf("%s.Add(%s)", name, strings.Join(ids, ", "))
		a.Add(rs...)
		v.A = append(append([]*V{}, v.A...), xs...)
		for i := range rs { // the argument slice stays the caller's
			rs[i] = ju.NewString("overwritten")
		}
	case 3:
		if len(v.A) == 0 {
			return
		}
		i := c.uni(len(v.A), "at")
		x := h.genVal(v)
		h.logf("%s.SetAt(%d, %s)", name, i, h.id(x))
		a.SetAt(i, h.real[x])
		v.A = append([]*V{}, v.A...)
		v.A[i] = x
	case 4:
		h.logf("%s.Copy()", name)
		cp := a.Copy()
		n := v.shallow()
		h.real[n] = cp
		h.conts = append(h.conts, n)
	case 5:
		n := c.intn(0, 4, "newn")
		var rs []ju.JSONObject
		w := &V{K: KArray}
		for i := 0; i < n; i++ {
			x := h.genVal()
			w.A = append(w.A, x)
			rs = append(rs, h.real[x])
		}
		h.logf("NewArray(%d objects)", n)
		b := ju.NewArray(rs...)
		for i := range rs {
			rs[i] = ju.JSONNull
		}
		h.real[w] = b
		h.conts = append(h.conts, w)
	case 6:
		h.logf("%s.GetArray()", name)
		l, err := a.GetArray()
		if c.flip("value") {
			l = a.Value()
		}
		if err != nil || len(l) != len(v.A) {
			h.failf("GetArray returned %d of %d elements, %v", len(l), len(v.A), err)
		}
		for i := range l {
			l[i] = ju.NewString("overwritten")
		}
		l = append(l, ju.JSONNull)
		if cap(l) > len(l) {
			l = l[:cap(l)]
			for i := range l {
				l[i] = ju.JSONNull
			}
		}
		if _, err := a.GetArray("k"); err == nil {
			h.failf("GetArray with a key succeeds")
		}
	default:
		i := c.intn(-len(v.A)-2, len(v.A)+1, "at")
		if c.oneIn(8, "far") {
			i = pick(c, "farat", math.MinInt64, math.MinInt64+1, math.MinInt64+len(v.A), math.MaxInt64, math.MaxInt64-len(v.A), math.MinInt32, math.MaxInt32, 1<<32, -1<<32, 1<<32-1, -len(v.A), len(v.A))
		}
		h.logf("%s.GetAt(%d)", name, i)
		got, err := a.GetAt(i)
		j := i
		if j < 0 {
			j += len(v.A)
		}
		if j < 0 || j >= len(v.A) {
			if !isErr(err, ju.ErrOutOfIndexRange) {
				h.failf("GetAt(%d) of %d elements returned %v", i, len(v.A), err)
			}
			return
		}
		if err != nil {
			h.failf("GetAt(%d) of %d elements returned %v", i, len(v.A), err)
		}
		want := v.A[j]
		if (want.K == KDict || want.K == KArray) && got != h.real[want] {
			h.failf("GetAt(%d) is another object than the one stored", i)
		}
		if g, gerr := read(got); gerr != nil || !eqV(g, want, false) {
			h.failf("GetAt(%d) returned %s, want %s", i, show(got), want)
		}
		if _, err := a.GetAt(i, "k"); err == nil {
			h.failf("GetAt with a key succeeds")
		}
	}
}

func (h *hp) checkArray(v *V) {
	a := h.real[v].(*ju.JSONArray)
	if a.Length() != len(v.A) || a.Size() != len(v.A) || a.IsZero() != (len(v.A) == 0) {
		h.failf("%s: Length %d Size %d IsZero %v with %d elements", h.id(v), a.Length(), a.Size(), a.IsZero(), len(v.A))
	}
	for i, x := range v.A {
		p, e1 := a.GetAt(i)
		n, e2 := a.GetAt(i - len(v.A))
		if e1 != nil || e2 != nil || p != n {
			h.failf("%s: GetAt(%d) and GetAt(%d) differ (%v, %v)", h.id(v), i, i-len(v.A), e1, e2)
		}
		if g, err := read(p); err != nil || !eqV(g, x, false) {
			h.failf("%s: element %d is %s, want %s", h.id(v), i, show(p), x)
		}
	}
}

func (h *hp) seedObjects(dict bool) {
	c := h.c
	n := 1 + c.uni(3, "objs")
	for i := 0; i < n; i++ {
		o := c.opt(2, 3)
		o.key = func() string { return h.key("k0") }
		var v *V
		if dict {
			v = c.genDictD(o, 2)
		} else {
			v = c.genArr(o, 2)
		}
		if c.oneIn(3, "route") {
			// an object that was not built by the constructors
			var r ju.JSONObject
			var err error
			route := pick(c, "route", "Parse", "ParseYAML", "Marshal", "MarshalAll", "DeepCopy", "Interface")
			c.Guard(route, func() {
				switch r = build(v); route {
				case "Parse":
					r, err = ju.ParseString(r.String())
				case "ParseYAML":
					r, err = ju.ParseYAML(r.YAMLString())
				case "Marshal":
					r = ju.Marshal([]ju.JSONObject{r}).(*ju.JSONArray).Value()[0]
				case "MarshalAll":
					r = ju.MarshalAll(r.Interface())
				case "DeepCopy":
					r = ju.DeepCopy(r)
				default:
					r = ju.Marshal(r.Interface())
				}
			})
			if err != nil {
				h.failf("%s: %v", route, err)
			}
			if w, err := read(r); err == nil && w.K == v.K {
				h.adopt(w, r)
				h.logf("%s = %s by %s", h.id(w), w, route)
				continue
			}
		}
		h.addTree(v)
		h.logf("%s = %s", h.id(v), v)
	}
	if dict && c.oneIn(10, "huged") {
		big := vDict()
		n := pick(c, "hugedn", 20, 40, 70, 101, 110, 130, 260, 520)
		for i := 0; i < n; i++ {
			big.set(fmt.Sprintf(pick(c, "hugedk", "k%d", "k%03d", "K%03d", "%d", "n%d"), i), vInt(int64(i)))
		}
		h.addTree(big)
		h.logf("%s = dict of %d keys", h.id(big), len(big.D))
		c.Label("dict of many keys")
	}
	if !dict && c.oneIn(16, "huge") {
		// an array of hundreds of items, with a container or two among them
		big := vArr()
		n := pick(c, "hugen", 300, 513, 600, 1025, 1100, 2100)
		for i := 0; i < n; i++ {
			big.A = append(big.A, vInt(int64(i)))
		}
		if len(h.conts) > 0 {
			big.A[n/3] = h.conts[0]
		}
		a := ju.NewArray()
		rs := make([]ju.JSONObject, n)
		for i, x := range big.A {
			if h.real[x] == nil {
				h.real[x] = build(x)
			}
			rs[i] = h.real[x]
		}
		if c.flip("hugehow") {
			a.Add(rs...)
		} else {
			for _, r := range rs {
				a.Add(r)
			}
		}
		h.real[big] = a
		h.conts = append(h.conts, big)
		h.logf("%s = 0 to %d, with %d containers", h.id(big), n, len(h.conts)-1)
		c.Label("array of hundreds of items")
	}
	if c.oneIn(8, "zero") {
		// the zero values of the container types are empty containers
		d := vDict()
		h.real[d] = &ju.JSONDict{}
		a := vArr()
		h.real[a] = &ju.JSONArray{}
		h.conts = append(h.conts, d, a)
		c.Label("zero value containers")
	}
}

// ---------- P12 algebra ----------

func overlapPair(c *C) (*V, *V) {
	h := newHeap(c)
	mk := func(l string) *V {
		o := c.opt(2, 2)
		o.key = func() string { return h.key(l) }
		v := vDict()
		n := c.intn(0, 6, l+"n")
		if c.oneIn(8, l+"big") {
			n = 10 + c.uni(20, l+"bn")
			for i := 0; i < n; i++ {
				v.set(fmt.Sprintf("k%d", c.uni(40, l+"bk")), c.genScalar(o))
			}
			return v
		}
		for i := 0; i < n; i++ {
			v.set(h.key(l), c.genV(o))
		}
		return v
	}
	a, b := mk("a"), mk("b")
	// make some common keys hold equal values
	for _, k := range b.keys() {
		if x, ok := a.D[k]; ok && c.flip("same") {
			b.set(k, x.clone())
		}
	}
	if c.oneIn(8, "longs") {
		// long arrays and dicts under one key, equal or different in one place
		n := 8 + c.uni(60, "ln")
		x, y := vArr(), vDict()
		for i := 0; i < n; i++ {
			x.A = append(x.A, vInt(int64(i%3)))
			y.set(fmt.Sprint("k", i), vInt(int64(i%3)))
		}
		p := pick(c, "longkind", x, y)
		q := p.clone()
		if i := c.uni(n+1, "differ"); i < n {
			if q.K == KArray {
				q.A[i] = vStr("other")
			} else {
				q.set(fmt.Sprint("k", i), vStr("other"))
			}
		}
		a.set("long", p)
		b.set("long", q)
	}
	return a, b
}

func dictOfV(v *V) *ju.JSONDict { return build(v).(*ju.JSONDict) }

// scribble changes the top level of a dict thoroughly.
func scribble(d *ju.JSONDict) {
	for i, k := range d.SortedKeys() {
		if i%2 == 0 {
			d.Set(k, ju.NewString("scribble"))
		} else {
			d.Remove(k)
		}
	}
	for i := 0; i < 3; i++ {
		d.Set(fmt.Sprintf("scribble%d", i), ju.JSONNull)
	}
	d.Set("", ju.NewInt(9))
}

func filterKeys(v *V, keep func(k string) bool) *V {
	n := vDict()
	for _, k := range v.keys() {
		if keep(k) {
			n.set(k, v.D[k])
		}
	}
	return n
}

func inList(k string, l []string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func init() {
	const histRule = "a history of operations on a pool of containers that hold and share each other, compared with a model after every operation; non-trivial: 4 or more operations ran"
	machine := func(dict bool) func(c *C) {
		return func(c *C) {
			h := newHeap(c)
			h.seedObjects(dict)
			n := c.intn(1, 24, "ops")
			show := c.flip("views")
			c.LabelIf(show, "printed between the operations")
			for i := 0; i < n; i++ {
				if show && i%2 == c.uni(3, "when") {
					for _, v := range h.conts {
						c.Guard("printing", func() { h.views(v, i%8 == 0) })
					}
				}
				c.Guard("operation", func() {
					if dict {
						h.dictOp()
					} else {
						h.arrayOp()
					}
				})
				h.check(h.log[len(h.log)-1])
			}
			for i, v := range h.conts {
				c.Guard("printing", func() { h.views(v, i < 4) })
				if v.K == KDict && dict {
					h.checkDict(v)
				}
				if v.K == KArray && !dict {
					h.checkArray(v)
				}
			}
			c.Case(n >= 4, strings.Join(h.log, "; "))
		}
	}
	reg("P10", "machine", 5000, histRule, machine(true))
	reg("P10", "fold", 4000, "a dict whose keys collide up to letter case; all lookups and removals by every key and its case variants; non-trivial: two keys collide", func(c *C) {
		v := vDict()
		n := 1 + c.uni(7, "n")
		base := []string{"name", "Name", "NAME", "nAme", "id", "ID", "Id", "k", "K", "\u212a", "ß", "ss", "é", "É", "a-b", "A-B", "", "1"}
		for i := 0; i < n; i++ {
			v.set(base[c.uni(len(base), "k")], vInt(int64(i)))
		}
		coll := false
		ks := v.keys()
		for i := range ks {
			for j := 0; j < i; j++ {
				coll = coll || strings.EqualFold(ks[i], ks[j])
			}
		}
		c.Case(coll, v.String())
		d := dictOfV(v)
		for _, q := range base {
			want, ok := foldGet(v, q)
			got, err := d.GetIgnoreCases(q)
			if ok != (err == nil) || ok != d.ContainsIgnoreCases(q) {
				c.Failf("GetIgnoreCases(%q) in %s: %v, ContainsIgnoreCases %v", q, v, err, d.ContainsIgnoreCases(q))
			}
			if ok {
				c.sameDoc(fmt.Sprintf("GetIgnoreCases(%q) in %s", q, v), want, got, false)
			}
			_, ok = v.D[q]
			if d.Contains(q) != ok {
				c.Failf("Contains(%q) in %s is %v", q, v, !ok)
			}
		}
		q := base[c.uni(len(base), "rm")]
		m := filterKeys(v, func(k string) bool { return !strings.EqualFold(k, q) })
		if got := d.RemoveIgnoreCase(q); got != (len(m.D) < len(v.D)) {
			c.Failf("RemoveIgnoreCase(%q) in %s is %v", q, v, got)
		}
		c.sameDoc(fmt.Sprintf("after RemoveIgnoreCase(%q) in %s", q, v), m, d, false)
	})
	reg("P11", "machine", 6000, histRule, machine(false))

	reg("P12", "update", 6000, "two dicts with overlapping keys, merged by Update or UpdateDefault, then changed independently; non-trivial: both have keys and some key is common", func(c *C) {
		a, b := overlapPair(c)
		common := len(filterKeys(a, func(k string) bool { return b.D[k] != nil }).D)
		def := c.flip("default")
		c.Case(common > 0, fmt.Sprintf("default=%v %s | %s", def, a, b))
		c.LabelIf(len(a.D) > 8 || len(b.D) > 8, "large")
		da, db := dictOfV(a), dictOfV(b)
		want := a.clone()
		for _, k := range b.Ord {
			if _, ok := want.D[k]; !ok || !def {
				want.set(k, b.D[k])
			}
		}
		upd := func(d, e *ju.JSONDict) {
			if def {
				d.UpdateDefault(e)
			} else {
				d.Update(e)
			}
		}
		c.Guard("Update", func() { upd(da, db) })
		c.sameDoc("receiver after the update", want, da, false)
		c.sameDoc("argument after the update", b, db, false)
		upd(da, db)
		c.sameDoc("receiver after updating twice", want, da, false)
		// the two dicts are independent afterwards
		if c.flip("which") {
			scribble(db)
			c.sameDoc("receiver after the argument changed", want, da, false)
		} else {
			scribble(da)
			c.sameDoc("argument after the receiver changed", b, db, false)
		}
		// itself, an empty dict, non-dicts
		d2 := dictOfV(a)
		upd(d2, d2)
		upd(d2, ju.NewDict())
		for _, x := range []ju.JSONObject{ju.JSONNull, ju.NewInt(1), ju.NewString("a"), ju.NewArray(ju.NewDict()), ju.JSONTrue} {
			if def {
				d2.UpdateDefault(x)
			} else {
				d2.Update(x)
			}
		}
		c.sameDoc("update with itself, an empty dict or no dict", a, d2, false)
		// a dict without keys on either side
		e := ju.NewDict()
		upd(e, d2)
		c.sameDoc("update of an empty dict", a, e, false)
		d3 := dictOfV(a)
		empty := ju.NewDict()
		upd(d3, empty)
		c.sameDoc("update with an empty dict", a, d3, false)
		if c.flip("which2") {
			scribble(e)
			c.sameDoc("source after the updated empty dict changed", a, d2, false)
			scribble(d3)
			c.sameDoc("empty argument after the receiver changed", vDict(), empty, false)
		} else {
			scribble(d2)
			c.sameDoc("updated empty dict after its source changed", a, e, false)
			scribble(empty)
			c.sameDoc("receiver after the empty argument changed", a, d3, false)
		}
	})
	reg("P12", "diff", 6000, "two dicts with overlapping keys and partly equal values, compared by Diff; non-trivial: all four result classes are considered and some key is common", func(c *C) {
		a, b := overlapPair(c)
		common := filterKeys(a, func(k string) bool { return b.D[k] != nil })
		c.Case(len(common.D) > 0, fmt.Sprintf("%s | %s", a, b))
		da, db := dictOfV(a), dictOfV(b)
		var aNoB, aDiffB, aAndB, bNoA *ju.JSONDict
		c.Guard("Diff", func() { aNoB, aDiffB, aAndB, bNoA = ju.Diff(da, db) })
		wDiff, wAnd := vDict(), vDict()
		for _, k := range common.Ord {
			if eqV(a.D[k], b.D[k], false) {
				wAnd.set(k, a.D[k])
			} else {
				wDiff.set(k, vArr(a.D[k], b.D[k]))
			}
		}
		c.LabelIf(len(wDiff.D) > 0 && len(wAnd.D) > 0, "some equal, some different")
		c.sameDoc("only in the first", filterKeys(a, func(k string) bool { return b.D[k] == nil }), aNoB, false)
		c.sameDoc("only in the second", filterKeys(b, func(k string) bool { return a.D[k] == nil }), bNoA, false)
		c.sameDoc("different", wDiff, aDiffB, false)
		c.sameDoc("equal", wAnd, aAndB, false)
		c.sameDoc("first after Diff", a, da, false)
		c.sameDoc("second after Diff", b, db, false)
		for _, d := range []*ju.JSONDict{aNoB, aDiffB, aAndB, bNoA} {
			scribble(d)
		}
		c.sameDoc("first after the results changed", a, da, false)
		c.sameDoc("second after the results changed", b, db, false)
		// a dict and itself
		c.Guard("Diff", func() { aNoB, aDiffB, aAndB, bNoA = ju.Diff(da, da) })
		c.sameDoc("only in the first of one dict twice", vDict(), aNoB, false)
		c.sameDoc("different in one dict twice", vDict(), aDiffB, false)
		c.sameDoc("only in the second of one dict twice", vDict(), bNoA, false)
		c.sameDoc("equal in one dict twice", a, aAndB, false)
		if c.flip("selfwhich") {
			scribble(aAndB)
			c.sameDoc("dict after the result of its Diff with itself changed", a, da, false)
		} else {
			scribble(da)
			c.sameDoc("result of the Diff of a dict with itself after the dict changed", a, aAndB, false)
		}
	})
	reg("P12", "copies", 5000, "a dict copied with a list of included or excluded keys (present, absent, repeated), then changed; non-trivial: some key is kept and some is left out", func(c *C) {
		a, b := overlapPair(c)
		var l []string
		if c.oneIn(3, "paths") {
			for _, k := range []string{"a.b", "a.b.c", "x[0]", "p/q", "s:t", "u-v", "n_m", "w *", "ab"} {
				if c.flip("path") {
					a.set(k, c.smallV(1))
				}
			}
		}
		for _, k := range append(a.keys(), b.keys()...) {
			if c.flip("in") {
				l = append(l, k)
			}
			if c.oneIn(8, "case") {
				l = append(l, strings.ToUpper(k))
			}
			if c.oneIn(8, "near") {
				// no key, but much like one
				switch n := pick(c, "nearn", ".", "*", "/", " ", "?", "=", "-", "+", "!", "^", "$", "%", ",", "^*", "*-", "cut", "head"); n {
				case "cut":
					at := len(k) / 2
					if i := strings.IndexAny(k, "./*- :_[]"); i >= 0 && c.flip("cutp") {
						at = i + 1
					}
					l = append(l, k[:at])
				case "head":
					l = append(l, k[:len(k)/2]+pick(c, "nearw", ".", "*", "/", "?", "%", "_"))
				case "^*", "*-":
					l = append(l, n[:1]+k+n[1:])
				default:
					l = append(l, k+n, n+k)
				}
			}
		}
		for i := len(l) - 1; i > 0; i-- {
			if c.oneIn(8, "twice") {
				l = append(l, l[i])
			}
			j := c.uni(i+1, "order")
			l[i], l[j] = l[j], l[i]
		}
		names := append([]string(nil), l...)
		in := filterKeys(a, func(k string) bool { return inList(k, l) })
		out := filterKeys(a, func(k string) bool { return !inList(k, l) })
		c.Case(len(in.D) > 0 && len(out.D) > 0, fmt.Sprintf("%s keys %q", a, l))
		d := dictOfV(a)
		ci, ce, cc, all := d.CopyIncludes(l...), d.CopyExcludes(l...), d.Copy(l...), d.Copy()
		if strings.Join(names, "\x00") != strings.Join(l, "\x00") {
			c.Failf("the list of keys %q became %q", names, l)
		}
		c.sameDoc("CopyIncludes", in, ci, false)
		c.sameDoc("CopyExcludes", out, ce, false)
		c.sameDoc("Copy with excludes", out, cc, false)
		c.sameDoc("Copy", a, all, false)
		for _, x := range []*ju.JSONDict{ci, ce, cc, all} {
			scribble(x)
		}
		c.sameDoc("original after the copies changed", a, d, false)
		cp := d.Copy()
		scribble(d)
		c.sameDoc("copy after the original changed", a, cp, false)
	})
}

// ---------- P13 equality ----------

// smallV draws from a small domain, so that independent documents often agree.
func (c *C) smallV(d int) *V {
	if d > 0 && c.flip("cont") {
		if c.flip("arr") {
			v := &V{K: KArray}
			for i := c.uni(3, "n"); i > 0; i-- {
				v.A = append(v.A, c.smallV(d-1))
			}
			return v
		}
		v := vDict()
		for i := c.uni(3, "n"); i > 0; i-- {
			v.set(pick(c, "k", "a", "b", "A", ""), c.smallV(d-1))
		}
		return v
	}
	return pick(c, "leaf", vNull(), vBool(true), vBool(false), vInt(0), vInt(1), vStr(""), vStr("a"), vStr("0"), vStr("null"), vFloat(0.5), vFloat(1), vStr("true")).clone()
}

// mutant changes exactly one place of v and says what it did.
func (c *C) mutant(v *V) (*V, string) {
	m := v.clone()
	var all []*V
	m.walk(func(x *V) { all = append(all, x) })
	x := all[c.uni(len(all), "place")]
	switch x.K {
	case KNull:
		*x = *pick(c, "mn", vBool(false), vInt(0), vStr(""), vStr("null"), vArr(), vDict())
		return m, "null replaced"
	case KBool:
		*x = *pick(c, "mb", vBool(!x.B), vStr(strconv.FormatBool(x.B)), vInt(int64(b2i(x.B))), vNull())
		return m, "bool replaced"
	case KInt:
		i := x.I
		*x = *pick(c, "mi", vInt(i+1), vInt(-i-1), vInt(i^(1<<32)), vInt(i^(1<<62)), vFloat(float64(i)), vStr(strconv.FormatInt(i, 10)), vBool(i != 0), vNull())
		return m, "int replaced"
	case KFloat:
		f := x.F
		if c.flip("mf") {
			*x = *vStr(strconv.FormatFloat(f, 'f', -1, 64))
		} else if f == math.Trunc(f) && math.Abs(f) < 1e18 {
			*x = *vInt(int64(f))
		} else {
			*x = *vFloat(nextFloat(f))
		}
		return m, "float replaced"
	case KString:
		s := x.S
		*x = *pick(c, "ms", vStr(s+"x"), vStr(" "+s), vStr(flipCase(s)), vStr(s+"\x00"), vNull(), vArr(vStr(s)))
		return m, "string replaced"
	case KArray:
		n := len(x.A)
		switch k := c.uni(4, "ma"); {
		case k == 0 && n > 0:
			i := c.uni(n, "mai")
			x.A = append(append([]*V{}, x.A[:i]...), x.A[i+1:]...)
			return m, "array element removed"
		case k == 1 && n > 1:
			i := c.uni(n-1, "mai")
			x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
			return m, "array elements swapped"
		case k == 2 && n == 0:
			*x = *pick(c, "mae", vDict(), vNull(), vStr(""))
			return m, "empty array replaced"
		}
		x.A = append(append([]*V{}, x.A...), pick(c, "mav", vNull(), vInt(0), vArr()))
		return m, "array element appended"
	default:
		ks := x.keys()
		switch k := c.uni(5, "md"); {
		case k == 0 && len(ks) > 0:
			x.del(ks[c.uni(len(ks), "mdi")])
			return m, "dict key removed"
		case k == 1 && len(ks) > 0:
			o := ks[c.uni(len(ks), "mdi")]
			n := pick(c, "mdn", o+"x", flipCase(o), "x"+o, flipLetter(o, c.uni(len(o)+1, "mdl")))
			w := x.D[o]
			x.del(o)
			x.set(n, w)
			return m, "dict key renamed"
		case k == 2 && len(ks) > 1:
			i := c.uni(len(ks)-1, "mdi")
			x.D[ks[i]], x.D[ks[i+1]] = x.D[ks[i+1]], x.D[ks[i]]
			return m, "dict values swapped"
		case k == 3 && len(ks) == 0:
			*x = *pick(c, "mde", vArr(), vNull(), vStr(""))
			return m, "empty dict replaced"
		}
		x.set(pick(c, "mdk", "zz", "", "new"), pick(c, "mdv", vNull(), vInt(0), vStr("")))
		return m, "dict key added"
	}
}

// flipLetter changes the case of the first ASCII letter from a place on.
func flipLetter(s string, at int) string {
	for i := range s {
		if ch := s[i] | 0x20; i >= at && ch >= 'a' && ch <= 'z' {
			return s[:i] + string(rune(s[i]^0x20)) + s[i+1:]
		}
	}
	return s + "A"
}

func flipCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func nextFloat(f float64) float64 {
	g := f * (1 + 1e-15)
	if g == f || g-g != 0 {
		g = f/2 + 0.125
	}
	if g == f {
		g = f + 1
	}
	return g
}

func checkEquals(c *C, what string, va, vb *V, a, b ju.JSONObject) {
	want := eqV(va, vb, false)
	var ab, ba bool
	c.Guard("Equals", func() { ab, ba = a.Equals(b), b.Equals(a) })
	if ab != want || ba != want {
		c.Failf("%s: a.Equals(b) %v, b.Equals(a) %v, want %v\n a %s\n b %s", what, ab, ba, want, clip(va.String(), 1500), clip(vb.String(), 1500))
	}
}

// byRoute makes the document of v in one of several ways.
func (c *C) byRoute(v *V, l string) (ju.JSONObject, string) {
	switch c.uni(4, l) {
	case 0:
		hasF := false
		v.walk(func(x *V) { hasF = hasF || x.K == KFloat })
		if !hasF {
			return mustParse(c, refText(v)), "parsed"
		}
	case 1:
		return ju.DeepCopy(build(v)), "deep copy"
	case 2:
		return build(c.shuffled(v)), "other insertion order"
	}
	return build(v), "built"
}

// withIds gives v with a node id in every dict.
func withIds(v *V) *V {
	v = v.clone()
	n := int64(0)
	v.walk(func(x *V) {
		if x.K == KDict {
			n++
			x.set(idKey, vInt(n))
		}
	})
	return v
}

func init() {
	reg("P13", "mutant", 9000, "a document and a copy changed in one place (or not at all), made by different routes; non-trivial: the document is a non-empty container", func(c *C) {
		v := c.genDoc()
		m, what := v, "no change"
		if c.uni(5, "change") > 0 {
			m, what = c.mutant(v)
		}
		c.Case(docNontrivial(v), fmt.Sprintf("%s: %s | %s", what, v, m))
		c.Label(what)
		a, ra := c.byRoute(v, "ra")
		b, rb := c.byRoute(m, "rb")
		c.Label("route " + ra)
		checkEquals(c, what+", "+ra+" against "+rb, v, m, a, b)
		checkEquals(c, "itself", v, v, a, a)
		c.sameDoc("after Equals", v, a, false)
		if hasF := false; c.oneIn(3, "ids") {
			// the same again, with node ids in the dicts
			same := eqV(v, m, false)
			v, m = withIds(v), withIds(m)
			for _, x := range []*V{v, m} {
				x.walk(func(x *V) { hasF = hasF || x.K == KFloat })
			}
			if !hasF {
				ids, other := mustParse(c, refText(v)), mustParse(c, refText(m))
				if ids.Equals(other) != same || other.Equals(ids) != same {
					c.Failf("%s, with node ids: Equals is %v\n a %s\n b %s", what, ids.Equals(other), clip(v.String(), 1500), clip(m.String(), 1500))
				}
			}
		}
	})
	reg("P13", "again", 3000, "two documents compared, changed in place and compared again, several times; non-trivial: a container was changed", func(c *C) {
		v := c.genDoc()
		if c.oneIn(3, "longarr") {
			n := 4 + c.uni(30, "longn")
			v = vArr(v)
			for i := 0; i < n; i++ {
				v.A = append(v.A, vInt(int64(i)))
			}
		}
		a, _ := c.byRoute(v, "ra")
		b, _ := c.byRoute(v, "rb")
		desc := v.String()
		docs := []ju.JSONObject{a, b}
		changed := 0
		for i := 1 + c.uni(6, "steps"); i > 0; i-- {
			va, vb := c.mustRead("a", a), c.mustRead("b", b)
			checkEquals(c, "after"+desc, va, vb, a, b)
			side, at, op := c.uni(3, "side"), c.uni(1000, "at"), c.uni(4, "op")
			desc += fmt.Sprintf("; side %d container %d op %d", side, at, op)
			for k, d := range docs {
				if side != 2 && side != k {
					continue
				}
				cs := containers(d)
				if len(cs) == 0 {
					continue
				}
				changed++
				switch x := cs[at%len(cs)].(type) {
				case *ju.JSONDict:
					if ks := x.SortedKeys(); op == 0 && len(ks) > 0 {
						x.Remove(ks[0])
					} else if op == 1 && len(ks) > 0 {
						x.Set(ks[len(ks)-1], ju.NewInt(int64(i%2)))
					} else {
						x.Set("m", ju.NewInt(int64(i%2)))
					}
				case *ju.JSONArray:
					if n := x.Length(); op < 3 && n > 0 {
						x.SetAt([]int{0, n / 2, n - 1}[op], ju.NewInt(int64(i%2)))
					} else {
						x.Add(ju.NewInt(int64(i % 2)))
					}
				}
			}
		}
		c.Case(changed > 0, desc)
		checkEquals(c, "after"+desc, c.mustRead("a", a), c.mustRead("b", b), a, b)
	})
	reg("P13", "keys", 4000, "two dicts of 1 to 60 entries, at top level or inside of an array or dict, that are equal but for one key or value; non-trivial: they differ", func(c *C) {
		n := 1 + c.uni(pick(c, "size", 4, 12, 60), "n")
		pre := pick(c, "pre", "", "k", "Key_", strings.Repeat("long", 8), "é")
		post := pick(c, "post", "", "x", "X", strings.Repeat("tail", 5))
		v := vDict()
		vals := []*V{vInt(1), vNull(), vStr("a"), vStr(""), vArr(vInt(1)), vDict().set("Q", vBool(true))}
		one := c.flip("onevalue")
		for i := 0; i < n; i++ {
			x := vals[0]
			if !one {
				x = vals[c.uni(len(vals), "val")]
			}
			v.set(fmt.Sprintf("%s%02d%s", pre, i, post), x.clone())
		}
		w := v.clone()
		ks := v.keys()
		at := c.uni(n, "at")
		k := ks[at]
		what := "no change"
		switch c.uni(7, "what") {
		case 0, 1:
			x := w.D[k]
			w.del(k)
			w.set(flipLetter(k, c.uni(len(k)+1, "letter")), x)
			what = "letter case"
		case 2:
			x := w.D[k]
			w.del(k)
			w.set(pick(c, "nk", k+" ", k+"\x00", " "+k, k[:len(k)-1], k+"0", pre+post), x)
			what = "key"
		case 3:
			if n > 1 {
				o := ks[(at+1)%n]
				w.D[k], w.D[o] = w.D[o], w.D[k]
				what = "values exchanged"
			}
		case 4:
			w.set(k, vals[c.uni(len(vals), "nval")].clone())
			what = "value"
		case 5:
			w.del(k)
			what = "key missing"
		}
		c.Label(what)
		switch c.uni(4, "inside") {
		case 0:
			v, w = vArr(vInt(0), v), vArr(vInt(0), w)
		case 1:
			v, w = vDict().set("in", v), vDict().set("in", w)
		}
		c.Case(!eqV(v, w, false), fmt.Sprintf("%s at %d of %d: %s", what, at, n, k))
		a, ra := c.byRoute(v, "ra")
		b, rb := c.byRoute(w, "rb")
		checkEquals(c, what+", "+ra+" against "+rb, v, w, a, b)
	})
	reg("P13", "pair", 9000, "two independent documents of a small domain; non-trivial: same kind", func(c *C) {
		a, b := c.smallV(3), c.smallV(3)
		c.Case(a.K == b.K, fmt.Sprintf("%s | %s", a, b))
		c.LabelIf(eqV(a, b, false), "equal pair")
		checkEquals(c, "pair", a, b, build(a), build(b))
	})
	regFixed("P13", "regress", "plain cases", func(c *C) {
		vs := []*V{vNull(), vBool(true), vBool(false), vInt(0), vInt(1), vStr(""), vStr("0"), vStr("null"), vArr(), vDict(), vArr(vNull()), vArr(vArr()), vArr(vDict()), vDict().set("", vNull()), vDict().set("a", vNull()), vFloat(0.5), vFloat(0), vFloat(1)}
		for _, a := range vs {
			for _, b := range vs {
				c.Case(true, fmt.Sprintf("%s | %s", a, b))
				checkEquals(c, "pair", a, b, build(a), build(b))
			}
			if build(a).Equals(nil) {
				c.Failf("%s equals nil", a)
			}
		}
	})
}

// ---------- P14 deep copies ----------

// containers lists all containers of a real document.
func containers(o ju.JSONObject) []ju.JSONObject {
	var out []ju.JSONObject
	var rec func(o ju.JSONObject)
	rec = func(o ju.JSONObject) {
		switch x := o.(type) {
		case *ju.JSONDict:
			out = append(out, o)
			m, _ := x.GetMap()
			for _, k := range x.SortedKeys() {
				rec(m[k])
			}
		case *ju.JSONArray:
			out = append(out, o)
			l, _ := x.GetArray()
			for _, e := range l {
				rec(e)
			}
		}
	}
	rec(o)
	return out
}

// mangle changes one container in place.
func (c *C) mangle(o ju.JSONObject) {
	switch x := o.(type) {
	case *ju.JSONDict:
		ks := x.SortedKeys()
		switch k := c.uni(4, "mk"); {
		case k == 0 && len(ks) > 0:
			x.Remove(ks[c.uni(len(ks), "mi")])
		case k == 1 && len(ks) > 0:
			x.Set(ks[c.uni(len(ks), "mi")], ju.NewString("mangled"))
		case k == 2:
			x.Update(build(vDict().set("mangled", vBool(true))))
		default:
			x.Set("mangled", ju.NewInt(1))
		}
	case *ju.JSONArray:
		if x.Length() > 0 && c.flip("ms") {
			x.SetAt(c.uni(x.Length(), "mi"), ju.NewString("mangled"))
		} else {
			x.Add(ju.NewString("mangled"))
		}
	}
}

// ---------- P15 typed accessors ----------

func refBoolStr(s string) (bool, bool) {
	switch {
	case strings.EqualFold(s, "true"), strings.EqualFold(s, "on"), strings.EqualFold(s, "yes"), s == "1":
		return true, true
	case strings.EqualFold(s, "false"), strings.EqualFold(s, "off"), strings.EqualFold(s, "no"), s == "0":
		return false, true
	}
	return false, false
}

// anyErr stands for an error of any kind.
var anyErr = errors.Error("any error")

func errOK(got, want error) bool {
	if want == nil {
		return got == nil
	}
	if want == anyErr {
		return got != nil
	}
	return isErr(got, want)
}

// checkGetters compares every typed accessor at the path with the reference.
func checkGetters(c *C, root *V, d ju.JSONObject, p []string) {
	var v *V
	var perr error
	if root.K == KDict {
		v, perr = refGet(root, false, p)
	} else if len(p) > 0 {
		perr = anyErr
	} else {
		v = root
	}
	via := root.K == KDict // through a dict
	where := fmt.Sprintf("at %q of %s", p, clip(root.String(), 800))
	exp := func(ok bool, kind error) error {
		if perr != nil {
			return perr
		}
		if ok {
			return nil
		}
		return kind
	}
	bad := func(m string, got interface{}, err error, want interface{}, werr error) {
		c.Failf("%s %s returned %v, %v; want %v, %v", m, where, got, err, want, werr)
	}
	k := KNull
	if v != nil {
		k = v.K
	}
	// Unmarshal with a path
	{
		var x ju.JSONObject
		err := d.Unmarshal(&x, p...)
		if !errOK(err, perr) {
			bad("Unmarshal", x, err, v, perr)
		}
		if err == nil && k != KNull {
			c.sameDoc("Unmarshal "+where, v, x, false)
		}
		if (err != nil || k == KNull) && x != nil {
			bad("Unmarshal", x, err, nil, perr)
		}
		s := "before"
		err = d.Unmarshal(&s, p...)
		want := "before"
		if perr == nil {
			want = ""
			if k != KNull {
				want = textV(v)
			}
		}
		if !errOK(err, perr) || s != want {
			bad("Unmarshal into a string", s, err, want, perr)
		}
	}
	// Int
	{
		var want int64
		ok := k == KInt
		kind := error(anyErr)
		if ok {
			want = v.I
		}
		if k == KString {
			i, e := strconv.ParseInt(v.S, 10, 64)
			ok, kind = e == nil, ju.ErrInvalidJsonInt
			if ok {
				want = i
			}
		}
		if k == KDict {
			kind = ju.ErrInvalidJsonInt
		}
		we := exp(ok, kind)
		got, err := d.Int(p...)
		if !errOK(err, we) || got != want {
			bad("Int", got, err, want, we)
		}
	}
	// Float
	{
		var want float64
		ok := k == KFloat || k == KInt
		kind := error(anyErr)
		if k == KFloat {
			want = v.F
		}
		if k == KInt {
			want = float64(v.I)
		}
		if k == KString {
			f, e := strconv.ParseFloat(v.S, 64)
			ok, kind = e == nil, ju.ErrInvalidJsonFloat
			if ok {
				want = f
			}
		}
		if k == KDict {
			kind = ju.ErrInvalidJsonFloat
		}
		we := exp(ok, kind)
		got, err := d.Float(p...)
		if !errOK(err, we) || !(got == want || got != got && want != want) {
			bad("Float", got, err, want, we)
		}
	}
	// Bool
	{
		var want bool
		ok := k == KBool
		kind := error(anyErr)
		if ok {
			want = v.B
		}
		if k == KString {
			want, ok = refBoolStr(v.S)
			kind = ju.ErrInvalidJsonBoolean
		}
		if k == KDict {
			kind = ju.ErrInvalidJsonBoolean
		}
		we := exp(ok, kind)
		got, err := d.Bool(p...)
		if !errOK(err, we) || got != want {
			bad("Bool", got, err, want, we)
		}
	}
	// GetString
	{
		we := exp(true, nil)
		got, err := d.GetString(p...)
		if !errOK(err, we) {
			bad("GetString", got, err, "", we)
		}
		if err == nil && k == KString && got != v.S {
			bad("GetString", got, err, v.S, we)
		}
		if err == nil && k != KString && v != nil {
			w, e := ju.ParseString(got)
			if e != nil {
				bad("GetString", got, err, "JSON text", we)
			}
			c.sameDoc("GetString "+where, norm(v), w, false)
		}
		if err != nil && got != "" {
			bad("GetString", got, err, "", we)
		}
	}
	// GetTime
	{
		got, err := d.GetTime(p...)
		if perr != nil {
			if !errOK(err, perr) {
				bad("GetTime", got, err, "", perr)
			}
		} else if k != KString {
			if err == nil {
				bad("GetTime", got, err, "", anyErr)
			}
		}
		if err != nil && !got.IsZero() {
			bad("GetTime", got, err, time.Time{}, err)
		}
	}
	// GetMap
	{
		kind := error(anyErr)
		if via {
			kind = ju.ErrInvalidJsonDict
		}
		we := exp(k == KDict, kind)
		got, err := d.GetMap(p...)
		if !errOK(err, we) {
			bad("GetMap", len(got), err, "", we)
		}
		if err == nil {
			if len(got) != len(v.D) {
				bad("GetMap", len(got), err, len(v.D), we)
			}
			for key, x := range v.D {
				if got[key] == nil {
					c.Failf("GetMap %s lacks %q", where, key)
				}
				c.sameDoc("GetMap "+where, x, got[key], false)
			}
		} else if got != nil {
			bad("GetMap", got, err, nil, we)
		}
	}
	// GetArray
	{
		kind := error(anyErr)
		if k == KDict && v != nil {
			kind = ju.ErrInvalidJsonArray
		}
		we := exp(v != nil && k != KDict && k != KNull, kind)
		got, err := d.GetArray(p...)
		if !errOK(err, we) {
			bad("GetArray", len(got), err, "", we)
		}
		if err == nil {
			want := []*V{v}
			if k == KArray {
				want = v.A
			}
			if len(got) != len(want) {
				bad("GetArray", len(got), err, len(want), we)
			}
			for i := range want {
				c.sameDoc("GetArray "+where, want[i], got[i], false)
			}
			ss, serr := ju.GetStringArray(d, p...)
			if serr != nil || len(ss) != len(want) {
				c.Failf("GetStringArray %s returned %q, %v", where, ss, serr)
			}
			for i := range want {
				if want[i].K == KString && ss[i] != want[i].S {
					c.Failf("GetStringArray %s: element %d is %q, want %q", where, i, ss[i], want[i].S)
				}
			}
		} else if _, serr := ju.GetStringArray(d, p...); serr == nil {
			c.Failf("GetStringArray %s succeeds, GetArray fails with %v", where, err)
		}
	}
	// GetAt
	{
		n := 0
		if k == KArray {
			n = len(v.A)
		}
		i := c.intn(-n-1, n+1, "gi")
		j := i
		if j < 0 {
			j += n
		}
		in := j >= 0 && j < n
		kind := error(anyErr)
		if via && k != KArray {
			kind = ju.ErrInvalidJsonArray
		}
		if k == KArray {
			kind = ju.ErrOutOfIndexRange
		}
		we := exp(k == KArray && in, kind)
		got, err := d.GetAt(i, p...)
		if !errOK(err, we) {
			bad(fmt.Sprintf("GetAt(%d)", i), got, err, "", we)
		}
		if err == nil {
			c.sameDoc(fmt.Sprintf("GetAt(%d) %s", i, where), v.A[j], got, false)
		} else if got != nil {
			bad(fmt.Sprintf("GetAt(%d)", i), got, err, nil, we)
		}
	}
	// Get, Contains and the case-insensitive forms
	if via {
		got, err := d.Get(p...)
		if !errOK(err, perr) || d.Contains(p...) != (perr == nil) {
			bad("Get", got, err, "", perr)
		}
		if err == nil {
			c.sameDoc("Get "+where, v, got, false)
		}
		w, ferr := refGet(root, true, p)
		got, err = d.GetIgnoreCases(p...)
		if !errOK(err, ferr) || d.ContainsIgnoreCases(p...) != (ferr == nil) {
			bad("GetIgnoreCases", got, err, "", ferr)
		}
		if err == nil {
			c.sameDoc("GetIgnoreCases "+where, w, got, false)
		}
	} else if d.Contains(p...) && len(p) > 0 {
		c.Failf("Contains %s", where)
	}
}

// getterStr draws strings that matter to the conversions.
func (c *C) getterStr() string {
	switch c.uni(4, "gs") {
	case 0:
		return pick(c, "gsb", "true", "True", "TRUE", "on", "ON", "oN", "yes", "Yes", "1", "false", "False", "off", "OFF", "no", "No", "0", "t", "y", "", " true", "true ", "2", "01", "enable")
	case 1:
		return pick(c, "gsn", "12", "-12", "+12", "012", "0x1f", "1_000", "1,000", "12 ", " 12", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1.5", "-1.5e3", "1e5", "1e400", ".5", "5.", "NaN", "inf", "-Inf", "1.2.3", "--1", "12a", "1e", "0b1", "0.1")
	case 2:
		if c.oneIn(6, "longnum") {
			n := pick(c, "longn", 10, 17, 19, 20, 21, 31, 33, 40, 64, 65, 130, 400)
			s := strings.Repeat(pick(c, "longd", "0", "1", "9", "12", "30"), n)
			if c.flip("longp") {
				k := c.uni(len(s)+1, "longat")
				s = s[:k] + "." + s[k:]
			}
			return pick(c, "longs", "", "-", "+", "0.", "-0.", "00") + s + pick(c, "longe", "", "", "7", ".5", "e5", "e-20", "x")
		}
		s := strconv.FormatInt(c.genInt(), 10)
		if c.oneIn(4, "big") {
			s = pick(c, "near", "2147483647", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "10000000000000000000", "1", "0", "-1")
		}
		if c.flip("affix") {
			a := pick(c, "affixk", ".0", ".", ".00", ".5", "e0", "e1", "E2", "_", "_0", " ", "\n", "+", "-", "0x", "0", "%", ",", ",000", "L", "u", "f", "s", "\x00", "k", "true")
			if c.flip("front") {
				s = a + s
			} else {
				s += a
			}
		}
		return s
	}
	return c.genStr()
}

func init() {
	reg("P14", "independent", 8000, "a document (also with shared parts) and its deep copy, one of them changed at a random container; non-trivial: the document is a non-empty container", func(c *C) {
		v := c.genDoc()
		if c.oneIn(4, "share") {
			// the same part at several places
			part := v
			v = vArr(part, vDict().set("x", part), part)
		}
		c.some32(v)
		d := buildShared(v)
		c.Case(docNontrivial(v), v.String())
		c.labelDoc(v)
		var cp ju.JSONObject
		c.Guard("DeepCopy", func() {
			if m, ok := d.(interface{ DeepCopy() interface{} }); ok && c.flip("method") {
				cp, _ = m.DeepCopy().(ju.JSONObject)
			} else {
				cp = ju.DeepCopy(d)
			}
		})
		if cp == nil {
			c.Failf("the deep copy of %s is nil", v)
		}
		if reflect.TypeOf(cp) != reflect.TypeOf(d) {
			c.Failf("the deep copy of a %T is a %T", d, cp)
		}
		c.sameDoc("deep copy", v, cp, false)
		if !d.Equals(cp) || !cp.Equals(d) || cp.String() != d.String() {
			c.Failf("the deep copy of %s is not Equal, or prints differently", v)
		}
		cs := containers(cp)
		other, what := d, "original after its copy changed"
		if c.flip("orig") {
			cs = containers(d)
			other, what = cp, "copy after its original changed"
		}
		for i := 0; i < 3 && len(cs) > 0; i++ {
			c.mangle(cs[c.uni(len(cs), "cont")])
			c.sameDoc(what, v, other, false)
		}
	})
	reg("P14", "graphs", 3000, "the document of a pointer graph and its deep copy, every dict of one of them changed, then references followed in both; non-trivial: has a reference", func(c *C) {
		ns, _, cyclic := c.genGraph(false)
		desc := gShow(ns, nil)
		var m, cp ju.JSONObject
		c.Guard("DeepCopy", func() {
			m = ju.Marshal(ns[0])
			cp = ju.DeepCopy(m)
		})
		mark := c.uni(2, "mark")
		keys, n := c.gWalk(ns[0], 8)
		c.Case(cyclic, fmt.Sprintf("%d %q %s", mark, keys, desc))
		text := m.String()
		if t := cp.String(); t != text || !cp.Equals(m) {
			c.Failf("the deep copy of %s is %s", text, t)
		}
		both := []ju.JSONObject{m, cp}
		for _, x := range containers(both[mark]) {
			if d, ok := x.(*ju.JSONDict); ok && d.Contains("id") {
				d.Set("id", ju.NewInt(-7))
			}
		}
		for i, d := range both {
			want := int64(n.Id)
			if i == mark {
				want = -7
			}
			for j, k := range keys {
				var err error
				if d, err = d.Get(k); err != nil {
					c.Failf("step %d of %q: %v\n document %s", j, keys, err, text)
				}
			}
			if id, err := d.Int("id"); err != nil || id != want {
				c.Failf("following %q in %s gives %d, %v after the dicts of %s were marked; want %d\n document %s", keys, []string{"the document", "its copy"}[i], id, err, []string{"the document", "its copy"}[mark], want, text)
			}
		}
	})
	reg("P14", "nodes", 3000, "a parsed document with node ids and pointers, and its deep copy, printed after the original has been changed; non-trivial: has a pointer", func(c *C) {
		text := c.genNodeText()
		c.Case(strings.Contains(text, "<"), text)
		d, err := ju.ParseString(text)
		if err != nil {
			c.Failf("text %q rejected: %v", text, err)
		}
		want := d.String()
		cp := ju.DeepCopy(d)
		if got := cp.String(); got != want {
			c.Failf("the deep copy of %s prints as %s", want, got)
		}
		if !cp.Equals(d) {
			c.Failf("the deep copy of %s is not Equal", want)
		}
		switch x := d.(type) {
		case *ju.JSONDict:
			scribble(x)
		case *ju.JSONArray:
			x.Add(ju.NewInt(1))
			for i := 0; i < x.Length(); i++ {
				if e, ok := mustGetAt(x, i).(*ju.JSONDict); ok {
					e.Set("scribble", ju.NewInt(1))
				}
			}
		}
		if got := cp.String(); got != want {
			c.Failf("the copy of %s prints as %s after its original changed", want, got)
		}
	})
	regFixed("P14", "regress", "plain cases", func(c *C) {
		for _, s := range []string{`{"___jnid_":1,"a":{"p":<1>}}`, `[{"___jnid_":1,"a":1},<1>]`, `[<1>,{"___jnid_":1,"l":[<1>]}]`} {
			c.Case(true, s)
			d := mustParse(c, s)
			cp := ju.DeepCopy(d)
			if cp.String() != d.String() {
				c.Failf("the deep copy of %s prints as %s", d, cp)
			}
		}
		if ju.DeepCopy(nil) != nil {
			c.Failf("the deep copy of nil is not nil")
		}
	})

	const rule15 = "a document with values that matter to conversions, and a path into it (existing, absent, through a non-dict, empty); every typed accessor is called; non-trivial: the path exists or leads through a non-dict"
	gen15 := func(c *C) (*V, []string) {
		h := newHeap(c)
		o := c.opt(3, 3)
		o.str = c.getterStr
		o.key = func() string { return h.key("k") }
		if c.oneIn(4, "direct") {
			return c.genV(o), nil
		}
		v := c.genDictD(o, 3)
		for i := c.uni(3, "more"); i > 0; i-- {
			v.set(h.key("k"), c.genScalar(o))
		}
		p := h.path(v, 3, "p")
		if len(p) > 1 && c.oneIn(6, "joined") {
			// a path in one key is no path
			n := 1 + c.uni(len(p)-1, "joinat")
			p = append(append([]string{}, p[:n-1]...), append([]string{p[n-1] + pick(c, "joint", ".", ".", "/", " ") + p[n]}, p[n+1:]...)...)
		}
		return v, p
	}
	reg("P15", "getters", 9000, rule15, func(c *C) {
		v, p := gen15(c)
		if v.K != KDict && c.oneIn(4, "keys") {
			p = []string{"a"}
		}
		x, err := refGet(v, false, p)
		c.Case(err == nil || err == ju.ErrInvalidJsonDict, fmt.Sprintf("%s %q", v, p))
		if err == nil {
			c.Label("value:" + x.K.String())
		} else {
			c.Label("error:" + err.Error())
		}
		c.LabelIf(v.K != KDict, "direct")
		d := build(v)
		path := append([]string(nil), p...)
		c.Guard("accessors", func() { checkGetters(c, v, d, p) })
		if strings.Join(path, "\x00") != strings.Join(p, "\x00") {
			c.Failf("the accessors changed the path %q into %q", path, p)
		}
		c.sameDoc("after the accessors", v, d, false)
	})
	reg("P15", "conversion", 5000, "one string, as the whole document and as a dict member, read as number and boolean; non-trivial: some conversion succeeds", func(c *C) {
		s := c.getterStr()
		_, e1 := strconv.ParseFloat(s, 64)
		_, ok := refBoolStr(s)
		c.Case(e1 == nil || ok, s)
		c.Guard("accessors", func() {
			checkGetters(c, vStr(s), ju.NewString(s), nil)
			checkGetters(c, vDict().set("k", vStr(s)), build(vDict().set("k", vStr(s))), []string{"k"})
		})
	})
	regFixed("P15", "regress", "plain cases", func(c *C) {
		inner := vDict().set("a", vInt(1))
		for _, v := range []*V{vDict(), inner, vDict().set("d", inner), vDict().set("a", vArr(vInt(1), vStr("x"))), vArr(), vNull(), vInt(3), vFloat(1.5), vBool(true), vStr("")} {
			for _, p := range [][]string{nil, {"a"}, {"d"}, {"d", "a"}, {"a", "x"}, {"zz"}} {
				c.Case(true, fmt.Sprintf("%s %q", v, p))
				if i, err := build(v).Int(p...); err == nil && v.K == KDict && i == 0 {
					c.Failf("Int of %s %q", v, p)
				}
				build(v).Float(p...)
				build(v).Bool(p...)
			}
		}
	})
}

func mustGetAt(a *ju.JSONArray, i int) ju.JSONObject {
	o, _ := a.GetAt(i)
	return o
}

// buildShared builds a document in which one model value that occurs at several
// places becomes one shared object.
func buildShared(v *V) ju.JSONObject {
	seen := map[*V]ju.JSONObject{}
	var rec func(v *V) ju.JSONObject
	rec = func(v *V) ju.JSONObject {
		if o, ok := seen[v]; ok {
			return o
		}
		var o ju.JSONObject
		switch v.K {
		case KArray:
			a := ju.NewArray()
			for _, x := range v.A {
				a.Add(rec(x))
			}
			o = a
		case KDict:
			d := ju.NewDict()
			for _, k := range v.Ord {
				d.Set(k, rec(v.D[k]))
			}
			o = d
		default:
			o = build(v)
		}
		seen[v] = o
		return o
	}
	return rec(v)
}
