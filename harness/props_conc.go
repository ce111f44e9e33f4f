package main

// P23: reading a document does not change it, and any number of goroutines may
// read (and marshal, parse, unmarshal from) shared values at the same time.
// The check of this property is built with the race detector.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// snapDoc describes a document, cyclic ones included, through its accessors:
// pointers appear as their text.
func snapDoc(o ju.JSONObject) string {
	var sb strings.Builder
	var rec func(o ju.JSONObject)
	rec = func(o ju.JSONObject) {
		switch x := o.(type) {
		case *ju.JSONDict:
			m, _ := x.GetMap()
			fmt.Fprintf(&sb, "{%d ", x.Length())
			for _, k := range x.SortedKeys() {
				fmt.Fprintf(&sb, "%q:", k)
				rec(m[k])
				sb.WriteByte(' ')
			}
			sb.WriteByte('}')
		case *ju.JSONArray:
			fmt.Fprintf(&sb, "[%d ", x.Length())
			for i := 0; i < x.Length(); i++ {
				rec(mustGetAt(x, i))
				sb.WriteByte(' ')
			}
			sb.WriteByte(']')
		case *ju.JSONString:
			fmt.Fprintf(&sb, "%q", x.Value())
		case *ju.JSONInt:
			fmt.Fprintf(&sb, "i%d", x.Value())
		case *ju.JSONFloat:
			fmt.Fprintf(&sb, "f%v", x.Value())
		case *ju.JSONBool:
			fmt.Fprintf(&sb, "%v", x.Value())
		case *ju.JSONValue:
			sb.WriteString("null")
		default:
			fmt.Fprintf(&sb, "(%s)", o.String())
		}
	}
	rec(o)
	return sb.String()
}

type cTarget struct {
	A, B  int
	S     string
	F     *float64
	Flag  *bool
	T     tristate.TriState
	When  time.Time
	Name  []string
	D     *ju.JSONDict
	L     *ju.JSONArray
	Obj   ju.JSONObject
	Str   *ju.JSONString
	Int   *ju.JSONInt
	Bool  *ju.JSONBool
	BoolV ju.JSONBool
	DictV ju.JSONDict
	M     map[string]string
	MO    map[string]ju.JSONObject
	Sub   *cSub
	Subs  []cSub
	Raw   string
	Any   interface{}
	Id    int
	Kids  []*gNode
	Left  *gNode
	Right *gNode
}

type cSub struct {
	A    int
	Text string
	Sub  *cSub
	X    ju.JSONObject
}

func errText(e error) string {
	if e == nil {
		return "ok"
	}
	return e.Error()
}

// rop is one reading operation; run may be called any number of times, from
// any goroutine, and must always return the same.
type rop struct {
	desc  string
	run   func() string
	runOn func(o ju.JSONObject) string
}

// nodesOf lists all objects of a document, the objects behind pointers too.
func nodesOf(o ju.JSONObject) []ju.JSONObject {
	out := []ju.JSONObject{}
	var rec func(o ju.JSONObject)
	rec = func(o ju.JSONObject) {
		out = append(out, o)
		switch x := o.(type) {
		case *ju.JSONDict:
			m, _ := x.GetMap()
			for _, k := range x.SortedKeys() {
				rec(m[k])
			}
		case *ju.JSONArray:
			for i := 0; i < x.Length(); i++ {
				rec(mustGetAt(x, i))
			}
		}
	}
	rec(o)
	return out
}

// pathsOf lists where the objects of nodesOf are.
func pathsOf(o ju.JSONObject) [][]interface{} {
	out := [][]interface{}{}
	var rec func(o ju.JSONObject, path []interface{})
	rec = func(o ju.JSONObject, path []interface{}) {
		out = append(out, append([]interface{}{}, path...))
		switch x := o.(type) {
		case *ju.JSONDict:
			m, _ := x.GetMap()
			for _, k := range x.SortedKeys() {
				rec(m[k], append(path, k))
			}
		case *ju.JSONArray:
			for i := 0; i < x.Length(); i++ {
				rec(mustGetAt(x, i), append(path, i))
			}
		}
	}
	rec(o, nil)
	return out
}

// follow goes to a place in a document, by reading it.
func follow(o ju.JSONObject, path []interface{}) ju.JSONObject {
	for _, s := range path {
		switch k := s.(type) {
		case int:
			o, _ = o.GetAt(k)
		case string:
			m, _ := o.GetMap()
			o = m[k]
		}
		if o == nil {
			panic(fmt.Sprintf("no object at %v", path))
		}
	}
	return o
}

func isDict(o ju.JSONObject) bool { _, ok := o.(*ju.JSONDict); return ok }

// rops are the operations that can be drawn.
var ropNames = []string{"String", "PrettyString", "YAMLString", "QueryString", "GetString", "Int", "Float", "Bool", "GetTime", "GetMap", "GetArray", "GetAt", "Get", "GetIgnoreCases", "Contains",
	"Keys", "Interface", "Value", "Equals", "DeepCopy", "Copy", "CopyIncludes", "Update", "UpdateDefault", "Diff", "Unmarshal", "UnmarshalMap", "UnmarshalJSONTargets", "UnmarshalValues", "UnmarshalValues", "UnmarshalNode", "Marshal", "MarshalIn", "AddTo",
	"stdjson", "helpers", "Parse", "Unmarshal", "String", "String", "IsZero", "stdMarshal"}

// genRop draws an operation on one of the objects of a document; at finds the
// object with an index among nodes (the objects of a twin of the document).
func (c *C) genRop(nodes []ju.JSONObject, at func(int) ju.JSONObject, cyclic bool, extra *V, text string) rop {
	name := ropNames[c.uni(len(ropNames), "op")]
	idx := 0
	if c.flip("inner") {
		idx = c.uni(len(nodes), "node")
	}
	o := nodes[idx]
	p := []string{}
	for i := c.uni(3, "pn"); i > 0; i-- {
		p = append(p, c.genKey())
	}
	if d, ok := o.(*ju.JSONDict); ok && d.Length() > 0 && c.flip("hit") {
		ks := d.SortedKeys()
		p = []string{ks[c.uni(len(ks), "hk")]}
	}
	n := c.intn(-3, 3, "idx")
	r := rop{desc: fmt.Sprintf("%s(#%d %q %d)", name, idx, p, n)}
	ex := build(extra)
	key := "a"
	if len(p) > 0 {
		key = p[0]
	}
	switch name {
	case "String":
		r.runOn = func(o ju.JSONObject) string { return o.String() }
	case "PrettyString":
		r.runOn = func(o ju.JSONObject) string { return o.PrettyString() }
	case "YAMLString":
		r.runOn = func(o ju.JSONObject) string { return o.YAMLString() }
	case "QueryString":
		r.runOn = func(o ju.JSONObject) string { return o.QueryString() }
	case "GetString":
		r.runOn = func(o ju.JSONObject) string { s, e := o.GetString(p...); return s + " " + errText(e) }
	case "Int":
		r.runOn = func(o ju.JSONObject) string { s, e := o.Int(p...); return fmt.Sprint(s, errText(e)) }
	case "Float":
		r.runOn = func(o ju.JSONObject) string { s, e := o.Float(p...); return fmt.Sprint(s, errText(e)) }
	case "Bool":
		r.runOn = func(o ju.JSONObject) string { s, e := o.Bool(p...); return fmt.Sprint(s, errText(e)) }
	case "GetTime":
		r.runOn = func(o ju.JSONObject) string { s, e := o.GetTime(p...); return fmt.Sprint(s, errText(e)) }
	case "GetMap":
		r.runOn = func(o ju.JSONObject) string {
			m, e := o.GetMap()
			var ks []string
			for k, x := range m {
				ks = append(ks, k+"="+x.String())
			}
			sort.Strings(ks)
			// the map belongs to the caller
			for k := range m {
				delete(m, k)
				break
			}
			if m != nil {
				m["new"] = ju.JSONTrue
				m["a"] = ju.JSONTrue
			}
			return fmt.Sprint(ks, errText(e))
		}
	case "GetArray":
		r.runOn = func(o ju.JSONObject) string {
			l, e := o.GetArray()
			s := errText(e)
			for _, x := range l {
				s += "," + x.String()
			}
			for i := range l {
				l[i] = ju.JSONNull
			}
			_ = append(l, ju.JSONTrue)
			return s
		}
	case "GetAt":
		r.runOn = func(o ju.JSONObject) string {
			x, e := o.GetAt(n, p...)
			if e != nil {
				return errText(e)
			}
			return x.String()
		}
	case "Get":
		r.runOn = func(o ju.JSONObject) string {
			x, e := o.Get(p...)
			if e != nil {
				return errText(e)
			}
			return x.String()
		}
	case "GetIgnoreCases":
		r.runOn = func(o ju.JSONObject) string {
			x, e := o.GetIgnoreCases(p...)
			if e != nil {
				return errText(e)
			}
			return x.String()
		}
	case "Contains":
		r.runOn = func(o ju.JSONObject) string { return fmt.Sprint(o.Contains(p...), o.ContainsIgnoreCases(p...)) }
	case "Keys":
		r.runOn = func(o ju.JSONObject) string {
			s := ""
			if d, ok := o.(*ju.JSONDict); ok {
				ks := d.SortedKeys()
				s = fmt.Sprint(ks, d.Length(), d.Size())
				for i := range ks {
					ks[i] = "gone"
				}
			}
			if d, ok := o.(*ju.JSONArray); ok {
				s = fmt.Sprint(d.Length(), d.Size(), d.GetStringArray())
			}
			return s
		}
	case "Interface":
		r.runOn = func(o ju.JSONObject) string {
			if cyclic {
				return ""
			}
			x := o.Interface()
			s := fmt.Sprint(x)
			switch y := x.(type) {
			case map[string]interface{}:
				for k := range y {
					delete(y, k)
				}
				y["new"] = 1
			case []interface{}:
				for i := range y {
					y[i] = nil
				}
			}
			return s
		}
	case "Value":
		r.runOn = func(o ju.JSONObject) string {
			switch x := o.(type) {
			case *ju.JSONDict:
				m := x.Value()
				l := len(m)
				m["new"] = ju.JSONTrue
				return fmt.Sprint(l)
			case *ju.JSONArray:
				l := x.Value()
				for i := range l {
					l[i] = nil
				}
				return fmt.Sprint(len(l))
			case *ju.JSONString:
				return x.Value()
			case *ju.JSONInt:
				return fmt.Sprint(x.Value())
			case *ju.JSONFloat:
				return fmt.Sprint(x.Value())
			case *ju.JSONBool:
				return fmt.Sprint(x.Value())
			}
			return ""
		}
	case "IsZero":
		r.runOn = func(o ju.JSONObject) string { return fmt.Sprint(o.IsZero()) }
	case "Equals":
		jdx := c.uni(len(nodes), "other")
		r.runOn = func(o ju.JSONObject) string {
			j := at(jdx)
			return fmt.Sprint(o.Equals(j), j.Equals(o), o.Equals(ex), ex.Equals(o), o.Equals(o))
		}
	case "DeepCopy":
		seed := c.uni(3, "mg")
		r.runOn = func(o ju.JSONObject) string {
			cp := ju.DeepCopy(o)
			s := cp.String()
			for _, x := range containers(cp) {
				switch y := x.(type) {
				case *ju.JSONDict:
					if seed == 0 {
						scribble(y)
					} else {
						y.Set("a", ju.JSONNull)
						y.Set("new", ju.JSONNull)
					}
				case *ju.JSONArray:
					for i := 0; i < y.Length(); i++ {
						y.SetAt(i, ju.JSONNull)
					}
					y.Add(ju.JSONTrue)
				}
			}
			return s
		}
	case "Copy":
		r.runOn = func(o ju.JSONObject) string {
			switch x := o.(type) {
			case *ju.JSONDict:
				cp := x.Copy(p...)
				s := strings.ReplaceAll(cp.String(), "___jnid_", "")
				scribble(cp)
				return s
			case *ju.JSONArray:
				cp := x.Copy()
				s := cp.String()
				for i := 0; i < cp.Length(); i++ {
					cp.SetAt(i, ju.JSONNull)
				}
				cp.Add(ju.JSONTrue, ju.JSONNull)
				return s
			}
			return ""
		}
	case "CopyIncludes":
		r.runOn = func(o ju.JSONObject) string {
			if x, ok := o.(*ju.JSONDict); ok {
				cp := x.CopyIncludes(p...)
				s := cp.String()
				scribble(cp)
				return s
			}
			return ""
		}
	case "Update", "UpdateDefault":
		r.runOn = func(o ju.JSONObject) string {
			d := ju.NewDict()
			d.Update(ex)
			if name == "Update" {
				d.Update(o)
			} else {
				d.UpdateDefault(o)
			}
			s := d.String()
			scribble(d)
			return s
		}
	case "Diff":
		r.runOn = func(o ju.JSONObject) string {
			x, ok := o.(*ju.JSONDict)
			y, ok2 := ex.(*ju.JSONDict)
			if !ok || !ok2 {
				return ""
			}
			a, b, d, e := ju.Diff(x, y)
			s := a.String() + b.String() + d.String() + e.String()
			scribble(a)
			scribble(b)
			scribble(d)
			scribble(e)
			a, b, d, e = ju.Diff(y, x)
			s += a.String() + b.String() + d.String() + e.String()
			scribble(a)
			scribble(d)
			scribble(e)
			return s
		}
	case "Unmarshal":
		r.runOn = func(o ju.JSONObject) string {
			var t cTarget
			e := o.Unmarshal(&t)
			// everything of Go type in the target belongs to the caller
			s := fmt.Sprint(errText(e), t.A, t.B, t.S, t.Name, t.Raw, t.When, t.Sub != nil, len(t.Subs), len(t.M), t.Kids != nil)
			t.Name = append(t.Name[:0], "gone")
			for k := range t.M {
				t.M[k] = "gone"
			}
			for k := range t.MO {
				t.MO[k] = nil
			}
			return s
		}
	case "UnmarshalMap":
		r.runOn = func(o ju.JSONObject) string {
			m := map[string]ju.JSONObject{}
			e := o.Unmarshal(&m)
			l := len(m)
			for k := range m {
				m[k] = ju.JSONNull
			}
			var ls []ju.JSONObject
			e2 := o.Unmarshal(&ls)
			for i := range ls {
				ls[i] = nil
			}
			return fmt.Sprint(errText(e), errText(e2), l, len(ls))
		}
	case "UnmarshalJSONTargets":
		val := c.flip("flagv")
		r.runOn = func(o ju.JSONObject) string {
			// targets that hold documents already, also the shared constants
			t := struct {
				A, B, Name *ju.JSONString
				Flag       *ju.JSONBool
				Id         ju.JSONObject
				Type       *ju.JSONInt
			}{ju.NewString("x"), nil, ju.NewString("y"), ju.NewBool(val), ju.NewBool(!val), ju.NewInt(1)}
			e := o.Unmarshal(&t)
			e1, e2 := ju.JSONTrue.Unmarshal(&t.Flag), ju.JSONFalse.Unmarshal(&t.Flag)
			return fmt.Sprint(errText(e), e1, e2, t.Flag)
		}
	case "UnmarshalValues":
		preset := c.flip("preset")
		r.runOn = func(o ju.JSONObject) string {
			// JSONArray and JSONDict values and interfaces belong to the caller
			var a ju.JSONArray
			var d ju.JSONDict
			if preset {
				a, d = *ju.NewArray(ju.JSONTrue), *dictOfV(vDict().set("b", vInt(1)))
			}
			var x interface{}
			t := struct {
				A, L ju.JSONArray
				D, B ju.JSONDict
				S, M interface{}
			}{}
			e1, e2, e3, e4 := o.Unmarshal(&a), o.Unmarshal(&d), o.Unmarshal(&x), o.Unmarshal(&t)
			s := fmt.Sprint(errText(e1), errText(e2), errText(e3), errText(e4), a.Length(), d.Length(), t.A.Length(), t.L.Length(), t.D.Length(), t.B.Length())
			for _, y := range []*ju.JSONArray{&a, &t.A, &t.L} {
				for i := 0; i < y.Length(); i++ {
					y.SetAt(i, ju.JSONNull)
				}
				y.Add(ju.JSONTrue, ju.JSONNull)
			}
			for _, y := range []*ju.JSONDict{&d, &t.D, &t.B} {
				scribble(y)
			}
			for _, y := range []interface{}{x, t.S, t.M} {
				switch z := y.(type) {
				case []ju.JSONObject:
					for i := range z {
						z[i] = ju.NewInt(99)
					}
					_ = append(z, ju.JSONTrue)
				case map[string]ju.JSONObject:
					for k := range z {
						delete(z, k)
					}
				}
			}
			return s
		}
	case "UnmarshalNode":
		r.runOn = func(o ju.JSONObject) string {
			var g gNode
			e := o.Unmarshal(&g)
			return fmt.Sprint(errText(e), g.Id)
		}
	case "Marshal":
		r.runOn = func(o ju.JSONObject) string { return ju.Marshal(o).String() + ju.MarshalAll(o).String() }
	case "MarshalIn":
		r.runOn = func(o ju.JSONObject) string {
			return ju.Marshal(struct {
				X ju.JSONObject
				L []ju.JSONObject
				M map[string]ju.JSONObject
			}{o, []ju.JSONObject{o, o}, map[string]ju.JSONObject{"k": o}}).String()
		}
	case "AddTo":
		r.runOn = func(o ju.JSONObject) string {
			d := ju.NewDict()
			d.Add(o, "x", "y")
			d.Add(o, "z")
			a := ju.NewArray(o, d)
			return a.String()
		}
	case "stdMarshal", "stdjson":
		r.runOn = func(o ju.JSONObject) string {
			if cyclic {
				return ""
			}
			b, e := json.Marshal(o.Interface())
			return string(b) + errText(e)
		}
	case "helpers":
		r.runOn = func(o ju.JSONObject) string {
			l, e := ju.GetStringArray(o, p...)
			v, k := ju.GetAnyString2(o, []string{key, "b"})
			return fmt.Sprint(l, errText(e), ju.GetQueryStringArray(o, key), errText(ju.CheckRequiredFields(o, p)), v, k, len(ju.GetArrayOfPrefix(o, key)), ju.QueryBoolean(o, key, true))
		}
	case "Parse":
		r.runOn = func(o ju.JSONObject) string {
			d, e := ju.ParseString(text)
			if e != nil {
				return errText(e)
			}
			return d.String()
		}
	}
	r.run = func() string { return r.runOn(at(idx)) }
	return r
}

// concDoc makes a document to be read, and a twin of it.
func (c *C) concDoc() (d, twin ju.JSONObject, cyclic bool, desc string) {
	switch c.uni(5, "route") {
	case 0:
		ns, _, cyc := c.genGraph(false)
		return ju.Marshal(ns[0]), ju.Marshal(ns[0]), cyc, gShow(ns, nil)
	case 1:
		t := c.genNodeText()
		return mustParse(c, t), mustParse(c, t), true, t
	}
	o := c.opt(3, 4)
	o.key = func() string {
		return pick(c, "ck", "a", "b", "s", "f", "flag", "name", "d", "l", "obj", "str", "int", "bool", "bool_v", "dict_v", "m", "mo", "sub", "subs", "raw", "any", "id", "when", "t", "A", "Name", "kids", "")
	}
	v := c.genDictD(o, 3)
	if c.oneIn(6, "arr") {
		v = vArr(v, c.genVd(o, 3), v)
	}
	if c.oneIn(8, "many") {
		// many items
		n := 20 + c.uni(80, "items")
		l, m := vArr(), vDict()
		for i := 0; i < n; i++ {
			x := vInt(int64(i))
			if i%7 == 0 {
				x = vDict().set("a", vArr(x))
			}
			l.A = append(l.A, x)
			m.set(fmt.Sprint("k", i*37%100), x)
		}
		switch c.uni(3, "manyof") {
		case 0:
			v = l
		case 1:
			v = m
		default:
			v = vDict().set("l", l).set("m", m)
		}
	}
	if c.oneIn(3, "parsed") {
		return mustParse(c, refText(v)), mustParse(c, refText(v)), false, "parsed " + v.String()
	}
	d, route := c.byRoute(v, "how")
	return d, build(v), false, route + " " + v.String()
}

func checkConsts(c *C) {
	if ju.JSONTrue.String() != "true" || ju.JSONFalse.String() != "false" || ju.JSONNull.String() != "null" || !ju.NewBool(true).Value() || ju.NewBool(false).Value() {
		c.Failf("the constants are %s %s %s", ju.JSONTrue, ju.JSONFalse, ju.JSONNull)
	}
}

func init() {
	reg("P23", "reads", 2500, "a document (built, parsed, copied, marshalled from a pointer graph) and a series of reading operations on random parts of it, the results of which the caller then changes; non-trivial: 4 operations or more", func(c *C) {
		d, _, cyclic, desc := c.concDoc()
		extra := c.genDict(2, 4)
		nodes := nodesOf(d)
		text := d.String()
		at := func(i int) ju.JSONObject { return nodes[i] }
		var ops []rop
		for i := 1 + c.intn(2, 14, "nops"); i > 0; i-- {
			ops = append(ops, c.genRop(nodes, at, cyclic, extra, text))
		}
		for _, o := range ops {
			desc += "; " + o.desc
		}
		c.Case(len(ops) >= 4, desc)
		want := snapDoc(d)
		pretty := d.PrettyString()
		for _, o := range ops {
			var r1, r2 string
			c.Guard(o.desc, func() { r1, r2 = o.run(), o.run() })
			if r1 != r2 {
				c.Failf("%s: first %s, then %s", o.desc, clip(r1, 800), clip(r2, 800))
			}
			if got := snapDoc(d); got != want || d.String() != text || d.PrettyString() != pretty {
				c.Failf("%s changed the document\n from %s %s\n to   %s %s", o.desc, clip(want, 900), clip(text, 900), clip(got, 900), clip(d.String(), 900))
			}
			checkConsts(c)
		}
	})
	reg("P23", "concurrent", 1200, "a document and a list of reading operations for each of several goroutines, run at the same time under the race detector and compared with the results of running them one after another; non-trivial: two goroutines or more with 3 operations or more each", func(c *C) {
		// what is to be drawn is taken from a twin, so that the document is
		// read by the goroutines first of all
		d, twin, cyclic, desc := c.concDoc()
		extra := c.genDict(2, 4)
		nodes := nodesOf(twin)
		text := twin.String()
		paths := pathsOf(twin)
		at := func(i int) ju.JSONObject { return follow(d, paths[i]) }
		if c.flip("direct") {
			own := nodesOf(d)
			at = func(i int) ju.JSONObject { return own[i] }
		}
		ng := 2 + c.uni(5, "ng")
		lists := make([][]rop, ng)
		base := make([]rop, 0)
		for i := 1 + c.intn(2, 10, "nops"); i > 0; i-- {
			base = append(base, c.genRop(nodes, at, cyclic, extra, text))
		}
		same := c.flip("same")
		for g := range lists {
			if same {
				lists[g] = base
				continue
			}
			for i := 0; i < len(base); i++ {
				lists[g] = append(lists[g], base[(i*7+g*3)%len(base)])
			}
		}
		for _, o := range base {
			desc += "; " + o.desc
		}
		c.Case(len(base) >= 3, fmt.Sprintf("%d goroutines, %s", ng, desc))
		c.LabelIf(cyclic, "with pointers")
		want := make([][]string, ng)
		got := make([][]string, ng)
		for g := range lists {
			want[g] = make([]string, len(lists[g]))
			got[g] = make([]string, len(lists[g]))
		}
		run := func(out [][]string, par bool) {
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range lists {
				f := func(g int) {
					for i, o := range lists[g] {
						func() {
							defer func() {
								if r := recover(); r != nil {
									out[g][i] = fmt.Sprintf("panic: %v", r)
								}
							}()
							out[g][i] = o.run()
						}()
						if par && (i+g)%3 == 0 {
							runtime.Gosched()
						}
					}
				}
				if !par {
					f(g)
					continue
				}
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					f(g)
				}(g)
			}
			close(start)
			wg.Wait()
		}
		before := snapDoc(twin)
		run(got, true) // first, so that lazily made state is made concurrently
		run(want, false)
		for g := range want {
			for i := range want[g] {
				if want[g][i] != got[g][i] || strings.HasPrefix(want[g][i], "panic:") {
					c.Failf("%s: concurrently %s, alone %s", lists[g][i].desc, clip(got[g][i], 800), clip(want[g][i], 800))
				}
			}
		}
		if after := snapDoc(d); after != before || d.String() != text {
			c.Failf("the document changed\n from %s\n to   %s", clip(before, 900), clip(after, 900))
		}
		checkConsts(c)
	})
	reg("P23", "values", 1200, "a Go value of a fresh type marshalled and its document unmarshalled by several goroutines at the same time; all results are those of one goroutine; non-trivial: the value has a container", func(c *C) {
		ns, _, _ := c.genGraph(false)
		h, _ := c.genHooks()
		x := c.concTarget()
		byNum, byU8, byKey := map[int]cTarget{}, map[uint8][]int{}, map[mColor]map[int64]string{}
		for i := c.uni(6, "nkeys"); i > 0; i-- {
			n := c.uni(60000, "numkey")
			byNum[n-300] = x
			byU8[uint8(n)] = []int{n}
			byKey[mColor("k"+strconv.Itoa(n%7))] = map[int64]string{int64(n) << 20: "x"}
		}
		vals := []interface{}{ns[0], h, x, &x, map[string]interface{}{"n": x, "l": []cTarget{x}}, byNum, []interface{}{byU8, byKey, byNum}, &byKey}
		if c.oneIn(20, "large") {
			// large containers, the items of which share pointers
			n := 40 + c.uni(60, "items")
			type rec struct {
				N    int
				Name string `json:",allowempty"`
				P, Q *int
				X    *cTarget `json:",allowempty"`
			}
			var l []rec
			lm, lp := map[string]rec{}, []*rec{}
			num := 5
			for i := 0; i < n; i++ {
				l = append(l, rec{N: i, Name: strconv.Itoa(i % 9), P: &num, Q: &i, X: &x})
				lm[strconv.Itoa(i)] = l[i]
				lp = append(lp, &l[i])
			}
			vals = []interface{}{l, lm, lp, &l, map[string]interface{}{"l": l, "m": lm}}
			c.Label("large")
		}
		val := vals[c.uni(len(vals), "val")]
		c.Case(true, fmt.Sprintf("%T %s", val, clip(fmt.Sprintf("%+v", val), 700)))
		const G = 4
		outs := make([]string, G)
		var wg sync.WaitGroup
		start := make(chan struct{})
		body := func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprintf("panic: %v", r)
				}
			}()
			d := ju.Marshal(val)
			s = d.String()
			rt := reflect.TypeOf(val)
			if rt.Kind() == reflect.Ptr {
				rt = rt.Elem()
			}
			p := reflect.New(rt)
			e := d.Unmarshal(p.Interface())
			s += errText(e)
			s += ju.Marshal(p.Interface()).String()
			return s
		}
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				outs[g] = body()
			}(g)
		}
		close(start)
		wg.Wait()
		want := body()
		for g := range outs {
			if outs[g] != want || strings.HasPrefix(want, "panic:") {
				c.Failf("concurrently %s\n alone %s", clip(outs[g], 1500), clip(want, 1500))
			}
		}
	})
	regFixed("P23", "regress", "plain cases", func(c *C) {
		// formatting a float of unknown precision from two goroutines
		f, err := ju.ParseString(`{"a":1.5,"b":[2.25]}`)
		if err != nil {
			c.Failf("%v", err)
		}
		fl := ju.JSONObject(&ju.JSONFloat{})
		c.Case(true, "concurrent String of a JSONFloat")
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = fl.String()
				_ = f.String()
			}()
		}
		wg.Wait()
		// scalars into targets that hold an aliased object
		c.Case(true, "scalars into JSON typed targets")
		t := struct {
			B *ju.JSONBool
			S *ju.JSONString
			I *ju.JSONInt
			F *ju.JSONFloat
		}{ju.JSONTrue, ju.NewString("old"), ju.NewInt(5), ju.NewFloat64(5)}
		o := t
		mustParse(c, `{"b":false,"s":"new","i":6,"f":1.5}`).Unmarshal(&t)
		checkConsts(c)
		if o.S.Value() != "old" || o.I.Value() != 5 || o.F.Value() != 5 || t.S.Value() != "new" || t.I.Value() != 6 || t.F.Value() != 1.5 || t.B.Value() {
			c.Failf("unmarshalling scalars into JSON typed targets gives %v %v, old objects %v %v %v", t, t.S, o.S, o.I, o.F)
		}
		mustParse(c, `{"b":"no","s":7,"i":1}`).Unmarshal(&t)
		mustParse(c, `{"b":"yes"}`).Unmarshal(&t)
		checkConsts(c)
	})
}

// concTarget is a value of many kinds of fields.
func (c *C) concTarget() cTarget {
	f, b := c.genFloat(), c.flip("flag")
	x := cTarget{A: int(c.genInt()), S: c.genStr(), Flag: &b, Name: []string{c.genStr(), "x"}, M: map[string]string{c.genKey(): c.genStr(), "z": "1"}, T: tristate.True}
	if c.flip("f") {
		x.F = &f
	}
	x.D = dictOfV(c.genDict(2, 3))
	x.L = ju.NewArray(build(c.smallV(2)), ju.NewInt(1))
	x.Obj = build(c.smallV(2))
	x.Str, x.Int, x.Bool = ju.NewString(c.genStr()), ju.NewInt(3), ju.NewBool(b)
	x.MO = map[string]ju.JSONObject{"p": build(c.smallV(1)), "q": x.Obj}
	x.Sub = &cSub{A: 1, Text: c.genStr(), Sub: &cSub{A: 2}, X: x.Obj}
	x.Subs = []cSub{{A: 3}, {Text: "t", X: x.D}}
	if c.flip("ns") {
		ns, _, _ := c.genGraph(false)
		x.Kids, x.Left = ns, ns[0]
	}
	return x
}
