package main

// P16..P18: Marshal and the way back.

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
)

func init() {
	reg("P16", "roundtrip", 6000, "a value of a generated Go type (nested structs with tags, embedded structs, slices, arrays, maps, pointers, times, tristates, JSON typed parts) marshalled, printed, parsed and unmarshalled into a new value; non-trivial: its document is a non-empty container", func(c *C) {
		o := &typeOpt{json: true, iface: true, ptrPtr: false, ignored: true, embedPtr: true, embedding: true}
		t := c.genT(3, o)
		v := reflect.New(t.RT)
		c.fill(v.Elem(), t, true, &valOpt{noNull: true})
		checkGoRoundTrip(c, t, v)
	})
	reg("P16", "struct", 6000, "as roundtrip, the value is a struct; non-trivial: its document has a key", func(c *C) {
		o := &typeOpt{json: true, iface: true, ignored: true, embedPtr: true, embedding: true}
		t := c.genStructT(3, o, map[string]bool{}, 0)
		v := reflect.New(t.RT)
		c.fill(v.Elem(), t, true, &valOpt{noNull: true})
		checkGoRoundTrip(c, t, v)
	})

	reg("P17", "names", 8000, "a value of a generated Go type with any tags and nil parts anywhere, marshalled by Marshal and MarshalAll, compared with a reference; non-trivial: its full document is a non-empty container", func(c *C) {
		o := &typeOpt{json: true, iface: true, intKeys: true, ptrPtr: true, strConts: true, ignored: true, embedPtr: true, embedding: true}
		var t *T
		if c.flip("struct") {
			t = c.genStructT(3, o, map[string]bool{}, 0)
		} else {
			t = c.genT(3, o)
		}
		c.checkNames(t)
	})
	reg("P16", "recursive", 1000, "as roundtrip, the type is a struct that contains itself through slices, maps and pointers; non-trivial: its document has a key", func(c *C) {
		t := treeT(1 + c.uni(2, "levels"))
		v := reflect.New(t.RT)
		c.fill(v.Elem(), t, true, &valOpt{noNull: true})
		checkGoRoundTrip(c, t, v)
	})
	longT := func(c *C, o *typeOpt) *T {
		e := c.genT(pick(c, "elemdepth", 0, 1, 1), o)
		if c.oneIn(3, "ptr") && e.K < TPtr {
			e = tPtrOf(e)
		}
		t := tSliceOf(e)
		switch c.uni(4, "where") {
		case 0:
			return tSliceOf(t)
		case 1:
			return tPtrOf(t)
		}
		return t
	}
	longs := []int{64, 65, 99, 100, 101, 102, 127, 128, 129, 130, 200, 255, 256, 257, 300}
	reg("P16", "longslice", 250, "as roundtrip, the value holds a slice of 64 to 300 items; non-trivial: its document is a non-empty container", func(c *C) {
		t := longT(c, &typeOpt{json: true})
		v := reflect.New(t.RT)
		c.fill(v.Elem(), t, true, &valOpt{noNull: true, long: longs[c.uni(len(longs), "n")]})
		checkGoRoundTrip(c, t, v)
	})
	reg("P17", "longslice", 250, "as names, the value holds a slice of 64 to 300 items, some of them nil; non-trivial: its full document is a non-empty container", func(c *C) {
		c.checkNamesOf(longT(c, &typeOpt{json: true, iface: true, ptrPtr: true}), longs[c.uni(len(longs), "n")])
	})
	reg("P16", "chain", 300, "a list of 1 to 700 nodes that hold each other through pointers, slices, maps or interfaces of a document, marshalled, printed, parsed and unmarshalled; non-trivial: more than 64 nodes", func(c *C) {
		n := pick(c, "n", 1, 5, 60, 64, 99, 100, 120, 130, 200, 255, 300, 500, 600) + c.uni(9, "more")
		by := []func(e *chainNode) chainNode{
			func(e *chainNode) chainNode { return chainNode{Next: e} },
			func(e *chainNode) chainNode { return chainNode{Kids: []chainNode{*e}} },
			func(e *chainNode) chainNode { return chainNode{Ptrs: []*chainNode{e}} },
			func(e *chainNode) chainNode { return chainNode{Map: map[string]chainNode{"k": *e}} },
			func(e *chainNode) chainNode { return chainNode{PMap: map[string]*chainNode{"": e}} },
			func(e *chainNode) chainNode { return chainNode{Deep: [][]*chainNode{{e}}} },
		}
		one := c.uni(len(by)+1, "by")
		last := &chainNode{N: n}
		for i := n - 1; i > 0; i-- {
			how := one
			if one == len(by) {
				how = c.uni(len(by), "how")
			}
			e := by[how](last)
			e.N = i
			last = &e
		}
		c.Case(n > 64, fmt.Sprint(n, " nodes by ", one))
		if one < len(by) {
			c.Label([]string{"pointers", "slices", "slices of pointers", "maps", "maps of pointers", "slices of slices"}[one])
		}
		var back, direct chainNode
		var err, err2, err3 error
		c.Guard("Marshal, Parse and Unmarshal", func() {
			d := ju.Marshal(last)
			var p ju.JSONObject
			if p, err = ju.ParseString(d.String()); err == nil {
				err2 = p.Unmarshal(&back)
			}
			err3 = d.Unmarshal(&direct)
		})
		if err != nil || err2 != nil || err3 != nil {
			c.Failf("chain of %d nodes: %v, %v, %v", n, err, err2, err3)
		}
		for k, g := range []*chainNode{&back, &direct} {
			if m := g.length(); m != n || !reflect.DeepEqual(g, last) {
				c.Failf("way %d: a chain of %d nodes came back with %d, equal %v", k, n, m, reflect.DeepEqual(g, last))
			}
		}
	})
	reg("P17", "recursive", 1000, "as names, the type is a struct that contains itself through slices, maps and pointers; non-trivial: its full document is a non-empty container", func(c *C) {
		c.checkNames(treeT(1 + c.uni(2, "levels")))
	})
}

type (
	rKids []rTree
	rTree struct {
		Name  string
		Kids  []rTree
		Named rKids `json:"named,allowempty"`
		Dict  map[string]rTree
		Left  *rTree `json:"left"`
		List  []*rTree
		Deep  map[string][]*rTree `json:",omitempty"`
		Own   struct {
			Up *rTree
			N  int `json:"n,omitzero"`
		}
	}
)

// treeT describes rTree with n levels of itself inside.
func treeT(n int) *T {
	rt := reflect.TypeOf(rTree{})
	t := &T{K: TStruct, RT: rt}
	nilT := &T{K: TPtr, RT: rt}
	add := func(name string, ft *T) {
		sf, _ := rt.FieldByName(name)
		t.Fs = append(t.Fs, &F{Go: sf.Name, Name: strings.ToLower(name), T: ft, Tag: string(sf.Tag), Nil: ft == nilT, AllowEmpty: name == "Named"})
	}
	own := func(up *T) {
		add("Own", &T{K: TStruct, RT: rt.Field(rt.NumField() - 1).Type, Fs: []*F{{Go: "Up", Name: "up", T: up, Nil: up == nilT}, {Go: "N", Name: "n", T: tInt, OmitZero: true}}})
	}
	add("Name", tString)
	if n == 0 {
		for _, name := range []string{"Kids", "Named", "Dict", "Left", "List", "Deep"} {
			add(name, nilT)
		}
		own(nilT)
		return t
	}
	e := treeT(n - 1)
	add("Kids", tSliceOf(e))
	k := tSliceOf(e)
	k.RT = reflect.TypeOf(rKids(nil))
	add("Named", k)
	add("Dict", tMapOf(tString, e))
	add("Left", tPtrOf(e))
	add("List", tSliceOf(tPtrOf(e)))
	add("Deep", tMapOf(tString, tSliceOf(tPtrOf(e))))
	own(tPtrOf(e))
	return t
}

// chainNode holds the next node of a list in one of its fields.
type chainNode struct {
	N    int
	Next *chainNode
	Kids []chainNode
	Ptrs []*chainNode
	Map  map[string]chainNode
	PMap map[string]*chainNode `json:"p_map"`
	Deep [][]*chainNode
}

func (n *chainNode) next() *chainNode {
	switch {
	case n.Next != nil:
		return n.Next
	case len(n.Kids) > 0:
		return &n.Kids[0]
	case len(n.Ptrs) > 0:
		return n.Ptrs[0]
	case len(n.Deep) > 0 && len(n.Deep[0]) > 0:
		return n.Deep[0][0]
	}
	for _, e := range n.Map {
		return &e
	}
	for _, e := range n.PMap {
		return e
	}
	return nil
}

func (n *chainNode) length() int {
	k := 0
	for ; n != nil; n = n.next() {
		k++
	}
	return k
}

// checkNames compares Marshal and MarshalAll of a value of the type with the reference.
func (c *C) checkNames(t *T) { c.checkNamesOf(t, 0) }

func (c *C) checkNamesOf(t *T, long int) {
	v := reflect.New(t.RT)
	c.fill(v.Elem(), t, true, &valOpt{nilElems: true, ifaceConts: true, long: long})
	want, wantAll := refM(v.Elem(), t, nil, false), refM(v.Elem(), t, nil, true)
	c.Case(docNontrivial(wantAll), fmt.Sprintf("%s %s", t, wantAll))
	if want == nil {
		want = vNull()
	}
	c.LabelIf(!eqV(want, wantAll, false), "something left out")
	var m, all, mp ju.JSONObject
	c.Guard("Marshal", func() {
		m, all = ju.Marshal(v.Elem().Interface()), ju.MarshalAll(v.Elem().Interface())
	})
	c.sameDoc("Marshal of "+goShow(v.Elem())+" of type "+t.String(), want, m, false)
	c.sameDoc("MarshalAll of "+goShow(v.Elem())+" of type "+t.String(), wantAll, all, false)
	if t.K != TTime && t.K != TJVal && t.K != TJObj && t.K != TIface {
		c.Guard("Marshal of a pointer", func() { mp = ju.Marshal(v.Interface()) })
		c.sameDoc("Marshal of a pointer to "+goShow(v.Elem()), want, mp, false)
	}
	if again := ju.Marshal(v.Elem().Interface()); again.String() != m.String() {
		c.Failf("Marshal of %s differs: %s, %s", goShow(v.Elem()), m, again)
	}
}

var pkgJSON = reflect.TypeOf(ju.JSONDict{}).PkgPath()

// distinct checks that no two pointers, slices or maps in a value lead to the
// same variable.
func distinct(v reflect.Value, where string, seen map[uintptr]string) error {
	t := v.Type()
	if t.PkgPath() == pkgJSON || t == reflect.TypeOf(time.Time{}) || t.Kind() == reflect.Ptr && t.Elem().PkgPath() == pkgJSON {
		return nil
	}
	note := func(p uintptr) error {
		if w := seen[p]; w != "" {
			return fmt.Errorf("%s and %s", w, where)
		}
		seen[p] = where
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || t.Elem().Size() == 0 {
			return nil
		}
		if err := note(v.Pointer()); err != nil {
			return err
		}
		return distinct(v.Elem(), where+".*", seen)
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return distinct(v.Elem(), where, seen)
	case reflect.Slice:
		if v.Cap() > 0 && t.Elem().Size() > 0 {
			if err := note(v.Pointer()); err != nil {
				return err
			}
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := distinct(v.Index(i), fmt.Sprintf("%s[%d]", where, i), seen); err != nil {
				return err
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		if err := note(v.Pointer()); err != nil {
			return err
		}
		for _, k := range v.MapKeys() {
			if err := distinct(v.MapIndex(k), fmt.Sprintf("%s[%v]", where, k), seen); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if err := distinct(v.Field(i), where+"."+t.Field(i).Name, seen); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkGoRoundTrip(c *C, t *T, v reflect.Value) {
	want := refM(v.Elem(), t, nil, false)
	if want == nil {
		want = vNull()
	}
	c.Case(docNontrivial(want), fmt.Sprintf("%s %s", t, want))
	c.Label("kind " + t.RT.Kind().String())
	c.LabelIf(t.has(TMap), "has map")
	c.LabelIf(t.has(TPtr), "has pointer")
	c.LabelIf(t.has(TTime, TTri), "has time or tristate")
	c.LabelIf(t.has(TJObj, TJDict, TJArr, TJStr, TJVal), "has JSON typed part")
	var m, back ju.JSONObject
	var err error
	c.Guard("Marshal", func() {
		m = ju.Marshal(v.Elem().Interface())
		back, err = ju.ParseString(m.String())
	})
	if err != nil {
		c.Failf("Marshal of %s printed as %s is not parsed: %v", goShow(v.Elem()), m, err)
	}
	seen := map[uintptr]string{}
	var gots []reflect.Value
	defer func() { runtime.KeepAlive(gots) }()
	for i, d := range []ju.JSONObject{back, m} {
		got := reflect.New(t.RT)
		gots = append(gots, got)
		how := []string{"through the text", "directly"}[i]
		c.Guard("Unmarshal", func() { err = d.Unmarshal(got.Interface()) })
		if err != nil {
			c.Failf("Unmarshal %s into %s: %v\n value %s\n document %s", how, t, err, goShow(v.Elem()), m)
		}
		if err := sameRT(v.Elem(), got.Elem(), t, nil, "value"); err != nil {
			c.Failf("%s comes back different %s: %v\n value %s\n got %s\n document %s", t, how, err, goShow(v.Elem()), goShow(got.Elem()), m)
		}
		if err := distinct(got.Elem(), fmt.Sprintf("value %d", i), seen); err != nil {
			c.Failf("%s comes back %s with parts that are one: %v\n value %s\n document %s", t, how, err, goShow(v.Elem()), m)
		}
	}
}
