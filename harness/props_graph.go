package main

// P18: values with shared and cyclic pointers.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	ju "yunion.io/x/jsonutils"
)

type GBase struct {
	Boss *gNode
}

type gSub struct {
	P *gNode
	N int
}

type gOther struct {
	Name string
	Back *gNode
	Sib  *gOther
	Zed  *gNode `json:"a_zed"`
}

type gNodePtr *gNode

type gNode struct {
	Id          int
	Next, Right *gNode
	Left        gNodePtr // the same nodes through another pointer type
	Kids        []*gNode
	M           map[string]*gNode
	Sub         gSub
	GBase
	Other *gOther
	Tail  *gNode `json:"Zz"`
	Grid  [][]*gNode
	MM    map[string][]*gNode
	PL    *[]*gNode
	PM    *map[string]*gNode
	Subs  []gSub
	Duos  map[string]gDuo `json:"b_duos"`
	NumP  *int
	TextP *string `json:"c_text"`
	Nums  []*int
}

// gDuo is a map item by value: what its fields refer to comes before and
// behind it in the text.
type gDuo struct {
	Z *gNode `json:"z"`
	A *gNode `json:"a"`
	N int
}

type gNamed struct {
	name string
	n    *gNode
}

// gParts lists the nodes that the structs held by value refer to.
func gParts(n *gNode) (out []gNamed) {
	add := func(k string, p *gNode) {
		if p != nil {
			out = append(out, gNamed{k, p})
		}
	}
	for i := range n.Subs {
		add(fmt.Sprint("subs", i), n.Subs[i].P)
	}
	var ks []string
	for k := range n.Duos {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(fmt.Sprintf("duos[%q].z", k), n.Duos[k].Z)
		add(fmt.Sprintf("duos[%q].a", k), n.Duos[k].A)
	}
	return
}

// scalars shows the scalars behind pointers.
func (n *gNode) scalars() (s string) {
	if n.NumP != nil {
		s = fmt.Sprintf("num=%d ", *n.NumP)
	}
	if n.TextP != nil {
		s += fmt.Sprintf("text=%q ", *n.TextP)
	}
	for _, p := range n.Nums {
		if p == nil {
			s += "nil,"
		} else {
			s += fmt.Sprintf("%d,", *p)
		}
	}
	return
}

// pl and pm are the elements behind the pointers to containers.
func (n *gNode) pl() []*gNode {
	if n.PL == nil {
		return nil
	}
	return *n.PL
}

func (n *gNode) pm() map[string]*gNode {
	if n.PM == nil {
		return nil
	}
	return *n.PM
}

// edges lists the outgoing node edges of n by name: pointers and setters.
func gEdges(n *gNode) []string {
	return []string{"next", "left", "right", "sub", "boss", "Zz"}
}

func gEdge(n *gNode, e string) **gNode {
	switch e {
	case "next":
		return &n.Next
	case "left":
		return (**gNode)(&n.Left)
	case "right":
		return &n.Right
	case "sub":
		return &n.Sub.P
	case "boss":
		return &n.Boss
	}
	return &n.Tail
}

// gWalk makes a random walk along the edges; the keys that lead to its end.
func (c *C) gWalk(n *gNode, max int) (keys []string, end *gNode) {
	for i := c.intn(0, max, "steps"); i > 0 && n != nil; i-- {
		var opts []string
		for _, e := range gEdges(n) {
			if *gEdge(n, e) != nil {
				opts = append(opts, e)
			}
		}
		if len(opts) == 0 {
			break
		}
		e := opts[c.uni(len(opts), "step")]
		n = *gEdge(n, e)
		keys = append(keys, e)
		if e == "sub" {
			keys = append(keys, "p")
		}
	}
	return keys, n
}

// gTree is the size of the document: every path that does not repeat a node of
// the path.
func gTree(n *gNode, on map[interface{}]bool, budget *int, cyclic *bool) {
	if n == nil || *budget < 0 {
		return
	}
	*budget--
	if on[n] {
		*cyclic = true
		return
	}
	on[n] = true
	for _, e := range gEdges(n) {
		gTree(*gEdge(n, e), on, budget, cyclic)
	}
	for _, k := range n.Kids {
		gTree(k, on, budget, cyclic)
	}
	for _, k := range n.M {
		gTree(k, on, budget, cyclic)
	}
	for _, r := range n.Grid {
		for _, k := range r {
			gTree(k, on, budget, cyclic)
		}
	}
	for _, r := range n.MM {
		for _, k := range r {
			gTree(k, on, budget, cyclic)
		}
	}
	for _, k := range n.pl() {
		gTree(k, on, budget, cyclic)
	}
	for _, k := range n.pm() {
		gTree(k, on, budget, cyclic)
	}
	for _, k := range gParts(n) {
		gTree(k.n, on, budget, cyclic)
	}
	var oth []*gOther
	for o := n.Other; o != nil; o = o.Sib {
		*budget--
		if on[o] {
			*cyclic = true
			break
		}
		on[o] = true
		oth = append(oth, o)
		gTree(o.Back, on, budget, cyclic)
		gTree(o.Zed, on, budget, cyclic)
	}
	for _, o := range oth {
		delete(on, o)
	}
	delete(on, n)
}

func gShow(ns []*gNode, os []*gOther) string {
	ni := map[*gNode]int{}
	for i, n := range ns {
		ni[n] = i
	}
	oi := map[*gOther]int{}
	for i, o := range os {
		oi[o] = i
	}
	var sb strings.Builder
	for i, n := range ns {
		fmt.Fprintf(&sb, "n%d{id:%d", i, n.Id)
		for _, e := range gEdges(n) {
			if p := *gEdge(n, e); p != nil {
				fmt.Fprintf(&sb, " %s:n%d", e, ni[p])
			}
		}
		if s := n.scalars(); s != "" {
			fmt.Fprintf(&sb, " scalars:%s", s)
		}
		for j, k := range n.Kids {
			fmt.Fprintf(&sb, " kids%d:n%d", j, ni[k])
		}
		var ks []string
		for k := range n.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, " m[%q]:n%d", k, ni[n.M[k]])
		}
		for j, r := range n.Grid {
			for _, k := range r {
				fmt.Fprintf(&sb, " grid%d:n%d", j, ni[k])
			}
		}
		for k, r := range n.MM {
			for _, x := range r {
				fmt.Fprintf(&sb, " mm[%q]:n%d", k, ni[x])
			}
		}
		for j, k := range n.pl() {
			fmt.Fprintf(&sb, " pl%d:n%d", j, ni[k])
		}
		for k, x := range n.pm() {
			fmt.Fprintf(&sb, " pm[%q]:n%d", k, ni[x])
		}
		for _, k := range gParts(n) {
			fmt.Fprintf(&sb, " %s:n%d", k.name, ni[k.n])
		}
		if n.Other != nil {
			fmt.Fprintf(&sb, " other:o%d", oi[n.Other])
		}
		sb.WriteString("} ")
	}
	for i, o := range os {
		fmt.Fprintf(&sb, "o%d{%q", i, o.Name)
		if o.Back != nil {
			fmt.Fprintf(&sb, " back:n%d", ni[o.Back])
		}
		if o.Zed != nil {
			fmt.Fprintf(&sb, " zed:n%d", ni[o.Zed])
		}
		if o.Sib != nil {
			fmt.Fprintf(&sb, " sib:o%d", oi[o.Sib])
		}
		sb.WriteString("} ")
	}
	return sb.String()
}

// genGraph makes a graph; root is ns[0].
func (c *C) genGraph(acyclic bool) (ns []*gNode, os []*gOther, cyclic bool) {
	n := 1 + c.uni(5, "gn")
	for i := 0; i < n; i++ {
		ns = append(ns, &gNode{Id: c.intn(0, 5, "gid")})
	}
	for i := c.uni(3, "gon"); i > 0; i-- {
		os = append(os, &gOther{Name: "o" + c.genKey()})
	}
	// scalars that several objects point to
	nums, text := []*int{new(int), new(int)}, "shared"
	*nums[0], *nums[1] = 1+n, -n
	if c.flip("scalars") {
		for _, x := range ns {
			if c.flip("nump") {
				x.NumP = nums[c.uni(2, "numpi")]
			}
			if c.flip("textp") {
				x.TextP = &text
			}
			for i := c.uni(4, "numsn") - 1; i > 0; i-- {
				x.Nums = append(x.Nums, nums[c.uni(2, "numi")])
			}
		}
	}
	fits := func() bool {
		cyclic = false
		budget := 400
		gTree(ns[0], map[interface{}]bool{}, &budget, &cyclic)
		return budget >= 0 && !(acyclic && cyclic)
	}
	try := func(set, clr func()) {
		set()
		if !fits() {
			clr()
		}
	}
	target := func() *gNode { return ns[c.uni(n, "gt")] }
	for m := 1 + c.intn(0, 12, "ge"); m > 0; m-- {
		from, to := ns[c.uni(n, "gf")], target()
		switch k := c.uni(17, "gk"); {
		case k == 14:
			old := from.Subs
			try(func() { from.Subs = append(append([]gSub{}, old...), gSub{to, from.Id}) }, func() { from.Subs = old })
		case k > 14:
			old := from.Duos
			key, d := c.genKey(), gDuo{Z: to, A: target(), N: from.Id}
			if k == 15 && len(ns) > 1 {
				d.A = nil
			}
			try(func() {
				from.Duos = map[string]gDuo{key: d}
				for k, v := range old {
					from.Duos[k] = v
				}
			}, func() { from.Duos = old })
		case k == 12:
			old := from.PL
			try(func() { l := append(append([]*gNode{}, from.pl()...), to); from.PL = &l }, func() { from.PL = old })
		case k == 13:
			old := from.PM
			try(func() { from.PM = &map[string]*gNode{c.genKey(): to} }, func() { from.PM = old })
		case k < 6:
			p := gEdge(from, gEdges(from)[k])
			old := *p
			try(func() { *p = to }, func() { *p = old })
		case k == 6 || k == 7:
			old := from.Kids
			try(func() { from.Kids = append(append([]*gNode{}, old...), to) }, func() { from.Kids = old })
		case k == 8:
			if from.M == nil {
				from.M = map[string]*gNode{}
			}
			key := c.genKey()
			old, had := from.M[key]
			try(func() { from.M[key] = to }, func() {
				delete(from.M, key)
				if had {
					from.M[key] = old
				}
			})
		case k == 9:
			old := from.Grid
			try(func() {
				if len(old) > 0 && to.Id%2 == 0 {
					g := append([][]*gNode{}, old...)
					g[len(g)-1] = append(append([]*gNode{}, g[len(g)-1]...), to)
					from.Grid = g
				} else {
					from.Grid = append(append([][]*gNode{}, old...), []*gNode{to})
				}
			}, func() { from.Grid = old })
		case k == 10:
			old := from.MM
			try(func() { from.MM = map[string][]*gNode{c.genKey(): {to, target()}} }, func() { from.MM = old })
		default:
			if len(os) == 0 {
				continue
			}
			o := os[c.uni(len(os), "go")]
			switch c.uni(4, "gok") {
			case 0, 1:
				old := from.Other
				try(func() { from.Other = o }, func() { from.Other = old })
				if o.Back == nil {
					try(func() { o.Back = to }, func() { o.Back = nil })
				}
			case 2:
				old := o.Zed
				try(func() { o.Zed = to }, func() { o.Zed = old })
			case 3:
				old, p := o.Sib, os[c.uni(len(os), "gs")]
				try(func() { o.Sib = p }, func() { o.Sib = old })
			}
		}
	}
	fits()
	return
}

type gPair struct{ a, b interface{} }

// gSucc lists the objects n points to.
func gSucc(x interface{}) (out []interface{}) {
	add := func(ps ...*gNode) {
		for _, p := range ps {
			if p != nil {
				out = append(out, p)
			}
		}
	}
	switch n := x.(type) {
	case *gNode:
		for _, e := range gEdges(n) {
			add(*gEdge(n, e))
		}
		add(n.Kids...)
		for _, k := range n.M {
			add(k)
		}
		for _, r := range n.Grid {
			add(r...)
		}
		for _, r := range n.MM {
			add(r...)
		}
		add(n.pl()...)
		for _, k := range n.pm() {
			add(k)
		}
		for _, k := range gParts(n) {
			add(k.n)
		}
		if n.Other != nil {
			out = append(out, n.Other)
		}
	case *gOther:
		add(n.Back, n.Zed)
		if n.Sib != nil {
			out = append(out, n.Sib)
		}
	}
	return
}

// onCycle tells whether a path leads from x back to x.
func onCycle(x interface{}) bool {
	seen := map[interface{}]bool{}
	todo := gSucc(x)
	for len(todo) > 0 {
		y := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if y == x {
			return true
		}
		if !seen[y] {
			seen[y] = true
			todo = append(todo, gSucc(y)...)
		}
	}
	return false
}

// oneEach tells whether every object on a cycle was rebuilt as one object: the
// pairs are those bisim visited; the object skip (a root marshalled by value,
// which no pointer reaches) does not count.
func oneEach(pairs map[gPair]bool, skip interface{}) error {
	img := map[interface{}]interface{}{}
	for p := range pairs {
		if p.b == skip || !onCycle(p.a) {
			continue
		}
		if old, ok := img[p.a]; ok && old != p.b {
			return fmt.Errorf("an object on a cycle was rebuilt as two: %s", func() string {
				if n, ok := p.a.(*gNode); ok {
					return fmt.Sprint("id ", n.Id)
				}
				return "other"
			}())
		}
		img[p.a] = p.b
	}
	return nil
}

// bisim tells whether two graphs cannot be told apart by following pointers.
func bisim(a, b *gNode, seen map[gPair]bool, where string) error {
	if a == nil || b == nil {
		if (a == nil) != (b == nil) {
			return fmt.Errorf("%s: %v, want %v", where, b != nil, a != nil)
		}
		return nil
	}
	p := gPair{a, b}
	if seen[p] {
		return nil
	}
	seen[p] = true
	if a.Id != b.Id {
		return fmt.Errorf("%s.id: %d, want %d", where, b.Id, a.Id)
	}
	if x, y := a.scalars(), b.scalars(); x != y {
		return fmt.Errorf("%s: scalars %s, want %s", where, y, x)
	}
	if a.Sub.N != b.Sub.N {
		return fmt.Errorf("%s.sub.n: %d, want %d", where, b.Sub.N, a.Sub.N)
	}
	for _, e := range gEdges(a) {
		if err := bisim(*gEdge(a, e), *gEdge(b, e), seen, where+"."+e); err != nil {
			return err
		}
	}
	list := func(x, y []*gNode, w string) error {
		if len(x) != len(y) {
			return fmt.Errorf("%s: %d elements, want %d", w, len(y), len(x))
		}
		for i := range x {
			if err := bisim(x[i], y[i], seen, fmt.Sprintf("%s[%d]", w, i)); err != nil {
				return err
			}
		}
		return nil
	}
	if err := list(a.Kids, b.Kids, where+".kids"); err != nil {
		return err
	}
	if len(a.Grid) != len(b.Grid) {
		return fmt.Errorf("%s.grid: %d rows, want %d", where, len(b.Grid), len(a.Grid))
	}
	for i := range a.Grid {
		if err := list(a.Grid[i], b.Grid[i], fmt.Sprintf("%s.grid[%d]", where, i)); err != nil {
			return err
		}
	}
	if err := list(a.pl(), b.pl(), where+".pl"); err != nil {
		return err
	}
	if len(a.Subs) != len(b.Subs) || len(a.Duos) != len(b.Duos) {
		return fmt.Errorf("%s: %d subs and %d duos, want %d and %d", where, len(b.Subs), len(b.Duos), len(a.Subs), len(a.Duos))
	}
	for i, s := range a.Subs {
		if s.N != b.Subs[i].N {
			return fmt.Errorf("%s.subs[%d].n: %d, want %d", where, i, b.Subs[i].N, s.N)
		}
		if err := bisim(s.P, b.Subs[i].P, seen, fmt.Sprintf("%s.subs[%d]", where, i)); err != nil {
			return err
		}
	}
	for k, x := range a.Duos {
		y := b.Duos[k]
		if x.N != y.N {
			return fmt.Errorf("%s.duos[%q].n: %d, want %d", where, k, y.N, x.N)
		}
		if err := bisim(x.Z, y.Z, seen, fmt.Sprintf("%s.duos[%q].z", where, k)); err != nil {
			return err
		}
		if err := bisim(x.A, y.A, seen, fmt.Sprintf("%s.duos[%q].a", where, k)); err != nil {
			return err
		}
	}
	if len(a.M) != len(b.M) || len(a.MM) != len(b.MM) || len(a.pm()) != len(b.pm()) {
		return fmt.Errorf("%s: %d, %d and %d map entries, want %d, %d and %d", where, len(b.M), len(b.MM), len(b.pm()), len(a.M), len(a.MM), len(a.pm()))
	}
	for k := range a.pm() {
		if err := bisim(a.pm()[k], b.pm()[k], seen, fmt.Sprintf("%s.pm[%q]", where, k)); err != nil {
			return err
		}
	}
	for k := range a.M {
		if err := bisim(a.M[k], b.M[k], seen, fmt.Sprintf("%s.m[%q]", where, k)); err != nil {
			return err
		}
	}
	for k := range a.MM {
		if err := list(a.MM[k], b.MM[k], fmt.Sprintf("%s.mm[%q]", where, k)); err != nil {
			return err
		}
	}
	return bisimO(a.Other, b.Other, seen, where+".other")
}

func bisimO(a, b *gOther, seen map[gPair]bool, where string) error {
	if a == nil || b == nil {
		if (a == nil) != (b == nil) {
			return fmt.Errorf("%s: %v, want %v", where, b != nil, a != nil)
		}
		return nil
	}
	p := gPair{a, b}
	if seen[p] {
		return nil
	}
	seen[p] = true
	if a.Name != b.Name {
		return fmt.Errorf("%s.name: %q, want %q", where, b.Name, a.Name)
	}
	if err := bisim(a.Back, b.Back, seen, where+".back"); err != nil {
		return err
	}
	if err := bisim(a.Zed, b.Zed, seen, where+".zed"); err != nil {
		return err
	}
	return bisimO(a.Sib, b.Sib, seen, where+".sib")
}

// gRef is the plain document of an acyclic graph.
func gRef(n *gNode) *V {
	d := vDict()
	d.set("id", vInt(int64(n.Id)))
	put := func(d *V, k string, p *gNode) {
		if p != nil {
			d.set(k, gRef(p))
		}
	}
	for _, e := range gEdges(n) {
		if e != "sub" {
			put(d, e, *gEdge(n, e))
		}
	}
	sub := vDict()
	sub.set("n", vInt(int64(n.Sub.N)))
	put(sub, "p", n.Sub.P)
	d.set("sub", sub)
	list := func(x []*gNode) *V {
		a := vArr()
		for _, k := range x {
			a.A = append(a.A, gRef(k))
		}
		return a
	}
	if n.NumP != nil {
		d.set("num_p", vInt(int64(*n.NumP)))
	}
	if n.TextP != nil {
		d.set("c_text", vStr(*n.TextP))
	}
	if len(n.Nums) > 0 {
		a := vArr()
		for _, p := range n.Nums {
			a.A = append(a.A, vInt(int64(*p)))
		}
		d.set("nums", a)
	}
	if len(n.Kids) > 0 {
		d.set("kids", list(n.Kids))
	}
	if len(n.Grid) > 0 {
		g := vArr()
		for _, r := range n.Grid {
			g.A = append(g.A, list(r))
		}
		d.set("grid", g)
	}
	if len(n.M) > 0 {
		m := vDict()
		for k, p := range n.M {
			m.set(k, gRef(p))
		}
		d.set("m", m)
	}
	if len(n.MM) > 0 {
		m := vDict()
		for k, p := range n.MM {
			m.set(k, list(p))
		}
		d.set("mm", m)
	}
	if len(n.pl()) > 0 {
		d.set("pl", list(n.pl()))
	}
	if len(n.pm()) > 0 {
		m := vDict()
		for k, p := range n.pm() {
			m.set(k, gRef(p))
		}
		d.set("pm", m)
	}
	if len(n.Subs) > 0 {
		l := vArr()
		for _, s := range n.Subs {
			v := vDict()
			v.set("n", vInt(int64(s.N)))
			put(v, "p", s.P)
			l.A = append(l.A, v)
		}
		d.set("subs", l)
	}
	if len(n.Duos) > 0 {
		m := vDict()
		for k, x := range n.Duos {
			v := vDict()
			v.set("n", vInt(int64(x.N)))
			put(v, "z", x.Z)
			put(v, "a", x.A)
			m.set(k, v)
		}
		d.set("b_duos", m)
	}
	if n.Other != nil {
		d.set("other", gRefO(n.Other))
	}
	return d
}

func gRefO(o *gOther) *V {
	d := vDict()
	if o.Name != "" {
		d.set("name", vStr(o.Name))
	}
	if o.Back != nil {
		d.set("back", gRef(o.Back))
	}
	if o.Zed != nil {
		d.set("a_zed", gRef(o.Zed))
	}
	if o.Sib != nil {
		d.set("sib", gRefO(o.Sib))
	}
	return d
}

func init() {
	reg("P18", "roundtrip", 12000, "a graph of up to 5 nodes and 3 other objects with pointers in fields, slices, maps, embedded and nested structs, marshalled (by pointer or by value), printed, parsed and unmarshalled: the result must be bisimilar; non-trivial: the graph has a cycle reachable from the root", func(c *C) {
		ns, os, cyclic := c.genGraph(false)
		byValue := c.oneIn(4, "byvalue")
		c.Case(cyclic, fmt.Sprintf("%v %s", byValue, gShow(ns, os)))
		c.LabelIf(byValue, "root by value")
		root := ns[0]
		var src interface{} = root
		if byValue {
			// the copy has pointers to containers of its own: only structs are
			// written once
			cp := *root
			if cp.PL != nil {
				l := *cp.PL
				cp.PL = &l
			}
			if cp.PM != nil {
				m := *cp.PM
				cp.PM = &m
			}
			src = cp
		}
		var m ju.JSONObject
		c.Guard("Marshal", func() { m = ju.Marshal(src) })
		text := m.String()
		again := ju.Marshal(src)
		if t := again.String(); t != text {
			c.Failf("Marshal of %s differs between calls:\n %s\n %s", gShow(ns, os), text, t)
		}
		if !m.Equals(again) {
			c.Failf("two documents of %s are not equal: %s", gShow(ns, os), text)
		}
		if cyclic != strings.Contains(text, "\"___jnid_\":") && !byValue {
			c.Failf("cyclic=%v, but the document is %s", cyclic, text)
		}
		c.LabelIf(strings.Count(text, "\"___jnid_\":") > 1, "several referenced nodes")
		back, err := ju.ParseString(text)
		if err != nil {
			c.Failf("document of %s is not parsed: %v\n %s", gShow(ns, os), err, text)
		}
		if t := back.String(); t != text {
			c.Failf("document changes through Parse and String:\n %s\n %s", text, t)
		}
		pretty, err := ju.ParseString(m.PrettyString())
		if err != nil {
			c.Failf("PrettyString of %s is not parsed: %v", text, err)
		}
		docs := []ju.JSONObject{m, back, pretty, ju.DeepCopy(m), ju.DeepCopy(back)}
		for i, d := range docs {
			how := []string{"the document itself", "Parse(String)", "Parse(PrettyString)", "a deep copy", "a deep copy of Parse(String)"}[i]
			got := &gNode{}
			if !byValue && c.oneIn(3, "used") {
				// into a variable that has objects in some places where the graph has
				how += " into a used variable"
				c.gSkeleton(reflect.ValueOf(root), reflect.ValueOf(got), 3)
			}
			c.Guard("Unmarshal of "+how, func() { err = d.Unmarshal(got) })
			if err != nil {
				c.Failf("Unmarshal from %s: %v\n graph %s\n document %s", how, err, gShow(ns, os), text)
			}
			pairs := map[gPair]bool{}
			if err := bisim(root, got, pairs, "root"); err != nil {
				c.Failf("the graph read back from %s differs: %v\n graph %s\n document %s", how, err, gShow(ns, os), text)
			}
			var skip interface{}
			if byValue {
				skip = got
			}
			if err := oneEach(pairs, skip); err != nil {
				c.Failf("the graph read back from %s: %v\n graph %s\n document %s", how, err, gShow(ns, os), text)
			}
			if !byValue {
				if t := ju.Marshal(got).String(); t != text {
					c.Failf("the graph read back from %s marshals as\n %s, want\n %s", how, t, text)
				}
			}
		}
		// following references in the document that Marshal returned
		keys, n := c.gWalk(root, 10)
		cur := m
		for i, k := range keys {
			if cur, err = cur.Get(k); err != nil {
				c.Failf("step %d of %q: %v\n graph %s\n document %s", i, keys, err, gShow(ns, os), text)
			}
		}
		if z, ok := cur.(interface{ IsZero() bool }); ok && z.IsZero() {
			c.Failf("following %q leads to an IsZero object\n graph %s\n document %s", keys, gShow(ns, os), text)
		}
		id, err := cur.Int("id")
		if err != nil || id != int64(n.Id) {
			c.Failf("following %q, \"id\" in the document gives %d, %v; want %d\n graph %s\n document %s", keys, id, err, n.Id, gShow(ns, os), text)
		}
	})
	reg("P18", "rootkinds", 4000, "a slice or a map of graph roots as the value; non-trivial: at least one root with a cycle", func(c *C) {
		ns, os, cyclic := c.genGraph(false)
		k := 1 + c.uni(3, "roots")
		var list []*gNode
		dict := map[string]*gNode{}
		budget, any := 1500, false
		for i := 0; i < k; i++ {
			r := ns[c.uni(len(ns), "root")]
			cy := false
			b := 500
			gTree(r, map[interface{}]bool{}, &b, &cy)
			if b < 0 {
				c.Case(false, "too big")
				return
			}
			budget -= 500 - b
			any = any || cy
			list = append(list, r)
			dict[c.genKey()] = r
		}
		_ = cyclic
		c.Case(any, gShow(ns, os)+fmt.Sprint(len(list), len(dict)))
		// a map with integer keys is written like one with their texts
		im := map[int]*gNode{}
		sm := map[string]*gNode{}
		for i, r := range list {
			for _, j := range []int{7 - 4*i, 9 + i} {
				im[j], sm[fmt.Sprint(j)] = r, r
			}
		}
		imt := ju.Marshal(sm).String()
		for i := 0; i < 4; i++ {
			if t := ju.Marshal(im).String(); t != imt {
				c.Failf("a map with integer keys is written as\n %s\nwith string keys as\n %s\n graph %s", t, imt, gShow(ns, os))
			}
		}
		var gl []*gNode
		gm := map[string]*gNode{}
		var err1, err2 error
		var t1, t2 string
		c.Guard("Marshal and Unmarshal", func() {
			t1, t2 = ju.Marshal(list).String(), ju.Marshal(dict).String()
			var d1, d2 ju.JSONObject
			if d1, err1 = ju.ParseString(t1); err1 == nil {
				err1 = d1.Unmarshal(&gl)
			}
			if d2, err2 = ju.ParseString(t2); err2 == nil {
				err2 = d2.Unmarshal(&gm)
			}
		})
		if err1 != nil || err2 != nil {
			c.Failf("reading back: %v, %v\n %s\n %s", err1, err2, t1, t2)
		}
		for i, p := range []gPair{{&gNode{Kids: list}, &gNode{Kids: gl}}, {&gNode{M: dict}, &gNode{M: gm}}} {
			pairs := map[gPair]bool{}
			err := bisim(p.a.(*gNode), p.b.(*gNode), pairs, "root")
			if err == nil {
				err = oneEach(pairs, nil)
			}
			if err != nil {
				c.Failf("the %s differs: %v\n graph %s\n %s\n %s", []string{"slice", "map"}[i], err, gShow(ns, os), t1, t2)
			}
		}
	})
	reg("P18", "acyclic", 6000, "a graph without cycles, with shared nodes: the document is the plain expanded tree; non-trivial: at least two objects", func(c *C) {
		ns, os, _ := c.genGraph(true)
		c.Case(len(ns)+len(os) > 1, gShow(ns, os))
		want := gRef(ns[0])
		var m ju.JSONObject
		c.Guard("Marshal", func() { m = ju.Marshal(ns[0]) })
		c.sameDoc("Marshal of "+gShow(ns, os), want, m, false)
		if t := m.String(); strings.Contains(t, "\"___jnid_\":") {
			c.Failf("node id in the document of an acyclic graph: %s", t)
		}
	})
	regFixed("P18", "regressions", "plain cases of repaired defects: a reference that precedes its node, in structs and in maps; reference equality", func(c *C) {
		c.Case(true, "reference before node, struct")
		type pair struct{ A, B *gNode }
		var p pair
		d, err := ju.ParseString(`{"a":<1>,"b":{"___jnid_":1,"id":7}}`)
		if err != nil {
			c.Failf("parse: %v", err)
		}
		if err := d.Unmarshal(&p); err != nil || p.A == nil || p.A != p.B || p.A.Id != 7 {
			c.Failf("reference before its node: %v %+v", err, p)
		}
		c.Case(true, "reference before node, map")
		var m map[string]*gNode
		if err := d.Unmarshal(&m); err != nil || m["a"] == nil || m["a"] != m["b"] || m["a"].Id != 7 {
			c.Failf("reference before its node in a map: %v %+v", err, m)
		}
		c.Case(true, "reference equality")
		x, _ := ju.ParseString(`{"a":{"___jnid_":1,"b":<1>}}`)
		y, _ := ju.ParseString(`{"a":{"___jnid_":1,"b":<1>}}`)
		if !x.Equals(y) {
			c.Failf("equal documents with references are not Equal: %s", x)
		}
	})
}

// gSkeleton puts new objects into some of the pointers of a node where another
// node has pointers too.
func (c *C) gSkeleton(src, dst reflect.Value, depth int) {
	src, dst = src.Elem(), dst.Elem()
	for i := 0; i < src.NumField(); i++ {
		f, g := src.Field(i), dst.Field(i)
		if f.Kind() != reflect.Ptr || f.Type().Elem().Kind() != reflect.Struct || f.IsNil() || !g.CanSet() || !c.flip("usedp") {
			continue
		}
		g.Set(reflect.New(f.Type().Elem()))
		if depth > 0 {
			c.gSkeleton(f, g, depth-1)
		}
	}
}
