package main

// P18: pointers into the middle of other variables: to a struct that is the
// first field of another (and has its address), to the items of a slice.

import (
	"fmt"
	"strings"

	ju "yunion.io/x/jsonutils"
)

type iIn struct {
	Name string `json:"name"`
	Next *iIn   `json:"next"`
	Out  *iOut  `json:"out"`
}

type iOut struct {
	In   iIn     `json:"in"`
	P    *iIn    `json:"p"`
	Q    *iOut   `json:"q"`
	A    *iIn    `json:"a"`
	Arr  [2]iIn  `json:"arr,omitempty"`
	L    []*iIn  `json:"l"`
	Subs []iOut  `json:"subs"`
	Tags []*iOut `json:"tags"`
	Name string  `json:"name"`
}

type iGraph struct {
	outs []*iOut
	ins  []*iIn
}

func (c *C) genInterior(acyclic bool) *iGraph {
	g := &iGraph{}
	n := 1 + c.uni(4, "outs")
	for i := 0; i < n; i++ {
		o := &iOut{Name: fmt.Sprintf("o%d", i)}
		o.In.Name = fmt.Sprintf("o%d.in", i)
		o.Arr[0].Name = fmt.Sprintf("o%d.arr0", i)
		if c.oneIn(3, "subs") {
			o.Subs = make([]iOut, 1+c.uni(2, "subn"))
			for j := range o.Subs {
				o.Subs[j].Name = fmt.Sprintf("o%d.subs%d", i, j)
				o.Subs[j].In.Name = fmt.Sprintf("o%d.subs%d.in", i, j)
				o.Subs[j].Arr[0].Name = fmt.Sprintf("o%d.subs%d.arr0", i, j)
			}
		}
		g.outs = append(g.outs, o)
		for j := range o.Subs {
			g.outs = append(g.outs, &o.Subs[j])
		}
	}
	for _, o := range g.outs {
		g.ins = append(g.ins, &o.In, &o.Arr[0])
	}
	for i := 0; i < 2; i++ {
		g.ins = append(g.ins, &iIn{Name: fmt.Sprintf("free%d", i)})
	}
	in := func(l string) *iIn { return g.ins[c.uni(len(g.ins), l)] }
	out := func(l string) *iOut {
		if c.oneIn(3, l+"root") {
			return g.outs[0]
		}
		return g.outs[c.uni(len(g.outs), l)]
	}
	for i := c.intn(1, 12, "edges"); i > 0; i-- {
		var undo func()
		switch c.uni(8, "edge") {
		case 0, 1:
			p := &out("eo").P
			old := *p
			*p, undo = in("et"), func() { *p = old }
		case 2:
			p := &out("eo").Q
			old := *p
			*p, undo = out("et"), func() { *p = old }
		case 3:
			p := &out("eo").A
			old := *p
			*p, undo = in("et"), func() { *p = old }
		case 4:
			o := out("eo")
			old := o.L
			o.L, undo = append(append([]*iIn{}, old...), in("et")), func() { o.L = old }
		case 5:
			o := out("eo")
			old := o.Tags
			o.Tags, undo = append(append([]*iOut{}, old...), out("et")), func() { o.Tags = old }
		case 6:
			p := &in("eo").Next
			old := *p
			*p, undo = in("et"), func() { *p = old }
		default:
			p := &in("eo").Out
			old := *p
			*p, undo = out("et"), func() { *p = old }
		}
		if _, cyclic := g.outs[0].tree(nil); cyclic && acyclic {
			undo()
		}
	}
	return g
}

// tree is the expanded document; cyclic tells that it has no end. A struct met
// by value and a pointer to it are the same variable.
func (o *iOut) tree(on []interface{}) (*V, bool) {
	for _, x := range on {
		if x == interface{}(o) {
			return nil, true
		}
	}
	on = append(on[:len(on):len(on)], o)
	d, cyc := vDict(), false
	put := func(d *V, k string, v *V, c bool) {
		cyc = cyc || c
		if d.K == KArray {
			d.A = append(d.A, v)
		} else if v != nil {
			d.set(k, v)
		}
	}
	inp := func(d *V, k string, p *iIn) {
		if p != nil {
			v, c := p.tree(on)
			put(d, k, v, c)
		}
	}
	inp(d, "in", &o.In)
	inp(d, "p", o.P)
	if o.Q != nil {
		v, c := o.Q.tree(on)
		put(d, "q", v, c)
	}
	inp(d, "a", o.A)
	arr := vArr()
	inp(arr, "", &o.Arr[0])
	inp(arr, "", &o.Arr[1])
	d.set("arr", arr)
	if len(o.L) > 0 {
		l := vArr()
		for _, p := range o.L {
			inp(l, "", p)
		}
		d.set("l", l)
	}
	outs := func(k string, ps []*iOut) {
		if len(ps) == 0 {
			return
		}
		l := vArr()
		for _, p := range ps {
			v, c := p.tree(on)
			put(l, "", v, c)
		}
		d.set(k, l)
	}
	var subs []*iOut
	for i := range o.Subs {
		subs = append(subs, &o.Subs[i])
	}
	outs("subs", subs)
	outs("tags", o.Tags)
	if o.Name != "" {
		d.set("name", vStr(o.Name))
	}
	if cyc {
		return nil, true
	}
	return d, false
}

func (n *iIn) tree(on []interface{}) (*V, bool) {
	for _, x := range on {
		if x == interface{}(n) {
			return nil, true
		}
	}
	on = append(on[:len(on):len(on)], n)
	d, cyc := vDict(), false
	if n.Name != "" {
		d.set("name", vStr(n.Name))
	}
	if n.Next != nil {
		v, c := n.Next.tree(on)
		cyc = cyc || c
		if !c {
			d.set("next", v)
		}
	}
	if n.Out != nil {
		v, c := n.Out.tree(on)
		cyc = cyc || c
		if !c {
			d.set("out", v)
		}
	}
	if cyc {
		return nil, true
	}
	return d, false
}

type iPair struct{ a, b interface{} }

func isoOut(a, b *iOut, seen map[iPair]bool, w string) error {
	if a == nil || b == nil {
		if (a == nil) != (b == nil) {
			return fmt.Errorf("%s is set: %v, want %v", w, b != nil, a != nil)
		}
		return nil
	}
	p := iPair{a, b}
	if seen[p] {
		return nil
	}
	seen[p] = true
	if a.Name != b.Name || len(a.L) != len(b.L) || len(a.Subs) != len(b.Subs) || len(a.Tags) != len(b.Tags) {
		return fmt.Errorf("%s is %q with %d, %d, %d items, want %q with %d, %d, %d", w, b.Name, len(b.L), len(b.Subs), len(b.Tags), a.Name, len(a.L), len(a.Subs), len(a.Tags))
	}
	var err error
	in := func(x, y *iIn, k string) {
		if err == nil {
			err = isoIn(x, y, seen, w+k)
		}
	}
	out := func(x, y *iOut, k string) {
		if err == nil {
			err = isoOut(x, y, seen, w+k)
		}
	}
	in(&a.In, &b.In, ".in")
	in(a.P, b.P, ".p")
	in(a.A, b.A, ".a")
	in(&a.Arr[0], &b.Arr[0], ".arr.0")
	in(&a.Arr[1], &b.Arr[1], ".arr.1")
	out(a.Q, b.Q, ".q")
	for i := range a.L {
		in(a.L[i], b.L[i], fmt.Sprintf(".l.%d", i))
	}
	for i := range a.Subs {
		out(&a.Subs[i], &b.Subs[i], fmt.Sprintf(".subs.%d", i))
	}
	for i := range a.Tags {
		out(a.Tags[i], b.Tags[i], fmt.Sprintf(".tags.%d", i))
	}
	return err
}

func isoIn(a, b *iIn, seen map[iPair]bool, w string) error {
	if a == nil || b == nil {
		if (a == nil) != (b == nil) {
			return fmt.Errorf("%s is set: %v, want %v", w, b != nil, a != nil)
		}
		return nil
	}
	p := iPair{a, b}
	if seen[p] {
		return nil
	}
	seen[p] = true
	if a.Name != b.Name {
		return fmt.Errorf("%s is %q, want %q", w, b.Name, a.Name)
	}
	if err := isoIn(a.Next, b.Next, seen, w+".next"); err != nil {
		return err
	}
	return isoOut(a.Out, b.Out, seen, w+".out")
}

func (g *iGraph) show() string {
	name := map[interface{}]string{}
	for i, o := range g.outs {
		name[o] = fmt.Sprintf("o%d(%s)", i, o.Name)
	}
	for _, n := range g.ins {
		name[n] = n.Name
	}
	var sb strings.Builder
	for i, o := range g.outs {
		fmt.Fprintf(&sb, "o%d(%s):", i, o.Name)
		if o.P != nil {
			sb.WriteString(" p->" + name[o.P])
		}
		if o.A != nil {
			sb.WriteString(" a->" + name[o.A])
		}
		if o.Q != nil {
			sb.WriteString(" q->" + name[o.Q])
		}
		for _, x := range o.L {
			sb.WriteString(" l->" + name[x])
		}
		for _, x := range o.Tags {
			sb.WriteString(" tags->" + name[x])
		}
		sb.WriteString("; ")
	}
	for _, n := range g.ins {
		if n.Next != nil {
			sb.WriteString(n.Name + ": next->" + name[n.Next] + "; ")
		}
		if n.Out != nil {
			sb.WriteString(n.Name + ": out->" + name[n.Out] + "; ")
		}
	}
	return sb.String()
}

func init() {
	reg("P18", "interior", 6000, "a graph in which pointers also lead to structs that are fields or items of others, some at the same address as the struct they are in; without a cycle the document is the plain tree, with one the graph comes back bisimilar; non-trivial: there is a pointer to a field or an item", func(c *C) {
		g := c.genInterior(c.flip("acyclic"))
		want, cyclic := g.outs[0].tree(nil)
		c.Case(strings.Contains(g.show(), ".in") || strings.Contains(g.show(), ".arr") || strings.Contains(g.show(), ".subs"), g.show())
		c.LabelIf(cyclic, "cyclic")
		var m ju.JSONObject
		c.Guard("Marshal", func() { m = ju.Marshal(g.outs[0]) })
		text := m.String()
		if again := ju.Marshal(g.outs[0]).String(); again != text {
			c.Failf("two documents of %s differ:\n %s\n %s", g.show(), text, again)
		}
		if !cyclic {
			c.sameDoc("Marshal of "+g.show(), want, m, false)
			if strings.Contains(text, "\"___jnid_\":") {
				c.Failf("node id in the document of a graph without cycles %s: %s", g.show(), text)
			}
		}
		back, err := ju.ParseString(text)
		if err != nil {
			c.Failf("document of %s is not parsed: %v\n %s", g.show(), err, text)
		}
		for i, d := range []ju.JSONObject{m, back} {
			got := &iOut{}
			c.Guard("Unmarshal", func() { err = d.Unmarshal(got) })
			if err == nil {
				err = isoOut(g.outs[0], got, map[iPair]bool{}, "root")
			}
			if err != nil {
				c.Failf("graph %s\n document %s\n %s: %v", g.show(), text, []string{"itself", "parsed"}[i], err)
			}
		}
	})
}
