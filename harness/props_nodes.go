package main

// Texts with node ids and references (P01, P07), and long graphs (P18).

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
)

// nd is a document with ids and references.
type nd struct {
	kind  byte   // d a r s
	text  string // r: the number, s: the text
	id    string // d: the id as written, or ""
	idAt  int    // d: how many entries stand before the id
	keys  []string
	items []*nd
}

func (c *C) genNd(depth int, ids func() string) *nd {
	k := c.uni(5, "nd")
	if depth >= 3 {
		k = c.uni(3, "nd")
	}
	if depth == 0 {
		k = 3 + c.uni(2, "leaf")
	}
	switch {
	case k == 4:
		return &nd{kind: 'r', text: pick(c, "ref", "1", "2", "3", "4", "7", "12", "0", "-1", "999999")}
	case k == 3:
		return &nd{kind: 's', text: pick(c, "sc", "1", "null", "true", `"<1>"`, `"a"`, `""`, "1.5", `"x y"`, `"{"`, "-3")}
	case k == 0:
		a := &nd{kind: 'a'}
		for i := c.uni(4, "n"); i > 0; i-- {
			a.items = append(a.items, c.genNd(depth-1, ids))
		}
		return a
	}
	d := &nd{kind: 'd'}
	names := []string{"a", "b", "c", "A", "_", "~", "", idKey + "x", "\"", "名"}
	for i := c.uni(4, "n"); i > 0; i-- {
		k := pick(c, "k", names...)
		if !inList(k, d.keys) {
			d.keys = append(d.keys, k)
			d.items = append(d.items, c.genNd(depth-1, ids))
		}
	}
	if !c.oneIn(3, "noid") {
		d.id = ids()
		d.idAt = c.uni(len(d.keys)+1, "idat")
	}
	return d
}

func (n *nd) walk(f func(*nd)) {
	f(n)
	for _, x := range n.items {
		x.walk(f)
	}
}

func (n *nd) write(sb *strings.Builder) {
	switch n.kind {
	case 'r':
		sb.WriteString("<" + n.text + ">")
	case 's':
		sb.WriteString(n.text)
	case 'a':
		sb.WriteByte('[')
		for i, x := range n.items {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.write(sb)
		}
		sb.WriteByte(']')
	case 'd':
		sep := "{"
		for i := 0; i <= len(n.items); i++ {
			if i == n.idAt && n.id != "" {
				sb.WriteString(sep + `"` + idKey + `":` + n.id)
				sep = ","
			}
			if i < len(n.items) {
				sb.WriteString(sep + refQuote(n.keys[i]) + ":")
				n.items[i].write(sb)
				sep = ","
			}
		}
		if sep == "{" {
			sb.WriteByte('{')
		}
		sb.WriteByte('}')
	}
}

func (n *nd) idNum() int64 {
	i, _ := strconv.ParseInt(n.id, 10, 64)
	return i
}

// entries are the printed entries of a dict: key and item, the id first.
func (n *nd) entries() (keys []string, items []*nd) {
	if n.idNum() > 0 {
		keys = append(keys, `"`+idKey+`"`)
		items = append(items, &nd{kind: 's', text: strconv.FormatInt(n.idNum(), 10)})
	}
	at := map[string]int{}
	sorted := append([]string{}, n.keys...)
	for i, k := range n.keys {
		at[k] = i
	}
	sort.Strings(sorted)
	for _, k := range sorted {
		keys = append(keys, ju.NewString(k).String())
		items = append(items, n.items[at[k]])
	}
	return
}

// plain is the text of String.
func (n *nd) plain() string {
	var parts []string
	switch n.kind {
	case 'a':
		for _, x := range n.items {
			parts = append(parts, x.plain())
		}
		return "[" + strings.Join(parts, ",") + "]"
	case 'd':
		ks, xs := n.entries()
		for i, k := range ks {
			parts = append(parts, k+":"+xs[i].plain())
		}
		return "{" + strings.Join(parts, ",") + "}"
	case 'r':
		i, _ := strconv.Atoi(n.text)
		return fmt.Sprintf("<%d>", i)
	}
	return n.text
}

// pretty is the text of PrettyString.
func (n *nd) pretty(indent string) string {
	var parts []string
	open, shut := "[", "]"
	switch n.kind {
	case 'a':
		for _, x := range n.items {
			parts = append(parts, x.pretty(indent+"  "))
		}
	case 'd':
		open, shut = "{", "}"
		ks, xs := n.entries()
		for i, k := range ks {
			if xs[i].kind == 'a' || xs[i].kind == 'd' {
				parts = append(parts, indent+"  "+k+":\n"+xs[i].pretty(indent+"    "))
			} else {
				parts = append(parts, indent+"  "+k+": "+xs[i].plain())
			}
		}
	default:
		return indent + n.plain()
	}
	if len(parts) == 0 {
		return indent + open + shut
	}
	return indent + open + "\n" + strings.Join(parts, ",\n") + "\n" + indent + shut
}

func init() {
	reg("P01", "nodes", 6000, "a text with node ids (also doubled, negative, no integers) and references (also to no node, or no integers): an error exactly if a positive id occurs twice or an id or reference is no integer, the documented text otherwise; non-trivial: two ids or more", func(c *C) {
		next := 0
		mode := c.uni(3, "ids")
		t := c.genNd(4, func() string {
			next++
			switch {
			case mode == 0: // all different
				return strconv.Itoa(next)
			case mode == 1 && c.oneIn(6, "double"):
				return pick(c, "id", "1", "2", "3", "0", "0", "-1", "-1", "33", "65537", "4294967297")
			case mode == 2 && c.oneIn(6, "noint"):
				return pick(c, "badid", "1.5", `"1"`, "null", "true", "[1]", "{}", "<1>", "x", "9223372036854775808", "1e0", "1.0", `""`)
			}
			return strconv.Itoa(next*100 + 3)
		})
		if mode == 2 && c.flip("badref") {
			t = &nd{kind: 'a', items: []*nd{t, {kind: 'r', text: pick(c, "badr", "x", "1.5", "", "0x1", "<1>", "1_0", "9223372036854775808", "-")}}}
			if c.flip("first") {
				t.items[0], t.items[1] = t.items[1], t.items[0]
			}
		}
		seen := map[int64]bool{}
		n, bad := 0, ""
		t.walk(func(x *nd) {
			if x.kind == 'r' {
				if _, err := strconv.ParseInt(x.text, 10, 64); err != nil {
					bad = "reference " + x.text
				}
			}
			if x.id == "" {
				return
			}
			n++
			i, err := strconv.ParseInt(x.id, 10, 64)
			if err != nil {
				bad = "id " + x.id
			} else if i > 0 && seen[i] {
				bad = "twice " + x.id
			}
			seen[i] = true
		})
		var sb strings.Builder
		t.write(&sb)
		text := sb.String()
		c.Case(n > 1, text)
		c.LabelIf(bad != "", "to be refused")
		var d ju.JSONObject
		var err error
		c.Guard("Parse", func() { d, err = ju.ParseString(text) })
		if bad != "" {
			if err == nil || d != nil {
				c.Failf("%s: %q is accepted as %v", bad, text, d)
			}
			return
		}
		if err != nil {
			c.Failf("%q is refused: %v", text, err)
		}
		c.Guard("using the document", func() {
			if s := d.String(); s != t.plain() {
				c.Failf("%q is printed as\n %s, want\n %s", text, s, t.plain())
			}
			if msg := useDoc(d); msg != "" {
				c.Failf("%q: %s", text, msg)
			}
			d2, err := ju.ParseString(d.String())
			if err != nil || d2.String() != d.String() {
				c.Failf("%q is printed as %s, which is read as %v, %v", text, d, d2, err)
			}
		})
	})
	reg("P07", "nodes", 5000, "a text with node ids and references at any depth, parsed and pretty printed; non-trivial: it has an id and a reference", func(c *C) {
		next := 0
		t := c.genNd(4, func() string { next += 1 + c.uni(40, "step"); return strconv.Itoa(next) })
		refs := 0
		t.walk(func(x *nd) { refs += b2i(x.kind == 'r') })
		var sb strings.Builder
		t.write(&sb)
		text := sb.String()
		c.Case(next > 0 && refs > 0, text)
		d := mustParse(c, text)
		var p string
		c.Guard("PrettyString", func() { p = d.PrettyString() })
		if want := t.pretty(""); p != want {
			c.Failf("%q is printed as\n%s\nwant\n%s", text, p, want)
		}
		if s := mustParse(c, p).String(); s != t.plain() {
			c.Failf("%q is printed as\n%s\nwhich reads as %s, not %s", text, p, s, t.plain())
		}
	})

	reg("P18", "long", 250, "a tree of 2 to 600 linked objects (chains, lists, maps) in which many also point back to objects they lie in; non-trivial: there is a pointer back", func(c *C) {
		n := c.intn(2, 60, "n")
		if c.oneIn(3, "more") {
			n = 30 + c.uni(571, "n2")
		}
		chain := c.uni(4, "chain") // 0: always below the last, others: mixed
		type info struct {
			p      *lnode
			parent int
		}
		ns := []info{{&lnode{Name: "n0"}, -1}}
		back := 0
		for len(ns) < n {
			par := len(ns) - 1
			if chain > 0 && c.oneIn(1+chain, "branch") {
				par = c.uni(len(ns), "par")
			}
			x := &lnode{Name: fmt.Sprintf("n%d", len(ns))}
			p := ns[par].p
			switch k := c.uni(4, "link"); {
			case k <= 1 && p.Next == nil:
				p.Next = x
			case k == 2:
				if p.By == nil {
					p.By = map[string]*lnode{}
				}
				p.By[fmt.Sprintf("k%d", len(ns))] = x
			default:
				p.Kids = append(p.Kids, x)
			}
			ns = append(ns, info{x, par})
		}
		depth := func(i int) int {
			d := 0
			for ; i >= 0; i = ns[i].parent {
				d++
			}
			return d
		}
		for i := range ns {
			if !c.oneIn(1+c.uni(6, "rare"), "back") {
				continue
			}
			up := func() *lnode {
				back++
				at := i
				k := c.uni(depth(i), "up")
				if c.flip("near") {
					k = k % 3
				}
				for ; k > 0 && ns[at].parent >= 0; k-- {
					at = ns[at].parent
				}
				return ns[at].p
			}
			ns[i].p.Up = up()
			for c.oneIn(4, "ups") {
				ns[i].p.Ups = append(ns[i].p.Ups, up())
			}
		}
		root := ns[0].p
		c.Case(back > 0, fmt.Sprintf("%d objects, %d pointers back, depth of the last %d, first back %v", n, back, depth(n-1), clip(root.show(), 300)))
		c.Label(fmt.Sprintf("objects>=%d", n/100*100))
		var d ju.JSONObject
		c.Guard("Marshal", func() { d = ju.Marshal(root) })
		text := d.String()
		if strings.Count(text, "<") != back {
			c.Failf("%d references in the text of a graph with %d pointers back: %s", strings.Count(text, "<"), back, clip(text, 1500))
		}
		for _, how := range []string{"direct", "parsed"} {
			if how == "parsed" {
				var err error
				c.Guard("Parse", func() { d, err = ju.ParseString(text) })
				if err != nil {
					c.Failf("text %s: %v", clip(text, 1500), err)
				}
			}
			got := &lnode{}
			var err error
			c.Guard("Unmarshal", func() {
				if how == "direct" {
					var p *lnode
					err = d.Unmarshal(&p)
					if p != nil {
						got = p
					}
				} else {
					err = d.Unmarshal(got)
				}
			})
			if err != nil {
				c.Failf("%s: Unmarshal of %s: %v", how, clip(text, 1500), err)
			}
			same := map[*lnode]*lnode{}
			var cmp func(a, b *lnode, path string)
			cmp = func(a, b *lnode, path string) {
				if (a == nil) != (b == nil) {
					c.Failf("%s: at %s nil %v becomes nil %v\n%s", how, path, a == nil, b == nil, clip(text, 1500))
				}
				if a == nil {
					return
				}
				if x, ok := same[a]; ok {
					if x != b {
						c.Failf("%s: %s is another object than the %s it stands for\n%s", how, clip(path, 300), a.Name, clip(text, 1500))
					}
					return
				}
				same[a] = b
				if a.Name != b.Name || len(a.Kids) != len(b.Kids) || len(a.By) != len(b.By) || len(a.Ups) != len(b.Ups) {
					c.Failf("%s: %s is %s, not %s\n%s", how, clip(path, 300), b.show(), a.show(), clip(text, 1500))
				}
				path += ">" + a.Name
				cmp(a.Next, b.Next, path)
				for i := range a.Kids {
					cmp(a.Kids[i], b.Kids[i], path)
				}
				for k := range a.By {
					cmp(a.By[k], b.By[k], path)
				}
				cmp(a.Up, b.Up, path+" up")
				for i := range a.Ups {
					cmp(a.Ups[i], b.Ups[i], path+" ups")
				}
			}
			cmp(root, got, "root")
		}
	})
}

type lnode struct {
	Name string
	Next *lnode
	Kids []*lnode
	By   map[string]*lnode
	Up   *lnode
	Ups  []*lnode
}

func (n *lnode) show() string {
	s := fmt.Sprintf("%s kids %d entries %d ups %d", n.Name, len(n.Kids), len(n.By), len(n.Ups))
	if n.Up != nil {
		s += " up " + n.Up.Name
	}
	return s
}
