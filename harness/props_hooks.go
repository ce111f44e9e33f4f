package main

// P22: hooks of the program: json.Marshaler, json.Unmarshaler, AfterUnmarshal,
// registered serializable types.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"
	"yunion.io/x/pkg/gotypes"
)

var errHook = errors.Error("hook refuses")

// hHex is a string in JSON; MarshalJSON has a value receiver.
type hHex struct{ N uint32 }

func (h hHex) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"0x%x"`, h.N)), nil }
func (h *hHex) UnmarshalJSON(b []byte) error {
	s, err := strconv.Unquote(string(b))
	if err != nil || !strings.HasPrefix(s, "0x") {
		return errHook
	}
	n, err := strconv.ParseUint(s[2:], 16, 32)
	h.N = uint32(n)
	return err
}

// hState is an integer that is a word in JSON.
type hState int

var hStates = []string{"idle", "busy", "dead\n\"x\"", ""}

func (s hState) MarshalJSON() ([]byte, error) { return json.Marshal(hStates[s]) }
func (s *hState) UnmarshalJSON(b []byte) error {
	var w string
	if err := json.Unmarshal(b, &w); err != nil {
		return err
	}
	for i, x := range hStates {
		if x == w {
			*s = hState(i)
			return nil
		}
	}
	return errHook
}

// hObj is a dict in JSON, by pointer receivers.
type hObj struct {
	X int64
	L []string
}

func (o *hObj) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"zz": o.X, "a": o.L})
}
func (o *hObj) UnmarshalJSON(b []byte) error {
	var m struct {
		Zz int64    `json:"zz"`
		A  []string `json:"a"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	o.X, o.L = m.Zz, m.A
	return nil
}

// hList is an array in JSON though it is a struct.
type hList struct{ a, b int64 }

func (l hList) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`[%d, %d]`, l.a, l.b)), nil }
func (l *hList) UnmarshalJSON(b []byte) error {
	var x []int64
	if err := json.Unmarshal(b, &x); err != nil || len(x) != 2 {
		return errHook
	}
	l.a, l.b = x[0], x[1]
	return nil
}

// hBool and hNum cover the other kinds of scalars.
type hBool struct{ on string }

func (h hBool) MarshalJSON() ([]byte, error) { return []byte(strconv.FormatBool(h.on == "on")), nil }
func (h *hBool) UnmarshalJSON(b []byte) error {
	switch string(b) {
	case "true":
		h.on = "on"
	case "false":
		h.on = "off"
	default:
		return errHook
	}
	return nil
}

type hNum string

func (h hNum) MarshalJSON() ([]byte, error)  { return []byte(h), nil }
func (h *hNum) UnmarshalJSON(b []byte) error { *h = hNum(b); return nil }

type hAll struct {
	Hex    hHex
	HexP   *hHex
	HexL   []hHex
	HexM   map[string]hHex
	State  hState
	StateL []hState
	StateA [2]hState
	StateM map[string]*hState
	ObjP   *hObj `json:"obj-p"`
	ObjL   []*hObj
	ObjM   map[string]*hObj
	List   hList
	ListP  *hList
	Flag   hBool
	Num    hNum
	NumL   []hNum
	Raw    json.RawMessage
	RawM   map[string]json.RawMessage
	Big    *big.Int
	In     struct {
		State hState
		List  []hList
	}
	HEmb
	Plain int
}

type HEmb struct {
	EmState hState
	EmObj   *hObj
}

func (c *C) genHObj() *hObj {
	o := &hObj{X: c.genInt()}
	for i := c.uni(3, "hl"); i > 0; i-- {
		o.L = append(o.L, strings.ToValidUTF8(c.genStr(), "?"))
	}
	return o
}

func (c *C) genState() hState { return hState(c.uni(len(hStates), "st")) }

func vNum(s string) *V {
	v, err := numToV(s)
	if err != nil {
		panic(err)
	}
	return v
}

func (c *C) genNum() hNum {
	if c.flip("numint") {
		return hNum(strconv.FormatInt(c.genInt(), 10))
	}
	return hNum(strconv.FormatFloat(c.genFloat(), 'f', -1, 64))
}

func stV(s hState) *V { return vStr(hStates[s]) }
func hexV(h hHex) *V  { return vStr(fmt.Sprintf("0x%x", h.N)) }
func liV(l hList) *V  { return vArr(vInt(l.a), vInt(l.b)) }
func objV(o *hObj) *V {
	d := vDict()
	d.set("zz", vInt(o.X))
	if o.L == nil {
		d.set("a", vNull())
	} else {
		a := vArr()
		for _, s := range o.L {
			a.A = append(a.A, vStr(s))
		}
		d.set("a", a)
	}
	return d
}

// genHooks makes a value and its document.
func (c *C) genHooks() (*hAll, *V) {
	h := &hAll{}
	d := vDict()
	hex := func() hHex { return hHex{uint32(c.genInt())} }
	has := func() bool { return c.flip("has") }
	h.Hex = hex()
	d.set("hex", hexV(h.Hex))
	if has() {
		x := hex()
		h.HexP = &x
		d.set("hex_p", hexV(x))
	}
	if has() {
		a := vArr()
		for i := 1 + c.uni(3, "n"); i > 0; i-- {
			x := hex()
			h.HexL = append(h.HexL, x)
			a.A = append(a.A, hexV(x))
		}
		d.set("hex_l", a)
	}
	if has() {
		x, k := hex(), c.genKey()
		h.HexM = map[string]hHex{k: x}
		d.set("hex_m", vDict().set(k, hexV(x)))
	}
	h.State = c.genState()
	d.set("state", stV(h.State))
	if has() {
		h.StateL = []hState{c.genState(), c.genState()}
		d.set("state_l", vArr(stV(h.StateL[0]), stV(h.StateL[1])))
	}
	h.StateA = [2]hState{c.genState(), c.genState()}
	d.set("state_a", vArr(stV(h.StateA[0]), stV(h.StateA[1])))
	if has() {
		x, k := c.genState(), c.genKey()
		h.StateM = map[string]*hState{k: &x}
		d.set("state_m", vDict().set(k, stV(x)))
	}
	if has() {
		h.ObjP = c.genHObj()
		d.set("obj-p", objV(h.ObjP))
	}
	if has() {
		h.ObjL = []*hObj{c.genHObj(), c.genHObj()}
		d.set("obj_l", vArr(objV(h.ObjL[0]), objV(h.ObjL[1])))
	}
	if has() {
		k := c.genKey()
		h.ObjM = map[string]*hObj{k: c.genHObj()}
		d.set("obj_m", vDict().set(k, objV(h.ObjM[k])))
	}
	h.List = hList{c.genInt(), c.genInt()}
	d.set("list", liV(h.List))
	if has() {
		h.ListP = &hList{c.genInt(), 3}
		d.set("list_p", liV(*h.ListP))
	}
	h.Flag = hBool{pick(c, "on", "on", "off")}
	d.set("flag", vBool(h.Flag.on == "on"))
	h.Num = c.genNum()
	d.set("num", vNum(string(h.Num)))
	if has() {
		h.NumL = []hNum{c.genNum(), c.genNum()}
		d.set("num_l", vArr(vNum(string(h.NumL[0])), vNum(string(h.NumL[1]))))
	}
	raw := func() *V {
		x := norm(c.smallV(2))
		if x.K == KNull {
			x = vInt(0)
		}
		return x
	}
	if has() {
		x := raw()
		h.Raw = json.RawMessage(refText(x))
		d.set("raw", x)
	} else {
		d.set("raw", vNull())
	}
	if has() {
		x, k := raw(), c.genKey()
		h.RawM = map[string]json.RawMessage{k: json.RawMessage(refText(x))}
		d.set("raw_m", vDict().set(k, x))
	}
	if has() {
		i := c.genInt()
		h.Big = big.NewInt(i)
		d.set("big", vInt(i))
	}
	in := vDict()
	h.In.State = c.genState()
	in.set("state", stV(h.In.State))
	if has() {
		h.In.List = []hList{{1, c.genInt()}}
		in.set("list", vArr(liV(h.In.List[0])))
	}
	d.set("in", in)
	h.EmState = c.genState()
	d.set("em_state", stV(h.EmState))
	if has() {
		h.EmObj = c.genHObj()
		d.set("em_obj", objV(h.EmObj))
	}
	h.Plain = c.intn(0, 9, "plain")
	d.set("plain", vInt(int64(h.Plain)))
	return h, d
}

func sameHooks(a, b *hAll) error {
	x, y := *a, *b
	raw := func(p, q json.RawMessage) error {
		if len(p) == 0 && len(q) == 0 {
			return nil
		}
		v, err := stdRead(string(p))
		if err != nil {
			return err
		}
		w, err := stdRead(string(q))
		if err != nil {
			return fmt.Errorf("raw message %q: %v", q, err)
		}
		if !eqV(norm(v), norm(w), false) {
			return fmt.Errorf("raw message %s, want %s", q, p)
		}
		return nil
	}
	if err := raw(x.Raw, y.Raw); err != nil {
		return err
	}
	if len(x.RawM) != len(y.RawM) {
		return fmt.Errorf("RawM %v, want %v", y.RawM, x.RawM)
	}
	for k := range x.RawM {
		if err := raw(x.RawM[k], y.RawM[k]); err != nil {
			return err
		}
	}
	if (x.Big == nil) != (y.Big == nil) || x.Big != nil && x.Big.Cmp(y.Big) != 0 {
		return fmt.Errorf("Big %v, want %v", y.Big, x.Big)
	}
	num := func(p, q hNum) bool {
		return eqV(vNum(string(p)), vNum(string(q)), true)
	}
	if !num(x.Num, y.Num) || len(x.NumL) != len(y.NumL) {
		return fmt.Errorf("Num %v %v, want %v %v", y.Num, y.NumL, x.Num, x.NumL)
	}
	for i := range x.NumL {
		if !num(x.NumL[i], y.NumL[i]) {
			return fmt.Errorf("NumL %v, want %v", y.NumL, x.NumL)
		}
	}
	for _, p := range []*hAll{&x, &y} {
		p.Raw, p.RawM, p.Big, p.Num, p.NumL = nil, nil, nil, "", nil
	}
	if !reflect.DeepEqual(x, y) {
		for i := 0; i < reflect.TypeOf(x).NumField(); i++ {
			p, q := reflect.ValueOf(x).Field(i), reflect.ValueOf(y).Field(i)
			if !reflect.DeepEqual(p.Interface(), q.Interface()) {
				jp, _ := json.Marshal(p.Interface())
				jq, _ := json.Marshal(q.Interface())
				return fmt.Errorf("%s: %s, want %s", reflect.TypeOf(x).Field(i).Name, jq, jp)
			}
		}
	}
	return nil
}

// ---------- AfterUnmarshal ----------

type HLeaf struct {
	A     int
	Seen  int `json:"-"`
	Calls int `json:"-"`
}

func (l *HLeaf) AfterUnmarshal() {
	l.Calls++
	l.Seen = l.A
}

type HMid struct {
	HLeaf
	B     int
	MSeen int `json:"-"`
}

func (m *HMid) AfterUnmarshal() { m.MSeen = m.B + m.HLeaf.Seen }

type hTop struct {
	One  HLeaf
	Ptr  *HLeaf
	List []HLeaf
	PL   []*HLeaf
	Map  map[string]HLeaf
	PM   map[string]*HLeaf
	Mid  HMid
	Mids []HMid
	Bad  int
	Sum  int `json:"-"`
}

func (t *hTop) AfterUnmarshal() { t.Sum = t.One.Seen + t.Mid.MSeen }

// ---------- serializable ----------

type hShape interface {
	gotypes.ISerializable
	Area() int
}

type hRect struct{ W, H int }

// hUnknown is a serializable interface that nobody registered.
type hUnknown interface {
	gotypes.ISerializable
	Unknown()
}

func (r *hRect) String() string { return ju.Marshal(r).String() }
func (r *hRect) IsZero() bool   { return r.W == 0 && r.H == 0 }
func (r *hRect) Area() int      { return r.W * r.H }

func init() {
	gotypes.RegisterSerializable(reflect.TypeOf((*hShape)(nil)).Elem(), func() gotypes.ISerializable { return &hRect{} })
	gotypes.RegisterSerializable(reflect.TypeOf(&hRect{}), func() gotypes.ISerializable { return &hRect{} })

	reg("P22", "std", 5000, "a struct whose fields, elements and entries are types with their own MarshalJSON and UnmarshalJSON: its document and the way back; non-trivial: every case", func(c *C) {
		h, want := c.genHooks()
		c.Case(true, want.String())
		var m ju.JSONObject
		byPtr := c.flip("byptr")
		c.Guard("Marshal", func() {
			if byPtr {
				m = ju.Marshal(h)
			} else {
				m = ju.Marshal(*h)
			}
		})
		got := c.mustRead("Marshal", m)
		if !eqV(norm(want), norm(got), false) {
			c.Failf("Marshal\n want %s\n got  %s", norm(want), norm(got))
		}
		back, err := ju.ParseString(m.String())
		if err != nil {
			c.Failf("%s is not parsed: %v", m, err)
		}
		for _, o := range []ju.JSONObject{m, back} {
			var r hAll
			c.Guard("Unmarshal", func() { err = o.Unmarshal(&r) })
			if err != nil {
				c.Failf("Unmarshal of %s: %v", o, err)
			}
			if err := sameHooks(h, &r); err != nil {
				c.Failf("%v\n document %s", err, o)
			}
		}
	})
	reg("P22", "refuse", 3000, "as std, with one to three members that UnmarshalJSON refuses: the call returns an error and the other members are stored; non-trivial: every case", func(c *C) {
		h, want := c.genHooks()
		bad := map[string]*V{
			"hex": vStr("zz"), "hex_p": vInt(4), "hex_l": vArr(vStr("0x1"), vBool(true)), "state": vStr("asleep"), "state_l": vArr(vStr("asleep")),
			"state_a": vArr(vInt(1), vInt(2)), "state_m": vDict().set("k", vFloat(1.5)), "obj-p": vArr(), "obj_l": vArr(vBool(true)), "list": vArr(vInt(1)),
			"flag": vStr("true"), "list_p": vDict().set("a", vInt(1)), "em_state": vStr("x"), "em_obj": vStr("{"), "big": vStr("x"),
		}
		var ks []string
		for k := range bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var used []string
		r := hAll{}
		exp := *h
		for i := 1 + c.uni(3, "nbad"); i > 0; i-- {
			k := ks[c.uni(len(ks), "badk")]
			want.set(k, bad[k])
			used = append(used, k)
		}
		c.Case(true, want.String())
		var err error
		c.Guard("Unmarshal", func() { err = build(want).Unmarshal(&r) })
		if err == nil {
			c.Failf("no error though %q are refused: %s", used, want)
		}
		for _, k := range used {
			for _, p := range []*hAll{&exp, &r} {
				switch k {
				case "hex":
					p.Hex = hHex{}
				case "hex_p":
					p.HexP = nil
				case "hex_l":
					p.HexL = nil
				case "state":
					p.State = 0
				case "state_l":
					p.StateL = nil
				case "state_a":
					p.StateA = [2]hState{}
				case "state_m":
					p.StateM = nil
				case "obj-p":
					p.ObjP = nil
				case "obj_l":
					p.ObjL = nil
				case "list":
					p.List = hList{}
				case "flag":
					p.Flag = hBool{}
				case "list_p":
					p.ListP = nil
				case "em_state":
					p.EmState = 0
				case "em_obj":
					p.EmObj = nil
				case "big":
					p.Big = nil
				}
			}
		}
		if err := sameHooks(&exp, &r); err != nil {
			c.Failf("with %q refused: %v\n document %s", used, err, want)
		}
	})
	reg("P22", "after", 4000, "a document for a struct with AfterUnmarshal hooks in fields, elements, entries and embedded structs: each is called after its members are stored, also when a member is refused; non-trivial: at least two structs", func(c *C) {
		d := vDict()
		n := 0
		leaf := func() *V {
			n++
			x := vDict()
			if c.oneIn(6, "noa") {
				return x
			}
			return x.set("a", vInt(int64(c.intn(1, 99, "a"))))
		}
		mid := func() *V { return leaf().set("b", vInt(int64(c.intn(1, 99, "b")))) }
		list := func(f func() *V) *V {
			a := vArr()
			for i := c.uni(4, "ln"); i > 0; i-- {
				a.A = append(a.A, f())
			}
			return a
		}
		dict := func() *V {
			a := vDict()
			for i := c.uni(3, "dn"); i > 0; i-- {
				a.set(c.genKey(), leaf())
			}
			return a
		}
		for _, k := range []string{"one", "ptr", "list", "pl", "map", "pm", "mid", "mids"} {
			if !c.flip("has") {
				continue
			}
			switch k {
			case "one", "ptr":
				d.set(k, leaf())
			case "mid":
				d.set(k, mid())
			case "list", "pl":
				d.set(k, list(leaf))
			case "mids":
				d.set(k, list(mid))
			case "map", "pm":
				d.set(k, dict())
			}
		}
		bad := c.oneIn(4, "bad")
		if bad {
			d.set("bad", vStr("not a number"))
		}
		c.Case(n > 1, d.String())
		var t hTop
		if c.flip("preset") {
			t.One.A, t.Mid.B = 7, 8
		}
		var err error
		c.Guard("Unmarshal", func() { err = build(d).Unmarshal(&t) })
		if (err != nil) != bad {
			c.Failf("bad=%v, error %v: %s", bad, err, d)
		}
		called := func(where string, l *HLeaf, must bool) {
			if must && (l.Calls < 1 || l.Seen != l.A) {
				c.Failf("%s: AfterUnmarshal called %d times, saw %d, value %d\n document %s", where, l.Calls, l.Seen, l.A, d)
			}
		}
		called("one", &t.One, d.D["one"] != nil)
		if t.Ptr != nil {
			called("ptr", t.Ptr, true)
		}
		for i := range t.List {
			called("list", &t.List[i], true)
		}
		for i := range t.PL {
			called("pl", t.PL[i], true)
		}
		for k, l := range t.Map {
			called("map "+k, &l, true)
		}
		for k, l := range t.PM {
			called("pm "+k, l, true)
		}
		ms := []*HMid{}
		if d.D["mid"] != nil {
			ms = append(ms, &t.Mid)
		}
		for i := range t.Mids {
			ms = append(ms, &t.Mids[i])
		}
		for _, m := range ms {
			called("mid", &m.HLeaf, true)
			if m.MSeen != m.B+m.HLeaf.A {
				c.Failf("mid: AfterUnmarshal saw %d, want %d+%d\n document %s", m.MSeen, m.B, m.HLeaf.A, d)
			}
		}
		if t.Sum != t.One.Seen+t.Mid.MSeen {
			c.Failf("top: AfterUnmarshal computed %d, want %d+%d: it ran before its members were complete\n document %s", t.Sum, t.One.Seen, t.Mid.MSeen, d)
		}
		for k, want := range map[string]int{"list": len(t.List), "map": len(t.Map), "mids": len(t.Mids)} {
			if x := d.D[k]; x != nil && len(x.A)+len(x.D) != want {
				c.Failf("%s has %d parts, want %d", k, want, len(x.A)+len(x.D))
			}
		}
	})
	reg("P22", "serializable", 3000, "a dict document for a registered type, through JSONDeserialize and through a field of interface type, and any document for the JSON types; non-trivial: every case", func(c *C) {
		w, h := c.intn(0, 50, "w"), c.intn(0, 50, "h")
		text := fmt.Sprintf(`{"w":%d,"h":%d}`, w, h)
		d := c.genDoc()
		c.Case(true, text+d.String())
		x, err := ju.JSONDeserialize(reflect.TypeOf(&hRect{}), text)
		if r, ok := x.(*hRect); err != nil || !ok || *r != (hRect{w, h}) {
			c.Failf("JSONDeserialize of %s: %v, %v", text, x, err)
		}
		y, err := ju.JSONDeserialize(reflect.TypeOf((*hShape)(nil)).Elem(), text)
		if r, ok := y.(hShape); err != nil || !ok || r.Area() != w*h {
			c.Failf("JSONDeserialize of %s as an interface: %v, %v", text, y, err)
		}
		var s struct {
			A int
			S hShape
			L []hShape
			M map[string]hShape
		}
		doc, err := ju.ParseString(fmt.Sprintf(`{"a":5,"s":%s,"l":[%s,%s],"m":{"k":%s}}`, text, text, text, text))
		if err != nil {
			c.Failf("parse: %v", err)
		}
		c.Guard("Unmarshal", func() { err = doc.Unmarshal(&s) })
		if err != nil || s.A != 5 || s.S == nil || s.S.Area() != w*h || len(s.L) != 2 || s.L[0].Area() != w*h || s.L[1].Area() != w*h || s.L[0] == s.L[1] || s.M["k"] == nil || s.M["k"].Area() != w*h {
			c.Failf("Unmarshal of %s: %v %+v", doc, err, s)
		}
		// a new one is made for every text
		{
			old, oldL, oldM := &hRect{61, 62}, &hRect{63, 64}, &hRect{65, 66}
			var s struct {
				A int
				S hShape
				L []hShape
				M map[string]hShape
			}
			s.S, s.L, s.M = old, []hShape{oldL}, map[string]hShape{"k": oldM}
			doc, err := ju.ParseString(fmt.Sprintf(`{"a":5,"s":{"w":%d},"l":[{"w":%d}],"m":{"k":{"w":%d}}}`, w, w, w))
			if err != nil {
				c.Failf("parse: %v", err)
			}
			c.Guard("Unmarshal", func() { err = doc.Unmarshal(&s) })
			if err != nil || *old != (hRect{61, 62}) || *oldL != (hRect{63, 64}) || *oldM != (hRect{65, 66}) {
				c.Failf("Unmarshal of %s into a struct with serializables: %v, the former ones are %v %v %v", doc, err, old, oldL, oldM)
			}
			for _, x := range []hShape{s.S, s.L[0], s.M["k"]} {
				if r, ok := x.(*hRect); !ok || *r != (hRect{w, 0}) {
					c.Failf("Unmarshal of %s into a struct with serializables gives %v", doc, x)
				}
			}
		}
		// a serializable that cannot be filled or made is reported, the rest is stored
		{
			var s struct {
				A int
				S hShape
				U hUnknown
				Z string
			}
			s.S, s.U = &hRect{7, 8}, nil
			badS, badU := c.flip("bad s"), c.flip("bad u")
			txt := `{"a":3,"z":"end"`
			if badS {
				txt += `,"s":{"w":"wide","h":2}`
			} else {
				txt += `,"s":` + text
			}
			if badU {
				txt += `,"u":{"a":1}`
			}
			doc, err := ju.ParseString(txt + "}")
			if err != nil {
				c.Failf("parse: %v", err)
			}
			c.Guard("Unmarshal of "+txt, func() { err = doc.Unmarshal(&s) })
			if (err != nil) != (badS || badU) || s.A != 3 || s.Z != "end" || s.U != nil || !badS && s.S.Area() != w*h {
				c.Failf("Unmarshal of %s: %v %+v", doc, err, s)
			}
		}
		// back to text through the registered String
		if back, err := ju.JSONDeserialize(reflect.TypeOf(&hRect{}), x.String()); err != nil || *back.(*hRect) != (hRect{w, h}) {
			c.Failf("JSONDeserialize of String %s: %v %v", x, back, err)
		}
		d = norm(d)
		o, err := ju.JSONDeserialize(ju.JSONObjectType, refText(d))
		if err != nil {
			c.Failf("JSONDeserialize of %s: %v", d, err)
		}
		c.sameDoc("JSONDeserialize", d, o.(ju.JSONObject), false)
		for _, t := range []reflect.Type{ju.JSONDictPtrType, ju.JSONArrayPtrType} {
			want := t == ju.JSONDictPtrType && d.K == KDict || t == ju.JSONArrayPtrType && d.K == KArray
			o, err := ju.JSONDeserialize(t, refText(d))
			if d.K != KNull && want != (err == nil) {
				c.Failf("JSONDeserialize of %s as %s: %v", d, t, err)
			}
			if want {
				c.sameDoc("JSONDeserialize", d, o.(ju.JSONObject), false)
			}
		}
		if _, err := ju.JSONDeserialize(reflect.TypeOf(hRect{}), text); err == nil {
			c.Failf("JSONDeserialize accepts a type that is not registered")
		}
		if _, err := ju.JSONDeserialize(reflect.TypeOf(&hRect{}), text[:len(text)-1]); err == nil {
			c.Failf("JSONDeserialize accepts a truncated text")
		}
	})
	regFixed("P22", "regressions", "AfterUnmarshal of an unexported embedded struct", func(c *C) {
		c.Case(true, "unexported embedded struct")
		type inner = hidden
		var s struct {
			inner
			A int
		}
		d, _ := ju.ParseString(`{"a":3}`)
		var err error
		c.Guard("Unmarshal", func() { err = d.Unmarshal(&s) })
		if err != nil || s.A != 3 {
			c.Failf("%v %+v", err, s)
		}
	})
}

type hidden struct{ B int }

func (h *hidden) AfterUnmarshal() { h.B++ }
