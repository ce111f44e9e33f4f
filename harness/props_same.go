package main

// Types of the same name: what is remembered of a type must not be found
// under its name. And types of other kinds with JSON methods.

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
	ju "yunion.io/x/jsonutils"
)

type hSame struct {
	N    int
	Seen int `json:"-"`
}

func (h *hSame) AfterUnmarshal() { h.Seen = h.N }

type hSameJ struct{ N int }

func (h hSameJ) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"#%d"`, h.N)), nil }
func (h *hSameJ) UnmarshalJSON(b []byte) error {
	_, err := fmt.Sscanf(string(b), `"#%d"`, &h.N)
	return err
}

// sameNames runs one case for each of several types that print as main.hSame
// or main.hSameJ.
// With plain set, only those without own methods.
func sameNames(c *C, marshal, unmarshal, hooks bool) {
	doc := mustParse(c, `{"n":7,"m":"x","k-":true}`)
	try := func(v interface{}, want string) {
		if !unmarshal {
			return
		}
		c.Guard("Unmarshal", func() {
			if err := doc.Unmarshal(v); err != nil {
				c.Failf("Unmarshal into %T: %v", v, err)
			}
		})
		if got := fmt.Sprintf("%+v", reflect.ValueOf(v).Elem()); got != want {
			c.Failf("%s into %T of %d fields: %s, want %s", doc, v, reflect.TypeOf(v).Elem().NumField(), got, want)
		}
	}
	mar := func(v interface{}, want string) {
		if !marshal {
			return
		}
		var got string
		c.Guard("Marshal", func() { got = ju.Marshal(v).String() })
		if got != want {
			c.Failf("Marshal of %T of %d fields: %s, want %s", v, reflect.TypeOf(v).NumField(), got, want)
		}
	}
	fs := []func(){
		func() {
			type hSame struct{ N int64 }
			try(&hSame{}, "{N:7}")
			mar(hSame{3}, `{"n":3}`)
		},
		func() {
			type hSame struct {
				M    string
				Seen int
				N    int `json:"-"`
			}
			try(&hSame{}, "{M:x Seen:0 N:0}")
			mar(hSame{"q", 1, 2}, `{"m":"q","seen":1}`)
		},
		func() {
			type hSame struct {
				X int    `json:"n"`
				Y string `json:"m"`
				Z bool   `json:"k-"`
			}
			try(&hSame{}, "{X:7 Y:x Z:true}")
			mar(hSame{3, "", true}, `{"k-":true,"n":3}`)
		},
		func() {
			type hSame struct {
				N    bool `json:"k-"`
				M, L string
				K    int `json:"n"`
			}
			try(&hSame{}, "{N:true M:x L: K:7}")
			mar(hSame{true, "x", "y", 1}, `{"k-":true,"l":"y","m":"x","n":1}`)
		},
		func() {
			type hSame struct {
				L, M string
				N    int `json:",omitzero"`
			}
			try(&hSame{}, "{L: M:x N:7}")
			mar(hSame{}, `{}`)
		},
		func() {
			type hSame struct {
				L, M string `json:",allowempty"`
				N    int    `json:",allowzero"`
			}
			try(&hSame{}, "{L: M:x N:7}")
			mar(hSame{}, `{"l":"","m":"","n":0}`)
		},
	}
	if hooks {
		fs = append(fs,
			func() { try(&hSame{}, "{N:7 Seen:7}") },
			func() {
				type hSame struct{ HLeaf }
				x := &hSame{}
				if err := mustParse(c, `{"a":5}`).Unmarshal(x); err != nil || x.Calls < 1 || x.Seen != 5 {
					c.Failf("a promoted AfterUnmarshal of a type of the name hSame: %+v %v", x, err)
				}
			},
			func() { mar(hSameJ{4}, `"#4"`) },
			func() {
				type hSameJ struct{ N int }
				mar(hSameJ{4}, `{"n":4}`)
				try(&hSameJ{}, "{N:7}")
			},
			func() {
				var x hSameJ
				if err := ju.NewString("#12").Unmarshal(&x); err != nil || x.N != 12 {
					c.Failf("UnmarshalJSON of hSameJ: %+v %v", x, err)
				}
			},
			func() {
				type hSameJ []int
				mar2 := ju.Marshal(hSameJ{1, 2}).String()
				if mar2 != "[1,2]" {
					c.Failf("Marshal of a slice type of the name hSameJ: %s", mar2)
				}
			},
		)
	}
	order := make([]int, len(fs))
	for i := range order {
		order[i] = i
	}
	order = rapid.Permutation(order).Draw(c.rt, "order")
	c.Case(true, fmt.Sprint(order))
	for _, i := range order {
		fs[i]()
	}
}

// Types of all kinds with JSON methods.
type (
	hUnit  struct{}
	hSlice []int
	hMapT  map[string]int
	hArr   [2]int8
	hFloat float64
	hUint  uint16
	hFlag  bool
)

// hEmb begins with an embedded struct, hEmbOwn has the methods of its embedded struct.
type (
	hPlain struct{ Num int }
	hEmb   struct {
		hPlain
		Name string
	}
	hHexPart struct{ N int }
	hEmbOwn  struct {
		hHexPart
		Note string
	}
)

func (h hEmb) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("[%d,%q]", h.Num, h.Name)), nil
}
func (h *hEmb) UnmarshalJSON(b []byte) error {
	_, err := fmt.Sscanf(string(b), "[%d,%q]", &h.Num, &h.Name)
	return err
}
func (h hHexPart) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"part %d"`, h.N)), nil }
func (h *hHexPart) UnmarshalJSON(b []byte) error {
	_, err := fmt.Sscanf(string(b), `"part %d"`, &h.N)
	return err
}

func (hUnit) MarshalJSON() ([]byte, error) { return []byte(`"unit"`), nil }
func (*hUnit) UnmarshalJSON(b []byte) error {
	if string(b) != `"unit"` {
		return errHook
	}
	return nil
}
func (h hSlice) MarshalJSON() ([]byte, error) {
	return json.Marshal(strings.Trim(fmt.Sprint([]int(h)), "[]"))
}
func (h *hSlice) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	for _, w := range strings.Fields(s) {
		n := 0
		if _, err := fmt.Sscan(w, &n); err != nil {
			return err
		}
		*h = append(*h, n)
	}
	return nil
}
func (h hMapT) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`[%d,%d]`, len(h), h["k"])), nil
}
func (h *hMapT) UnmarshalJSON(b []byte) error {
	var x []int
	if err := json.Unmarshal(b, &x); err != nil || len(x) != 2 {
		return errHook
	}
	*h = hMapT{"k": x[1]}
	return nil
}
func (h hArr) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"l":%d,"r":%d}`, h[0], h[1])), nil
}
func (h *hArr) UnmarshalJSON(b []byte) error {
	var x map[string]int8
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	h[0], h[1] = x["l"], x["r"]
	return nil
}
func (h hFloat) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`"%g%%"`, float64(h)*100)), nil
}
func (h *hFloat) UnmarshalJSON(b []byte) error {
	var f float64
	if _, err := fmt.Sscanf(string(b), `"%f%%"`, &f); err != nil {
		return err
	}
	*h = hFloat(f / 100)
	return nil
}
func (h hUint) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("[%d]", h)), nil }
func (h *hUint) UnmarshalJSON(b []byte) error {
	var x []uint16
	if err := json.Unmarshal(b, &x); err != nil || len(x) != 1 {
		return errHook
	}
	*h = hUint(x[0])
	return nil
}
func (h hFlag) MarshalJSON() ([]byte, error) {
	if h {
		return []byte("1"), nil
	}
	return []byte("0"), nil
}
func (h *hFlag) UnmarshalJSON(b []byte) error {
	switch string(b) {
	case "0", "1":
		*h = b[0] == '1'
		return nil
	}
	return errors.New("no flag")
}

// hKinds are the types with a value for each and its JSON.
func (c *C) hKind() (interface{}, *V) {
	switch c.uni(9, "hkind") {
	case 7:
		a := c.intn(-9, 9, "a")
		return hEmb{hPlain{a}, "x"}, vArr(vInt(int64(a)), vStr("x"))
	case 8:
		a := c.intn(-9, 9, "a")
		return hEmbOwn{hHexPart{a}, ""}, vStr(fmt.Sprint("part ", a))
	case 0:
		return hUnit{}, vStr("unit")
	case 1:
		a, b := c.intn(-9, 9, "a"), c.intn(-9, 9, "b")
		return hSlice{a, b}, vStr(fmt.Sprint(a, " ", b))
	case 2:
		a := c.intn(-9, 9, "a")
		return hMapT{"k": a}, vArr(vInt(1), vInt(int64(a)))
	case 3:
		a := int8(c.intn(-9, 9, "a"))
		return hArr{a, 5}, vDict().set("l", vInt(int64(a))).set("r", vInt(5))
	case 4:
		a := c.intn(-9, 9, "a")
		return hFloat(float64(a) / 4), vStr(fmt.Sprintf("%d%%", a*25))
	case 5:
		a := c.intn(0, 9, "a")
		return hUint(a), vArr(vInt(int64(a)))
	}
	b := c.flip("b")
	return hFlag(b), vInt(int64(b2i(b)))
}

func init() {
	reg("P22", "samename", 50, "types of the same name with and without hooks and JSON methods, in any order; non-trivial: every case", func(c *C) { sameNames(c, true, true, true) })
	reg("P17", "samename", 50, "types of the same name with other fields and tags, marshalled in any order; non-trivial: every case", func(c *C) { sameNames(c, true, false, false) })
	for _, p := range []string{"P20", "P21"} {
		reg(p, "samename", 50, "types of the same name with other fields and tags, unmarshalled into in any order; non-trivial: every case", func(c *C) { sameNames(c, false, true, false) })
	}
	reg("P22", "types", 4000, "a value of a type of any kind (struct without fields, slice, map, array, number, boolean) with JSON methods, in a field, pointer, slice, array, map or any nesting of them, or held by an interface: its document and the way back; non-trivial: every case", func(c *C) {
		x, want := c.hKind()
		v := reflect.ValueOf(x)
		iface := false
		path := v.Type().String()
		for i := 1 + c.uni(4, "levels"); i > 0; i-- {
			t := v.Type()
			var w reflect.Value
			switch k := c.uni(6, "level"); k {
			case 0, 1:
				// several equal items
				n := 1 + c.uni(3, "n")
				if k == 0 {
					w = reflect.MakeSlice(reflect.SliceOf(t), n, n)
				} else {
					w = reflect.New(reflect.ArrayOf(n, t)).Elem()
				}
				a := vArr()
				for j := 0; j < n; j++ {
					w.Index(j).Set(v)
					a.A = append(a.A, want)
				}
				want = a
			case 2:
				w = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
				key := c.genKey()
				w.SetMapIndex(reflect.ValueOf(key), v)
				want = vDict().set(key, want)
			case 3:
				if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface || i == 1 {
					continue
				}
				w = reflect.New(t)
				w.Elem().Set(v)
			case 4:
				w = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Aaa", Type: reflect.TypeOf(0)}, {Name: "Part", Type: t, Tag: reflect.StructTag(pick(c, "tag", "", `json:"part,allowempty"`))}})).Elem()
				w.Field(1).Set(v)
				if p := w.Field(1); p.Kind() == reflect.Struct || true {
					w.Field(0).SetInt(4)
				}
				want = vDict().set("aaa", vInt(4)).set("part", want)
			case 5:
				if iface || t.Kind() == reflect.Interface {
					continue
				}
				w = reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
				w.Set(v)
				iface = true
			}
			v = w
			path += " < " + clip(v.Type().String(), 200)
		}
		c.Case(true, fmt.Sprintf("%s %s", path, want))
		c.LabelIf(iface, "through an interface")
		var m ju.JSONObject
		c.Guard("Marshal", func() { m = ju.Marshal(v.Interface()) })
		if got := c.mustRead("Marshal", m); !eqV(norm(want), norm(got), false) {
			c.Failf("Marshal of %s %+v is %s, want %s", path, v, got, want)
		}
		if iface {
			return
		}
		for _, o := range []ju.JSONObject{m, mustParse(c, m.String())} {
			got := reflect.New(v.Type())
			var err error
			c.Guard("Unmarshal", func() { err = o.Unmarshal(got.Interface()) })
			if err != nil || !reflect.DeepEqual(got.Elem().Interface(), v.Interface()) {
				c.Failf("%s comes back from %s as %+v: %v", path, m, got.Elem(), err)
			}
		}
	})
}
