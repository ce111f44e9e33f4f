package main

// Structs with dozens of fields (P16, P17, P20, P21), and the functions on
// texts called by several goroutines at a time (P23).

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	ju "yunion.io/x/jsonutils"
)

type wideField struct {
	name string
	at   []int // index path
}

// genWide draws a struct type with many fields, some of them in embedded
// structs, and returns the fields in the order of declaration.
func (c *C) genWide(doubles bool) (reflect.Type, []wideField) {
	n := pick(c, "fields", 12, 20, 33, 40, 64, 65, 70, 100, 129, 140, 260)
	var sfs []reflect.StructField
	var all []wideField
	types := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]int(nil)), reflect.TypeOf((*int)(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf(uint16(0)), reflect.TypeOf(1.5)}
	only := c.uni(len(types)+2, "types")
	embedAt, embedN := -1, 0
	if c.flip("embed") {
		embedAt, embedN = c.uni(n, "embedat"), 2+c.uni(30, "embedn")
	}
	style := c.uni(3, "style")
	inner := "E"
	if doubles && c.flip("doubles") {
		inner = "F" // the names of the struct around: the last one counts
	}
	field := func(prefix string, i int) (reflect.StructField, string) {
		t := types[i*7%len(types)]
		if only < len(types) {
			t = types[only]
		}
		sf := reflect.StructField{Name: fmt.Sprintf("%s%d", prefix, i), Type: t}
		name := strings.ToLower(sf.Name)
		switch {
		case style == 1:
			name = fmt.Sprintf("n%03d", (i*37+len(prefix))%1000) + strings.ToLower(prefix)
			sf.Tag = reflect.StructTag(`json:"` + name + `"`)
		case style == 2 && i%2 == 0:
			name += ".x"
			sf.Tag = reflect.StructTag(`json:"` + name + `"`)
		}
		return sf, name
	}
	for i := 0; i < n; i++ {
		if i == embedAt {
			var es []reflect.StructField
			for k := 0; k < embedN; k++ {
				sf, name := field(inner, k)
				es = append(es, sf)
				all = append(all, wideField{name, []int{len(sfs), k}})
			}
			sfs = append(sfs, reflect.StructField{Name: "Emb", Type: reflect.StructOf(es), Anonymous: true})
		}
		sf, name := field("F", i)
		all = append(all, wideField{name, []int{len(sfs)}})
		sfs = append(sfs, sf)
	}
	return reflect.StructOf(sfs), all
}

// wideValue gives a field the i-th value of its type, never the zero value.
func wideValue(t reflect.Type, i int) reflect.Value {
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(fmt.Sprintf("s%d", i))
	case reflect.Slice:
		return reflect.ValueOf([]int{i, 0, i})
	case reflect.Ptr:
		return reflect.ValueOf(&i)
	case reflect.Map:
		return reflect.ValueOf(map[string]string{fmt.Sprint("k", i): "v"})
	case reflect.Float64:
		return reflect.ValueOf(float64(i) + 0.5)
	}
	return reflect.ValueOf(i + 1).Convert(t)
}

func wideDoc(t reflect.Type, i int) *V {
	switch t.Kind() {
	case reflect.String:
		return vStr(fmt.Sprintf("s%d", i))
	case reflect.Slice:
		return vArr(vInt(int64(i)), vInt(0), vInt(int64(i)))
	case reflect.Ptr:
		return vInt(int64(i))
	case reflect.Map:
		return vDict().set(fmt.Sprint("k", i), vStr("v"))
	case reflect.Float64:
		return vFloat(float64(i) + 0.5)
	}
	return vInt(int64(i + 1))
}

func init() {
	const rule = "a struct of 12 to 290 fields, some of them embedded; non-trivial: always"
	wide := func(prop string, quick int, fn func(c *C, rt reflect.Type, fs []wideField)) {
		reg(prop, "wide", quick, rule, func(c *C) {
			rt, fs := c.genWide(prop == "P17")
			c.Case(true, fmt.Sprintf("%d fields, %s", len(fs), clip(rt.String(), 200)))
			c.Label(fmt.Sprintf("fields>=%d", len(fs)/32*32))
			fn(c, rt, fs)
		})
	}
	fill := func(c *C, rt reflect.Type, fs []wideField, base int) (reflect.Value, *V) {
		v, d := reflect.New(rt), vDict()
		for i, f := range fs {
			x := v.Elem().FieldByIndex(f.at)
			x.Set(wideValue(x.Type(), base+i))
			d.set(f.name, wideDoc(x.Type(), base+i))
		}
		return v, d
	}
	wide("P17", 150, func(c *C, rt reflect.Type, fs []wideField) {
		v, want := fill(c, rt, fs, 1)
		var zero []wideField
		for _, f := range fs {
			if c.oneIn(8, "zero") {
				v.Elem().FieldByIndex(f.at).SetZero()
				zero = append(zero, f)
			}
		}
		var d ju.JSONObject
		c.Guard("Marshal", func() { d = ju.Marshal(v.Interface()) })
		got := c.mustRead("Marshal", d)
		for _, f := range zero { // the rules of zero values are those of another check
			want.del(f.name)
			got.del(f.name)
		}
		if !eqV(want, got, false) {
			c.Failf("Marshal of a struct of %d fields differs\n want %s\n got  %s", len(fs), clip(want.String(), 3000), clip(got.String(), 3000))
		}
	})
	wide("P16", 150, func(c *C, rt reflect.Type, fs []wideField) {
		v, _ := fill(c, rt, fs, 1)
		back := reflect.New(rt)
		var err error
		c.Guard("Marshal and Unmarshal", func() { err = ju.Marshal(v.Interface()).Unmarshal(back.Interface()) })
		if err != nil || !reflect.DeepEqual(v.Interface(), back.Interface()) {
			c.Failf("a struct of %d fields comes back as another one: %v\n %s\n %s", len(fs), err, goShow(v.Elem()), goShow(back.Elem()))
		}
	})
	wide("P20", 150, func(c *C, rt reflect.Type, fs []wideField) {
		// only some of the fields are in the document
		v, _ := fill(c, rt, fs, 1)
		_, doc := fill(c, rt, fs, 1000)
		ask := 1 + c.uni(12, "ask")
		want := reflect.New(rt)
		for i, f := range fs {
			x := want.Elem().FieldByIndex(f.at)
			if (i*31+ask)%ask == 0 && c.flip("keep") || c.oneIn(4, "keep") {
				doc.del(f.name)
				x.Set(wideValue(x.Type(), i+1))
				continue
			}
			x.Set(wideValue(x.Type(), 1000+i))
			if x.Kind() == reflect.Map { // entries that were there stay
				x.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", i+1)), reflect.ValueOf("v"))
			}
		}
		if c.flip("unknown") {
			doc.set("zzz_unknown", vInt(1)).set("aaa", vStr("x"))
		}
		var err error
		c.Guard("Unmarshal", func() { err = build(doc).Unmarshal(v.Interface()) })
		if err != nil || !reflect.DeepEqual(v.Interface(), want.Interface()) {
			c.Failf("%d of %d fields stored: %v\n got  %s\n want %s", len(doc.D), len(fs), err, goShow(v.Elem()), goShow(want.Elem()))
		}
	})
	wide("P21", 150, func(c *C, rt reflect.Type, fs []wideField) {
		// a field is stored under its JSON name and its Go name
		_, doc := fill(c, rt, fs, 1)
		want, _ := fill(c, rt, fs, 1)
		spelt := vDict()
		for _, f := range fs {
			k := f.name
			if c.oneIn(4, "goname") {
				k = rt.FieldByIndex(f.at).Name
			}
			spelt.set(k, doc.D[f.name])
		}
		back := reflect.New(rt)
		var err error
		c.Guard("Unmarshal", func() { err = build(spelt).Unmarshal(back.Interface()) })
		if err != nil || !reflect.DeepEqual(want.Interface(), back.Interface()) {
			c.Failf("%s into a struct of %d fields: %v\n got  %s\n want %s", clip(spelt.String(), 2000), len(fs), err, goShow(back.Elem()), goShow(want.Elem()))
		}
	})

	reg("P23", "texts", 1200, "functions that read texts (Parse, ParseStream, ParseJsonStreams, ParseYAML, ParseQueryString, GetTime, Unmarshal of amounts and times, NewJSONError) called by several goroutines at the same time under the race detector, compared with the results of one goroutine; non-trivial: 3 calls or more", func(c *C) {
		type call struct {
			desc string
			run  func() string
		}
		res := func(d ju.JSONObject, err error) string {
			if err != nil {
				return "error " + err.Error()
			}
			return d.String()
		}
		var calls []call
		for i := 2 + c.uni(8, "calls"); i > 0; i-- {
			var s string
			var f func(s string) string
			k := pick(c, "call", "Parse", "ParseStream", "ParseJsonStreams", "ParseYAML", "ParseQueryString", "GetTime", "amount", "time", "NewJSONError", "lax", "get")
			switch k {
			case "Parse", "ParseStream", "ParseJsonStreams":
				s, _ = c.genAnyText()
				if len(s) > 2000 {
					s = s[:2000]
				}
				f = func(s string) string { return res(ju.ParseString(s)) }
				if k == "ParseStream" {
					f = func(s string) string {
						d, n, err := ju.ParseStream([]byte(s), 0)
						return fmt.Sprint(n, res(d, err))
					}
				} else if k == "ParseJsonStreams" {
					if len(s) > 200 {
						s = s[:200]
					}
					f = func(s string) string {
						ds, err := ju.ParseJsonStreams([]byte(s))
						t := fmt.Sprint(len(ds), err)
						for _, d := range ds {
							t += d.String()
						}
						return t
					}
				}
			case "ParseYAML":
				s = build(c.genV(c.yamlOpt())).YAMLString()
				f = func(s string) string { return res(ju.ParseYAML(s)) }
			case "ParseQueryString":
				s = c.genQueryText()
				f = func(s string) string { return res(ju.ParseQueryString(s)) }
			case "GetTime", "time":
				s = time.Unix(int64(c.uni(2000000000, "sec")), 0).UTC().Format(pick(c, "layout", time.RFC3339, time.RFC1123, time.UnixDate, time.RFC822, "2006-01-02", "2006-01-02 15:04:05", "2006-01-02T15:04:05.000000Z", "20060102T150405Z", time.RFC1123Z))
				f = func(s string) string {
					t, err := ju.NewString(s).GetTime()
					return fmt.Sprint(t, err)
				}
				if k == "time" {
					f = func(s string) string {
						var x struct{ At time.Time }
						err := build(vDict().set("at", vStr(s))).Unmarshal(&x)
						return fmt.Sprint(x, err)
					}
				}
			case "amount":
				s = c.genNumText()
				f = func(s string) string {
					var x struct {
						I int
						F float64
					}
					err := build(vDict().set("f", vStr(s)).set("i", vStr(s))).Unmarshal(&x)
					return fmt.Sprint(x, err)
				}
			case "NewJSONError":
				s = c.genStr()
				at := c.uni(20, "at")
				f = func(s string) string { return ju.NewJSONError([]byte(s), at, "m").Error() }
			case "lax":
				w := &laxWriter{c: c, stats: map[string]bool{}}
				o := c.opt(2, 3)
				o.str = c.laxStr
				w.val(norm(c.genV(o)), false)
				s = w.sb.String()
				f = func(s string) string { return res(ju.ParseString(s)) }
			default:
				s = c.getterStr()
				f = func(s string) string {
					o := ju.NewString(s)
					i, e1 := o.Int()
					f, e2 := o.Float()
					b, e3 := o.Bool()
					return fmt.Sprint(i, e1, f, e2, b, e3, o.String(), o.PrettyString(), o.YAMLString(), o.QueryString())
				}
			}
			t := s
			calls = append(calls, call{k + " " + fmt.Sprintf("%q", clip(s, 200)), func() string { return f(t) }})
		}
		desc := []string{}
		for _, x := range calls {
			desc = append(desc, x.desc)
		}
		c.Case(len(calls) >= 3, strings.Join(desc, "; "))
		const G = 4
		got := make([][]string, G)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			got[g] = make([]string, len(calls))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := range calls {
					k := (i + g) % len(calls)
					func() {
						defer func() {
							if r := recover(); r != nil {
								got[g][k] = fmt.Sprintf("panic: %v", r)
							}
						}()
						got[g][k] = calls[k].run()
					}()
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for i, x := range calls {
			want := ""
			c.Guard(x.desc, func() { want = x.run() })
			for g := range got {
				if got[g][i] != want {
					c.Failf("%s: concurrently %s, alone %s", x.desc, clip(got[g][i], 800), clip(want, 800))
				}
			}
		}
	})
}
