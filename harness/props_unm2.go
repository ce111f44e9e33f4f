package main

// P20, P21, P27: structs and containers as targets.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	ju "yunion.io/x/jsonutils"
)

// ---------- deep copies and comparison of generated values ----------

func copyInto(dst, src reflect.Value, t *T) {
	switch t.K {
	case TSlice:
		if src.IsNil() {
			dst.Set(reflect.Zero(t.RT))
			return
		}
		dst.Set(reflect.MakeSlice(t.RT, src.Len(), src.Cap()))
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i), t.Elem)
		}
	case TArray:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i), t.Elem)
		}
	case TMap:
		if src.IsNil() {
			dst.Set(reflect.Zero(t.RT))
			return
		}
		dst.Set(reflect.MakeMap(t.RT))
		for _, k := range src.MapKeys() {
			e := reflect.New(t.Elem.RT).Elem()
			copyInto(e, src.MapIndex(k), t.Elem)
			dst.SetMapIndex(k, e)
		}
	case TPtr:
		if src.IsNil() {
			dst.Set(reflect.Zero(t.RT))
			return
		}
		dst.Set(reflect.New(t.Elem.RT))
		copyInto(dst.Elem(), src.Elem(), t.Elem)
	case TStruct:
		for i, f := range t.Fs {
			if !f.Hidden {
				copyInto(dst.Field(i), src.Field(i), f.T)
			}
		}
	case TJObj, TJDict, TJArr, TJStr:
		if src.IsNil() {
			dst.Set(reflect.Zero(t.RT))
			return
		}
		dst.Set(reflect.ValueOf(build(readAny(src, t))))
	case TJVal:
		p := build(readAny(src, t))
		dst.Set(reflect.ValueOf(p).Elem())
	default:
		dst.Set(src)
	}
}

// sameGo compares two values of a generated type.
func sameGo(want, got reflect.Value, t *T, where string) error {
	diff := func() error {
		return fmt.Errorf("%s: got %s, want %s", where, goShow(got), goShow(want))
	}
	switch t.K {
	case TTime:
		if !want.Interface().(time.Time).Equal(got.Interface().(time.Time)) {
			return diff()
		}
	case TSlice, TArray:
		if want.Len() != got.Len() || t.K == TSlice && want.IsNil() != got.IsNil() {
			return diff()
		}
		for i := 0; i < want.Len(); i++ {
			if err := sameGo(want.Index(i), got.Index(i), t.Elem, fmt.Sprintf("%s[%d]", where, i)); err != nil {
				return err
			}
		}
	case TMap:
		if want.Len() != got.Len() || want.IsNil() != got.IsNil() {
			return diff()
		}
		for _, k := range want.MapKeys() {
			g := got.MapIndex(k)
			if !g.IsValid() {
				return fmt.Errorf("%s: no entry %v", where, k)
			}
			if err := sameGo(want.MapIndex(k), g, t.Elem, fmt.Sprintf("%s[%v]", where, k)); err != nil {
				return err
			}
		}
	case TPtr:
		if want.IsNil() != got.IsNil() {
			return diff()
		}
		if !want.IsNil() {
			return sameGo(want.Elem(), got.Elem(), t.Elem, "*"+where)
		}
	case TStruct:
		for i, f := range t.Fs {
			if f.Hidden {
				continue
			}
			if err := sameGo(want.Field(i), got.Field(i), f.T, where+"."+f.Go); err != nil {
				return err
			}
		}
	case TJObj, TJDict, TJArr, TJStr, TJVal:
		if t.K != TJVal && (want.IsNil() || got.IsNil()) {
			if want.IsNil() != got.IsNil() {
				return diff()
			}
			return nil
		}
		x, y := readAny(want, t), readAny(got, t)
		if !eqV(x, y, false) {
			return fmt.Errorf("%s: got %s, want %s", where, y, x)
		}
	default:
		if !reflect.DeepEqual(want.Interface(), got.Interface()) {
			return diff()
		}
	}
	return nil
}

// ---------- the reference of Unmarshal ----------

type flatF struct {
	f    *F
	v    reflect.Value
	path string
}

// flat lists the fields of a struct with embedded structs spliced in.
func flat(v reflect.Value, t *T, path string) []flatF {
	var out []flatF
	for i, f := range t.Fs {
		if f.Hidden {
			continue
		}
		if f.Embed {
			fv, ft := v.Field(i), f.T
			if ft.K == TPtr {
				fv, ft = fv.Elem(), ft.Elem
			}
			out = append(out, flat(fv, ft, path+"."+f.Go)...)
			continue
		}
		out = append(out, flatF{f, v.Field(i), path + "." + f.Go})
	}
	return out
}

// refUnm stores a document of the right shape into v.
func refUnm(d *V, v reflect.Value, t *T) {
	if d.K == KNull {
		v.Set(reflect.Zero(t.RT))
		return
	}
	bad := func() { panic(fmt.Sprintf("refUnm: %s into %s", d, t)) }
	switch t.K {
	case TTime:
		if d.S == "" {
			v.Set(reflect.ValueOf(time.Time{}))
			return
		}
		tm, err := time.Parse(time.RFC3339Nano, d.S)
		if err != nil {
			bad()
		}
		v.Set(reflect.ValueOf(tm))
	case TSlice:
		if d.K != KArray {
			bad()
		}
		n := len(d.A)
		if v.IsNil() || v.Cap() < n {
			v.Set(reflect.MakeSlice(t.RT, n, n))
		}
		v.SetLen(n)
		for i, x := range d.A {
			refUnm(x, v.Index(i), t.Elem)
		}
	case TArray:
		if d.K != KArray || len(d.A) != v.Len() {
			bad()
		}
		for i, x := range d.A {
			refUnm(x, v.Index(i), t.Elem)
		}
	case TMap:
		if d.K != KDict {
			bad()
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(t.RT))
		}
		for k, x := range d.D {
			e := reflect.New(t.Elem.RT).Elem()
			refUnm(x, e, t.Elem)
			v.SetMapIndex(reflect.ValueOf(k).Convert(t.Key.RT), e)
		}
	case TPtr:
		if v.IsNil() {
			v.Set(reflect.New(t.Elem.RT))
		}
		refUnm(d, v.Elem(), t.Elem)
	case TStruct:
		if d.K != KDict {
			bad()
		}
		fs := flat(v, t, "")
		for k, x := range d.D {
			for _, f := range fs {
				if !f.f.Ignore && f.f.Name == k {
					refUnm(x, f.v, f.f.T)
				}
			}
		}
	case TJStr:
		e := refConv(d, t)
		if e.mode != expDoc {
			bad()
		}
		v.Set(reflect.ValueOf(build(e.doc)))
	case TJObj, TJDict, TJArr:
		v.Set(reflect.ValueOf(build(d)))
	case TJVal:
		old := readAny(v, t)
		switch d.K {
		case KDict:
			for k, x := range d.D {
				old.set(k, x)
			}
		case KArray:
			old.A = append(old.A, d.A...)
		default:
			e := refConv(d, t)
			if e.mode != expDoc {
				bad()
			}
			old = e.doc
		}
		v.Set(reflect.ValueOf(build(old)).Elem())
	default:
		e := refConv(d, t)
		switch e.mode {
		case expKeep:
		case expVal:
			v.Set(reflect.ValueOf(e.val))
		default:
			bad()
		}
	}
}

// soften removes from v the values whose combination with a document is not
// specified: elements of slices other than plain scalars are reused.
func soften(v reflect.Value, t *T) {
	switch t.K {
	case TSlice:
		switch t.Elem.K {
		case TBool, TInt, TUint, TF32, TF64, TString, TTri:
		default:
			v.Set(reflect.Zero(t.RT))
		}
	case TArray:
		for i := 0; i < v.Len(); i++ {
			soften(v.Index(i), t.Elem)
		}
	case TPtr:
		if !v.IsNil() {
			soften(v.Elem(), t.Elem)
		}
	case TStruct:
		for i, f := range t.Fs {
			if !f.Hidden {
				soften(v.Field(i), f.T)
			}
		}
	}
}

// thin changes a document of type t: keys are dropped, unknown keys and nulls
// are put in.
func (c *C) thin(d *V, t *T) {
	switch t.K {
	case TPtr:
		if d.K != KNull && t.Elem.K != TTime {
			c.thin(d, t.Elem)
		}
	case TSlice, TArray:
		for i, x := range d.A {
			if c.oneIn(16, "nullelem") && t.K == TSlice {
				d.A[i] = vNull()
				continue
			}
			c.thin(x, t.Elem)
		}
	case TMap:
		for _, k := range d.keys() {
			if c.oneIn(16, "nullentry") {
				d.set(k, vNull())
				continue
			}
			c.thin(d.D[k], t.Elem)
		}
	case TStruct:
		for _, f := range flat(reflect.New(t.RT).Elem(), t, "") {
			if f.f.Ignore {
				if c.oneIn(4, "ignored key") {
					d.set(kebab(f.f.Go), vStr("ignored"))
				}
				continue
			}
			x := d.D[f.f.Name]
			switch {
			case c.oneIn(4, "drop"):
				d.del(f.f.Name)
			case c.oneIn(8, "null"):
				d.set(f.f.Name, vNull())
			case x != nil && !f.f.Str:
				c.thin(x, f.f.T)
			}
		}
		if c.oneIn(4, "unknown") {
			d.set(pick(c, "unk", "zzq", "Zzq", "a_zzq", "", "zz.q"), c.smallV(1))
		}
	}
}

// clash tells whether an ignored field shares a JSON name with another field.
func (t *T) clash() bool {
	if t.K == TStruct {
		names := map[string]int{}
		var ign []string
		for _, f := range flat(reflect.New(t.RT).Elem(), t, "") {
			if f.f.Ignore {
				ign = append(ign, kebab(f.f.Go))
			} else {
				names[f.f.Name]++
				names[kebab(f.f.Go)]++
			}
		}
		for _, k := range ign {
			if names[k] > 0 {
				return true
			}
		}
		for _, f := range t.Fs {
			if f.T.clash() {
				return true
			}
		}
	}
	return t.Elem != nil && t.Elem.clash()
}

func init() {
	reg("P20", "merge", 8000, "a document with some keys left out, null or unknown, stored into a struct that already holds values, compared with a reference; non-trivial: the document has a known key and the struct a field that is not in it", func(c *C) {
		o := &typeOpt{json: true, iface: true, ignored: true, embedding: true}
		t := c.genStructT(3, o, map[string]bool{}, 0)
		if t.clash() {
			c.Case(false, t.String())
			return
		}
		src := reflect.New(t.RT).Elem()
		c.fill(src, t, true, &valOpt{noNull: true})
		d := refM(src, t, nil, false)
		c.thin(d, t)
		got := reflect.New(t.RT)
		c.fill(got.Elem(), t, true, &valOpt{})
		soften(got.Elem(), t)
		was := goShow(got.Elem())
		want := reflect.New(t.RT).Elem()
		copyInto(want, got.Elem(), t)
		known, missing := 0, 0
		for _, f := range flat(got.Elem(), t, "") {
			if _, ok := d.D[f.f.Name]; ok && !f.f.Ignore {
				known++
			} else {
				missing++
			}
		}
		// what the entries of its maps hold may be in use elsewhere
		var held []reflect.Value
		var heldWas []string
		var hold func(v reflect.Value)
		hold = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr:
				if !v.IsNil() {
					hold(v.Elem())
				}
			case reflect.Struct:
				for i := 0; i < v.NumField(); i++ {
					if v.Type().Field(i).IsExported() {
						hold(v.Field(i))
					}
				}
			case reflect.Map:
				for _, k := range v.MapKeys() {
					if e := v.MapIndex(k); e.Kind() == reflect.Slice || e.Kind() == reflect.Map || e.Kind() == reflect.Ptr {
						held = append(held, e)
						heldWas = append(heldWas, goShow(e))
					}
				}
			}
		}
		hold(got.Elem())
		defer func() {
			for i, e := range held {
				if now := goShow(e); now != heldWas[i] {
					c.Failf("what an entry of a map held is changed from %s to %s by %s", heldWas[i], now, d)
				}
			}
		}()
		c.LabelIf(len(held) > 0, "entries of maps held elsewhere")
		how := pick(c, "how", "built", "parsed", "update")
		if how == "update" && strings.Contains(d.String(), "null") {
			how = "built"
		}
		if how == "parsed" {
			d = norm(d)
		}
		c.Case(known > 0 && missing > 0, fmt.Sprintf("%s %s %s %s", how, t, d, was))
		c.Label(how)
		refUnm(d, want, t)
		var o2 ju.JSONObject = build(d)
		var err error
		c.Guard("Unmarshal", func() {
			switch how {
			case "built":
				err = o2.Unmarshal(got.Interface())
			case "parsed":
				if o2, err = ju.ParseString(refText(d)); err == nil {
					err = o2.Unmarshal(got.Interface())
				}
			case "update":
				err = ju.Update(got.Interface(), o2)
			}
		})
		if err != nil {
			c.Failf("%s into %s (%s): %v", d, t, was, err)
		}
		if err := sameGo(want, got.Elem(), t, "value"); err != nil {
			c.Failf("%s: %v\n document %s\n type %s\n was %s\n got %s", how, err, d, t, was, goShow(got.Elem()))
		}
		if o2.String() != build(d).String() {
			c.Failf("Unmarshal changed the document from %s to %s", d, o2)
		}
	})

	reg("P20", "update", 6000, "Update of a value of a generated type with another one of the same or another type that has nil and empty parts anywhere, compared with unmarshalling its marshalled document into a copy; the source is left alone; non-trivial: the source has a nil or empty part", func(c *C) {
		o := &typeOpt{json: true, embedding: true, ignored: true}
		t := c.genStructT(3, o, map[string]bool{}, 0)
		ts := t
		if c.oneIn(4, "other type") {
			ts = c.genStructT(2, o, map[string]bool{}, 0)
		}
		src := reflect.New(ts.RT)
		c.fill(src.Elem(), ts, true, &valOpt{})
		a, b := reflect.New(t.RT), reflect.New(t.RT)
		c.fill(a.Elem(), t, true, &valOpt{})
		soften(a.Elem(), t)
		copyInto(b.Elem(), a.Elem(), t)
		was, from := goShow(a.Elem()), goShow(src.Elem())
		var in interface{} = src.Interface()
		if c.flip("by value") {
			in = src.Elem().Interface()
		}
		keep := reflect.New(ts.RT)
		copyInto(keep.Elem(), src.Elem(), ts)
		c.Case(strings.Contains(from, "<nil>") || strings.Contains(from, "[]"), fmt.Sprintf("%s from %s: %s %s", t, ts, was, from))
		var e1, e2 error
		var doc ju.JSONObject
		c.Guard("Update", func() {
			e1 = ju.Update(a.Interface(), in)
			doc = ju.Marshal(in)
			e2 = doc.Unmarshal(b.Interface())
		})
		if (e1 == nil) != (e2 == nil) {
			c.Failf("Update of %s (%s) with %s (%s): %v, unmarshalling %s: %v", t, was, ts, from, e1, doc, e2)
		}
		if err := sameGo(b.Elem(), a.Elem(), t, "value"); err != nil {
			c.Failf("Update of %s (%s) with %s (%s): %v\n document %s\n got %s", t, was, ts, from, err, doc, goShow(a.Elem()))
		}
		if err := sameGo(keep.Elem(), src.Elem(), ts, "source"); err != nil {
			c.Failf("Update changes its source %s from %s to %s: %v", ts, from, goShow(src.Elem()), err)
		}
	})
	reg("P20", "embedptr", 3000, "a struct with one or two embedded struct pointers, nil or not, and a document that names some of its fields; a pointer none of whose fields is named stays as it is, one that is nil is allocated for a field that is named, and the other fields of the struct it points to keep their values; non-trivial: an embedded struct has a named field or is nil", func(c *C) {
		var sfs []reflect.StructField
		var embs [][]string
		names := []string{"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa"}
		goName := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
		take := func(n int) (l []string) {
			l, names = names[:n], names[n:]
			return
		}
		leafs := func(l []string) (r []reflect.StructField) {
			for _, s := range l {
				r = append(r, reflect.StructField{Name: goName(s), Type: pick(c, "leaf", reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf((*string)(nil)))})
			}
			return
		}
		for i := 0; i < 2; i++ {
			sfs = append(sfs, leafs(take(c.uni(3, "outer")))...)
			if i == 0 || c.flip("second") {
				l := take(1 + c.uni(3, "inner"))
				embs = append(embs, l)
				sfs = append(sfs, reflect.StructField{Name: fmt.Sprint("Emb", i), Type: reflect.PtrTo(reflect.StructOf(leafs(l))), Anonymous: true})
			}
		}
		rt := reflect.StructOf(sfs)
		p := reflect.New(rt)
		want := map[string]string{}
		preset := func(v reflect.Value, name string) {
			if !c.flip("old") {
				return
			}
			s := "old " + name
			switch v.Kind() {
			case reflect.String:
				v.SetString(s)
			case reflect.Slice:
				v.Set(reflect.ValueOf([]string{s}))
			case reflect.Map:
				v.Set(reflect.ValueOf(map[string]string{"k": s}))
			case reflect.Ptr:
				v.Set(reflect.ValueOf(&s))
			}
			want[name] = s
		}
		show := func(v reflect.Value) string {
			switch {
			case v.Kind() == reflect.String:
				return v.String()
			case v.Kind() == reflect.Slice && v.Len() == 1:
				return v.Index(0).String()
			case v.Kind() == reflect.Map && v.Len() == 1:
				return v.MapIndex(reflect.ValueOf("k")).String()
			case v.Kind() == reflect.Ptr && !v.IsNil():
				return v.Elem().String()
			case v.Kind() != reflect.Ptr && v.Len() > 0:
				return fmt.Sprint(v.Interface())
			}
			return ""
		}
		var ptrs []reflect.Value
		all := map[string]reflect.Type{}
		in := map[string]int{}
		for i := 0; i < rt.NumField(); i++ {
			sf, fv := rt.Field(i), p.Elem().Field(i)
			if !sf.Anonymous {
				all[strings.ToLower(sf.Name)] = sf.Type
				preset(fv, strings.ToLower(sf.Name))
				continue
			}
			et := sf.Type.Elem()
			if c.flip("set") {
				fv.Set(reflect.New(et))
			}
			for j := 0; j < et.NumField(); j++ {
				name := strings.ToLower(et.Field(j).Name)
				all[name] = et.Field(j).Type
				in[name] = len(ptrs) + 1
				if !fv.IsNil() {
					preset(fv.Elem().Field(j), name)
				}
			}
			ptrs = append(ptrs, reflect.ValueOf(fv.Interface()))
		}
		d := vDict()
		named := map[int]bool{}
		var l []string
		for s := range all {
			l = append(l, s)
		}
		sort.Strings(l)
		for _, s := range l {
			if !c.oneIn(3, "named") {
				continue
			}
			named[in[s]] = true
			v := "new " + s
			switch all[s].Kind() {
			case reflect.Slice:
				d.set(s, vArr(vStr(v)))
			case reflect.Map:
				d.set(s, vDict().set("k", vStr(v)))
			default:
				d.set(s, vStr(v))
			}
			want[s] = v
		}
		if c.oneIn(4, "unknown") {
			d.set(pick(c, "unk", "emb0", "emb1", "Emb0", "zzq"), pick(c, "unkv", vStr("x"), vDict().set("alpha", vStr("no")), vNull()))
		}
		nontriv := false
		for i, e := range ptrs {
			nontriv = nontriv || named[i+1] || e.IsNil()
		}
		c.Case(nontriv, fmt.Sprintf("%s %s %v", rt, d, want))
		var err error
		how := pick(c, "how", "Unmarshal", "Update")
		c.Guard(how, func() {
			if how == "Update" {
				err = ju.Update(p.Interface(), build(d))
			} else {
				err = build(d).Unmarshal(p.Interface())
			}
		})
		if err != nil {
			c.Failf("%s of %s into %s: %v", how, d, rt, err)
		}
		k := 0
		for i := 0; i < rt.NumField(); i++ {
			sf, fv := rt.Field(i), p.Elem().Field(i)
			if !sf.Anonymous {
				if got := show(fv); got != want[strings.ToLower(sf.Name)] {
					c.Failf("%s of %s into %s: %s is %q, want %q", how, d, rt, sf.Name, got, want[strings.ToLower(sf.Name)])
				}
				continue
			}
			was := ptrs[k]
			k++
			if !was.IsNil() && was.Pointer() != fv.Pointer() {
				c.Failf("%s of %s into %s: %s points to another struct", how, d, rt, sf.Name)
			}
			if was.IsNil() && fv.IsNil() == named[k] {
				c.Failf("%s of %s into %s: %s is %v, it was nil", how, d, rt, sf.Name, fv.Interface())
			}
			if fv.IsNil() {
				continue
			}
			for j := 0; j < fv.Elem().NumField(); j++ {
				name := strings.ToLower(fv.Elem().Type().Field(j).Name)
				if got := show(fv.Elem().Field(j)); got != want[name] {
					c.Failf("%s of %s into %s: %s.%s is %q, want %q", how, d, rt, sf.Name, name, got, want[name])
				}
			}
		}
	})

	reg("P20", "badfield", 6000, "a struct document in which 1-3 members (also of nested structs) cannot be stored, the others must be stored and an error returned; non-trivial: there is a bad member and a good one", func(c *C) {
		o := &typeOpt{json: true, ignored: true, embedding: true}
		t := c.genStructT(3, o, map[string]bool{}, 0)
		src := reflect.New(t.RT).Elem()
		c.fill(src, t, true, &valOpt{noNull: true})
		d := refM(src, t, nil, false)
		got, want := reflect.New(t.RT), reflect.New(t.RT).Elem()
		refUnm(d, want, t)
		bad, good := 0, 0
		var names []string
		var rec func(d *V, v reflect.Value, t *T, path string)
		var skip []string
		rec = func(d *V, v reflect.Value, t *T, path string) {
			for _, f := range flat(v, t, path) {
				x, ok := d.D[f.f.Name]
				if !ok || f.f.Ignore {
					continue
				}
				if f.f.T.K == TStruct && x.K == KDict && c.flip("into") {
					rec(x, f.v, f.f.T, f.path)
					continue
				}
				var b *V
				switch f.f.T.K {
				case TBool, TInt, TUint, TF32, TF64, TTri:
					b = pick(c, "badscalar", vArr(vInt(1)), vArr(), vDict().set("a", vInt(1)))
					if k := f.f.T.K; k != TBool && k != TTri && c.flip("badtext") {
						b = vStr("not a number")
					}
				case TSlice:
					b = pick(c, "badslice", vDict(), vInt(3), vBool(true))
				case TArray:
					b = pick(c, "badarray", vDict(), vInt(3), vStr("x"), vArr(make([]*V, 0)...))
					if b.K == KArray && f.v.Len() == 0 {
						b = vArr(vInt(1))
					}
				case TMap:
					b = pick(c, "badmap", vArr(), vInt(3), vStr("x"))
				case TStruct:
					b = pick(c, "badstruct", vArr(), vInt(3), vStr("x"))
				case TJDict, TJArr:
					b = pick(c, "badjson", vInt(3), vFloat(0.5), vStr("x"))
				}
				if b == nil || bad >= 3 || !c.flip("bad") {
					good++
					continue
				}
				bad++
				d.set(f.f.Name, b)
				names = append(names, f.f.Name)
				skip = append(skip, f.path)
			}
		}
		rec(d, got.Elem(), t, "value")
		c.Case(bad > 0 && good > 0, fmt.Sprintf("%s %s", t, d))
		c.Label(fmt.Sprintf("bad members %d", bad))
		var err error
		c.Guard("Unmarshal", func() { err = build(d).Unmarshal(got.Interface()) })
		if (err != nil) != (bad > 0) {
			c.Failf("%d bad members %q, error %v\n document %s\n type %s", bad, names, err, d, t)
		}
		// the bad members themselves are not compared
		var blank func(v reflect.Value, t *T, path string)
		blank = func(v reflect.Value, t *T, path string) {
			for _, f := range flat(v, t, path) {
				if inList(f.path, skip) {
					f.v.Set(reflect.Zero(f.f.T.RT))
				} else if f.f.T.K == TStruct {
					blank(f.v, f.f.T, f.path)
				}
			}
		}
		blank(got.Elem(), t, "value")
		blank(want, t, "value")
		if err := sameGo(want, got.Elem(), t, "value"); err != nil {
			c.Failf("bad members %q: %v\n document %s\n type %s", names, err, d, t)
		}
	})

	reg("P21", "names", 12000, "a struct whose JSON names and Go names overlap, and a document whose keys are spellings of them; non-trivial: a key without exact match", checkFieldNames)
	reg("P21", "deprecated", 8000, "a struct with fields deprecated in favour of others (chains, loops, unknown names), marshalled and filled from documents; non-trivial: a deprecated field with an existing successor", checkDeprecated)
	regFixed("P21", "regressions", "a chain of deprecated fields that leads into a loop", func(c *C) {
		c.Case(true, "rho")
		type s struct {
			A string `json:"a" yunion-deprecated-by:"b"`
			B string `json:"b" yunion-deprecated-by:"x"`
			X string `json:"x" yunion-deprecated-by:"b"`
			N string `json:"n"`
		}
		if got := ju.Marshal(s{"1", "2", "3", "4"}).String(); got != `{"n":"4"}` {
			c.Failf("loop of deprecated fields: %s", got)
		}
	})
	reg("P27", "totality", 10000, "a document of any shape (also with node ids and references) into a target of any generated type; non-trivial: the document is a container and so is the target", func(c *C) {
		o := &typeOpt{json: true, iface: true, intKeys: true, ptrPtr: true, strConts: true, ignored: true, embedPtr: true, embedding: true}
		var t *T
		if c.flip("struct") {
			t = c.genStructT(3, o, map[string]bool{}, 0)
		} else {
			t = c.genT(3, o)
		}
		var doc ju.JSONObject
		var d *V
		desc := ""
		switch c.uni(4, "dk") {
		case 0:
			d = c.genDoc()
		default:
			// near the type: a document of a value of the type, with damage
			v := reflect.New(t.RT).Elem()
			c.fill(v, t, true, &valOpt{nilElems: true})
			d = refM(v, t, nil, c.flip("all"))
			if d == nil {
				d = vNull()
			}
			d = d.clone()
			c.damage(d)
		}
		desc = refText(d)
		if c.flip("nodes") {
			desc = c.nodify(desc)
			var err error
			if doc, err = ju.ParseString(desc); err != nil {
				c.Case(false, desc)
				return
			}
		} else {
			doc = build(d)
		}
		c.Case((d.K == KDict || d.K == KArray) && (t.K == TStruct || t.K == TMap || t.K == TSlice || t.K == TArray), fmt.Sprintf("%s %s", t, desc))
		text := doc.String()
		p, q := reflect.New(t.RT), reflect.New(t.RT)
		var e1, e2 error
		c.Guard(fmt.Sprintf("Unmarshal of %s into %s", desc, t), func() {
			e1 = doc.Unmarshal(p.Interface())
			e2 = doc.Unmarshal(q.Interface())
		})
		c.LabelIf(e1 != nil, "error")
		for i := 0; ; i++ {
			if errText(e1) != errText(e2) {
				c.Failf("%s into %s: %v, then %v", desc, t, e1, e2)
			}
			if !reflect.DeepEqual(p.Interface(), q.Interface()) && !strings.Contains(strings.ToLower(desc), "nan") {
				c.Failf("%s into two variables of type %s leaves %s and %s (%v)", desc, t, goShow(p.Elem()), goShow(q.Elem()), e1)
			}
			if e1 == nil || i > 2 {
				break
			}
			q = reflect.New(t.RT)
			e2 = doc.Unmarshal(q.Interface())
		}
		if s := doc.String(); s != text {
			c.Failf("Unmarshal changed the document from %s to %s", text, s)
		}
		if c.oneIn(4, "again") {
			// a target that holds values
			r := reflect.New(t.RT)
			c.fill(r.Elem(), t, true, &valOpt{nilElems: true})
			c.Guard(fmt.Sprintf("Unmarshal of %s into %s holding %s", desc, t, goShow(r.Elem())), func() { doc.Unmarshal(r.Interface()) })
		}
	})
	reg("P27", "refs", 3000, "a node and a reference to it in two fields, in either order, of the same or another type; non-trivial: the types differ", func(c *C) {
		ra := reflect.TypeOf(rNode{})
		nt := pick(c, "node", ra, reflect.PtrTo(ra))
		rts := []reflect.Type{reflect.PtrTo(ra), ra, reflect.TypeOf(&rOther{}), reflect.TypeOf(rOther{}), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(new(string)), ju.JSONObjectType, ju.JSONDictPtrType, reflect.TypeOf(false), reflect.TypeOf(1.5), reflect.TypeOf([]*rNode{}), reflect.TypeOf(new(*rNode)), reflect.TypeOf(&rTwin{}), reflect.TypeOf(rTwin{}), reflect.TypeOf((*rAlias)(nil)), reflect.TypeOf(&struct {
			Id int
			P  *rNode
		}{})}
		rt := rts[c.uni(len(rts), "ref")]
		if c.oneIn(4, "same") {
			rt = rts[0]
		}
		nk, rk := "a", "b"
		if c.flip("order") {
			nk, rk = rk, nk
		}
		fs := []reflect.StructField{{Name: strings.ToUpper(nk), Type: nt}, {Name: strings.ToUpper(rk), Type: rt}, {Name: "Z", Type: reflect.TypeOf("")}, {Name: "Aa", Type: reflect.TypeOf(0)}}
		st := reflect.StructOf(fs)
		text := fmt.Sprintf(`{"%s":{"___jnid_":%d,"id":7},"%s":<%[2]d>,"z":"end","aa":5}`, nk, 1+c.uni(3, "nid"), rk)
		in := "field"
		tt := st
		if c.flip("nested") {
			in = "nested"
			tt = reflect.StructOf([]reflect.StructField{{Name: "S", Type: reflect.SliceOf(st)}})
			text = `{"s":[` + text + `]}`
		}
		c.Case(rt != rts[0], text+" "+st.String())
		c.LabelIf(rt == rts[0], "same type")
		c.Label(in)
		doc, err := ju.ParseString(text)
		if err != nil {
			c.Failf("parse %s: %v", text, err)
		}
		v := reflect.New(tt)
		c.Guard("Unmarshal of "+text+" into "+st.String(), func() { err = doc.Unmarshal(v.Interface()) })
		s := v.Elem()
		if in == "nested" {
			if s.Field(0).Len() != 1 {
				c.Failf("%s: slice is lost: %s, error %v", text, goShow(v.Elem()), err)
			}
			s = s.Field(0).Index(0)
		}
		if s.Field(2).String() != "end" || s.Field(3).Int() != 5 {
			c.Failf("%s: other fields are not set: %s, error %v", text, goShow(s), err)
		}
		if rt != rts[0] {
			if err == nil {
				c.Failf("%s: the reference is stored in a %s without an error: %s", text, rt, goShow(s))
			}
			if !s.Field(1).IsZero() {
				c.Failf("%s: the refused reference has set its field: %s", text, goShow(s))
			}
			return
		}
		n := s.Field(0)
		if nt == ra {
			n = n.Addr()
		}
		if err != nil || n.Interface().(*rNode) == nil || n.Interface().(*rNode) != s.Field(1).Interface().(*rNode) || n.Interface().(*rNode).Id != 7 {
			c.Failf("%s: the reference is not the node: %s, error %v", text, goShow(s), err)
		}
	})
	reg("P27", "prefilled", 4000, "a document of any shape into an interface{} that holds a value, a pointer, a pointer to a pointer or itself, at top level, in a field, slice or map; non-trivial: the interface holds a pointer", func(c *C) {
		n := c.uni(9, "hold")
		mk := func() interface{} {
			i, s := 3, "x"
			pi := &i
			switch n {
			case 0:
				return nil
			case 1:
				return 5
			case 2:
				return pi
			case 3:
				return &pi
			case 4:
				return &s
			case 5:
				return &rNode{Id: 2}
			case 6:
				p := &rNode{Id: 2}
				return &p
			case 7:
				return &map[string]int{"a": 1}
			}
			var x interface{}
			x = &x
			return x
		}
		d := c.genDoc()
		if c.flip("fit") {
			d = c.smallV(2)
		}
		where := c.uni(4, "where")
		if where > 0 {
			d = vDict().set("f", d).set("l", vArr(d, d)).set("m", vDict().set("k", d)).set("z", vStr("end"))
		}
		doc := build(d)
		text := doc.String()
		c.Case(n > 1, fmt.Sprintf("%s into an interface holding %T (%d), place %d", text, mk(), n, where))
		type holderT struct {
			F interface{}
			L []interface{}
			M map[string]interface{}
			Z string
		}
		run := func() (interface{}, error) {
			if where == 0 {
				x := mk()
				err := doc.Unmarshal(&x)
				return x, err
			}
			h := &holderT{F: mk()}
			if where == 2 {
				h.L = []interface{}{mk(), mk()}
			}
			if where == 3 {
				h.M = map[string]interface{}{"k": mk()}
			}
			err := doc.Unmarshal(h)
			if h.Z != "end" {
				c.Failf("%s: the other field is not set: %v", text, err)
			}
			return h, err
		}
		var e1, e2 error
		c.Guard("Unmarshal", func() {
			_, e1 = run()
			_, e2 = run()
		})
		c.LabelIf(e1 != nil, "error")
		if (e1 == nil) != (e2 == nil) {
			c.Failf("%s: %v, then %v", text, e1, e2)
		}
		if s := doc.String(); s != text {
			c.Failf("Unmarshal changed the document from %s to %s", text, s)
		}
	})
	regFixed("P27", "regressions", "mismatched references and interface targets", func(c *C) {
		c.Case(true, "mismatched reference")
		d, err := ju.ParseString(`{"a":{"___jnid_":1,"id":7},"b":<1>}`)
		if err != nil {
			c.Failf("parse %v", err)
		}
		var s struct {
			A struct{ Id int }
			B string
		}
		c.Guard("Unmarshal", func() { err = d.Unmarshal(&s) })
		if err == nil {
			c.Failf("a reference to a struct stored into a string: %+v", s)
		}
		c.Case(true, "interface target")
		var x struct{ A fmt.Stringer }
		for _, text := range []string{`{"a":1}`, `{"a":"x"}`, `{"a":true}`, `{"a":1.5}`, `{"a":[1]}`} {
			d, _ := ju.ParseString(text)
			c.Guard("Unmarshal "+text, func() { err = d.Unmarshal(&x) })
			if err == nil {
				c.Failf("%s stored into a fmt.Stringer: %v", text, x.A)
			}
		}
	})
}

type rNode struct {
	Id int
	P  *rNode
}

// types with the fields of rNode
type rTwin struct {
	Id int
	P  *rNode
}

type rAlias rNode

type rOther struct {
	Id string
	P  *rNode
}

// damage replaces random parts of a document.
func (c *C) damage(d *V) {
	if c.oneIn(8, "dmg") {
		*d = *c.smallV(2)
		return
	}
	for _, x := range d.A {
		c.damage(x)
	}
	for _, k := range d.keys() {
		if c.oneIn(12, "dmgnull") {
			d.set(k, vNull())
			continue
		}
		c.damage(d.D[k])
	}
}

// nodify puts node ids and references into a JSON text.
func (c *C) nodify(s string) string {
	var sb strings.Builder
	id := 0
	inStr := false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case inStr:
			if ch == '\\' {
				sb.WriteByte(ch)
				i++
				ch = s[i]
			} else if ch == '"' {
				inStr = false
			}
		case ch == '"':
			inStr = true
		case ch == '{' && i+1 < len(s) && c.flip("nid"):
			id++
			fmt.Fprintf(&sb, `{"___jnid_":%d`, id)
			if s[i+1] != '}' {
				sb.WriteByte(',')
			}
			continue
		case ch == ':' && c.oneIn(4, "nref"):
			fmt.Fprintf(&sb, ":<%d>", 1+c.uni(4, "ref"))
			// skip the value
			depth, in := 0, false
			for i++; i < len(s); i++ {
				if in {
					if s[i] == '\\' {
						i++
					} else if s[i] == '"' {
						in = false
					}
				} else if s[i] == '"' {
					in = true
				} else if s[i] == '{' || s[i] == '[' {
					depth++
				} else if s[i] == '}' || s[i] == ']' {
					if depth == 0 {
						break
					}
					depth--
				} else if s[i] == ',' && depth == 0 {
					break
				}
			}
			if i < len(s) {
				sb.WriteByte(s[i])
			}
			continue
		}
		sb.WriteByte(ch)
	}
	return sb.String()
}

// ---------- P21 ----------

// nameTokens splits a spelling of a name into lower case words.
func nameTokens(s string) string {
	var out []string
	cur := ""
	prevUp := false
	for _, r := range s {
		up := r >= 'A' && r <= 'Z'
		switch {
		case r == '_' || r == '-':
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		case up && !prevUp && cur != "":
			out = append(out, cur)
			cur = strings.ToLower(string(r))
		default:
			cur += strings.ToLower(string(r))
		}
		prevUp = up
	}
	if cur != "" {
		out = append(out, cur)
	}
	return strings.Join(out, "_")
}

var fewWords = []string{"Alpha", "Beta", "Gamma", "Delta"}

func (c *C) fewName() string {
	s := fewWords[c.uni(4, "w")]
	if c.flip("two") {
		s += fewWords[c.uni(4, "w")]
		if c.oneIn(8, "many") {
			for i := 1 + c.uni(10, "manyn"); i > 0; i-- {
				s += fewWords[c.uni(4, "w")]
			}
		}
	}
	return s
}

func (c *C) spelling(goName string) string {
	switch c.uni(7, "spell") {
	case 0:
		return kebab(goName)
	case 1:
		return goName
	case 2:
		return strings.ToLower(goName[:1]) + goName[1:]
	case 3:
		return strings.ReplaceAll(kebab(goName), "_", "-")
	case 4:
		return strings.ToUpper(goName)
	case 5:
		return strings.ToLower(goName)
	}
	return strings.ToUpper(kebab(goName))
}

type namedF struct{ goName, json, dep string }

// refMatch is the set of fields that a document key is stored in.
func refMatch(fs []namedF, key string) []int {
	var out []int
	for i, f := range fs {
		if f.json == key {
			out = append(out, i)
		}
	}
	if len(out) > 0 {
		return out
	}
	capKey := key
	if key != "" {
		capKey = strings.ToUpper(key[:1]) + strings.ToLower(key[1:])
	}
	for i, f := range fs {
		if kebab(f.goName) == nameTokens(key) || f.goName == key || f.goName == capKey {
			out = append(out, i)
		}
	}
	return out
}

func checkFieldNames(c *C) {
	var fs []namedF
	var sfs, emb []reflect.StructField
	used := map[string]bool{}
	embUsed := map[string]bool{}
	ptr := c.flip("embptr")
	for i := c.intn(1, 6, "nf"); i > 0; i-- {
		f := namedF{goName: c.fewName()}
		f.json = kebab(f.goName)
		tag := ""
		if c.oneIn(3, "tag") {
			f.json = c.spelling(c.fewName())
			tag = fmt.Sprintf(`json:"%s"`, f.json)
		}
		sf := reflect.StructField{Name: f.goName, Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)}
		if c.oneIn(3, "inner") {
			if embUsed[f.goName] {
				continue
			}
			embUsed[f.goName] = true
			emb = append(emb, sf)
			continue
		}
		if used[f.goName] {
			continue
		}
		used[f.goName] = true
		sfs = append(sfs, sf)
		fs = append(fs, f)
	}
	if len(emb) > 0 {
		et := reflect.StructOf(emb)
		if ptr {
			et = reflect.PtrTo(et)
		}
		sfs = append(sfs, reflect.StructField{Name: "Inner", Type: et, Anonymous: true})
		for _, sf := range emb {
			f := namedF{goName: sf.Name, json: kebab(sf.Name)}
			if j := sf.Tag.Get("json"); j != "" {
				f.json = j
			}
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		c.Case(false, "empty")
		return
	}
	rt := reflect.StructOf(sfs)
	d := vDict()
	hits := make([][]string, len(fs))
	inexact := false
	focus := fs[c.uni(len(fs), "focus")]
	focused := c.flip("focused")
	for i := c.intn(1, 4, "nk"); i > 0; i-- {
		var k string
		switch kk := c.uni(4, "kk"); {
		case focused && kk < 3:
			// several keys for one field
			k = pick(c, "fk", focus.json, focus.goName, c.spelling(focus.goName), c.spelling(focus.goName), c.spelling(focus.json))
		case kk == 0:
			k = fs[c.uni(len(fs), "kf")].json
		case kk < 3:
			k = c.spelling(fs[c.uni(len(fs), "kf")].goName)
		default:
			k = c.spelling(c.fewName())
		}
		if _, ok := d.D[k]; ok {
			continue
		}
		d.set(k, vStr("value of "+k))
	}
	// of several keys for one field the last in order decides
	for _, k := range d.keys() {
		for _, j := range refMatch(fs, k) {
			hits[j] = []string{"value of " + k}
			inexact = inexact || fs[j].json != k
		}
	}
	c.Case(inexact, fmt.Sprintf("%s %s", rt, d))
	p := reflect.New(rt)
	var err error
	c.Guard("Unmarshal", func() { err = build(d).Unmarshal(p.Interface()) })
	if err != nil {
		c.Failf("%s into %s: %v", d, rt, err)
	}
	i := 0
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		for j := 0; j < v.NumField(); j++ {
			fv := v.Field(j)
			if v.Type().Field(j).Anonymous {
				if fv.Kind() == reflect.Ptr {
					if fv.IsNil() {
						for range emb {
							if len(hits[i]) > 0 {
								c.Failf("%s into %s: embedded struct is nil, want its %s set to %q", d, rt, fs[i].goName, hits[i])
							}
							i++
						}
						continue
					}
					fv = fv.Elem()
				}
				rec(fv)
				continue
			}
			got := fv.String()
			if len(hits[i]) == 0 && got != "" || len(hits[i]) > 0 && !inList(got, hits[i]) {
				c.Failf("%s into %s: field %s (JSON name %q) is %q, want %q", d, rt, fs[i].goName, fs[i].json, got, hits[i])
			}
			i++
		}
	}
	rec(p.Elem())
}

func checkDeprecated(c *C) {
	var fs []namedF
	var sfs []reflect.StructField
	n := c.intn(2, 6, "nf")
	names := []string{"alpha", "beta", "gamma", "delta", "eps", "zeta"}[:n]
	vals := map[string]string{}
	byName := map[string]namedF{}
	// names that differ in the case of their letters only
	folded := c.oneIn(3, "folded")
	c.LabelIf(folded, "names equal but for case")
	for i, nm := range names {
		f := namedF{goName: strings.ToUpper(nm[:1]) + nm[1:], json: nm}
		tag := ""
		if c.oneIn(2, "hastag") {
			f.json = "j-" + nm
			if folded {
				f.json = []string{"j-k", "J-k", "j-K", "J-K", "J-\u212a", "j-\u212a"}[i]
			}
			tag = fmt.Sprintf(`json:"%s"`, f.json)
		}
		fs = append(fs, f)
		sfs = append(sfs, reflect.StructField{Name: f.goName, Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)})
	}
	nontriv := false
	for i := range fs {
		if c.oneIn(2, "dep") {
			if c.oneIn(8, "nowhere") {
				fs[i].dep = "nowhere"
			} else {
				fs[i].dep = fs[c.uni(n, "depto")].json
				nontriv = true
			}
			sfs[i].Tag = reflect.StructTag(strings.TrimSpace(string(sfs[i].Tag) + fmt.Sprintf(` yunion-deprecated-by:"%s"`, fs[i].dep)))
		}
		byName[fs[i].json] = fs[i]
	}
	// some of them may be in an embedded struct or behind an embedded pointer
	outer := sfs
	if c.oneIn(3, "embedded") {
		lo := c.uni(n, "emblo")
		hi := lo + 1 + c.uni(n-lo, "embhi")
		et := reflect.StructOf(sfs[lo:hi])
		if c.flip("embptr") {
			et = reflect.PtrTo(et)
		}
		outer = append(append(append([]reflect.StructField{}, sfs[:lo]...), reflect.StructField{Name: "Inner", Type: et, Anonymous: true}), sfs[hi:]...)
		c.Label("embedded " + et.Kind().String())
	}
	rt := reflect.StructOf(outer)
	// field is the i-th field of a struct, its embedded struct is made if need be
	field := func(v reflect.Value, i int, make bool) reflect.Value {
		if e := v.FieldByName("Inner"); e.IsValid() && e.Kind() == reflect.Ptr && e.IsNil() {
			if !make {
				if _, ok := e.Type().Elem().FieldByName(fs[i].goName); ok {
					return reflect.ValueOf("")
				}
			} else {
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
		return v.FieldByName(fs[i].goName)
	}
	p := reflect.New(rt)
	for i, f := range fs {
		if c.oneIn(4, "novalue") {
			continue
		}
		vals[f.json] = "v" + f.json
		field(p.Elem(), i, true).SetString("v" + f.json)
	}
	want := vDict()
	for _, f := range fs {
		k, seen := f, map[string]bool{}
		loop := false
		for k.dep != "" {
			if seen[k.json] {
				loop = true
				break
			}
			seen[k.json] = true
			next, ok := byName[k.dep]
			if !ok {
				loop = true // leads nowhere
				break
			}
			k = next
		}
		if !loop && vals[k.json] != "" {
			want.set(f.json, vStr(vals[k.json]))
		}
	}
	c.Case(nontriv, fmt.Sprintf("%s %v", rt, vals))
	var m ju.JSONObject
	c.Guard("Marshal", func() { m = ju.Marshal(p.Elem().Interface()) })
	c.sameDoc(fmt.Sprintf("Marshal of %+v of %s", p.Elem().Interface(), rt), want, m, false)

	// several fields of one name: the last that is written wins, under every name
	if c.oneIn(3, "twins") {
		type slot struct {
			sf  reflect.StructField
			key string
			val string
		}
		var sl []slot
		for i, f := range fs {
			sl = append(sl, slot{sfs[i], f.json, vals[f.json]})
		}
		for i, f := range fs {
			if f.dep != "" || !c.flip("twin") {
				continue
			}
			t := slot{reflect.StructField{Name: "Twin" + f.goName, Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, f.json))}, f.json, pick(c, "tv", "", fmt.Sprint("t", i))}
			at := c.uni(len(sl)+1, "twinat")
			sl = append(sl[:at:at], append([]slot{t}, sl[at:]...)...)
		}
		var l []reflect.StructField
		last := map[string]string{}
		for _, s := range sl {
			l = append(l, s.sf)
			if s.val != "" {
				last[s.key] = s.val
			}
		}
		tt := reflect.StructOf(l)
		v := reflect.New(tt).Elem()
		for i, s := range sl {
			v.Field(i).SetString(s.val)
		}
		want := vDict()
		for _, f := range fs {
			k, ok, seen := f, true, map[string]bool{}
			for ok && k.dep != "" && !seen[k.json] {
				seen[k.json] = true
				k, ok = byName[k.dep], byName[k.dep].json != ""
			}
			if ok && !seen[k.json] && last[k.json] != "" {
				want.set(f.json, vStr(last[k.json]))
			}
		}
		var m ju.JSONObject
		c.Guard("Marshal", func() { m = ju.Marshal(v.Interface()) })
		c.sameDoc(fmt.Sprintf("Marshal of %+v of %s", v.Interface(), tt), want, m, false)
		c.Label("several fields of one name")
	}

	// each key of a document reaches its field and all its successors; a field
	// reached by several keys gets the value of the last of them, as the keys
	// of a dict are taken in order
	q := reflect.New(rt)
	olds := make([]string, n)
	if c.flip("preset") {
		for i := range fs {
			if c.flip("old") {
				olds[i] = "old" + fs[i].json
				field(q.Elem(), i, true).SetString(olds[i])
			}
		}
	}
	set := map[string]string{}
	doc := vDict()
	for i := 1 + c.uni(4, "nkeys"); i > 0; i-- {
		x := vStr(fmt.Sprintf("new%d", i))
		if c.oneIn(5, "emptyval") {
			x = pick(c, "ev", vStr(""), vNull())
		}
		doc.set(fs[c.uni(n, "start")].json, x)
	}
	for _, k := range doc.keys() {
		val := doc.D[k].S
		seen := map[string]bool{}
		for g := byName[k]; !seen[g.json]; {
			seen[g.json] = true
			set[g.json] = val
			next, ok := byName[g.dep]
			if g.dep == "" || !ok {
				break
			}
			g = next
		}
	}
	c.LabelIf(len(doc.D) > 1, "several keys")
	var err error
	c.Guard("Unmarshal", func() { err = build(doc).Unmarshal(q.Interface()) })
	if err != nil {
		c.Failf("%s into %s: %v", doc, rt, err)
	}
	for i, g := range fs {
		w, ok := set[g.json]
		if !ok {
			w = olds[i]
		}
		if got := field(q.Elem(), i, false).String(); got != w {
			c.Failf("%s into %s: %s is %q, want %q", doc, rt, g.goName, got, w)
		}
	}
}
