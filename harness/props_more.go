package main

// Further checks of P16, P17, P19, P20: repaired defects, documents of
// containers into scalar targets.

import (
	"fmt"
	"reflect"
	"strings"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

type rBool bool
type rInt int

func init() {
	regFixed("P16", "regressions", "values of named bool types", func(c *C) {
		type T struct {
			B rBool
			P *rBool
			L []rBool
			M map[string]rBool
			I rInt
		}
		y := rBool(true)
		x := T{B: true, P: &y, L: []rBool{true, false}, M: map[string]rBool{"k": true}, I: 3}
		c.Case(true, "named bools")
		d := ju.Marshal(x)
		c.sameDoc("named bools", vDict().set("b", vBool(true)).set("p", vBool(true)).set("l", vArr(vBool(true), vBool(false))).set("m", vDict().set("k", vBool(true))).set("i", vInt(3)), d, false)
		var b T
		if err := mustParse(c, d.String()).Unmarshal(&b); err != nil || !reflect.DeepEqual(x, b) {
			c.Failf("%s comes back as %+v %v", d, b, err)
		}
	})
	regFixed("P17", "regressions", "JSONNull, references and maps with integer keys marshalled", func(c *C) {
		c.Case(true, "JSONNull")
		if s := ju.Marshal(ju.JSONNull).String(); s != "null" {
			c.Failf("Marshal(JSONNull) is %s", s)
		}
		c.sameDoc("documents", vArr(vNull(), vInt(1)), ju.MarshalAll([]ju.JSONObject{ju.JSONNull, ju.NewInt(1)}), false)
		c.Case(true, "reference")
		d := mustParse(c, `{"a":{"___jnid_":1,"x":2},"b":<1>}`)
		b, _ := d.Get("b")
		if s := ju.Marshal(map[string]ju.JSONObject{"k": b}).String(); s != `{"k":<1>}` {
			c.Failf("a reference is marshalled as %s", s)
		}
		c.Case(true, "integer keys")
		c.sameDoc("integer keys", vDict().set("-1", vInt(1)).set("20", vInt(2)), ju.Marshal(map[int]int{-1: 1, 20: 2}), false)
		c.sameDoc("bool keys", vDict().set("true", vStr("x")), ju.Marshal(map[rBool]string{true: "x"}), false)
	})
	regFixed("P19", "regressions", "plain cases", func(c *C) {
		c.Case(true, "numbers and booleans at top level")
		i, f, b, s, u := 7, 7.0, true, "old", uint8(7)
		for _, e := range []error{ju.NewInt(5).Unmarshal(&i), ju.NewFloat64(2.5).Unmarshal(&f), ju.NewBool(false).Unmarshal(&b), ju.NewInt(12).Unmarshal(&s), ju.NewInt(9).Unmarshal(&u)} {
			if e != nil {
				c.Failf("%v", e)
			}
		}
		if i != 5 || f != 2.5 || b || s != "12" || u != 9 {
			c.Failf("scalars at top level give %v %v %v %v %v", i, f, b, s, u)
		}
		if e := ju.Update(&i, 11); e != nil || i != 11 {
			c.Failf("Update(&int, 11) gives %v %v", i, e)
		}
		c.Case(true, "booleans and floats into unsigned integers")
		var us struct {
			A uint8
			B uint64
			C uint
		}
		if e := mustParse(c, `{"a":true,"b":12.0,"c":7.5}`).Unmarshal(&us); e != nil || us.A != 1 || us.B != 12 || us.C != 7 {
			c.Failf("%+v %v", us, e)
		}
		c.Case(true, "tristate")
		ts := struct{ T tristate.TriState }{tristate.True}
		if e := mustParse(c, `{"t":"no"}`).Unmarshal(&ts); e != nil || ts.T != tristate.False {
			c.Failf("tristate from no: %v %v", ts.T, e)
		}
		for _, d := range []string{`{"t":[]}`, `{"t":{"a":1}}`} {
			ts.T = tristate.True
			e := mustParse(c, d).Unmarshal(&ts)
			if e == nil || !strings.Contains(e.Error(), ju.ErrTypeMismatch.Error()) || ts.T != tristate.True {
				c.Failf("tristate from %s: %v %v", d, ts.T, e)
			}
		}
		c.Case(true, "floats as strings")
		for _, f := range []float64{0.1, 123456789.125, 1e-7, 3.0000001} {
			if s, w := ju.NewFloat64(f).String(), fmt.Sprintf("%v", f); !strings.Contains(w, "e") && s != w {
				c.Failf("%v as string is %s", f, s)
			}
			var t string
			if e := ju.NewFloat64(f).Unmarshal(&t); e != nil || t != ju.NewFloat64(f).String() {
				c.Failf("%v into a string is %q %v", f, t, e)
			}
		}
	})

	reg("P19", "containers", 12000, "an array or dict document and a target that is no container: strings take its text, scalars and tristates are refused and left alone, JSON typed targets take it when the type fits; non-trivial: the document is not empty", func(c *C) {
		var d *V
		if c.flip("arr") {
			d = vArr()
			for i := c.uni(4, "n"); i > 0; i-- {
				d.A = append(d.A, c.smallV(2))
			}
		} else {
			d = c.genDict(2, 3)
		}
		var t *T
		for t == nil || t.K == TSlice || t.K == TArray || t.K == TMap || t.K == TStruct {
			t = convTargets[c.uni(len(convTargets), "target")]
		}
		field := c.flip("field")
		c.Case(len(d.A)+len(d.D) > 0, fmt.Sprintf("%s into %s, field %v", d, t, field))
		old := reflect.New(t.RT).Elem()
		if c.flip("preset") {
			c.preset(old, t)
		}
		o := build(d)
		var v reflect.Value
		var err error
		c.Guard(fmt.Sprintf("Unmarshal of %s into %s", d, t), func() {
			if field {
				p := reflect.New(holder(t.RT))
				p.Elem().Field(1).Set(old)
				doc := ju.NewDict()
				doc.Set("a", ju.NewInt(41))
				doc.Set("x", o)
				doc.Set("z", ju.NewString("zz"))
				err = doc.Unmarshal(p.Interface())
				v = p.Elem().Field(1)
				if p.Elem().Field(0).Int() != 41 || p.Elem().Field(2).String() != "zz" {
					c.Failf("%s into %s: the fields beside are %v and %q", d, t, p.Elem().Field(0).Int(), p.Elem().Field(2).String())
				}
			} else {
				p := reflect.New(t.RT)
				p.Elem().Set(old)
				err = o.Unmarshal(p.Interface())
				v = p.Elem()
			}
		})
		takes := false
		switch t.RT {
		case ju.JSONObjectType:
			takes = true
		case ju.JSONDictPtrType, ju.JSONDictType:
			takes = d.K == KDict
		case ju.JSONArrayPtrType, ju.JSONArrayType:
			takes = d.K == KArray
		}
		switch {
		case t.K == TTime:
			// time.Time is a struct of unexported fields
			return
		case t.K == TString:
			if err != nil || v.String() != o.String() {
				c.Failf("%s into %s gives %q, %v", d, t, v.String(), err)
			}
		case takes:
			if err != nil {
				c.Failf("%s into %s: %v", d, t, err)
			}
			if t.RT.Kind() == reflect.Struct {
				if !old.IsZero() {
					return // merged with what was there
				}
				q := reflect.New(t.RT)
				q.Elem().Set(v)
				v = q
			}
			got, _ := v.Interface().(ju.JSONObject)
			if got == nil {
				c.Failf("%s into %s gives nil", d, t)
			}
			c.sameDoc(fmt.Sprintf("%s into %s", d, t), d, got, false)
		case t.K == TIface:
			if d.K == KDict {
				if err == nil {
					c.Failf("%s into interface{} gives %v without an error", d, v)
				}
				return
			}
			l, ok := v.Interface().([]ju.JSONObject)
			if err != nil || !ok {
				c.Failf("%s into interface{} gives %v, %v", d, v, err)
			}
			c.sameDoc("array into interface{}", d, ju.NewArray(l...), false)
		default:
			if err == nil {
				c.Failf("%s into %s gives %v without an error", d, t, goShow(v))
			}
			if !field && !isErr(err, ju.ErrTypeMismatch) {
				c.Failf("%s into %s: %v", d, t, err)
			}
			if v.Kind() == reflect.Ptr && old.IsNil() && !v.IsNil() && v.Elem().IsZero() {
				return // allocated before the type is looked at
			}
			if v.Kind() == reflect.Ptr && old.IsNil() && !v.IsNil() {
				if x, ok := v.Interface().(ju.JSONObject); ok && x.IsZero() {
					return
				}
			}
			if !reflect.DeepEqual(v.Interface(), old.Interface()) {
				c.Failf("%s into %s is refused and changes the target from %s to %s", d, t, goShow(old), goShow(v))
			}
		}
	})
}
