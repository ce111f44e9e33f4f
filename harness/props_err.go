package main

// P30: kinds of Unmarshal errors.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"
	"yunion.io/x/pkg/tristate"
)

// misfit is a type, a document that does not fit and the kind of the error.
type misfit struct {
	rt   reflect.Type
	doc  string
	kind error // nil: a number error of strconv
}

func (c *C) genMisfit() misfit {
	arr := func() string { return pick(c, "arr", `[]`, `[1]`, `[1,"x"]`, `[{"a":1}]`, `[[]]`) }
	obj := func() string { return pick(c, "obj", `{}`, `{"a":1}`, `{"zz":[1]}`, `{"1":2}`) }
	scalar := func() string { return pick(c, "scalar", `1`, `-7`, `1.5`, `true`, `false`) }
	rts := func(xs ...interface{}) reflect.Type { return reflect.TypeOf(xs[c.uni(len(xs), "rt")]) }
	switch c.uni(9, "misfit") {
	case 0:
		return misfit{rts([2]int{}, [2]string{}, [2]interface{}{}, [2]*int{}), pick(c, "len", `[]`, `[1]`, `[1,2,3]`, `[null]`, `[1,2,3,4,5,6,7,8]`), ju.ErrArrayLengthMismatch}
	case 1:
		return misfit{rts(map[int]int{}, map[uint8]string{}, map[bool]int{}, map[float64]int{}), obj(), ju.ErrMapKeyMustString}
	case 2:
		return misfit{reflect.TypeOf((*interface{})(nil)).Elem(), obj(), ju.ErrInterfaceUnsupported}
	case 3:
		return misfit{rts(0, int8(0), uint(0), uint16(0), 1.5, float32(0), false, mInt(0), mBool(false), tristate.None), pick(c, "cont", arr(), obj()), ju.ErrTypeMismatch}
	case 4:
		return misfit{rts([]int{}, [2]int{}, []string{}, [3]bool{}), obj(), ju.ErrTypeMismatch}
	case 5:
		return misfit{rts(map[string]int{}, rNode{}, rOther{}), arr(), ju.ErrTypeMismatch}
	case 6:
		return misfit{rts(map[string]int{}, rNode{}, [2]int{}, []int{}), scalar(), ju.ErrTypeMismatch}
	case 7:
		t := pick(c, "jt", ju.JSONDictPtrType, ju.JSONDictType)
		d := pick(c, "jd", `1`, `true`, `"x"`, `[1]`, `1.5`)
		if c.flip("array") {
			t, d = pick(c, "jt", ju.JSONArrayPtrType, ju.JSONArrayType), pick(c, "jd", `1`, `true`, `"x"`, `{"a":1}`, `1.5`)
		}
		return misfit{t, d, ju.ErrTypeMismatch}
	}
	return misfit{rts(0, int8(0), int64(0), uint(0), uint64(0), 1.5, float32(0), mInt(0)), pick(c, "num", `"x"`, `"1x"`, `"--1"`, `"1 2"`, `" "`), nil}
}

func init() {
	reg("P30", "kinds", 8000, "a target with one to three parts that a document does not fit, 0-20 levels deep inside structs, slices, arrays, maps and pointers; the error has to have the kind of the misfit as its cause and to name the fields on the way; non-trivial: two levels or more", func(c *C) {
		type field struct {
			name string
			m    misfit
		}
		var ms []field
		one := c.genMisfit()
		t, doc := one.rt, one.doc
		ms = append(ms, field{"", one})
		var keys []string
		if c.flip("several") {
			ms = nil
			fs := []reflect.StructField{{Name: "Aa", Type: reflect.TypeOf(0)}, {Name: "Zz", Type: reflect.TypeOf("")}}
			doc = `{"aa":1`
			n := 1 + c.uni(3, "n")
			if c.oneIn(6, "many") {
				n = 4 + c.uni(16, "many")
				c.Label("many misfits")
			}
			for i := n; i > 0; i-- {
				m := c.genMisfit()
				n := "Bad" + strconv.Itoa(i)
				fs = append(fs, reflect.StructField{Name: n, Type: m.rt})
				doc += `,"` + strings.ToLower(n) + `":` + m.doc
				ms = append(ms, field{strings.ToLower(n), m})
			}
			doc += `,"zz":"end"}`
			t = reflect.StructOf(fs)
		}
		levels := c.intn(0, 5, "levels")
		if c.oneIn(8, "deep") {
			levels = 6 + c.uni(15, "deeplevels")
		}
		for i := 0; i < levels; i++ {
			switch c.uni(5, "level") {
			case 0:
				// behind some items that are null
				n := 0
				if c.flip("nulls") {
					n = pick(c, "nnull", 1, 2, 7, 9, 16, 33)
				}
				t, doc = reflect.SliceOf(t), "["+strings.Repeat("null,", n)+doc+pick(c, "end", "", "", ",null")+"]"
			case 1:
				t, doc = reflect.ArrayOf(1, t), "["+doc+"]"
			case 2:
				t, doc = reflect.MapOf(reflect.TypeOf(""), t), `{"key":`+doc+`}`
			case 3:
				// a pointer to a container that the document may be stored in
				if k := t.Kind(); k == reflect.Struct && doc[0] == '{' && t != ju.JSONDictType && t != ju.JSONArrayType || k == reflect.Map && doc[0] == '{' || k == reflect.Slice && doc[0] == '[' || k == reflect.Array && doc[0] == '[' {
					t = reflect.PtrTo(t)
				}
			default:
				n := pick(c, "fname", "Alpha", "Beta", "GammaDelta") + strconv.Itoa(i)
				t = reflect.StructOf([]reflect.StructField{{Name: "First", Type: reflect.TypeOf(0)}, {Name: n, Type: t}, {Name: "Zlast", Type: reflect.TypeOf("")}})
				k := kebab(n)
				doc = `{"first":1,"` + k + `":` + doc + `,"zlast":"end"}`
				keys = append(keys, k)
			}
		}
		c.Case(levels > 1, fmt.Sprintf("%s into %s", doc, t))
		c.LabelIf(len(ms) > 1, "several misfits")
		for _, m := range ms {
			if m.m.kind != nil {
				c.Label(m.m.kind.Error())
			} else {
				c.Label("number")
			}
		}
		d, err := ju.ParseString(doc)
		if err != nil {
			c.Failf("parse %s: %v", doc, err)
		}
		v := reflect.New(t)
		if t.Kind() == reflect.Ptr {
			v.Elem().Set(reflect.New(t.Elem()))
			c.Guard("Unmarshal", func() { err = d.Unmarshal(v.Elem().Interface()) })
		} else {
			c.Guard("Unmarshal", func() { err = d.Unmarshal(v.Interface()) })
		}
		if err == nil {
			c.Failf("%s is stored into %s: %s", doc, t, goShow(v.Elem()))
		}
		text := err.Error()
		if len(ms) == 1 {
			cause := errors.Cause(err)
			if k := ms[0].m.kind; k != nil && cause != k {
				c.Failf("%s into %s: the cause of %q is %q, not %q", doc, t, text, cause, k)
			} else if _, ok := cause.(*strconv.NumError); k == nil && !ok {
				c.Failf("%s into %s: the cause of %q is %q (%T), no number error", doc, t, text, cause, cause)
			}
		}
		for _, m := range ms {
			if m.name != "" {
				keys = append(keys, m.name)
			}
			if m.m.kind != nil && !strings.Contains(text, m.m.kind.Error()) {
				c.Failf("%s into %s: %q does not tell %q", doc, t, text, m.m.kind)
			}
		}
		for _, k := range keys {
			if !strings.Contains(text, k) {
				c.Failf("%s into %s: %q does not name the key %s", doc, t, text, k)
			}
		}
	})
}
