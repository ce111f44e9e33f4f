package main

// P19..P22, P27: Unmarshal.

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

type expMode int

const (
	expSkip expMode = iota // not specified
	expErr                 // an error; a plain scalar target keeps its value
	expKeep                // success, target unchanged
	expVal                 // success, target has this value
	expDoc                 // success, JSON typed target holds this document
)

type expect struct {
	mode expMode
	val  interface{}
	doc  *V
}

var (
	usNum = regexp.MustCompile(`^[+-]?(\d{0,3}|(\d{1,3},)+\d{3})(\.\d*)?$`)
	euNum = regexp.MustCompile(`^[+-]?(\d{0,3}|(\d{1,3}\.)+\d{3})(,\d*)?$`)
)

// refNumText is the reading of numbers with thousands separators, US style first.
func refNumText(s string) string {
	if usNum.MatchString(s) {
		return strings.ReplaceAll(s, ",", "")
	}
	if euNum.MatchString(s) {
		return strings.ReplaceAll(strings.ReplaceAll(s, ".", ""), ",", ".")
	}
	return s
}

func intFits(i int64, rt reflect.Type) bool {
	switch rt.Kind() {
	case reflect.Uint, reflect.Uint64:
		return i >= 0
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return i >= 0 && uint64(i) < 1<<rt.Bits()
	}
	return truncInt(i, rt) == i
}

func isTrueWord(s string) bool {
	s = strings.ToLower(s)
	return s == "1" || s == "true" || s == "on" || s == "yes"
}

// intoInt is the value of an integer target.
func intoInt(i int64, rt reflect.Type) expect {
	if !intFits(i, rt) {
		return expect{} // overflow is silent (documented restriction)
	}
	return expect{mode: expVal, val: reflect.ValueOf(i).Convert(rt).Interface()}
}

func ev(x interface{}) expect { return expect{mode: expVal, val: x} }

// refConv is the reference of the conversion of a scalar document into a target.
func refConv(d *V, t *T) expect {
	fail := expect{mode: expErr}
	cv := func(x interface{}) expect { return ev(reflect.ValueOf(x).Convert(t.RT).Interface()) }
	if d.K == KNull {
		return ev(reflect.Zero(t.RT).Interface())
	}
	isDocT := func(ks ...reflect.Type) bool {
		for _, k := range ks {
			if t.RT == k {
				return true
			}
		}
		return false
	}
	isJ := t.K == TJVal || t.K == TJDict || t.K == TJArr || t.K == TJStr
	if t.K == TJObj {
		return expect{mode: expDoc, doc: d}
	}
	text := "" // as text
	switch d.K {
	case KInt:
		text = strconv.FormatInt(d.I, 10)
	case KFloat:
		text = strconv.FormatFloat(d.F, 'f', -1, 64)
		if d.F32 {
			text = strconv.FormatFloat(d.F, 'f', -1, 32)
		}
	case KBool:
		text = strconv.FormatBool(d.B)
	case KString:
		text = d.S
	}
	if isDocT(ju.JSONStringType, ju.JSONStringPtrType) {
		return expect{mode: expDoc, doc: vStr(text)}
	}
	switch d.K {
	case KInt:
		if isDocT(ju.JSONIntType, ju.JSONIntPtrType) {
			return expect{mode: expDoc, doc: d}
		}
		if isDocT(ju.JSONFloatType, ju.JSONFloatPtrType) {
			return expect{mode: expDoc, doc: vFloat(float64(d.I))}
		}
		if isJ {
			return fail
		}
		switch t.K {
		case TInt, TUint:
			return intoInt(d.I, t.RT)
		case TF32, TF64:
			return cv(float64(d.I))
		case TBool:
			return cv(d.I != 0)
		case TString:
			return cv(text)
		case TTri:
			return ev(tristate.NewFromBool(d.I != 0))
		case TIface:
			return ev(d.I)
		}
	case KFloat:
		if isDocT(ju.JSONFloatType, ju.JSONFloatPtrType) {
			return expect{mode: expDoc, doc: d}
		}
		whole := math.Trunc(d.F)
		inRange := math.Abs(whole) < 1<<62
		if isDocT(ju.JSONIntType, ju.JSONIntPtrType) {
			if !inRange {
				return expect{}
			}
			return expect{mode: expDoc, doc: vInt(int64(whole))}
		}
		if isDocT(ju.JSONBoolType) {
			if !inRange || d.F != 0 && whole == 0 {
				return expect{}
			}
			return expect{mode: expDoc, doc: vBool(d.F != 0)}
		}
		if isJ {
			return fail
		}
		switch t.K {
		case TInt, TUint:
			if t.K == TUint && t.RT.Bits() == 64 && whole >= 0 && whole < 1<<63*2 {
				return cv(uint64(whole))
			}
			if whole < -1<<63 || whole >= 1<<63 {
				return expect{}
			}
			return intoInt(int64(whole), t.RT)
		case TF32, TF64:
			return cv(d.F)
		case TBool:
			return cv(d.F != 0)
		case TString:
			return cv(text)
		case TTri:
			if !inRange || d.F != 0 && whole == 0 {
				return expect{}
			}
			return ev(tristate.NewFromBool(d.F != 0))
		case TIface:
			return ev(d.F)
		}
	case KBool:
		if isDocT(ju.JSONBoolType, ju.JSONBoolPtrType) {
			return expect{mode: expDoc, doc: d}
		}
		if isJ {
			return fail
		}
		switch t.K {
		case TInt, TUint, TF32, TF64:
			return cv(b2i(d.B))
		case TBool:
			return cv(d.B)
		case TString:
			return cv(text)
		case TTri:
			return ev(tristate.NewFromBool(d.B))
		case TIface:
			return ev(d.B)
		}
	case KString:
		if isDocT(ju.JSONBoolType, ju.JSONBoolPtrType) {
			if strings.TrimSpace(d.S) != d.S {
				return expect{}
			}
			return expect{mode: expDoc, doc: vBool(isTrueWord(d.S))}
		}
		if isJ {
			return fail
		}
		switch t.K {
		case TInt:
			if d.S == "" {
				return expect{mode: expKeep}
			}
			i, err := strconv.ParseInt(refNumText(d.S), 10, 64)
			if err != nil {
				return fail
			}
			return intoInt(i, t.RT)
		case TUint:
			if d.S == "" {
				return expect{mode: expKeep}
			}
			u, err := strconv.ParseUint(refNumText(d.S), 10, 64)
			if err != nil {
				return fail
			}
			if t.RT.Bits() < 64 && u >= 1<<t.RT.Bits() {
				return expect{}
			}
			return cv(u)
		case TF32, TF64:
			if d.S == "" {
				return expect{mode: expKeep}
			}
			f, err := strconv.ParseFloat(refNumText(d.S), 64)
			if err != nil {
				return fail
			}
			if f != f {
				return expect{}
			}
			return cv(f)
		case TBool:
			return cv(isTrueWord(strings.TrimSpace(d.S)))
		case TString:
			return cv(d.S)
		case TTri:
			if strings.TrimSpace(d.S) != d.S {
				return expect{}
			}
			if isTrueWord(d.S) {
				return ev(tristate.True)
			}
			switch strings.ToLower(d.S) {
			case "false", "no", "off", "0":
				return ev(tristate.False)
			}
			return ev(tristate.None)
		case TIface:
			return ev(d.S)
		case TTime:
			if d.S == "" {
				return ev(time.Time{})
			}
			return expect{}
		case TSlice:
			e := refConv(d, t.Elem)
			if e.mode == expVal && t.Elem.K != TSlice {
				s := reflect.MakeSlice(t.RT, 1, 1)
				s.Index(0).Set(reflect.ValueOf(e.val))
				return ev(s.Interface())
			}
			if e.mode == expErr {
				return e
			}
			return expect{}
		}
	}
	switch t.K {
	case TSlice, TArray, TMap, TStruct, TTime:
		return fail
	}
	return expect{}
}

var convTargets = func() []*T {
	ts := append([]*T{}, scalarTs...)
	ts = append(ts, tTri, tTri, tTri, tIface, tIface, tJObj, tJDict, tJArr, tJStr, tTime)
	ts = append(ts, jvalTs...)
	for _, rt := range []reflect.Type{ju.JSONFloatType, ju.JSONFloatPtrType, ju.JSONIntPtrType, ju.JSONBoolPtrType} {
		ts = append(ts, &T{K: TJVal, RT: rt})
	}
	ts = append(ts, tSliceOf(tString), tSliceOf(tInt), tSliceOf(tBool), tSliceOf(tF64), tArrOf(1, tInt), tMapOf(tString, tInt))
	ts = append(ts, &T{K: TStruct, RT: reflect.TypeOf(struct{ A int }{})})
	return ts
}()

var holderTypes sync.Map

// holder is a struct type with the target between two other fields.
func holder(rt reflect.Type) reflect.Type {
	if h, ok := holderTypes.Load(rt); ok {
		return h.(reflect.Type)
	}
	h := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(0)},
		{Name: "X", Type: rt},
		{Name: "Z", Type: reflect.TypeOf("")},
	})
	holderTypes.Store(rt, h)
	return h
}

func (c *C) genNumText() string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + c.uni(10, "digit"))
		}
		return string(b)
	}
	sign := pick(c, "sign", "", "", "", "-", "+")
	switch c.uni(8, "numtext") {
	case 0:
		return strconv.FormatInt(c.genInt(), 10)
	case 1:
		return strconv.FormatFloat(c.genFloat(), 'f', -1, 64)
	case 2, 3:
		sep, dec := ",", "."
		if c.flip("eu") {
			sep, dec = dec, sep
		}
		s := digits(1 + c.uni(3, "lead"))
		groups := c.uni(4, "groups")
		if c.oneIn(6, "manygroups") {
			groups = 4 + c.uni(4, "groups")
		}
		for i := groups; i > 0; i-- {
			s += sep + digits(3)
		}
		if c.flip("frac") {
			s += dec + digits(c.uni(5, "fracn"))
		}
		if c.oneIn(4, "odd") {
			s += sep + digits(c.uni(4, "oddn"))
		}
		return sign + s
	case 4:
		return sign + digits(1+c.uni(3, "n")) + "e" + pick(c, "es", "", "-", "+") + digits(1)
	case 5:
		return sign + digits(1+c.uni(18, "n"))
	case 6:
		return sign + digits(1+c.uni(6, "n")) + pick(c, "suf", "", " ", "K", "G", "%", ".", ",", "_0", "0x", "L", ".5", ",5", ".50", ",500", ".500", ",5.0", "s", "ms", "h30m", "m", "d", "Ki", "kB", "MiB", "px", "f", "e", "E+", "/2", ":30", "-1", "^2", "\u00b5s", "\u00a0", "\uff10", "\x00", "n", "i", "$", "\u20ac")
	}
	b := ""
	for i := c.intn(0, 8, "cl"); i > 0; i-- {
		b += pick(c, "cc", "0", "1", "9", "12", "123", ",", ".", "-", "+", "e")
	}
	return b
}

func (c *C) convDoc() *V {
	switch c.uni(8, "cd") {
	case 0:
		return vInt(c.genInt())
	case 1:
		return vInt(int64(c.intn(-2, 130, "ci")))
	case 2:
		if x := vFloat(c.genFloat()); c.oneIn(4, "cf32") {
			c.some32(x)
			return x
		} else {
			return x
		}
	case 3:
		if c.oneIn(6, "cfbig") {
			f := math.Ldexp(1+float64(c.uni(4096, "cfm"))/4096, 50+c.uni(16, "cfe"))
			if c.oneIn(4, "cfneg") {
				f = -f
			}
			return vFloat(f)
		}
		return vFloat(float64(c.intn(-512, 4096, "cf")) / 16)
	case 4:
		return vBool(c.flip("cb"))
	case 5:
		return vStr(c.genNumText())
	case 6:
		if c.oneIn(3, "cnull") {
			return vNull()
		}
		w := pick(c, "cw", "true", "false", "yes", "no", "on", "off", "1", "0", "", "null", "none", "t", "y", "2", "TRUE", "Yes", "oN", "truee", " true", "on ")
		return vStr(w)
	}
	return vStr(c.genStr())
}

// preset gives the target a value of its type before the call.
func (c *C) preset(v reflect.Value, t *T) {
	if t.K == TStruct || t.K == TIface || t.RT == ju.JSONFloatType || t.RT == ju.JSONFloatPtrType || t.RT == ju.JSONIntPtrType || t.RT == ju.JSONBoolPtrType || t.K == TJVal {
		return
	}
	c.fill(v, t, false, &valOpt{})
}

func (e expect) check(v, old reflect.Value, t *T, err error) error {
	switch e.mode {
	case expErr:
		if err == nil {
			return fmt.Errorf("accepted as %#v, want an error", v.Interface())
		}
		switch t.K {
		case TBool, TInt, TUint, TF32, TF64, TString, TTri, TIface:
			if !reflect.DeepEqual(v.Interface(), old.Interface()) {
				return fmt.Errorf("error %v, but the target changed from %#v to %#v", err, old.Interface(), v.Interface())
			}
		}
		return nil
	case expSkip:
		return nil
	}
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	switch e.mode {
	case expKeep:
		if !reflect.DeepEqual(v.Interface(), old.Interface()) {
			return fmt.Errorf("target changed from %#v to %#v", old.Interface(), v.Interface())
		}
	case expVal:
		if !reflect.DeepEqual(v.Interface(), e.val) {
			return fmt.Errorf("got %#v, want %#v", v.Interface(), e.val)
		}
	case expDoc:
		o, ok := v.Interface().(ju.JSONObject)
		if !ok {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			o = p.Interface().(ju.JSONObject)
		} else if v.IsNil() {
			return fmt.Errorf("nil, want %s", e.doc)
		}
		m, err := read(o)
		if err != nil || !eqV(m, e.doc, false) {
			return fmt.Errorf("got document %s (%v), want %s", m, err, e.doc)
		}
	}
	return nil
}

func init() {
	reg("P19", "scalars", 40000, "a scalar document and a target of any kind that may hold a value, at top level, behind a pointer, in a struct field, in a map or in a slice; non-trivial: the outcome is specified and the target is not of the very kind of the document", func(c *C) {
		d := c.convDoc()
		if c.flip("viatext") {
			d = norm(d)
		}
		t := convTargets[c.uni(len(convTargets), "target")]
		if t.K == TF32 && d.K == KString && c.oneIn(3, "f32edge") {
			// about the limits of float32
			d = vStr(pick(c, "f32txt", "1e39", "-1e39", "3.4028235e38", "3.4028236e38", "340282350000000000000000000000000000001", "1e300", "1e-45", "1e-46", "16777217", "0.1", "1,234,567.89", "-3.5e38", "1e38"))
		}
		e := refConv(d, t)
		how := pick(c, "how", "top", "top", "ptr", "ptrptr", "field", "field", "map", "slice", "array")
		old := reflect.New(t.RT).Elem()
		if how != "map" && c.flip("preset") {
			c.preset(old, t)
		}
		same := d.K == KInt && t.K == TInt || d.K == KFloat && t.K == TF64 || d.K == KString && t.K == TString || d.K == KBool && t.K == TBool
		c.Case(e.mode != expSkip && !same, fmt.Sprintf("%s into %s %s, was %s", d, how, t, goShow(old)))
		if e.mode == expSkip {
			c.Label("not specified")
			return
		}
		c.Label(fmt.Sprintf("from %s", d.K))
		c.Label(fmt.Sprintf("outcome %d", e.mode))
		var o ju.JSONObject
		if !d.F32 && eqV(d, norm(d), false) && c.flip("parsed") {
			var err error
			if o, err = ju.ParseString("[" + refText(d) + "]"); err != nil {
				c.Failf("%s is not parsed: %v", refText(d), err)
			}
			o, _ = o.GetAt(0)
		} else {
			o = build(d)
		}
		pick1 := func(v reflect.Value, err error) {
			if er := e.check(v, old, t, err); er != nil {
				c.Failf("%s %s into a %s (%s) holding %s: %v", d.K, d, t, how, goShow(old), er)
			}
		}
		c.Guard(fmt.Sprintf("Unmarshal of %s into %s (%s)", d, t, how), func() {
			switch how {
			case "top":
				p := reflect.New(t.RT)
				p.Elem().Set(old)
				pick1(p.Elem(), o.Unmarshal(p.Interface()))
			case "ptr", "ptrptr":
				if t.K == TSlice || t.K == TArray || t.K == TMap || t.K == TStruct || t.K == TTime || t.K == TIface || t.K >= TJObj {
					return
				}
				rt := t.RT
				n := 1
				if how == "ptrptr" {
					n = 2
				}
				for i := 0; i < n; i++ {
					rt = reflect.PtrTo(rt)
				}
				p := reflect.New(rt)
				was := old
				if e.mode == expErr || e.mode == expKeep || c.flip("alloc") {
					q := reflect.New(t.RT)
					q.Elem().Set(old)
					if n == 2 {
						qq := reflect.New(q.Type())
						qq.Elem().Set(q)
						q = qq
					}
					p.Elem().Set(q)
				}
				_ = was
				err := o.Unmarshal(p.Interface())
				if d.K == KNull {
					if err != nil || !p.Elem().IsNil() {
						c.Failf("null into a %s: %v, %v", rt, err, p.Elem())
					}
					return
				}
				v := p.Elem()
				for i := 0; i < n; i++ {
					if v.IsNil() {
						c.Failf("%s into a %s leaves a nil pointer (%v)", d, rt, err)
					}
					v = v.Elem()
				}
				pick1(v, err)
			case "field":
				p := reflect.New(holder(t.RT))
				p.Elem().Field(1).Set(old)
				doc := ju.NewDict()
				doc.Set("a", ju.NewInt(41))
				doc.Set("x", o)
				doc.Set("z", ju.NewString("zz"))
				err := doc.Unmarshal(p.Interface())
				pick1(p.Elem().Field(1), err)
				if p.Elem().Field(0).Int() != 41 || p.Elem().Field(2).String() != "zz" {
					c.Failf("%s into %s: the fields beside are %v and %q", d, t, p.Elem().Field(0).Int(), p.Elem().Field(2).String())
				}
			case "map":
				p := reflect.New(reflect.MapOf(reflect.TypeOf(""), t.RT))
				doc := ju.NewDict()
				doc.Set("k", o)
				err := doc.Unmarshal(p.Interface())
				v := reflect.New(t.RT).Elem()
				if err == nil {
					if !p.Elem().MapIndex(reflect.ValueOf("k")).IsValid() {
						c.Failf("%s into %s: no entry in the map", d, t)
					}
					v = p.Elem().MapIndex(reflect.ValueOf("k"))
				}
				pick1(v, err)
			case "slice", "array":
				var p reflect.Value
				if how == "slice" {
					p = reflect.New(reflect.SliceOf(t.RT))
					p.Elem().Set(reflect.MakeSlice(p.Elem().Type(), 1, 1))
				} else {
					p = reflect.New(reflect.ArrayOf(1, t.RT))
				}
				p.Elem().Index(0).Set(old)
				err := ju.NewArray(o).Unmarshal(p.Interface())
				pick1(p.Elem().Index(0), err)
			}
		})
	})
}
