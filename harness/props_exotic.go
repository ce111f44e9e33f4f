package main

// P27: targets of any Go type whatsoever.

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	ju "yunion.io/x/jsonutils"
)

type exUnexp struct {
	a int
	b *string
	C string
	d []int
	M map[string]exUnexp `json:"m"`
}

type exSelf struct {
	Next *exSelf `json:"next"`
	L    []exSelf
	M    map[string]*exSelf
	V    int
}

type exRec []exRec

type exRecPtr []**exRecPtr

type exRecMap map[string]exRecMap

type exFn func(int) error

type exEmb struct {
	*exUnexp
	exSelf
	io.Reader
	N int
}

var exBase = []reflect.Type{
	reflect.TypeOf((func())(nil)), reflect.TypeOf(exFn(nil)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf((<-chan string)(nil)),
	reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*io.Reader)(nil)).Elem(),
	reflect.TypeOf(struct{}{}), reflect.TypeOf([0]int{}), reflect.TypeOf(exUnexp{}), reflect.TypeOf(exSelf{}), reflect.TypeOf(exRec(nil)), reflect.TypeOf(exRecPtr(nil)), reflect.TypeOf(exRecMap(nil)),
	reflect.TypeOf(exEmb{}), reflect.TypeOf(time.Duration(0)), reflect.TypeOf(time.Month(0)), reflect.TypeOf(time.Time{}), reflect.TypeOf([]byte(nil)), reflect.TypeOf([]rune(nil)),
	reflect.TypeOf(big.Int{}), reflect.TypeOf(url.URL{}), reflect.TypeOf(bytes.Buffer{}), reflect.TypeOf(sync.Mutex{}), reflect.TypeOf(reflect.Value{}),
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(""), reflect.TypeOf(false),
	ju.JSONObjectType, ju.JSONDictPtrType, ju.JSONArrayType, ju.JSONStringType, reflect.TypeOf(ju.JSONValue{}), reflect.TypeOf((*ju.JSONValue)(nil)),
}

var exKeys = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(mKey("")), reflect.TypeOf(0), reflect.TypeOf(false), reflect.TypeOf(1.5),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf([2]int{}), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf((*int)(nil)), reflect.TypeOf(time.Time{}),
}

func (c *C) exType(d int) reflect.Type {
	if d <= 0 || c.uni(3, "exleaf") == 0 {
		return exBase[c.uni(len(exBase), "exb")]
	}
	switch c.uni(6, "exk") {
	case 0:
		return reflect.SliceOf(c.exType(d - 1))
	case 1:
		return reflect.ArrayOf(c.uni(4, "exn"), c.exType(d-1))
	case 2:
		return reflect.MapOf(exKeys[c.uni(len(exKeys), "exkey")], c.exType(d-1))
	case 3:
		return reflect.PtrTo(c.exType(d - 1))
	}
	var fs []reflect.StructField
	for i, n := 0, c.uni(4, "exfn"); i < n; i++ {
		f := reflect.StructField{Name: string(rune('A' + i)), Type: c.exType(d - 1)}
		f.Tag = reflect.StructTag(pick(c, "extag", "", "", `json:"a"`, `json:"-"`, `json:"b,omitempty"`, `json:",string"`, `json:"c,allowempty"`, `ignore:"true"`, `yunion-deprecated-by:"b"`, `json:`, `json:"a" token:"b"`))
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// exDoc draws a document that may well fit the type.
func (c *C) exDoc(t reflect.Type, d int) *V {
	if d <= 0 || c.oneIn(4, "exother") {
		if c.flip("exnull") {
			return vNull()
		}
		return c.smallV(2)
	}
	switch t.Kind() {
	case reflect.Ptr:
		return c.exDoc(t.Elem(), d)
	case reflect.Slice, reflect.Array:
		v := &V{K: KArray}
		n := c.uni(4, "exlen")
		if t.Kind() == reflect.Array && !c.oneIn(4, "exlen2") {
			n = t.Len()
		}
		for i := 0; i < n; i++ {
			v.A = append(v.A, c.exDoc(t.Elem(), d-1))
		}
		return v
	case reflect.Map:
		v := vDict()
		for i := c.uni(3, "exents"); i > 0; i-- {
			v.set(pick(c, "exent", "a", "b", "", "1", "true", "k"), c.exDoc(t.Elem(), d-1))
		}
		return v
	case reflect.Struct:
		v := vDict()
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); c.uni(4, "exhas") > 0 {
				k := strings.ToLower(f.Name)
				if tag := strings.Split(f.Tag.Get("json"), ",")[0]; tag != "" && c.flip("extagged") {
					k = tag
				}
				v.set(k, c.exDoc(f.Type, d-1))
			}
		}
		return v
	case reflect.String:
		return vStr(c.genStr())
	}
	return pick(c, "exscalar", vNull(), vInt(1), vBool(true), vStr("x"), vStr("1"), vFloat(1.5), vArr(), vDict(), vArr(vNull()), vDict().set("a", vNull()))
}

func init() {
	regFixed("P27", "recursive", "a string into slices of themselves, and maps with references that are replaced under another spelling of their key", func(c *C) {
		c.Case(true, "recursive slice")
		for _, x := range []interface{}{new(exRec), new(exRecPtr), &struct{ A exRec }{}, &struct{ A []*exRecPtr }{}} {
			for _, text := range []string{`["x"]`, `[["x"]]`, `{"a":"x"}`, `{"a":["x"]}`} {
				d := mustParse(c, text)
				c.Guard(fmt.Sprintf("Unmarshal of %s into %T", text, x), func() { d.Unmarshal(x) })
			}
		}
		c.Case(true, "replaced reference")
		type n struct {
			V int
			M map[string]*n
		}
		for _, text := range []string{`{"M":{"a":<9>},"m":null}`, `{"M":{"k":<2>},"V":1,"m":{"k":{"v":5}}}`, `{"M":{"k":<2>,"l":{"___jnid_":2,"v":3}},"m":{"k":{"v":5}}}`} {
			d := mustParse(c, text)
			x := n{}
			c.Guard("Unmarshal of "+text, func() { d.Unmarshal(&x) })
			if strings.Contains(text, "null") && x.M != nil {
				c.Failf("%s leaves %v", text, x.M)
			}
			if strings.Contains(text, "5") && (x.M["k"] == nil || x.M["k"].V != 5) {
				c.Failf("%s leaves %v", text, x.M["k"])
			}
		}
	})
	reg("P27", "exotic", 8000, "a document into a variable of a type made of any Go types at all: functions, channels, complex numbers, unsafe pointers, interfaces with methods, recursive types, unexported and embedded members, maps with keys of any kind, structs of the standard library; non-trivial: the document is a container", func(c *C) {
		t := c.exType(3)
		d := c.exDoc(t, 4)
		text := refText(d)
		desc := text
		var doc ju.JSONObject = build(d)
		if c.oneIn(4, "nodes") {
			desc = c.nodify(text)
			var err error
			if doc, err = ju.ParseString(desc); err != nil {
				c.Case(false, desc)
				return
			}
		}
		c.Case(d.K == KDict || d.K == KArray, fmt.Sprintf("%s %s", t, desc))
		was := doc.String()
		var errs [2]error
		for i := range errs {
			p := reflect.New(t)
			c.Guard(fmt.Sprintf("Unmarshal of %s into %s", desc, t), func() {
				errs[i] = doc.Unmarshal(p.Interface())
				if errs[i] != nil {
					_ = errs[i].Error()
				}
			})
		}
		c.LabelIf(errs[0] != nil, "error")
		c.LabelIf(errs[0] == nil, "stored")
		if (errs[0] == nil) != (errs[1] == nil) {
			c.Failf("%s into %s: %v, then %v", desc, t, errs[0], errs[1])
		}
		if doc.String() != was {
			c.Failf("Unmarshal into %s changed the document from %s to %s", t, was, doc)
		}
	})
}
