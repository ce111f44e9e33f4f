package main

// Generated Go types (reflect.StructOf over a type model) and values of them,
// with a reference of what their JSON form is.

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	ju "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

type TK int

const (
	TBool TK = iota
	TInt
	TUint
	TF32
	TF64
	TString
	TTime
	TTri
	TSlice
	TArray
	TMap
	TPtr
	TStruct
	TIface // interface{}
	TJObj  // JSONObject
	TJDict // *JSONDict
	TJArr  // *JSONArray
	TJStr  // *JSONString, *JSONInt, *JSONFloat, *JSONBool
	TJVal  // JSONDict, JSONArray, JSONString, JSONInt, JSONBool, JSONFloat by value
)

// T describes a Go type.
type T struct {
	K    TK
	RT   reflect.Type
	Elem *T
	Key  *T
	Fs   []*F
}

// F describes a struct field.
type F struct {
	Go     string // Go name
	Name   string // name in JSON
	Tag    string
	T      *T
	Embed  bool
	Ignore bool
	Hidden bool // unexported
	Nil    bool // always nil

	AllowEmpty, OmitZero, OmitFalse, Str bool
	DepBy                                string
}

type (
	mInt   int32
	mStr   string
	mBool  bool
	mFloat float64
	mU8    uint8
	mStrs  []string
	mPInt  *int
	mPStr  *string
	mMap   map[string]int
	mKey   string
	mEnum  int32  // with a String method
	mColor string // with String, MarshalText and UnmarshalText methods
)

// Methods of other packages' interfaces have no say in what a value is written as.
func (v mEnum) String() string                { return fmt.Sprintf("enum %d", int32(v)) }
func (v mColor) String() string               { return "color " + string(v) }
func (v mColor) Error() string                { return "no color" }
func (v mColor) MarshalText() ([]byte, error) { return []byte("text of " + string(v)), nil }
func (v *mColor) UnmarshalText(b []byte) error {
	*v = mColor("from text " + string(b))
	return nil
}

var (
	tBool   = &T{K: TBool, RT: reflect.TypeOf(false)}
	tString = &T{K: TString, RT: reflect.TypeOf("")}
	tInt    = &T{K: TInt, RT: reflect.TypeOf(int(0))}
	tInt64  = &T{K: TInt, RT: reflect.TypeOf(int64(0))}
	tU8     = &T{K: TUint, RT: reflect.TypeOf(uint8(0))}
	tF64    = &T{K: TF64, RT: reflect.TypeOf(float64(0))}
	tTime   = &T{K: TTime, RT: reflect.TypeOf(time.Time{})}
	tTri    = &T{K: TTri, RT: tristate.TriStateType}
	tIface  = &T{K: TIface, RT: reflect.TypeOf((*interface{})(nil)).Elem()}
	tJObj   = &T{K: TJObj, RT: ju.JSONObjectType}
	tJDict  = &T{K: TJDict, RT: ju.JSONDictPtrType}
	tJArr   = &T{K: TJArr, RT: ju.JSONArrayPtrType}
	tJStr   = &T{K: TJStr, RT: ju.JSONStringPtrType}
	tJInt   = &T{K: TJStr, RT: ju.JSONIntPtrType}
	tJFloat = &T{K: TJStr, RT: ju.JSONFloatPtrType}
	tJBool  = &T{K: TJStr, RT: ju.JSONBoolPtrType}

	scalarTs = []*T{
		tBool, tString, tInt, tInt64, tF64,
		{K: TInt, RT: reflect.TypeOf(int8(0))}, {K: TInt, RT: reflect.TypeOf(int16(0))}, {K: TInt, RT: reflect.TypeOf(int32(0))},
		{K: TUint, RT: reflect.TypeOf(uint(0))}, {K: TUint, RT: reflect.TypeOf(uint8(0))}, {K: TUint, RT: reflect.TypeOf(uint16(0))}, {K: TUint, RT: reflect.TypeOf(uint32(0))}, {K: TUint, RT: reflect.TypeOf(uint64(0))},
		{K: TF32, RT: reflect.TypeOf(float32(0))},
		{K: TInt, RT: reflect.TypeOf(mInt(0))}, {K: TString, RT: reflect.TypeOf(mStr(""))}, {K: TBool, RT: reflect.TypeOf(mBool(false))}, {K: TF64, RT: reflect.TypeOf(mFloat(0))}, {K: TUint, RT: reflect.TypeOf(mU8(0))},
		{K: TInt, RT: reflect.TypeOf(mEnum(0))}, {K: TString, RT: reflect.TypeOf(mColor(""))},
		// types of the standard library are written by their value, too
		{K: TInt, RT: reflect.TypeOf(time.Duration(0))}, {K: TInt, RT: reflect.TypeOf(time.Weekday(0))}, {K: TString, RT: reflect.TypeOf(json.Number(""))}, {K: TUint, RT: reflect.TypeOf(os.FileMode(0))},
	}
	jvalTs = []*T{
		{K: TJVal, RT: ju.JSONDictType}, {K: TJVal, RT: ju.JSONArrayType}, {K: TJVal, RT: ju.JSONStringType}, {K: TJVal, RT: ju.JSONIntType}, {K: TJVal, RT: ju.JSONBoolType}, {K: TJVal, RT: ju.JSONFloatType},
	}
)

func tSliceOf(e *T) *T { return &T{K: TSlice, RT: reflect.SliceOf(e.RT), Elem: e} }
func tPtrOf(e *T) *T   { return &T{K: TPtr, RT: reflect.PtrTo(e.RT), Elem: e} }
func tArrOf(n int, e *T) *T {
	return &T{K: TArray, RT: reflect.ArrayOf(n, e.RT), Elem: e}
}
func tMapOf(k, e *T) *T { return &T{K: TMap, RT: reflect.MapOf(k.RT, e.RT), Key: k, Elem: e} }

func (t *T) String() string { return clip(t.RT.String(), 1500) }

// has tells whether the type contains a kind.
func (t *T) has(ks ...TK) bool {
	for _, k := range ks {
		if t.K == k {
			return true
		}
	}
	if t.Elem != nil && t.Elem.has(ks...) {
		return true
	}
	for _, f := range t.Fs {
		if f.T.has(ks...) {
			return true
		}
	}
	return false
}

// typeOpt restricts the generated types.
type typeOpt struct {
	json      bool // JSON typed fields
	iface     bool
	intKeys   bool // maps with integer keys
	ptrPtr    bool
	strConts  bool // ,string on containers
	ignored   bool
	embedPtr  bool
	embedding bool
}

var fieldWords = []string{"Alpha", "Beta", "Gamma", "Delta", "Name", "Type", "Host", "Zone", "Size", "Flag", "Count", "Owner", "Label", "State", "Level", "Image", "Disk", "Guest", "Wire", "Cloud"}

// kebab is the documented default name of CamelCase field names.
func kebab(s string) string {
	var sb strings.Builder
	for i, r := range s {
		if r >= 'A' && r <= 'Z' {
			if i > 0 {
				sb.WriteByte('_')
			}
			r += 'a' - 'A'
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func (c *C) genT(d int, o *typeOpt) *T {
	if d <= 0 || c.uni(3, "tleaf") == 0 {
		return c.genLeafT(o)
	}
	switch c.uni(8, "tk") {
	case 0, 1:
		return tSliceOf(c.genT(d-1, o))
	case 2:
		return tArrOf(c.uni(4, "tn"), c.genT(d-1, o))
	case 3, 4:
		k := tString
		switch {
		case c.oneIn(4, "tkey"):
			k = &T{K: TString, RT: reflect.TypeOf(mKey(""))}
		case c.oneIn(8, "tckey"):
			k = &T{K: TString, RT: reflect.TypeOf(mColor(""))}
		case o.intKeys && c.oneIn(4, "tikey"):
			k = pick(c, "tik", tInt, scalarTs[9], scalarTs[14])
		}
		return tMapOf(k, c.genT(d-1, o))
	case 5:
		e := c.genT(d-1, o)
		for e.K == TIface || e.K == TJObj || e.K == TJDict || e.K == TJArr || e.K == TJStr || e.K == TJVal || e.K == TPtr && !o.ptrPtr {
			e = c.genLeafT(o)
		}
		return tPtrOf(e)
	}
	return c.genStructT(d, o, map[string]bool{}, 0)
}

func (c *C) genLeafT(o *typeOpt) *T {
	switch n := c.uni(12, "tl"); {
	case n == 0:
		return tTime
	case n == 1:
		return tTri
	case n == 2 && o.json:
		return pick(c, "tj", tJObj, tJDict, tJArr, tJStr, tJInt, tJFloat, tJBool)
	case n == 3 && o.json:
		return jvalTs[c.uni(len(jvalTs), "tjv")]
	case n == 4 && o.iface:
		return tIface
	case n == 5:
		return pick(c, "tnamed", &T{K: TSlice, RT: reflect.TypeOf(mStrs(nil)), Elem: tString}, &T{K: TMap, RT: reflect.TypeOf(mMap(nil)), Key: tString, Elem: tInt},
			&T{K: TSlice, RT: reflect.TypeOf(net.IP(nil)), Elem: tU8}, &T{K: TMap, RT: reflect.TypeOf(url.Values(nil)), Key: tString, Elem: tSliceOf(tString)},
			&T{K: TPtr, RT: reflect.TypeOf(mPInt(nil)), Elem: tInt}, &T{K: TPtr, RT: reflect.TypeOf(mPStr(nil)), Elem: tString},
			tArrOf(pick(c, "tbn", 4, 8, 16, 20, 32), tU8))
	}
	return scalarTs[c.uni(len(scalarTs), "ts")]
}

func (c *C) genStructT(d int, o *typeOpt, used map[string]bool, embed int) *T {
	t := &T{K: TStruct}
	var sfs []reflect.StructField
	n := c.intn(0, 5, "fn")
	if c.oneIn(16, "fbig") {
		n = 12
	}
	goUsed := map[string]bool{}
	for i := 0; i < n; i++ {
		f := &F{Go: fieldWords[c.uni(len(fieldWords), "w1")]}
		if c.flip("w2") {
			f.Go += fieldWords[c.uni(len(fieldWords), "w3")]
		}
		f.Name = kebab(f.Go)
		if goUsed[f.Go] {
			continue
		}
		if o.embedding && embed < 2 && c.oneIn(8, "embed") {
			f.Embed = true
			f.T = c.genStructT(d-1, o, used, embed+1)
			ptr := o.embedPtr && embed == 0 && c.flip("embptr")
			for _, g := range f.T.Fs {
				ptr = ptr && !g.Embed
			}
			if ptr {
				f.T = tPtrOf(f.T)
			}
			goUsed[f.Go] = true
			t.Fs = append(t.Fs, f)
			// the tag of an embedded struct neither names nor nests it
			f.Tag = pick(c, "embtag", "", "", "", `json:"`+f.Name+`"`, `json:"emb,omitempty"`, `json:",inline"`, `json:",allowempty,string"`)
			sfs = append(sfs, reflect.StructField{Name: f.Go, Type: f.T.RT, Tag: reflect.StructTag(f.Tag), Anonymous: true})
			continue
		}
		if o.ignored && c.oneIn(16, "hidden") {
			f.Hidden = true
			f.Go = strings.ToLower(f.Go[:1]) + f.Go[1:]
			if goUsed[f.Go] {
				continue
			}
			goUsed[f.Go] = true
			f.T = tString
			t.Fs = append(t.Fs, f)
			sfs = append(sfs, reflect.StructField{Name: f.Go, PkgPath: "main", Type: f.T.RT})
			continue
		}
		f.T = c.genT(d-1, o)
		var opts []string
		jname := ""
		switch c.uni(4, "fname") {
		case 0:
			jname = pick(c, "jn", "x-", "X", "a.", "cfg:", "名", "_", "id", "Zz") + f.Go[:2+c.uni(2, "jl")]
			f.Name = jname
		case 1:
			jname = f.Name
		}
		if c.oneIn(4, "allowempty") {
			f.AllowEmpty = true
			opts = append(opts, "allowempty")
		}
		if c.oneIn(4, "omitzero") {
			f.OmitZero = true
			opts = append(opts, "omitzero")
		}
		if c.oneIn(4, "omitfalse") {
			f.OmitFalse = true
			opts = append(opts, "omitfalse")
		}
		if c.oneIn(8, "redundant") {
			opts = append(opts, pick(c, "red", "unknown", "inline"))
		}
		if !f.AllowEmpty && c.oneIn(8, "omitempty") {
			opts = append(opts, "omitempty")
		}
		if !f.OmitZero && c.oneIn(8, "allowzero") {
			opts = append(opts, "allowzero")
		}
		if !f.OmitFalse && c.oneIn(8, "allowfalse") {
			opts = append(opts, "allowfalse")
		}
		base := f.T
		for base.K == TPtr {
			base = base.Elem
		}
		scalar := base.K == TBool || base.K == TInt || base.K == TUint || base.K == TF32 || base.K == TF64 || base.K == TString
		if scalar && c.oneIn(4, "str") || o.strConts && !scalar && !base.has(TF32, TIface) && c.oneIn(8, "strc") {
			f.Str = true
			opts = append(opts, "string")
		}
		if len(opts) > 0 && c.oneIn(16, "dash") {
			jname, f.Name = "-", "-" // with options, - is a name
		}
		if o.ignored && c.oneIn(16, "ignore") {
			f.Ignore = true
			f.Tag = `json:"-"`
		} else {
			if jname != "" || len(opts) > 0 {
				for i := len(opts) - 1; i > 0; i-- {
					j := c.uni(i+1, "optorder")
					opts[i], opts[j] = opts[j], opts[i]
				}
				f.Tag = `json:"` + strings.Join(append([]string{jname}, opts...), ",") + `"`
			}
			if c.oneIn(16, "nametag") {
				f.Name = "nt_" + kebab(f.Go)
				f.Tag = strings.TrimSpace(f.Tag + ` name:"` + f.Name + `"`)
			}
			if used[f.Name] {
				continue
			}
			used[f.Name] = true
		}
		goUsed[f.Go] = true
		t.Fs = append(t.Fs, f)
		// an embedded type that is no struct is a field like any other
		anon := o.embedding && (f.T.RT == reflect.TypeOf(mInt(0)) || f.T.RT == reflect.TypeOf(mStr("")) || f.T.RT == reflect.TypeOf(mBool(false)) || f.T.RT == reflect.TypeOf(mStrs(nil))) && c.flip("embscalar")
		sfs = append(sfs, reflect.StructField{Name: f.Go, Type: f.T.RT, Tag: reflect.StructTag(f.Tag), Anonymous: anon})
	}
	t.RT = reflect.StructOf(sfs)
	return t
}

// valOpt restricts the generated values.
type valOpt struct {
	long     int  // the number of items of the first slice to fill
	nilElems bool // nil elements in slices, arrays and maps
	intOK    bool // JSON typed parts may hold anything
	noNull   bool // JSON typed parts hold no null
	// interfaces may hold maps, slices, pointers and structs
	ifaceConts bool
}

func (c *C) genTimeVal() time.Time {
	switch c.uni(4, "tmk") {
	case 0:
		return time.Time{}
	case 1:
		return time.Date(pick(c, "y", 1, 99, 1000, 1969, 1970, 2000, 2024, 9999), time.Month(1+c.uni(12, "mo")), 1+c.uni(28, "d"), c.uni(24, "h"), c.uni(60, "mi"), c.uni(60, "s"), 0, time.UTC)
	}
	t := time.Unix(rapid.Int64Range(-60000000000, 250000000000).Draw(c.rt, "sec"), int64(c.uni(1000000, "us"))*1000).UTC()
	if c.oneIn(6, "localzone") {
		return t.In(time.Local)
	}
	if c.oneIn(4, "zone") {
		t = t.In(time.FixedZone(pick(c, "zonename", "", "UTC", "Local", "Z"), (c.uni(27, "zh")-13)*3600+c.uni(4, "zm")*900))
	}
	return t
}

func (c *C) genJSONVal(o *valOpt) *V {
	g := c.opt(2, 2)
	g.noNull = o.noNull
	return c.genV(g)
}

// mustFill tells whether the zero value of the type is outside the options:
// embedded pointers are never nil, elements of arrays only where allowed.
func (t *T) mustFill(o *valOpt) bool {
	switch t.K {
	case TArray:
		return !o.nilElems || t.Elem.mustFill(o)
	case TStruct:
		for _, f := range t.Fs {
			if f.Embed && f.T.K == TPtr || f.T.mustFill(o) {
				return true
			}
		}
	}
	return false
}

// fill gives v (of type t) a generated value. elem says that v is an element of
// a container: nil values are avoided there unless the options allow them.
func (c *C) fill(v reflect.Value, t *T, elem bool, o *valOpt) {
	nilOK := !elem || o.nilElems
	if nilOK && !t.mustFill(o) && c.oneIn(4, "zero") {
		return // zero value
	}
	switch t.K {
	case TBool:
		v.SetBool(c.flip("b"))
	case TInt:
		v.SetInt(truncInt(c.genInt(), t.RT))
	case TUint:
		u := uint64(c.genInt())
		bits := t.RT.Bits()
		if bits == 64 {
			u &= math.MaxInt64 // larger ones turn negative (documented restriction)
		} else {
			u &= 1<<bits - 1
		}
		v.SetUint(u)
	case TF32:
		f := float64(float32(c.genFloat()))
		if math.IsInf(f, 0) || f == 0 {
			f = 0.5
		}
		v.SetFloat(f)
	case TF64:
		v.SetFloat(c.genFloat())
	case TString:
		v.SetString(c.genStr())
	case TTime:
		v.Set(reflect.ValueOf(c.genTimeVal()))
	case TTri:
		if elem && !o.nilElems {
			v.Set(reflect.ValueOf(pick(c, "tri", tristate.True, tristate.False)))
		} else {
			v.Set(reflect.ValueOf(pick(c, "tri", tristate.True, tristate.False, tristate.None)))
		}
	case TSlice:
		n := c.intn(0, 3, "sl")
		if o.long > 0 {
			n, o.long = o.long, 0
		} else if t.Elem.K <= TString && c.oneIn(32, "sllong") {
			n = pick(c, "slln", 5, 10, 17, 33, 40, 65)
		}
		v.Set(reflect.MakeSlice(t.RT, n, n+c.uni(3, "slc")))
		for i := 0; i < n; i++ {
			c.fill(v.Index(i), t.Elem, true, o)
		}
	case TArray:
		for i := 0; i < v.Len(); i++ {
			c.fill(v.Index(i), t.Elem, true, o)
		}
	case TMap:
		v.Set(reflect.MakeMap(t.RT))
		for i := c.intn(0, 3, "mn"); i > 0; i-- {
			k := reflect.New(t.Key.RT).Elem()
			switch t.Key.K {
			case TString:
				k.SetString(c.genKey())
			case TInt:
				k.SetInt(truncInt(c.genInt(), t.Key.RT))
			case TUint:
				k.SetUint(uint64(truncInt(c.genInt(), t.Key.RT)) & (1<<t.Key.RT.Bits() - 1))
			}
			e := reflect.New(t.Elem.RT).Elem()
			c.fill(e, t.Elem, true, o)
			v.SetMapIndex(k, e)
		}
	case TPtr:
		v.Set(reflect.New(t.Elem.RT))
		c.fill(v.Elem(), t.Elem, elem, o)
	case TStruct:
		for i, f := range t.Fs {
			if f.Hidden || f.Nil {
				continue
			}
			if f.Embed && f.T.K == TPtr {
				v.Field(i).Set(reflect.New(f.T.Elem.RT))
				c.fill(v.Field(i).Elem(), f.T.Elem, false, o)
				continue
			}
			c.fill(v.Field(i), f.T, false, o)
		}
	case TIface:
		if o.ifaceConts && c.oneIn(3, "ifc") {
			t := ifaceTs[c.uni(len(ifaceTs), "ift")]
			x := reflect.New(t.RT).Elem()
			c.fill(x, t, true, o)
			if t.K == TStruct && c.flip("ifptr") {
				x = x.Addr()
			}
			v.Set(x)
			return
		}
		switch c.uni(4, "if") {
		case 0:
			v.Set(reflect.ValueOf(c.genInt()))
		case 1:
			v.Set(reflect.ValueOf(c.genStr()))
		case 2:
			v.Set(reflect.ValueOf(c.flip("ib")))
		default:
			v.Set(reflect.ValueOf(c.genFloat()))
		}
	case TJObj:
		x := c.genJSONVal(o)
		if o.noNull && x.K == KNull {
			x = vInt(1)
		}
		v.Set(reflect.ValueOf(build(x)))
	case TJDict:
		g := c.opt(2, 2)
		g.noNull = o.noNull
		v.Set(reflect.ValueOf(build(c.genDictD(g, 2))))
	case TJArr:
		g := c.opt(2, 2)
		g.noNull = o.noNull
		v.Set(reflect.ValueOf(build(c.genArr(g, 2))))
	case TJStr:
		switch t.RT {
		case ju.JSONIntPtrType:
			v.Set(reflect.ValueOf(ju.NewInt(c.genInt())))
		case ju.JSONFloatPtrType:
			v.Set(reflect.ValueOf(ju.NewFloat64(c.genFloat())))
		case ju.JSONBoolPtrType:
			v.Set(reflect.ValueOf(ju.NewBool(c.flip("jb"))))
		default:
			v.Set(reflect.ValueOf(ju.NewString(c.genStr())))
		}
	case TJVal:
		g := c.opt(2, 2)
		g.noNull = o.noNull
		switch t.RT {
		case ju.JSONDictType:
			v.Set(reflect.ValueOf(build(c.genDictD(g, 2))).Elem())
		case ju.JSONArrayType:
			v.Set(reflect.ValueOf(build(c.genArr(g, 2))).Elem())
		case ju.JSONStringType:
			v.Set(reflect.ValueOf(ju.NewString(c.genStr())).Elem())
		case ju.JSONIntType:
			v.Set(reflect.ValueOf(ju.NewInt(c.genInt())).Elem())
		case ju.JSONFloatType:
			v.Set(reflect.ValueOf(ju.NewFloat64(c.genFloat())).Elem())
		default:
			v.Set(reflect.ValueOf(ju.NewBool(c.flip("jb"))).Elem())
		}
	}
}

func truncInt(i int64, t reflect.Type) int64 {
	switch t.Bits() {
	case 8:
		return int64(int8(i))
	case 16:
		return int64(int16(i))
	case 32:
		return int64(int32(i))
	}
	return i
}

// ---------- the reference of Marshal ----------

// readAny reads a JSON typed Go value.
func readAny(v reflect.Value, t *T) *V {
	var o ju.JSONObject
	if t.K == TJVal {
		p := reflect.New(t.RT)
		p.Elem().Set(v)
		o = p.Interface().(ju.JSONObject)
	} else {
		if v.IsNil() {
			return nil
		}
		o = v.Interface().(ju.JSONObject)
	}
	m, err := read(o)
	if err != nil {
		panic(err)
	}
	return m
}

// ifaceTs are the containers that an interface{} may hold.
var ifaceTs = []*T{tMapOf(tString, tPtrOf(tInt)), tSliceOf(tPtrOf(tString)), tPtrOf(tInt), tMapOf(tString, tSliceOf(tString)), tMapOf(tInt, tString), tSliceOf(tInt),
	tArrOf(2, tPtrOf(tInt)), {K: TMap, RT: reflect.TypeOf(mMap(nil)), Key: tString, Elem: tInt},
	{K: TStruct, RT: reflect.TypeOf(ifaceRec{}), Fs: []*F{{Go: "P", Name: "p", T: tPtrOf(tString)}, {Go: "S", Name: "s", T: tString}, {Go: "L", Name: "l", T: tSliceOf(tInt)}, {Go: "N", Name: "n", T: tInt, OmitZero: true}}}}

type ifaceRec struct {
	P *string
	S string
	L []int
	N int `json:",omitzero"`
}

func dynT(rt reflect.Type) *T {
	switch rt.Kind() {
	case reflect.Bool:
		return tBool
	case reflect.Int64:
		return tInt64
	case reflect.String:
		return tString
	case reflect.Float64:
		return tF64
	}
	for _, t := range ifaceTs {
		if t.RT == rt {
			return t
		}
	}
	if rt.Kind() == reflect.Ptr {
		return tPtrOf(dynT(rt.Elem()))
	}
	panic("dynT " + rt.String())
}

// refM is the JSON form of v, or nil where it is left out. all is MarshalAll.
func refM(v reflect.Value, t *T, f *F, all bool) *V {
	omitEmpty := f != nil && !f.AllowEmpty && !all
	str := f != nil && f.Str
	none := func() *V {
		if all {
			return vNull()
		}
		return nil
	}
	wrap := func(x *V) *V {
		if str {
			s := vStr(refText(x))
			s.J = x
			return s
		}
		return x
	}
	switch t.K {
	case TBool:
		if !v.Bool() && f != nil && f.OmitFalse && !all {
			return nil
		}
		if str {
			return vStr(strconv.FormatBool(v.Bool()))
		}
		return vBool(v.Bool())
	case TInt, TUint:
		var i int64
		if t.K == TInt {
			i = v.Int()
		} else {
			i = int64(v.Uint())
		}
		if i == 0 && f != nil && f.OmitZero && !all {
			return nil
		}
		if str {
			return vStr(strconv.FormatInt(i, 10))
		}
		return vInt(i)
	case TF32, TF64:
		if v.Float() == 0 && f != nil && f.OmitZero && !all {
			return nil
		}
		if str {
			return vStr(strconv.FormatFloat(v.Float(), 'f', -1, t.RT.Bits()))
		}
		return vFloat(v.Float())
	case TString:
		if v.Len() == 0 && omitEmpty {
			return nil
		}
		return vStr(v.String())
	case TTime:
		tm := v.Interface().(time.Time)
		if tm.IsZero() {
			if omitEmpty {
				return nil
			}
			return vStr("")
		}
		return vStr(tm.UTC().Format("2006-01-02T15:04:05.000000Z"))
	case TTri:
		switch v.Interface().(tristate.TriState) {
		case tristate.True:
			return vBool(true)
		case tristate.False:
			return vBool(false)
		}
		return none()
	case TSlice, TArray:
		if t.K == TSlice && v.IsNil() {
			return none()
		}
		if v.Len() == 0 && omitEmpty {
			return nil
		}
		a := &V{K: KArray}
		for i := 0; i < v.Len(); i++ {
			if x := refM(v.Index(i), t.Elem, nil, all); x != nil {
				a.A = append(a.A, x)
			}
		}
		return wrap(a)
	case TMap:
		if v.IsNil() {
			return none()
		}
		if v.Len() == 0 && omitEmpty {
			return nil
		}
		d := vDict()
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].Kind() == reflect.String {
				return ks[i].String() < ks[j].String()
			}
			return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j])
		})
		for _, k := range ks {
			if x := refM(v.MapIndex(k), t.Elem, nil, all); x != nil {
				n := fmt.Sprint(k.Interface())
				if k.Kind() == reflect.String {
					n = k.String()
				}
				d.set(n, x)
			}
		}
		return wrap(d)
	case TPtr:
		if v.IsNil() {
			return none()
		}
		if t.Elem.K == TTime {
			// *time.Time is a json.Marshaler
			return vStr(v.Elem().Interface().(time.Time).Format(time.RFC3339Nano))
		}
		return refM(v.Elem(), t.Elem, f, all)
	case TStruct:
		d := vDict()
		refFields(v, t, all, d)
		if len(d.D) == 0 && omitEmpty {
			return nil
		}
		return wrap(d)
	case TIface:
		if v.IsNil() {
			return none()
		}
		return refM(v.Elem(), dynT(v.Elem().Type()), f, all)
	case TJObj, TJDict, TJArr, TJStr:
		x := readAny(v, t)
		if x == nil {
			return none()
		}
		return x
	case TJVal:
		x := readAny(v, t)
		empty := false
		switch x.K {
		case KDict:
			empty = len(x.D) == 0
		case KArray:
			empty = len(x.A) == 0
		case KString:
			empty = x.S == ""
		case KInt:
			empty = x.I == 0
		case KBool:
			empty = !x.B
		case KFloat:
			empty = x.F == 0
		}
		if empty && omitEmpty {
			return nil
		}
		return x
	}
	panic("refM")
}

func refFields(v reflect.Value, t *T, all bool, d *V) {
	for i, f := range t.Fs {
		if f.Hidden || f.Ignore {
			continue
		}
		if f.Embed {
			fv, ft := v.Field(i), f.T
			if ft.K == TPtr {
				fv, ft = fv.Elem(), ft.Elem
			}
			refFields(fv, ft, all, d)
			continue
		}
		if f.DepBy != "" {
			continue
		}
		if x := refM(v.Field(i), f.T, f, all); x != nil {
			d.set(f.Name, x)
		}
	}
}

// ---------- what comes back ----------

// sameRT compares a value read back with the original. Parts that are left out
// of the JSON form come back as zero values.
func sameRT(a, b reflect.Value, t *T, f *F, where string) error {
	if refM(a, t, f, false) == nil {
		if !b.IsZero() {
			return fmt.Errorf("%s: left out of the document, but is %v", where, b.Interface())
		}
		return nil
	}
	diff := func() error {
		return fmt.Errorf("%s: want %#v, got %#v", where, a.Interface(), b.Interface())
	}
	switch t.K {
	case TBool:
		if a.Bool() != b.Bool() {
			return diff()
		}
	case TInt:
		if a.Int() != b.Int() {
			return diff()
		}
	case TUint:
		if a.Uint() != b.Uint() {
			return diff()
		}
	case TF32, TF64:
		if a.Float() != b.Float() {
			return diff()
		}
	case TString:
		if a.String() != b.String() {
			return diff()
		}
	case TTime:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Truncate(time.Microsecond).Equal(y) {
			return diff()
		}
	case TTri:
		if a.Interface() != b.Interface() {
			return diff()
		}
	case TSlice, TArray:
		if a.Len() != b.Len() {
			return diff()
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameRT(a.Index(i), b.Index(i), t.Elem, nil, fmt.Sprintf("%s[%d]", where, i)); err != nil {
				return err
			}
		}
	case TMap:
		if a.Len() != b.Len() {
			return diff()
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Errorf("%s: key %q is missing", where, k)
			}
			if err := sameRT(a.MapIndex(k), y, t.Elem, nil, fmt.Sprintf("%s[%q]", where, k)); err != nil {
				return err
			}
		}
	case TPtr:
		if b.IsNil() {
			return diff()
		}
		if t.Elem.K == TTime {
			if !a.Elem().Interface().(time.Time).Equal(b.Elem().Interface().(time.Time)) {
				return diff()
			}
			return nil
		}
		return sameRT(a.Elem(), b.Elem(), t.Elem, f, "*"+where)
	case TStruct:
		return sameFields(a, b, t, where)
	case TIface:
		x, y := a.Interface(), b.Interface()
		if xf, ok := x.(float64); ok {
			if yi, ok := y.(int64); ok {
				y = float64(yi)
			}
			x = xf
		}
		if x != y {
			return diff()
		}
	case TJObj, TJDict, TJArr, TJStr, TJVal:
		x, y := readAny(a, t), readAny(b, t)
		if y == nil || !eqV(norm(x), norm(y), false) {
			return fmt.Errorf("%s: want %s, got %v", where, x, y)
		}
	}
	return nil
}

func sameFields(a, b reflect.Value, t *T, where string) error {
	for i, f := range t.Fs {
		w := where + "." + f.Go
		if f.Hidden {
			continue
		}
		if f.Ignore {
			if !b.Field(i).IsZero() {
				return fmt.Errorf("%s: ignored field was set to %v", w, b.Field(i).Interface())
			}
			continue
		}
		if f.Embed {
			x, y, ft := a.Field(i), b.Field(i), f.T
			if ft.K == TPtr {
				ft = ft.Elem
				x = x.Elem()
				if y.IsNil() {
					// nothing of the embedded struct was in the document
					d := vDict()
					refFields(x, ft, false, d)
					if len(d.D) > 0 {
						return fmt.Errorf("%s: embedded struct is lost", w)
					}
					continue
				}
				y = y.Elem()
			}
			if err := sameFields(x, y, ft, w); err != nil {
				return err
			}
			continue
		}
		if err := sameRT(a.Field(i), b.Field(i), f.T, f, w); err != nil {
			return err
		}
	}
	return nil
}

func goShow(v reflect.Value) string { return clip(fmt.Sprintf("%+v", v.Interface()), 1500) }
