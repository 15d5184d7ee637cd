package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	. "verif/mc/explore"
)

type leafA struct { // used as leaf only, never embedded as unexported
	A string   `form:"a" header:"a" uri:"a"`
	P *string  `form:"p" header:"p" uri:"p"`
	I int      `form:"i" header:"i" uri:"i"`
	S []string `form:"s" header:"s" uri:"s"`
	X string   `form:"-" header:"-" uri:"-"`
	u string   `form:"u" header:"u" uri:"u"`
	Q *int     `form:"q" header:"q" uri:"q"`
}

type leafU struct {
	A string   `form:"a" header:"a" uri:"a"`
	S []string `form:"s" header:"s" uri:"s"`
	X *string  `form:"-" header:"-" uri:"-"`
	u int      `form:"i" header:"i" uri:"i"`
}

type leafB struct {
	leafU
	P string `form:"p" header:"p" uri:"p"`
}

type leafC struct {
	*leafU
	P string `form:"p" header:"p" uri:"p"`
}

type leafD struct {
	T time.Time  `form:"t" header:"t" uri:"t" time_format:"unix"`
	Q *time.Time `form:"tp" header:"tp" uri:"tp" time_format:"unix"`
	F []int      `form:"i" header:"i" uri:"i"`
}

type leafE struct {
	leafU `form:"-" header:"-" uri:"-"`
	P     *leafU `form:"-" header:"-" uri:"-"`
	A     string `form:"a,omitempty" header:"a,omitempty" uri:"a,omitempty"`
}

type leafF struct {
	A string   `form:"a,default=dv" header:"a,default=dv" uri:"a,default=dv"`
	I *int     `form:"i,default=7" header:"i,default=7" uri:"i,default=7"`
	S []string `form:"s,default=ds" header:"s,default=ds" uri:"s,default=ds"`
	u string   `form:"u,default=no" header:"u,default=no" uri:"u,default=no"`
}

type LeafG struct {
	A string `form:"a" header:"a" uri:"a"`
	I int16  `form:"i" header:"i" uri:"i"`
	Y bool   `form:"y" header:"y" uri:"y"`
}

type leafH struct {
	LeafG
	*leafA2
	N struct {
		*LeafG
		S []*string `form:"-" header:"-" uri:"-"`
	}
}

type leafA2 struct {
	P string `form:"p" header:"p" uri:"p"`
	s string `form:"s" header:"s" uri:"s"`
}

var c28Leaves = []reflect.Type{reflect.TypeOf(leafA{}), reflect.TypeOf(leafB{}), reflect.TypeOf(leafC{}), reflect.TypeOf(leafD{}), reflect.TypeOf(leafE{}), reflect.TypeOf(leafF{}), reflect.TypeOf(leafH{})}

const (
	wrNested = iota
	wrPtr
	wrEmbed
	wrEmbedPtr
	wrIgn
	wrIgnPtr
	wrIgnEmbed
	wrUnexp
	wrUnexpPtr
	wrTagged
	wrTaggedPtr
	wrIgnOpt
	wrN
)

func tags3(s string) string { return fmt.Sprintf(`form:"%s" header:"%s" uri:"%s"`, s, s, s) }

type c28Shape struct{ leaf, a, b int }

var c28Types = map[c28Shape]reflect.Type{}

func c28Wrap(t reflect.Type, mode, depth int) reflect.Type {
	if mode < 0 {
		return t
	}
	f := reflect.StructField{Name: "N", Type: t}
	switch mode {
	case wrPtr, wrEmbedPtr, wrIgnPtr, wrUnexpPtr, wrTaggedPtr:
		f.Type = reflect.PtrTo(t)
	}
	switch mode {
	case wrEmbed, wrEmbedPtr, wrIgnEmbed:
		f.Anonymous = true
	case wrUnexp, wrUnexpPtr:
		f.Name = "n"
		f.PkgPath = "verif/mc/props"
	}
	switch mode {
	case wrIgn, wrIgnPtr, wrIgnEmbed:
		f.Tag = reflect.StructTag(tags3("-"))
	case wrIgnOpt:
		f.Tag = reflect.StructTag(tags3("-") + ` json:"n"`)
	case wrTagged, wrTaggedPtr:
		f.Tag = reflect.StructTag(tags3("wrapper"))
	}
	return reflect.StructOf([]reflect.StructField{
		{Name: "K", Type: reflect.TypeOf(""), Tag: reflect.StructTag(tags3(fmt.Sprintf("k%d", depth)))},
		f,
		{Name: "Z", Type: reflect.TypeOf([]string{}), Tag: reflect.StructTag(tags3("a"))},
	})
}

// nd is a snapshot of a value.
type nd struct {
	leaf string
	kids []*nd // of a struct
	ptr  *nd   // of a pointer to a struct (nil: nil pointer)
}

func (n *nd) String() string {
	if n == nil {
		return "nil"
	}
	if n.kids == nil {
		if n.ptr != nil {
			return "&" + n.ptr.String()
		}
		return n.leaf
	}
	var o []string
	for _, k := range n.kids {
		o = append(o, k.String())
	}
	return "{" + strings.Join(o, " ") + "}"
}

var tTime = reflect.TypeOf(time.Time{})

func snapScalar(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + snapScalar(v.Elem())
	case reflect.Slice:
		var o []string
		for i := 0; i < v.Len(); i++ {
			o = append(o, snapScalar(v.Index(i)))
		}
		return "[" + strings.Join(o, ",") + "]"
	case reflect.Struct:
		if v.Type() == tTime {
			return fmt.Sprintf("t%x.%d", v.Field(0).Uint(), v.Field(1).Int())
		}
	}
	panic("snapScalar " + v.Type().String())
}

func isStruct(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Kind() == reflect.Struct && t != tTime
}

func snap(v reflect.Value) *nd {
	if !isStruct(v.Type()) {
		return &nd{leaf: snapScalar(v)}
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		return &nd{ptr: snap(v.Elem())}
	}
	n := &nd{kids: []*nd{}}
	for i := 0; i < v.NumField(); i++ {
		n.kids = append(n.kids, snap(v.Field(i)))
	}
	return n
}

// c28Apply is the rule of the property on a snapshot; it tells whether anything was set.
func c28Apply(n *nd, t reflect.Type, tag string, second bool, data map[string][]string, bad *bool, outer ...reflect.Type) bool {
	set := false
	outer = append(append([]reflect.Type{}, outer...), t)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		parts := strings.Split(f.Tag.Get(tag), ",")
		name := parts[0]
		if name == "-" {
			continue
		}
		if isStruct(f.Type) {
			switch {
			case f.Type.Kind() != reflect.Ptr:
				set = c28Apply(n.kids[i], f.Type, tag, second, data, bad, outer...) || set
			case n.kids[i] != nil:
				set = c28Apply(n.kids[i].ptr, f.Type.Elem(), tag, second, data, bad, outer...) || set
			case hasType(outer, f.Type.Elem()): // a recursive type: there is no end to it
			case f.PkgPath == "":
				z := snap(reflect.New(f.Type.Elem()).Elem())
				if c28Apply(z, f.Type.Elem(), tag, second, data, bad, outer...) {
					n.kids[i] = &nd{ptr: z}
					set = true
				}
			}
			continue
		}
		if name == "" || name == "-" {
			continue
		}
		vals, ok := data[name]
		if !ok {
			for _, o := range parts[1:] {
				if strings.HasPrefix(o, "default=") {
					vals, ok = []string{strings.TrimPrefix(o, "default=")}, true
				}
			}
		}
		if !ok {
			continue
		}
		set = true
		one := func(t reflect.Type, s string) string {
			amp := ""
			if t.Kind() == reflect.Ptr {
				t, amp = t.Elem(), "&"
			}
			switch {
			case t.Kind() == reflect.String:
				return amp + strconv.Quote(s)
			case t.Kind() == reflect.Bool:
				b, err := strconv.ParseBool(s)
				*bad = *bad || err != nil
				return amp + strconv.FormatBool(b)
			}
			if s == "" && t != tTime {
				s = "0"
			}
			x, err := strconv.ParseInt(s, 10, 16)
			*bad = *bad || err != nil
			if t == tTime {
				return amp + snapScalar(reflect.ValueOf(time.Unix(x, 0)))
			}
			return amp + strconv.FormatInt(x, 10)
		}
		if f.Type.Kind() == reflect.Slice {
			var o []string
			for _, v := range vals {
				o = append(o, one(f.Type.Elem(), v))
			}
			n.kids[i].leaf = "[" + strings.Join(o, ",") + "]"
		} else {
			n.kids[i].leaf = one(f.Type, vals[0])
		}
	}
	return set
}

// c28Fill gives every settable field a value; pointers to structs as chosen by alloc.
func c28Fill(v reflect.Value, alloc, values bool) {
	s, in := "before", 99
	t := v.Type()
	if alloc && v.CanSet() {
		switch x := v.Addr().Interface().(type) { // embedded pointers to unexported structs
		case *leafC:
			x.leafU = &leafU{A: "before", u: 3}
		case *leafH:
			x.leafA2 = &leafA2{s: "before"}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if isStruct(f.Type()) {
			if f.Kind() == reflect.Ptr {
				if !alloc || !f.CanSet() {
					continue
				}
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			if t.Field(i).PkgPath == "" || t.Field(i).Anonymous {
				c28Fill(f, alloc, values)
			}
			continue
		}
		if !values || !f.CanSet() {
			continue
		}
		switch x := f.Addr().Interface().(type) {
		case *string:
			*x = s
		case **string:
			*x = &s
		case *int:
			*x = in
		case **int:
			*x = &in
		case *[]string:
			*x = []string{"b1", "b2", "b3"}
		case *[]int:
			*x = []int{9, 9, 9}
		case *time.Time:
			*x = time.Unix(50, 0)
		case **time.Time:
			tt := time.Unix(60, 0)
			*x = &tt
		case *bool:
			*x = true
		case *int16:
			*x = 99
		}
	}
}

func c28New(sh c28Shape, alloc, values bool) reflect.Value {
	t := c28Types[sh]
	if t == nil {
		t = c28Wrap(c28Wrap(c28Leaves[sh.leaf], sh.a, 0), sh.b, 1)
		c28Types[sh] = t
	}
	v := reflect.New(t)
	c28Fill(v.Elem(), alloc, values)
	return v
}

var c28Names = []string{"a", "p", "i", "s", "u", "q", "t", "tp", "y", "k0", "k1", "-", "A1", "dv", "wrapper2"}

func c28Vals(name string) [][]string {
	switch name {
	case "i", "q", "t", "tp":
		return [][]string{{"5"}, {"6", "x"}, {"x"}, {""}}
	case "y":
		return [][]string{{"true"}, {"false", "true"}, {"no"}}
	}
	return [][]string{{"v"}, {"v1", "v2"}, {""}, {"v1", "", "v2"}, {"", "v", ""}}
}

// c28Body enumerates shapes with layers of wrappers around a leaf and data naming up to n fields.
func c28Body(layers, names int, sources []int) Body {
	return func(c *C) {
		sh := c28Shape{leaf: c.Choose(len(c28Leaves)), a: -1, b: -1}
		if layers > 0 {
			sh.a = c.Choose(wrN+1) - 1
		}
		if layers > 1 && sh.a >= 0 {
			sh.b = c.Choose(wrN+1) - 1
		}
		src := PickS(c, sources)
		second := src != srcMap && c.Bool()
		alloc, values := c.Bool(), c.Bool()
		data := map[string][]string{}
		from := 0
		for i := 0; i < names; i++ {
			k := from + c.Choose(len(c28Names)+1-from)
			if k == len(c28Names) {
				break
			}
			data[c28Names[k]] = PickS(c, c28Vals(c28Names[k]))
			from = k + 1
		}
		v := c28New(sh, alloc, values)
		before := snap(v.Elem())
		want := snap(v.Elem())
		bad := false
		tag := srcTag[src]
		c28Apply(want, v.Elem().Type(), tag, second, data, &bad)
		var err error
		p := quiet(func() { err = bindFrom(src, second, data, v.Interface()) })
		got := snap(v.Elem())
		c.Step()
		desc := func() string {
			return fmt.Sprintf("leaf %s in layers %d %d from %s (Bind2: %v; pointers allocated: %v, holding values: %v), data %v, before %v", c28Leaves[sh.leaf].Name(), sh.a, sh.b, srcNames[src], second, alloc, values, data, before)
		}
		switch {
		case p:
			c.Failf("panic", "%s: panics", desc())
		case bad && err == nil:
			c.Failf("accepted", "%s: no error, now %v", desc(), got)
		case bad:
			c28Ignored(c, desc, before, got, v.Elem().Type(), tag)
		case err != nil:
			c.Failf("refused", "%s: %v", desc(), err)
		case got.String() != want.String():
			c.Failf("fields", "%s: now %v, expected %v", desc(), got, want)
		}
		c.Outcome(fmt.Sprint(c28Leaves[sh.leaf].Name(), bad))
		c.State(fmt.Sprint(sh, src, second, alloc, values, data))
	}
}

// c28Ignored: even when binding fails, ignored and unexported fields are as before.
func c28Ignored(c *C, desc func() string, a, b *nd, t reflect.Type, tag string) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		x, y := a.kids[i], b.kids[i]
		if f.PkgPath != "" && !f.Anonymous || f.Tag.Get(tag) == "-" {
			if x.String() != y.String() {
				c.Failf("ignored", "%s: field %s changed to %v", desc(), f.Name, y)
			}
			continue
		}
		if !isStruct(f.Type) || x == nil || y == nil {
			continue
		}
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			ft, x, y = ft.Elem(), x.ptr, y.ptr
		}
		c28Ignored(c, desc, x, y, ft, tag)
	}
}

// c28Maps: string maps receive every entry.
func c28Maps(c *C) {
	src := c.Choose(srcN)
	second := src != srcMap && src != srcMulti && src != srcHeader && c.Bool()
	multi := c.Bool()
	prior := c.Choose(3) // nil, empty, holding
	data := map[string][]string{}
	names := []string{"a", "B-c", "é", "-", "x[y]"}
	if src == srcHeader {
		names = []string{"A", "B-C", "X-1", "-", "Z"}
	}
	for _, n := range names {
		if v := Pick(c, nil, []string{"v"}, []string{"v1", "v2"}, []string{""}, []string{"v", ""}, []string{}); v != nil && (len(v) > 0 || src == srcUri || src == srcMap || src == srcHeader) {
			data[n] = v
		}
	}
	var err error
	var p bool
	desc := fmt.Sprintf("map from %s (Bind2: %v, before: %d, lists: %v), data %v", srcNames[src], second, prior, multi, data)
	if multi {
		var m map[string][]string
		if prior > 0 {
			m = map[string][]string{}
		}
		want := map[string][]string{}
		if prior == 2 {
			m["a"], want["a"] = []string{"old"}, []string{"old"}
			m["keep"], want["keep"] = []string{"old"}, []string{"old"}
		}
		for k, v := range data {
			want[k] = v
		}
		p = quiet(func() { err = bindFrom(src, second, data, &m) })
		if !p && err == nil {
			ok := len(m) == len(want)
			for k, v := range want {
				ok = ok && sameStrings(m[k], v)
			}
			if !ok {
				c.Failf("map", "%s: the map is %v, expected %v", desc, m, want)
			}
		}
	} else {
		var m map[string]string
		if prior > 0 {
			m = map[string]string{}
		}
		want := map[string]string{}
		if prior == 2 {
			m["a"], want["a"] = "old", "old"
			m["keep"], want["keep"] = "old", "old"
		}
		for k, v := range data {
			if len(v) > 0 {
				want[k] = v[len(v)-1]
			}
		}
		p = quiet(func() { err = bindFrom(src, second, data, &m) })
		if !p && err == nil && !sameMap(m, want) {
			c.Failf("map", "%s: the map is %v, expected %v", desc, m, want)
		}
	}
	c.Step()
	if p || err != nil {
		c.Failf("mapfail", "%s: panic %v, error %v", desc, p, err)
	}
	c.State(desc)
}

func init() {
	all := []int{srcQuery, srcForm, srcMulti, srcHeader, srcUri, srcMap}
	register(&Prop{ID: "C28", Scopes: []Scope{
		{Name: "maps", Desc: "5 names each absent, with a value, two, an empty one, one and an empty one or an empty list x map of strings or lists x nil, empty, holding entries x all sources x Bind and Bind2", Body: c28Maps, Split: 4},
		{Name: "one-layer", Desc: "7 leaf structs (exported, unexported, ignored, defaulted, pointer, slice, time, embedded fields) bare or in one of 12 wrappers (nested, embedded, pointer, ignored, unexported, tagged) x all sources x Bind and Bind2 x pointers nil or allocated x fields zero or holding values x data naming up to 1 of 15 names with 3-5 value lists (empty values at every position)", Body: c28Body(1, 1, all), Split: 4},
		{Name: "two-names", Desc: "the same with data naming up to 2 names, from the uri and the header", Body: c28Body(1, 2, []int{srcUri, srcHeader}), Split: 4},
		{Name: "two-layers", Desc: "two layers of wrappers, data naming up to 1 name, from the uri", Body: c28Body(2, 1, []int{srcUri}), Split: 4},
		{Name: "two-layers-two-names", Desc: "two layers of wrappers, data naming up to 2 names", Body: c28Body(2, 2, []int{srcUri}), Split: 4, Thorough: true},
		{Name: "three-names", Desc: "one layer, data naming up to 3 names", Body: c28Body(1, 3, []int{srcUri}), Split: 4, Thorough: true},
	}})
}
