package props

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

type n30 struct {
	C string `json:"c" form:"c" xml:"c" header:"c" uri:"c" binding:"oneof=x y"`
}

type p30 struct {
	D int `json:"d" form:"d" xml:"d" header:"d" uri:"d" binding:"required"`
}

type v30 struct {
	A int    `json:"a" form:"a" xml:"a" header:"a" uri:"a" binding:"gte=2,lte=5"`
	B string `json:"b" form:"b" xml:"b" header:"b" uri:"b" binding:"required"`
	N n30    `json:"n" xml:"n"`
	P *p30   `json:"p" xml:"p"`
	L []int  `json:"l" form:"l" xml:"l" header:"l" uri:"l" binding:"max=2,dive,gt=0"`
}

// ok30 evaluates the rules of v30.
func ok30(v v30) bool {
	if v.A < 2 || v.A > 5 || v.B == "" || v.N.C != "x" && v.N.C != "y" || v.P != nil && v.P.D == 0 || len(v.L) > 2 {
		return false
	}
	for _, l := range v.L {
		if l <= 0 {
			return false
		}
	}
	return true
}

// okAll applies the rules wherever structs are reached.
func okAll(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && okAll(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !okAll(v.Index(i)) {
				return false
			}
		}
	case reflect.Struct:
		switch x := v.Interface().(type) {
		case v30:
			return ok30(x)
		case n30:
			return x.C == "x" || x.C == "y"
		}
	}
	return true
}

// recValidator records what it is given.
type recValidator struct {
	n   int
	got interface{}
	err error
}

func (r *recValidator) ValidateStruct(o interface{}) error { r.n++; r.got = o; return r.err }
func (r *recValidator) Engine() interface{}                { return nil }
func (r *recValidator) Name() string                       { return "rec" }

const (
	valDefault = iota
	valOff
	valOK
	valFails
	valN
)

// withValidator runs f under a validator.
func withValidator(mode int, f func()) *recValidator {
	rv := &recValidator{}
	switch mode {
	case valOff:
		binding.Validator = nil
	case valOK:
		binding.Validator = rv
	case valFails:
		rv.err = errInjected
		binding.Validator = rv
	}
	defer func() { binding.Validator = defaultValidator }()
	f()
	return rv
}

const (
	v30JSON = iota
	v30XML
	v30CtxJSON
	v30CtxXML
	v30CtxForm
	v30CtxMulti
	v30CtxQuery
	v30CtxHeader
	v30Src // + source*2 + second
)

func c30Req(way int, v v30) *http.Request {
	data := c30Data(v)
	switch way {
	case v30JSON, v30CtxJSON:
		b, err := json.Marshal(v)
		must(err)
		return ReqBody("POST", "/b", "application/json", b)
	case v30XML, v30CtxXML:
		b, err := xml.Marshal(v)
		must(err)
		return ReqBody("POST", "/b", "application/xml; charset=utf-8", b)
	case v30CtxForm, v30CtxMulti:
		var ps []kv
		for _, k := range sortedNames(data) {
			for _, x := range data[k] {
				ps = append(ps, kv{k, x})
			}
		}
		if way == v30CtxMulti {
			ct, b := encodeMulti(ps)
			return ReqBody("PUT", "/b", ct, b)
		}
		return ReqBody("PATCH", "/b", "application/x-www-form-urlencoded", []byte(encodePairs(ps, 0)))
	}
	var ps []kv
	req := Req("GET", "/b")
	for _, k := range sortedNames(data) {
		for _, x := range data[k] {
			ps = append(ps, kv{k, x})
			if way == v30CtxHeader {
				req.Header.Add(k, x)
			}
		}
	}
	if way == v30CtxQuery {
		req.URL.RawQuery = encodePairs(ps, 0)
	}
	return req
}

func c30Data(v v30) map[string][]string {
	data := map[string][]string{}
	if v.A != 0 {
		data["a"] = []string{strconv.Itoa(v.A)}
	}
	if v.N.C != "" {
		data["c"] = []string{v.N.C}
	}
	if v.B != "" {
		data["b"] = []string{v.B}
	}
	if v.P != nil {
		data["d"] = []string{strconv.Itoa(v.P.D)}
	}
	for _, l := range v.L {
		data["l"] = append(data["l"], strconv.Itoa(l))
	}
	return data
}

// c30Fields: every combination of field values, from every source.
func c30Fields(c *C) {
	way := c.Choose(v30Src + srcMap*2)
	mode := c.Choose(valN)
	var v v30
	v.A = Pick(c, 1, 2, 5, 6, 0)
	v.B = Pick(c, "", "b")
	v.N.C = Pick(c, "x", "y", "z", "")
	if d := c.Choose(3); d > 0 {
		v.P = &p30{d - 1}
	}
	v.L = Pick(c, nil, []int{1}, []int{1, 0}, []int{0, 1}, []int{1, 2, 3})
	ptr := c.Choose(3) // pointers on top of the target
	var got v30
	var o interface{} = &got
	p1 := &got
	if ptr > 0 {
		if way != v30JSON && way != v30CtxJSON && way != v30XML && way != v30CtxXML {
			return // form-like sources bind to structs
		}
		if ptr > 1 && (way == v30XML || way == v30CtxXML) {
			return // encoding/xml has one level
		}
		o = &p1
		if ptr == 2 {
			p2 := &p1
			o = &p2
		}
	}
	var err error
	var p bool
	rv := withValidator(mode, func() {
		p = quiet(func() {
			if way >= v30Src {
				err = bindFrom((way-v30Src)/2, (way-v30Src)%2 == 1, c30Data(v), o)
				return
			}
			req := c30Req(way, v)
			switch way {
			case v30JSON:
				err = binding.JSON.Bind(req, o)
			case v30XML:
				err = binding.XML.Bind(req, o)
			case v30CtxHeader:
				c29Eng(nil)
				c30Serve(req, func(ctx *water.Context) { err = ctx.BindWith(o, binding.Header) })
			default:
				c30Serve(req, func(ctx *water.Context) { err = ctx.Bind(o) })
			}
		})
	})
	c.Step()
	okv := ok30(v)
	desc := fmt.Sprintf("way %d, %d pointers, %+v (p %+v), validator %d", way, ptr, v, v.P, mode)
	want := okv
	switch mode {
	case valOff, valOK:
		want = true
	case valFails:
		want = false
	}
	same := got.A == v.A && got.B == v.B && got.N == v.N && reflect.DeepEqual(got.P, v.P) && len(got.L) == len(v.L)
	switch {
	case p:
		c.Failf("panic", "%s: panics", desc)
	case want && err != nil:
		c.Failf("refused", "%s: %v", desc, err)
	case !want && err == nil:
		c.Failf("accepted", "%s: no error", desc)
	case want && !same:
		c.Failf("value", "%s: bound %+v", desc, got)
	case mode >= valOK && rv.n == 0:
		c.Failf("validator", "%s: the validator was not asked", desc)
	case mode == valFails && err != errInjected:
		c.Failf("validator", "%s: the error of the validator became %v", desc, err)
	}
	c.State(desc)
	c.Outcome(fmt.Sprint(mode, okv))
}

var c30E = map[string]*water.Engine{}
var c30H func(ctx *water.Context)

func c30Serve(req *http.Request, h func(ctx *water.Context)) {
	e := c30E[req.Method]
	if e == nil {
		e = engineFor(req.Method, func(ctx *water.Context) { c30H(ctx) })
		c30E[req.Method] = e
	}
	c30H = h
	e.ServeHTTP(&nullW{}, req)
}

var c30Elems = []string{`{"a":2,"b":"b","n":{"c":"x"}}`, `{"a":1,"b":"b","n":{"c":"x"}}`, `{"a":2,"b":"b","n":{"c":"q"}}`, `null`, `{"a":2,"b":"b","n":{"c":"y"},"p":{"d":0}}`, `{"a":"x"}`}

type c30Shape struct {
	name string
	mk   func() interface{}
	max  []int // positions per level (0: scalar)
}

type h30 struct {
	V  v30   `json:"v"`
	VP *v30  `json:"vp"`
	VS []v30 `json:"vs" binding:"dive"`
}

var c30Shapes = []c30Shape{
	{"T", func() interface{} { return new(v30) }, nil},
	{"*T", func() interface{} { return new(*v30) }, nil},
	{"**T", func() interface{} { return new(**v30) }, nil},
	{"[]T", func() interface{} { return new([]v30) }, []int{3}},
	{"[]*T", func() interface{} { return new([]*v30) }, []int{3}},
	{"[]**T", func() interface{} { return new([]**v30) }, []int{3}},
	{"*[]T", func() interface{} { return new(*[]v30) }, []int{3}},
	{"[2]T", func() interface{} { return new([2]v30) }, []int{3}},
	{"[2]*T", func() interface{} { return new([2]*v30) }, []int{3}},
	{"[3]T", func() interface{} { return new([3]v30) }, []int{3}},
	{"[][]T", func() interface{} { return new([][]v30) }, []int{2, 2}},
	{"[]*[]T", func() interface{} { return new([]*[]v30) }, []int{2, 2}},
	{"[][2]*T", func() interface{} { return new([][2]*v30) }, []int{2, 2}},
	{"[2][]*T", func() interface{} { return new([2][]*v30) }, []int{2, 2}},
	{"[][][]*T", func() interface{} { return new([][][]*v30) }, []int{2, 2, 1}},
	{"[]*[2]**T", func() interface{} { return new([]*[2]**v30) }, []int{2, 2}},
}

func c30Doc(c *C, max []int, elems []string) string {
	if len(max) == 0 {
		return PickS(c, elems)
	}
	n := c.Choose(max[0] + 2)
	if n == max[0]+1 {
		return "null"
	}
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, c30Doc(c, max[1:], elems))
	}
	return "[" + strings.Join(o, ",") + "]"
}

// c30Positions: structs behind pointers, in slices and arrays.
func c30Positions(elems int) Body {
	return func(c *C) {
		sh := PickS(c, c30Shapes)
		way := c.Choose(4) // binder, ctx.Bind, the validator itself on the value and on its pointer
		off := way < 2 && c.Bool()
		doc := c30Doc(c, sh.max, c30Elems[:elems])
		want := sh.mk()
		derr := json.Unmarshal([]byte(doc), want)
		if way >= 2 && derr != nil {
			return
		}
		ok := derr == nil && (off || okAll(reflect.ValueOf(want)))
		got := sh.mk()
		var err error
		var p bool
		mode := valDefault
		if off {
			mode = valOff
		}
		withValidator(mode, func() {
			p = quiet(func() {
				req := ReqBody("POST", "/b", "application/json", []byte(doc))
				switch way {
				case 0:
					err = binding.JSON.Bind(req, got)
				case 1:
					c30Serve(req, func(ctx *water.Context) { err = ctx.Bind(got) })
				case 2:
					got = want
					err = binding.Validator.ValidateStruct(reflect.ValueOf(want).Elem().Interface())
				case 3:
					got = want
					err = binding.Validator.ValidateStruct(want)
				}
			})
		})
		c.Step()
		desc := fmt.Sprintf("%s from %s, way %d, validation off %v", sh.name, doc, way, off)
		switch {
		case p:
			c.Failf("panic", "%s: panics", desc)
		case ok && err != nil:
			c.Failf("refused", "%s: %v", desc, err)
		case !ok && err == nil:
			c.Failf("accepted", "%s: no error", desc)
		case ok && !reflect.DeepEqual(got, want):
			c.Failf("value", "%s: other values are bound", desc)
		case err != nil && err.Error() == "":
			c.Failf("empty", "%s: the error says nothing", desc)
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(sh.name, ok))
	}
}

// c30Index: one bad element at any position of a long list.
func c30Index(c *C) {
	n := c.Range(1, 12)
	at := c.Choose(n + 1) // n: none
	kind := 1 + c.Choose(len(c30Elems)-1)
	ptr := c.Bool()
	var o []string
	for i := 0; i < n; i++ {
		if i == at {
			o = append(o, c30Elems[kind])
		} else {
			o = append(o, c30Elems[0])
		}
	}
	doc := "[" + strings.Join(o, ",") + "]"
	var t interface{} = new([]v30)
	if ptr {
		t = new([]*v30)
	}
	var err error
	p := quiet(func() { err = binding.JSON.Bind(ReqBody("POST", "/", "", []byte(doc)), t) })
	c.Step()
	if p || (err == nil) != (at == n) {
		c.Failf("position", "%d elements, element %d is %s (pointers %v): panic %v, error %v", n, at, c30Elems[kind], ptr, p, err)
	}
	c.State(fmt.Sprint(n, at, kind, ptr))
}

// c30Values: things that are not structs need no validation; nil does not crash.
func c30Values(c *C) {
	one, s := 1, "s"
	var np *v30
	var nn **v30
	var ni interface{}
	good := v30{A: 2, B: "b", N: n30{"x"}}
	cases := []struct {
		v  interface{}
		ok bool
	}{
		{nil, false}, {np, false}, {&np, false}, {nn, false}, {&ni, false}, {1, true}, {&one, true}, {"s", true}, {&s, true},
		{[]int{1}, true}, {[]int(nil), true}, {[]v30(nil), true}, {[0]v30{}, true}, {map[string]int{"a": 1}, true}, {map[string]int(nil), true},
		{good, true}, {&good, true}, {v30{}, false}, {[]interface{}{good}, true}, {[]interface{}{good, v30{}}, false}, {[]interface{}{v30{}, good}, false}, {[]interface{}{nil}, false}, {[]interface{}{np}, false},
		{[]interface{}{&good, 1, "x"}, true}, {[]interface{}{[]v30{{}}}, false}, {[1]interface{}{[]*v30{&good}}, true}, {[]*v30{nil}, false}, {[2]*v30{&good, nil}, false}, {[2]*v30{nil, &good}, false},
		{[]error{nil}, false}, {struct{}{}, true}, {&struct{ A int }{1}, true}, {n30{"x"}, true}, {n30{"z"}, false}, {[]n30{{"x"}, {"z"}}, false},
	}
	i := c.Choose(len(cases))
	k := cases[i]
	var err error
	p := quiet(func() { err = binding.Validator.ValidateStruct(k.v) })
	c.Step()
	if p || (err == nil) != k.ok {
		c.Failf("values", "validating %T %v: panic %v, error %v, expected success %v", k.v, k.v, p, err, k.ok)
	}
	c.State(fmt.Sprint(i))
}

func init() {
	register(&Prop{ID: "C30", Scopes: []Scope{
		{Name: "values", Desc: "35 values given to the validator itself: nil in every guise, scalars, maps, structs, interfaces, nested lists", Body: c30Values, Split: 1},
		{Name: "index", Desc: "lists of up to 12 structs or pointers with one of 5 bad elements at every position", Body: c30Index, Split: 2},
		{Name: "fields", Desc: "600 combinations of field values at and around each rule and of fields not sent (down to none at all) x JSON, XML, form, multipart, query, header, uri, directly (Bind and Bind2) and through the context x up to 2 more pointers x the validator given, off, accepting, refusing", Body: c30Fields, Split: 3},
		{Name: "positions", Desc: "16 targets of pointers, slices and arrays up to 3 levels, each position one of 4 elements (good, bad, bad inside, null) or cut short x binder, context, validator on the value and its pointer x validation on or off", Body: c30Positions(4), Split: 4},
		{Name: "positions-6", Desc: "the same with 6 elements (also an optional struct that is bad, and one that does not decode)", Body: c30Positions(6), Split: 5, Thorough: true},
	}})
}
