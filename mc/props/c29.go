package props

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

type c29Inner struct {
	X int    `json:"x" xml:"x"`
	Y string `json:"y" xml:"y,attr"`
}

type c29T struct {
	A int         `json:"a" xml:"a"`
	B string      `json:"b" xml:"b"`
	C []int       `json:"c" xml:"c"`
	D *int        `json:"d" xml:"d"`
	E c29Inner    `json:"e" xml:"e"`
	F *c29Inner   `json:"f" xml:"f"`
	G interface{} `json:"g" xml:"-"`
	H bool        `json:"h" xml:"h"`
	I float64     `json:"i" xml:"i"`
	K uint8       `json:"k" xml:"k"`
	L []*c29Inner `json:"l" xml:"l"`
	c29Inner
}

type c29Short struct {
	A int    `json:"a" xml:"a"`
	B string `json:"b" xml:"b"`
}

var c29Targets = []func() interface{}{
	func() interface{} { return new(c29T) },
	func() interface{} { return new(c29Short) },
	func() interface{} { return new(*c29Short) },
	func() interface{} { return new([]c29Short) },
	func() interface{} { return new([]*c29Short) },
	func() interface{} { return new(map[string]int) },
	func() interface{} { return new(int) },
	func() interface{} { return new(string) },
	func() interface{} { return new(interface{}) },
	func() interface{} { return new([2]int) },
	func() interface{} { p := new(*c29Short); *p = &c29Short{A: 77, B: "old"}; return p },
	func() interface{} { return new([]int8) },
	func() interface{} { return new(map[string]*c29Short) },
	func() interface{} { return new([][]c29Short) },
	func() interface{} { return new(time.Time) },
}

// c29Nil tells whether validation meets a nil pointer (which is an error).
func c29Nil(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return v.IsNil() || c29Nil(v.Elem())
	case reflect.Interface:
		return v.IsNil() || c29Nil(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if c29Nil(v.Index(i)) {
				return true
			}
		}
	}
	return false
}

func c29Std(isXML bool, body io.Reader, o interface{}) error {
	var err error
	if isXML {
		err = xml.NewDecoder(body).Decode(o)
	} else {
		var b []byte
		if b, err = io.ReadAll(body); err == nil {
			err = json.Unmarshal(b, o)
		}
	}
	if err == nil && c29Nil(reflect.ValueOf(o)) {
		err = fmt.Errorf("nil")
	}
	return err
}

// c29One binds a body in every way and compares with the standard decoder.
func c29One(isXML bool, target int, body string, chunk int, ways int) string {
	want := c29Targets[target]()
	werr := c29Std(isXML, strings.NewReader(body), want)
	for way := 0; way < ways; way++ {
		got := c29Targets[target]()
		ct, b := "application/json", binding.Bindinger(binding.JSON)
		if isXML {
			ct, b = "text/xml", binding.XML
		}
		req := ReqBody("POST", "/b", ct, nil)
		req.Body = &chunkReader{data: []byte(body), chunk: chunk, failAt: -1}
		var err error
		var p bool
		switch way {
		case 0:
			p = quiet(func() { err = b.Bind(req, got) })
		case 1:
			p = quiet(func() { c29Eng(func(ctx *water.Context) { err = ctx.Bind(got) }).ServeHTTP(&nullW{}, req) })
		case 2:
			p = quiet(func() { c29Eng(func(ctx *water.Context) { err = ctx.BindWith(got, b) }).ServeHTTP(&nullW{}, req) })
		}
		switch {
		case p:
			return fmt.Sprintf("way %d panics", way)
		case err == nil && werr != nil:
			return fmt.Sprintf("way %d succeeds with %+v, the standard decoder says %v", way, got, werr)
		case err != nil && werr == nil:
			return fmt.Sprintf("way %d fails (%v), the standard decoder gives %+v", way, err, want)
		case err == nil && !reflect.DeepEqual(got, want):
			return fmt.Sprintf("way %d gives %+v, the standard decoder %+v", way, got, want)
		}
	}
	return ""
}

var c29H func(ctx *water.Context)
var c29E *water.Engine

func c29Eng(h func(ctx *water.Context)) http.Handler {
	if c29E == nil {
		r := water.NewRouter()
		r.POST("/b", func(ctx *water.Context) { c29H(ctx) })
		c29E = r.Handler()
	}
	c29H = h
	return c29E
}

func c29Tokens(isXML bool, toks []string, n int, targets []int) Body {
	return func(c *C) {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			k := c.Choose(len(toks) + 1)
			if k == 0 {
				break
			}
			sb.WriteString(toks[k-1])
		}
		for _, t := range targets {
			s := c29One(isXML, t, sb.String(), 0, 1)
			c.Step()
			if s != "" {
				c.Failf("decode", "body %q into %T: %s", sb.String(), c29Targets[t](), s)
				return
			}
		}
		c.State(sb.String())
	}
}

var c29JTok = []string{"{", "}", "[", "]", ":", ",", `"a"`, `"b"`, "1", "null", `"x"`, "-1.5", "true", " "}

var c29Docs = []string{
	`{"a":1,"b":"x","c":[1,2],"d":3,"e":{"x":4,"y":"z"},"f":{"x":5},"g":{"k":[null,1.5]},"h":true,"i":-2.5e3,"k":255,"l":[{"x":1},null],"x":9,"y":"w"}`,
	`{"unknown":[{}],"a":1,"zz":{"a":2},"b":"x","more":[1.5,"t",null,true]}`,
	`{"a":null,"c":null,"d":null,"e":null,"f":null,"g":null,"h":null,"l":null}`,
	`{"b":"\u00e9\n\"\\\/\ud83d\ude00\ud800","A":7,"a":8}`,
	`[{"a":1},{"b":"y","a":2}]`, `[]`, `{}`, `null`, `12`, `"text"`, `{"k":1,"j":2}`, `[1,2]`, `[1,2,3]`, `[1]`, ` [ 1 , 2 ] `,
	`"2020-02-29T12:00:00Z"`, `{"p":{"a":1},"q":null}`, `[[{"a":1}],[],null]`, `[{"a":1},null]`, `[null]`, `-0`, `1e2`, `true`, `{"k":256}`, `{"a":1.0}`, `{"a":99999999999999999999}`, `[127,-128]`, `[128]`,
	`{"a":"1"}`, `{"b":1}`, `{"e":[]}`, `{"c":{}}`, `{"h":"true"}`, `{"i":"1"}`, `{"i":1e9}`, `{"f":5}`, `{"l":[5]}`,
}

var c29XMLDocs = []string{
	`<r><a>1</a><b>x</b><c>1</c><c>2</c><d>3</d><e y="z"><x>4</x></e><f><x>5</x></f><h>true</h><i>-2.5e3</i><k>255</k><l><x>1</x></l><x>9</x><u><v/></u></r>`,
	`<?xml version="1.0" encoding="UTF-8"?><!-- c --><r><a> 1 </a><b><![CDATA[<&>]]>&amp;&#233;</b></r>`,
	`<r/>`, `<r></r>`, `<r>`, `<r></s>`, `<r><a>x</a></r>`, `<r><a></a></r>`, `<r><k>256</k></r>`, `<r><h>no</h></r>`, `text`, `<r a="1"/>`, `<r><b>&nope;</b></r>`,
	`<?xml version="1.0" encoding="latin1"?><r/>`, `<r><a>1</a></r><r><a>2</a></r>`, `12`, `<r>12</r>`,
}

// c29Edits: every document as it is, cut at every point, or with one byte removed, replaced or inserted at every position.
func c29Edits(isXML bool, docs []string, alphabet string, targets []int) Body {
	return func(c *C) {
		d := PickS(c, docs)
		kind := c.Choose(4)
		body := d
		switch kind {
		case 1:
			body = d[:c.Choose(len(d))]
		case 2:
			i := c.Choose(len(d))
			body = d[:i] + d[i+1:]
		case 3:
			i := c.Choose(len(d) + 1)
			x := alphabet[c.Choose(len(alphabet))]
			if i < len(d) && c.Bool() {
				body = d[:i] + string([]byte{x}) + d[i+1:]
			} else {
				body = d[:i] + string([]byte{x}) + d[i:]
			}
		}
		if kind > 1 && !isXML && !json.Valid([]byte(body)) {
			return // jsoniter forgives some such damage; tokens and cuts are judged
		}
		for _, t := range targets {
			ways := 1
			if kind < 2 {
				ways = 3
			}
			s := c29One(isXML, t, body, 0, ways)
			c.Steps(ways)
			if s != "" {
				c.Failf("decode", "body %q into %T: %s", body, c29Targets[t](), s)
				return
			}
		}
		c.State(body)
	}
}

// c29Chunks: the way the body arrives does not matter.
func c29Chunks(isXML bool, docs []string, targets []int) Body {
	return func(c *C) {
		d := PickS(c, docs)
		cut := len(d)
		if c.Bool() {
			cut = c.Choose(len(d))
		}
		chunk := Pick(c, 1, 2, 3, 7, 64)
		for _, t := range targets {
			s := c29One(isXML, t, d[:cut], chunk, 3)
			c.Steps(3)
			if s != "" {
				c.Failf("chunks", "body %q in chunks of %d into %T: %s", d[:cut], chunk, c29Targets[t](), s)
				return
			}
		}
		c.State(fmt.Sprint(d[:cut], chunk))
	}
}

// c29Large: documents longer than any buffer.
func c29Large(c *C) {
	isXML := c.Bool()
	n := Pick(c, 500, 512, 513, 4095, 4096, 4097, 70000)
	where := c.Choose(4)
	pad := strings.Repeat("p", n)
	ws := strings.Repeat(" ", n)
	var body string
	if isXML {
		body = [...]string{`<r><a>1</a><b>` + pad + `</b></r>`, ws + `<r><a>1</a></r>`, `<r>` + ws + `<a>1</a></r>`, `<r><a>1</a><b>` + pad}[where]
	} else {
		body = [...]string{`{"a":1,"b":"` + pad + `"}`, ws + `{"a":1}`, `{"a":1` + ws + `,"b":"x"}`, `{"a":1,"b":"` + pad}[where]
	}
	chunk := Pick(c, 0, 1, 511, 512, 4096)
	s := c29One(isXML, 1, body, chunk, 3)
	c.Steps(3)
	if s != "" {
		c.Failf("large", "body of %d bytes (kind %d, xml %v) in chunks of %d: %s", len(body), where, isXML, chunk, s)
	}
	c.State(fmt.Sprint(isXML, n, where, chunk))
}

// c29Faults: reading fails after every number of bytes.
func c29Faults(c *C) {
	c29FaultsOf([]error{errInjected, io.ErrUnexpectedEOF, http.ErrBodyReadAfterClose}, false)(c)
}

func c29FaultsOf(errs []error, few bool) Body {
	return func(c *C) { c29FaultsIn(c, errs, few) }
}

func c29FaultsIn(c *C, errs []error, few bool) {
	isXML := c.Bool()
	docs := c29Docs
	ct, b := "application/json", binding.Bindinger(binding.JSON)
	if isXML {
		docs = c29XMLDocs
		ct, b = "application/xml", binding.XML
	}
	if few {
		docs = docs[:min(4, len(docs))]
	}
	d := PickS(c, docs)
	t := 0
	if !few {
		t = Pick(c, 0, 1, 2, 3, 6, 8)
	}
	at := c.Choose(len(d) + 1)
	with := c.Bool()
	which := PickS(c, errs)
	auto := c.Bool()
	chunk := Pick(c, 0, 1)
	rd := func() *chunkReader {
		return &chunkReader{data: []byte(d), chunk: chunk, failAt: at, err: which, with: with}
	}
	want := c29Targets[t]()
	werr := c29Std(isXML, rd(), want)
	got := c29Targets[t]()
	var err error
	req := ReqBody("POST", "/b", ct, nil)
	req.Body = rd()
	p := quiet(func() {
		if auto {
			c29Eng(func(ctx *water.Context) { err = ctx.Bind(got) }).ServeHTTP(&nullW{}, req)
		} else {
			err = b.Bind(req, got)
		}
	})
	c.Step()
	desc := fmt.Sprintf("body %q into %T whose reading fails (%v) after %d bytes (together with them: %v), chunks %d", d, got, which, at, with, chunk)
	switch {
	case p:
		c.Failf("panic", "%s: panics", desc)
	case err == nil && werr != nil:
		c.Failf("shortened", "%s: success with %+v", desc, got)
	case err == nil && !reflect.DeepEqual(got, want):
		c.Failf("value", "%s: %+v, expected %+v", desc, got, want)
	case err != nil && werr == nil && at == len(d) && false:
	}
	c.State(desc)
	c.Outcome(fmt.Sprint(isXML, werr == nil))
}

var c29Forms = []string{"a=1&b=x", "a=1&b=%zz", "a=1;b=2", "%=1", "a=%4", "a=1&%b=", "a=1&b=2;", "", "&&", "a", "=", "a=+%2B&b=%00", "a=x", "a=1&b=x&%", "%a%b=c"}

// c29Form: forms that do not parse are errors; others bind.
func c29Form(c *C) {
	body := PickS(c, c29Forms)
	query := PickS(c, c29Forms)
	method := Pick(c, "POST", "PUT", "PATCH", "GET", "DELETE")
	ct := Pick(c, "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "text/plain", "application/x-www-form-urlencoded; =", "multipart/form-data", "multipart/form-data; boundary=", "bad/;;type", "")
	fail := c.Choose(len(body)+2) - 1
	second := c.Bool()
	multi := c.Bool()
	mk := func() *http.Request {
		req := ReqBody(method, "/b", ct, nil)
		req.URL.RawQuery = query
		req.Body = &chunkReader{data: []byte(body), failAt: fail, err: errInjected}
		return req
	}
	std := mk()
	var perr error
	var form map[string][]string
	if multi {
		perr = std.ParseMultipartForm(1 << 20)
		if perr == nil {
			form = std.MultipartForm.Value
		}
	} else {
		perr = std.ParseForm()
		form = std.Form
	}
	var want c29FT
	if perr == nil {
		perr = want.fill(form)
	}
	var got c29FT
	var err error
	req := mk()
	p := quiet(func() {
		switch {
		case multi && second:
			err = binding.FormMultipart.Bind2(req, &got)
		case multi:
			err = binding.FormMultipart.Bind(req, &got)
		case second:
			err = binding.Form.Bind2(req, &got)
		default:
			err = binding.Form.Bind(req, &got)
		}
	})
	c.Step()
	desc := fmt.Sprintf("%s %q form %q query %q (reading fails after %d), multipart %v, Bind2 %v", method, ct, body, query, fail, multi, second)
	c29Judge(c, desc, p, err, perr, got, want)
}

type c29FT struct {
	A int    `form:"a"`
	B string `form:"b"`
}

func (t *c29FT) fill(form map[string][]string) error {
	if v := form["a"]; len(v) > 0 && v[0] != "" {
		n, err := strconv.Atoi(v[0])
		if err != nil {
			return err
		}
		t.A = n
	}
	if v := form["b"]; len(v) > 0 {
		t.B = v[0]
	}
	return nil
}

func c29Judge(c *C, desc string, p bool, err, perr error, got, want c29FT) {
	switch {
	case p:
		c.Failf("panic", "%s: panics", desc)
	case err == nil && perr != nil:
		c.Failf("formaccepted", "%s: success with %+v, expected an error (%v)", desc, got, perr)
	case err != nil && perr == nil:
		c.Failf("formrefused", "%s: %v, expected %+v", desc, err, want)
	case err == nil && got != want:
		c.Failf("formvalue", "%s: %+v, expected %+v", desc, got, want)
	}
	c.State(desc)
	c.Outcome(fmt.Sprint("form", perr == nil))
}

// c29Multi: multipart bodies cut, failing or damaged at every byte.
func c29Multi(c *C) {
	ct, b := encodeMulti([]kv{{"a", "1"}, {"b", "x"}})
	second := c.Bool()
	ctx := c.Bool()
	if second && ctx {
		return
	}
	how := c.Choose(4)
	i := c.Choose(len(b))
	body := append([]byte{}, b...)
	fail := -1
	switch how {
	case 0:
		body = body[:i]
	case 1:
		fail = i
	case 2:
		body[i] = Pick(c, byte('x'), byte('\n'), byte('-'), byte(0))
	case 3:
		body = append(body[:i], body[i+1:]...)
	}
	mk := func() *http.Request {
		req := ReqBody("POST", "/b", ct, nil)
		req.Body = &chunkReader{data: body, failAt: fail, err: errInjected}
		return req
	}
	std := mk()
	perr := std.ParseMultipartForm(1 << 20)
	var want, got c29FT
	if perr == nil {
		perr = want.fill(std.MultipartForm.Value)
	}
	var err error
	req := mk()
	p := quiet(func() {
		switch {
		case ctx:
			quiet(func() {
				err = errInjected // unless the binding returns
				c29Eng(func(ctx *water.Context) { err = ctx.Bind(&got) }).ServeHTTP(&nullW{}, req)
			})
		case second:
			err = binding.FormMultipart.Bind2(req, &got)
		default:
			err = binding.FormMultipart.Bind(req, &got)
		}
	})
	c.Step()
	desc := fmt.Sprintf("multipart body %q (reading fails after %d), through the context %v, Bind2 %v", body, fail, ctx, second)
	c29Judge(c, desc, p, err, perr, got, want)
}

// c29NoBody: requests without a body.
func c29NoBody(c *C) {
	b := Pick[binding.Bindinger](c, binding.JSON, binding.XML)
	t := c.Choose(len(c29Targets))
	kind := c.Choose(3)
	var req *http.Request
	switch kind {
	case 1:
		req = Req("POST", "/")
		req.Body = nil
	case 2:
		req = Req("POST", "/")
	}
	var err error
	p := quiet(func() { err = b.Bind(req, c29Targets[t]()) })
	c.Step()
	if p || err == nil {
		c.Failf("nobody", "%s of a request without body (kind %d): panic %v, error %v", b.Name(), kind, p, err)
	}
	c.State(fmt.Sprint(b.Name(), t, kind))
}

type c29Plain struct {
	A string `json:"a" xml:"a" form:"a" header:"a" uri:"a"`
}

// c29Bad are targets nothing can be bound into.
var c29Bad = []struct {
	name   string
	make   func() interface{}
	onlyKV bool // JSON and XML can fill it
}{
	{"nil", func() interface{} { return nil }, false},
	{"nil pointer to a struct", func() interface{} { return (*c29Plain)(nil) }, false},
	{"nil pointer to a map", func() interface{} { return (*map[string]string)(nil) }, false},
	{"nil pointer to a map of lists", func() interface{} { return (*map[string][]string)(nil) }, false},
	{"nil pointer to a number", func() interface{} { return (*int)(nil) }, false},
	{"nil pointer to a list", func() interface{} { return (*[]string)(nil) }, false},
	{"struct", func() interface{} { return c29Plain{"kept"} }, false},
	{"number", func() interface{} { return 7 }, false},
	{"text", func() interface{} { return "kept" }, false},
	{"list", func() interface{} { return []string{"kept"} }, false},
	{"map", func() interface{} { return map[string]string{"kept": "1"} }, true},
	{"map of lists", func() interface{} { return map[string][]string{"kept": {"1"}} }, true},
	{"pointer to a number", func() interface{} { n := 7; return &n }, true},
	{"pointer to a text", func() interface{} { s := "kept"; return &s }, true},
	{"pointer to a list", func() interface{} { return &[]string{"kept"} }, true},
	{"pointer to an interface", func() interface{} { var i interface{} = "kept"; return &i }, true},
	{"pointer to a map of numbers", func() interface{} { return &map[string]int{"kept": 1} }, true},
	{"pointer to a map of lists of numbers", func() interface{} { return &map[string][]int{"kept": {1}} }, true},
	{"pointer to a map by number", func() interface{} { return &map[int]string{1: "kept"} }, true},
	{"pointer to a nil map of numbers", func() interface{} { return new(map[string]int) }, true},
	{"pointer to a map of anything", func() interface{} { return &map[string]interface{}{"kept": 1} }, true},
	{"pointer to a function", func() interface{} { f := func() {}; return &f }, true},
	{"function", func() interface{} { return func() {} }, false},
	{"pointer to a pointer to a number", func() interface{} { n := new(int); return &n }, true},
}

// c29Unusable: an unusable target is an error, whatever the request carries.
func c29Unusable(c *C) {
	bad := PickS(c, c29Bad)
	src := c.Choose(srcN + 2)
	second := src < srcMap && c.Bool()
	data := Pick(c, map[string][]string{}, map[string][]string{"a": {"1"}}, map[string][]string{"a": {"1", "x"}, "b": {""}})
	valid := c.Bool()
	obj := bad.make()
	show := func(o interface{}) string {
		if reflect.ValueOf(o).Kind() == reflect.Func {
			return "func"
		}
		if v := reflect.ValueOf(o); v.Kind() == reflect.Ptr && !v.IsNil() {
			if v.Elem().Kind() == reflect.Func || v.Elem().Kind() == reflect.Ptr {
				return "&"
			}
			o = v.Elem().Interface()
		}
		if v := reflect.ValueOf(o); v.Kind() == reflect.Map && v.Len() == 0 {
			return "no entries"
		}
		return fmt.Sprintf("%#v", o)
	}
	was := show(obj)
	mode := valDefault
	if !valid {
		mode = valOff
	}
	var err error
	var p bool
	what := ""
	withValidator(mode, func() {
		switch src {
		case srcN:
			what = "JSON"
			p = quiet(func() { err = binding.JSON.Bind(ReqBody("POST", "/", "application/json", []byte(`{"a":"1"}`)), obj) })
		case srcN + 1:
			what = "XML"
			p = quiet(func() { err = binding.XML.Bind(ReqBody("POST", "/", "text/xml", []byte(`<r><a>1</a></r>`)), obj) })
		default:
			what = srcNames[src]
			p = quiet(func() { err = bindFrom(src, second, data, obj) })
		}
	})
	c.Step()
	desc := fmt.Sprintf("%s (Bind2 %v) of %v into a %s", what, second, data, bad.name)
	c.State(fmt.Sprint(desc, mode))
	switch {
	case p:
		c.Failf("target", "%s: panics", desc)
	case src >= srcN && bad.onlyKV:
		return
	case err == nil && !second:
		c.Failf("target", "%s: succeeds with %s", desc, show(obj))
	case err == nil && strings.HasPrefix(bad.name, "nil") && valid:
		c.Failf("target", "%s: succeeds", desc)
	case src < srcN && show(obj) != was && err != nil:
		c.Failf("target", "%s: fails (%v) but leaves %s, was %s", desc, err, show(obj), was)
	}
	c.Outcome(fmt.Sprint(err != nil))
}

func init() {
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
	xt := []int{0, 1, 2, 3, 4, 6, 7, 10, 11}
	var known []string // documents without fields that a target does not have: jsoniter is lax in what it skips
	for i, d := range c29Docs {
		if i != 1 && !strings.Contains(d, `"j"`) && !strings.Contains(d, `"q"`) {
			known = append(known, d)
		}
	}
	alpha := "{}[]:,\"\\0159-+.eEtnux /\x7f" // no control characters and invalid UTF-8: jsoniter differs there
	xalpha := "<>/&;\"'= ax1!-?\x00\xff\r"
	xtok := []string{"<r>", "</r>", "<a>", "</a>", "<b>", "</b>", "1", "x", "<c/>", "&amp;", "<!--", "-->", " ", "<"}
	register(&Prop{ID: "C29", Scopes: []Scope{
		{Name: "targets", Desc: "24 targets that cannot be bound into (nil, nil pointers, no pointers, scalars, maps of other types) x query, form, multipart, header, uri, MapForm, JSON, XML x Bind and Bind2 x 3 sets of data x validation on or off", Body: c29Unusable, Split: 2},
		{Name: "nobody", Desc: "nil requests, nil and empty bodies x JSON, XML x 15 targets", Body: c29NoBody, Split: 2},
		{Name: "large", Desc: "documents around the buffer sizes and 70 kB, complete or cut x chunk sizes x direct, Bind, BindWith", Body: c29Large, Split: 3},
		{Name: "forms", Desc: "15 form bodies x 15 queries (well formed and not) x 5 methods x 8 content types x reading failing after every byte x form and multipart binders x Bind and Bind2", Body: c29Form, Split: 4},
		{Name: "multipart", Desc: "a multipart body cut, failing or damaged at every byte x FormMultipart directly, through the context, Bind2", Body: c29Multi, Split: 3},
		{Name: "faults", Desc: "37 JSON and 17 XML documents whose reading fails after every byte, with 3 errors, alone or with the last bytes, whole or bytewise x 6 targets x direct or through the context", Body: c29Faults, Split: 3},
		{Name: "chunks", Desc: "37 JSON documents, whole or cut at every byte, in chunks of 1, 2, 3, 7, 64 x 15 targets x direct, Bind, BindWith", Body: c29Chunks(false, c29Docs, all), Split: 3},
		{Name: "xml-chunks", Desc: "17 XML documents, the same x 9 targets", Body: c29Chunks(true, c29XMLDocs, xt), Split: 3},
		{Name: "json-tokens", Desc: "every sequence of up to 4 of 14 JSON tokens x 15 targets", Body: c29Tokens(false, c29JTok, 4, all), Split: 2},
		{Name: "json-edits", Desc: "35 JSON documents, cut at every byte, one byte removed, or one of 27 bytes put in or over any position (cuts, and edits that are well formed) x 2 targets", Body: c29Edits(false, known, alpha, []int{0, 8}), Split: 3},
		{Name: "xml-tokens", Desc: "every sequence of up to 4 of 14 XML tokens x 9 targets", Body: c29Tokens(true, xtok, 4, xt), Split: 2},
		{Name: "xml-edits", Desc: "17 XML documents edited likewise x 5 targets", Body: c29Edits(true, c29XMLDocs, xalpha, []int{0, 1, 2, 4, 6}), Split: 3},
		{Name: "json-tokens-5", Desc: "every sequence of up to 5 of 14 JSON tokens x 15 targets", Body: c29Tokens(false, c29JTok, 5, all), Split: 2, Thorough: true},
		{Name: "json-edits-all", Desc: "13 JSON documents edited likewise (well formed results) x all 15 targets", Body: c29Edits(false, []string{`{"a":1,"b":"x"}`, `{"A":1,"b":null}`, `[{"a":1},{"b":"y","a":2}]`, `[null,{"a":1}]`, `[1,2]`, `12`, `"te\\nxt"`, `null`, `[[{"a":1}],[],null]`, `"2020-02-29T12:00:00Z"`, `[]`, `{}`, `-0`}, alpha, all), Split: 3, Thorough: true},
		{Name: "xml-tokens-5", Desc: "every sequence of up to 5 of 14 XML tokens x 9 targets", Body: c29Tokens(true, xtok, 5, xt), Split: 2, Thorough: true},
	}})
}
