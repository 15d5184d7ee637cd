package props

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

type c26T struct {
	A string   `form:"a" json:"a" xml:"a" header:"a"`
	N int      `form:"n" json:"n" xml:"n" header:"n"`
	L []string `form:"l" json:"l" xml:"l" header:"l"`
}

type c26V struct {
	A string   `form:"a" json:"a" xml:"a" header:"a" binding:"required"`
	N int      `form:"n" json:"n" xml:"n" header:"n"`
	L []string `form:"l" json:"l" xml:"l" header:"l"`
}

var c26Types = []string{"", "application/json", "application/json; charset=utf-8", "application/json ;x=y", "application/xml", "text/xml; charset=UTF-8",
	"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "multi", "text/plain", "application/xmlx", "application/json5", "text/json", "application/vnd.api+json", "application/problem+xml; charset=utf-8",
	"multipart/form-data", "multipart/mixed; boundary=xxBOUNDxx"}

var c26Methods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD"}

const (
	decForm = iota
	decMulti
	decJSON
	decXML
	decQuery
	decHeader
	decFormPost
	decN
)

var c26Dec = []binding.Bindinger{binding.Form, binding.FormMultipart, binding.JSON, binding.XML, binding.Query, binding.Header, binding.FormPost}
var c26DecNames = []string{"Form", "FormMultipart", "JSON", "XML", "Query", "Header", "FormPost"}

// c26Rule is the rule of the property.
func c26Rule(method, ct string) int {
	base := strings.TrimSpace(strings.SplitN(ct, ";", 2)[0])
	switch {
	case method == "GET":
		return decForm
	case base == "multipart/form-data" && (method == "POST" || method == "PUT" || method == "PATCH"):
		return decMulti
	case base == "application/json":
		return decJSON
	case base == "application/xml" || base == "text/xml":
		return decXML
	}
	return decForm
}

// bodies
func c26Bodies() (names []string, raw map[string][]byte) {
	_, m := encodeMulti([]kv{{"l", "m1"}, {"a", "M"}, {"n", "3"}, {"l", "m2"}})
	_, mb := encodeMulti([]kv{{"n", "M"}})
	raw = map[string][]byte{
		"json":     []byte(`{"a":"J","n":1,"l":["j1","j2"]}`),
		"json bad": []byte(`{"a":"J","n":"x"}`),
		"json no":  []byte(`{"n":5}`),
		"xml":      []byte(`<r><a>X</a><n>2</n><l>x1</l><l>x2</l></r>`),
		"xml bad":  []byte(`<r><a>X</a><n>y</n></r>`),
		"form":     []byte(`n=4&a=F&l=f1&l=f2`),
		"form bad": []byte(`n=z&a=F`),
		"multi":    m,
		"multi b":  mb,
		"empty":    {},
	}
	names = []string{"json", "json bad", "json no", "xml", "xml bad", "form", "form bad", "multi", "multi b", "empty"}
	return
}

func c26Fill(m map[string][]string) (c26T, error) {
	var t c26T
	if v := m["a"]; len(v) > 0 {
		t.A = v[0]
	}
	if v := m["n"]; len(v) > 0 && v[0] != "" {
		n, err := strconv.Atoi(v[0])
		if err != nil {
			return t, err
		}
		t.N = n
	}
	t.L = append(t.L, m["l"]...)
	return t, nil
}

// c26Unparsed tells whether the form of the request does not parse.
func c26Unparsed(req *http.Request) bool {
	if strings.Contains(req.Header.Get("Content-Type"), "multipart/form-data") && (req.Method == "POST" || req.Method == "PUT" || req.Method == "PATCH") {
		return req.ParseMultipartForm(1<<20) != nil
	}
	return req.ParseForm() != nil
}

// c26Want decodes with the standard library only.
func c26Want(dec int, req *http.Request, required bool) (c26T, error) {
	var t c26T
	var err error
	switch dec {
	case decJSON:
		err = json.NewDecoder(req.Body).Decode(&t)
	case decXML:
		err = xml.NewDecoder(req.Body).Decode(&t)
	case decForm, decFormPost:
		ct := req.Header.Get("Content-Type")
		if strings.Contains(ct, "multipart/form-data") && (req.Method == "POST" || req.Method == "PUT" || req.Method == "PATCH") {
			err = req.ParseMultipartForm(1 << 20)
		} else {
			err = req.ParseForm()
		}
		if err == nil {
			t, err = c26Fill(req.Form)
		}
	case decMulti:
		if err = req.ParseMultipartForm(1 << 20); err == nil {
			t, err = c26Fill(req.MultipartForm.Value)
		}
	case decQuery:
		t, err = c26Fill(req.URL.Query())
	case decHeader:
		t, err = c26Fill(map[string][]string{"a": req.Header["A"], "n": req.Header["N"], "l": req.Header["L"]})
	}
	if err == nil && required && t.A == "" {
		err = errors.New("required")
	}
	return t, err
}

func c26Body(methods []string, pres int) Body { return c26BodyOf(methods, c26Types, pres) }

func c26BodyOf(methods, types []string, pres int) Body {
	names, raw := c26Bodies()
	var cur func(ctx *water.Context)
	r := water.NewRouter()
	for _, m := range c26Methods {
		regMethod(r, m, "/b", func(ctx *water.Context) { cur(ctx) })
	}
	e := r.Handler()
	return func(c *C) {
		method := PickS(c, methods)
		ct := PickS(c, types)
		bn := PickS(c, names)
		q := Pick(c, "", "a=Q&n=9&l=q1&l=q2", "n=bad")
		required := c.Bool()
		dec := c.Choose(decN+1) - 1 // -1: automatic
		pre := c.Choose(pres)
		if ct == "multi" {
			ct = "multipart/form-data; boundary=xxBOUNDxx"
		}
		mk := func() *http.Request {
			req := ReqBody(method, "/b", ct, raw[bn])
			req.URL.RawQuery = q
			req.Header["A"] = []string{"H"}
			req.Header["L"] = []string{"h1", "h2"}
			return req
		}
		auto := dec < 0
		use := dec
		if auto {
			use = c26Rule(method, ct)
		}
		if (pre == 1 || pre == 3) && (use == decJSON || use == decXML) && (strings.Contains(ct, "form")) {
			return // the body was already read as the form it claims to be
		}
		want, wantErr := c26Want(use, mk(), required)
		run := func(b binding.Bindinger) (t c26T, err error, ran bool, p interface{}) {
			var v c26V
			cur = func(ctx *water.Context) {
				switch pre {
				case 1:
					ctx.Query("zz")
				case 2:
					ctx.ContentType()
					ctx.GetHeader("A")
					ctx.RealIp()
				case 3:
					ctx.ParseFormOrMultipartForm()
					ctx.ParseFormOrMultipartForm()
				}
				ran = true
				var o interface{} = &t
				if required {
					o = &v
				}
				if b == nil {
					err = ctx.Bind(o)
				} else {
					err = ctx.BindWith(o, b)
				}
			}
			_, p = Serve(e, mk())
			if required {
				t = c26T(v)
			}
			return
		}
		var b binding.Bindinger
		if !auto {
			b = c26Dec[dec]
		}
		got, err, ran, p := run(b)
		c.Step()
		what := "automatically"
		if !auto {
			what = "with " + c26DecNames[dec]
		}
		desc0 := fmt.Sprint(method, ct, bn, q, what, required, pre)
		desc := fmt.Sprintf("%s %q body %s query %q, bound %s (A required: %v, before: %d), decoder %s", method, ct, bn, q, what, required, pre, c26DecNames[use])
		if use == decQuery || use == decHeader {
			// the context parses the form first: a body that contradicts its content type is refused there
			if c26Unparsed(mk()) && (p != nil || err != nil) {
				c.State(desc0)
				return
			}
		}
		switch {
		case wantErr == nil && p != nil:
			c.Failf("panic", "%s: %v", desc, p)
		case wantErr == nil && err != nil:
			c.Failf("refused", "%s: %v, expected %+v", desc, err, want)
		case wantErr != nil && p == nil && err == nil:
			c.Failf("accepted", "%s: bound %+v, expected an error (%v)", desc, got, wantErr)
		case wantErr == nil && !reflect.DeepEqual(norm26(got), norm26(want)):
			c.Failf("value", "%s: bound %+v, expected %+v", desc, got, want)
		case p == nil && !ran:
			c.Failf("none", "%s: the handler did not run", desc)
		}
		if auto && !c.Failed() {
			g2, err2, _, p2 := run(c26Dec[use])
			c.Step()
			if fmt.Sprint(err) != fmt.Sprint(err2) || (p == nil) != (p2 == nil) || !reflect.DeepEqual(norm26(got), norm26(g2)) {
				c.Failf("differs", "%s: bound %+v (%v, panic %v), choosing the decoder gives %+v (%v, panic %v)", desc, got, err, p, g2, err2, p2)
			}
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(c26DecNames[use], wantErr != nil))
	}
}

func norm26(t c26T) c26T {
	if len(t.L) == 0 {
		t.L = nil
	}
	return t
}

// c26Twice: a second binding of the same request sees the same form.
func c26Twice(c *C) {
	_, raw := c26Bodies()
	method := PickS(c, c26Methods)
	k := c.Choose(3)
	ct := []string{"application/x-www-form-urlencoded", "multipart/form-data; boundary=xxBOUNDxx", "text/plain"}[k]
	body := raw[[]string{"form", "multi", "json"}[k]]
	var errs []string
	ppp := method == "POST" || method == "PUT" || method == "PATCH"
	decs := []int{-1, decForm, decQuery, decHeader, decFormPost}
	if k != 1 || ppp {
		decs = append(decs, decMulti)
	}
	if k == 2 {
		decs = append(decs, decJSON)
	}
	seq := make([]int, 3)
	for i := range seq {
		seq[i] = PickS(c, decs)
	}
	q := Pick(c, "", "a=Q&n=9&l=q1")
	mk := func() *http.Request {
		req := ReqBody(method, "/b", ct, body)
		req.URL.RawQuery = q
		req.Header["A"] = []string{"H"}
		return req
	}
	e := engineFor(method, func(ctx *water.Context) {
		consumed := false // the body was read by a decoder that reads it
		for i, d := range seq {
			use := d
			if d < 0 {
				use = c26Rule(method, ct)
			}
			var t c26T
			var err error
			if d < 0 {
				err = ctx.Bind(&t)
			} else {
				err = ctx.BindWith(&t, c26Dec[d])
			}
			want, werr := c26Want(use, mk(), false)
			if use == decJSON && consumed {
				continue // the body was read already
			}
			consumed = consumed || use == decJSON
			if (err == nil) != (werr == nil) || err == nil && !reflect.DeepEqual(norm26(t), norm26(want)) {
				errs = append(errs, fmt.Sprintf("binding %d with %s: %+v (%v), expected %+v (%v)", i, c26DecNames[use], t, err, want, werr))
			}
		}
	})
	_, p := Serve(e, mk())
	c.Step()
	desc := fmt.Sprintf("%s %s query %q decoders %v", method, ct, q, seq)
	if p != nil {
		c.Failf("panic", "%s: %v", desc, p)
	}
	for _, s := range errs {
		c.Failf("twice", "%s: %s", desc, s)
		break
	}
	c.State(desc)
	c.Outcome(ct)
}

func engineFor(method string, h func(ctx *water.Context)) *water.Engine {
	r := water.NewRouter()
	regMethod(r, method, "/b", h)
	return r.Handler()
}

// c26Own: a decoder of the application's own is used as it is.
type ownDec struct{ n *int }

func (ownDec) Name() string { return "own" }
func (d ownDec) Bind(req *http.Request, obj interface{}) error {
	*d.n++
	b, err := io.ReadAll(req.Body)
	obj.(*c26T).A = string(b)
	return err
}

type ownFunc func(*http.Request, interface{}) error

func (ownFunc) Name() string                                  { return "func" }
func (f ownFunc) Bind(req *http.Request, o interface{}) error { return f(req, o) }

func c26Own(c *C) {
	method := PickS(c, c26Methods)
	ct := Pick(c, "", "application/json", "text/plain", "application/xml; charset=utf-8")
	fn := c.Bool()
	fail := c.Bool()
	n := 0
	var t c26T
	var err error
	var b binding.Bindinger = ownDec{&n}
	if fn {
		b = ownFunc(func(r *http.Request, o interface{}) error {
			ownDec{&n}.Bind(r, o)
			if fail {
				return errInjected
			}
			return nil
		})
	}
	e := engineFor(method, func(ctx *water.Context) { err = ctx.BindWith(&t, b) })
	_, p := Serve(e, ReqBody(method, "/b", ct, []byte("own text")))
	c.Step()
	wantErr := fn && fail
	if p != nil || n != 1 || t.A != "own text" || (err != nil) != wantErr {
		c.Failf("own", "%s %q: a decoder of the application (func %v, failing %v) ran %d times, bound %q, %v, panic %v", method, ct, fn, fail, n, t.A, err, p)
	}
	c.State(fmt.Sprint(method, ct, fn, fail))
}

// c26Choice: the exported choice itself.
func c26Choice(c *C) {
	method := PickS(c, append([]string{"CONNECT", "TRACE", "PROPFIND", "get", ""}, c26Methods...))
	ct := Pick(c, "", "application/json", "application/xml", "text/xml", "application/x-www-form-urlencoded", "multipart/form-data", "text/plain", "multipart/mixed", "text/json", "application/octet-stream", "application/ld+json")
	b := binding.NewBindinger(method, ct)
	want := c26Dec[c26Rule(method, ct)]
	c.Step()
	if b != want {
		c.Failf("choice", "%q %q is decoded by %s, expected %s", method, ct, b.Name(), want.Name())
	}
	c.State(method + " " + ct)
}

func init() {
	register(&Prop{ID: "C26", Scopes: []Scope{
		{Name: "choice", Desc: "12 methods x 10 content types: the decoder chosen", Body: c26Choice, Split: 1},
		{Name: "own", Desc: "an application's own decoder, as struct or func, failing or not x 7 methods x 4 content types", Body: c26Own, Split: 1},
		{Name: "requests", Desc: "7 methods x 15 content types x 10 bodies (well formed, mistyped, incomplete, empty; matching the content type or not) x 3 queries x A required or not x automatic or one of 7 chosen decoders x what was read before (nothing, a query value, headers, the form twice)", Body: c26Body(c26Methods, 4), Split: 3},
		{Name: "again", Desc: "3 bindings of one request, each automatic or with one of the decoders that leave the body readable x 7 methods x form, multipart, JSON body x query", Body: c26Twice, Split: 3},
	}})
}
