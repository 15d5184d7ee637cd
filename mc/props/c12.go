package props

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"mime"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var c12Codes = []int{200, 201, 202, 203, 204, 206, 299, 300, 301, 304, 400, 401, 404, 418, 451, 500, 503, 599, 600, 999}

var c12Strs = []string{"", "a", "<p>x & y</p>", `{"a":1}`, "\x00\xff\xfe", "héllo 世界", "line\r\nline\r\n\r\n", "%d %s %%", strings.Repeat("x", 511), strings.Repeat("0123456789", 1000), strings.Repeat("é", 40000), "\x89PNG\r\n\x1a\n", " \t ", "null", "<?xml version=\"1.0\"?><a/>", "<!DOCTYPE html><p>", "%PDF-1.4", "\xef\xbb\xbfbom", "GIF89a", "PK\x03\x04", "\xff\xfea\x00", "0", "[]", "a,b\n1,2\n"}

type c12In struct {
	X int    `json:"x" xml:"x,attr"`
	Y string `json:"y,omitempty" xml:"y,omitempty"`
}
type c12Val struct {
	XMLName xml.Name  `json:"-" xml:"val"`
	A       string    `json:"a" xml:"a"`
	B       int64     `json:"b" xml:"b"`
	U       uint64    `json:"u" xml:"u"`
	F       float64   `json:"f" xml:"f"`
	T       bool      `json:"t" xml:"t"`
	S       []string  `json:"s" xml:"s>i"`
	I       c12In     `json:"i" xml:"i"`
	P       *c12In    `json:"p" xml:"p"`
	R       []byte    `json:"r" xml:"r"`
	N       []c12In   `json:"n" xml:"n"`
	At      time.Time `json:"at" xml:"at"`
	Skip    string    `json:"-" xml:"-"`
}

type c12Marsh struct{ v string }

func (m c12Marsh) MarshalText() ([]byte, error) { return []byte("<" + m.v + ">"), nil }

type c12Bad struct {
	C chan int `json:"c" xml:"c"`
}

func c12Values() []interface{} {
	i := 5
	return []interface{}{
		nil, true, false, 0, -1, int64(1)<<62 + 1, uint64(1<<64 - 1), 1.5, 1e21, 1e-7, float32(0.1), "", "a<b>&\"'\\ /\u2028\x01é", []string{"a", "b"}, []string{}, []string(nil), []int{1, 2}, [2]bool{true, false}, []byte("raw"),
		&i, (*int)(nil), c12In{}, &c12In{1, "y"}, c12Val{A: "<&>", B: -1 << 63, U: 1<<64 - 1, F: 0.25, T: true, S: []string{"p", ""}, I: c12In{2, ""}, P: &c12In{3, "z"}, R: []byte{0, 1, 2}, N: []c12In{{1, "1"}, {2, "2"}}, At: time.Unix(1e9, 5).UTC(), Skip: "no"}, c12Val{}, []interface{}{nil, "x", 1.0, []interface{}{}},
		struct{}{}, c12Marsh{"m"}, strings.Repeat("long ", 2000), []c12In{}, json.RawMessage(`{"raw": [1,2]}`),
	}
}

// resp is a response as the client has it, whatever the transport.
type resp struct {
	status int
	h      http.Header
	body   string
	none   bool
}

// deliver serves one request directly or over a real connection.
func deliver(real bool, e http.Handler, method, path string, hdrs ...string) (resp, interface{}) {
	if real {
		r := ServeReal(e, method, RawReq(method, path, hdrs, ""))
		if r.Err != nil {
			return resp{none: true}, r.Err
		}
		return resp{status: r.Status, h: r.Header, body: r.Body}, nil
	}
	req := Req(method, path)
	for _, l := range hdrs {
		k, v, _ := strings.Cut(l, ": ")
		req.Header.Add(k, v)
	}
	rec, p := Serve(e, req)
	h := rec.Snap
	if h == nil {
		h = rec.H
	}
	return resp{status: rec.Status, h: h, body: rec.Body.String(), none: rec.Status == 0}, p
}

func sameType(got, want string) bool {
	if got == want {
		return true
	}
	g, gp, e1 := mime.ParseMediaType(got)
	w, wp, e2 := mime.ParseMediaType(want)
	if e1 != nil || e2 != nil || g != w || len(gp) != len(wp) {
		return false
	}
	for k, v := range wp {
		if !strings.EqualFold(gp[k], v) {
			return false
		}
	}
	return true
}

func bodyless(code int) bool { return code == 204 || code == 304 }

// c12Engine puts before the handler: 0 nothing, 1 the recovery middleware, 2 a middleware that sets headers.
func c12Engine(before int, h func(ctx *water.Context)) *water.Engine {
	r := water.NewRouter()
	switch before {
	case 1:
		r.Use(water.Recovery())
	case 2:
		r.Use(func(ctx *water.Context) {
			ctx.SetHeader("Content-Type", "application/x-pre")
			ctx.SetHeader("X-Pre", "pre")
		})
	}
	r.ANY("/p", h)
	r.HEAD("/p", h)
	return r.Handler()
}

// c12Bytes: helpers that send given bytes.
func c12Bytes(real bool) Body {
	return func(c *C) {
		which := c.Choose(6)
		code := PickS(c, c12Codes)
		pl := PickS(c, c12Strs)
		method := Pick(c, "GET", "POST", "HEAD")
		wrap := c.Choose(3)
		ct, want := "", pl
		name := ""
		e := c12Engine(wrap, func(ctx *water.Context) {
			switch which {
			case 0:
				name, ct = "String", "text/plain; charset=utf-8"
				ctx.String(code, pl)
			case 1:
				name, ct = "HTMLRaw", "text/html; charset=utf-8"
				ctx.HTMLRaw(code, pl)
			case 2:
				name, ct = "Data", "application/x-thing"
				ctx.Data(code, ct, []byte(pl))
			case 3:
				name, ct = "Data", "text/html; charset=iso-8859-1; q=1"
				ctx.Data(code, ct, []byte(pl))
			case 4:
				name, ct, want = "HTML", "text/html; charset=utf-8", ""
				ctx.HTML(code, "t", pl)
			case 5:
				name, ct, want = "HTMLSet", "text/html; charset=utf-8", ""
				ctx.HTMLSet(code, "s", "t", pl)
			}
		})
		r, p := deliver(real, e, method, "/p")
		c.Step()
		if p != nil {
			c.Failf("crash", "%s(%d, %q): %v", name, code, clip(pl, 40), p)
			return
		}
		if real && (bodyless(code) || method == "HEAD") {
			want = ""
		}
		if r.status != code {
			c.Failf("status", "%s(%d, %q): status %d", name, code, clip(pl, 40), r.status)
		}
		if !(real && bodyless(code)) || r.h.Get("Content-Type") != "" {
			if len(r.h["Content-Type"]) != 1 || !sameType(r.h.Get("Content-Type"), ct) {
				c.Failf("type", "%s(%d, %q) real=%v: content type %q, expected %q", name, code, clip(pl, 40), real, r.h["Content-Type"], ct)
			}
		}
		if r.body != want {
			c.Failf("body", "%s(%d, %q): body %q", name, code, clip(want, 60), clip(r.body, 60))
		}
		c.State(fmt.Sprint(name, r.status, r.h.Get("Content-Type"), r.body))
		c.Outcome(name)
	}
}

// c12Encoded: JSON and XML.
func c12Encoded(real bool) Body {
	var vals []interface{}
	return func(c *C) {
		if vals == nil {
			vals = append(c12Values(), c12Bad{}, make(chan int))
		}
		isXML := c.Bool()
		code := PickS(c, c12Codes)
		v := PickS(c, vals)
		wrap := c.Choose(3)
		if isXML && v != nil {
			// what the standard encoder cannot represent is not required to work
			if _, err := xml.Marshal(v); err != nil {
				switch v.(type) {
				case c12Bad, chan int:
				default:
					c.Prune()
				}
			}
		}
		var err error
		e := c12Engine(wrap, func(ctx *water.Context) {
			if isXML {
				err = ctx.XML(code, v)
			} else {
				err = ctx.JSON(code, v)
			}
		})
		r, p := deliver(real, e, "GET", "/p")
		c.Step()
		name := map[bool]string{true: "XML", false: "JSON"}[isXML]
		if p != nil {
			c.Failf("crash", "%s(%d, %#v): %v", name, code, v, p)
			return
		}
		if r.status != code {
			c.Failf("status", "%s(%d, %#v): status %d", name, code, v, r.status)
		}
		ct := "application/json; charset=utf-8"
		if isXML {
			ct = "application/xml; charset=utf-8"
		}
		if !(real && bodyless(code)) || r.h.Get("Content-Type") != "" {
			if len(r.h["Content-Type"]) != 1 || !sameType(r.h.Get("Content-Type"), ct) {
				c.Failf("type", "%s(%d, %#v) real=%v: content type %q", name, code, v, real, r.h["Content-Type"])
			}
		}
		switch v.(type) {
		case c12Bad, chan int:
			if err == nil {
				c.Failf("noerror", "%s(%d, %T): no error for a value that has no encoding", name, code, v)
			}
			c.Outcome(name + " unencodable")
			return
		}
		if real && bodyless(code) {
			c.Outcome("no body allowed")
			return
		}
		if err != nil {
			c.Failf("error", "%s(%d, %#v): error %v", name, code, v, err)
			return
		}
		if isXML {
			want, _ := xml.Marshal(v)
			if v == nil {
				want = nil
			}
			if strings.TrimSpace(strings.TrimPrefix(r.body, xml.Header)) != string(want) {
				c.Failf("body", "XML(%d, %#v): body %q, expected %q", code, v, clip(r.body, 200), clip(string(want), 200))
			}
		} else {
			want, werr := json.Marshal(v)
			must(werr)
			if why := sameJSON(r.body, string(want)); why != "" {
				c.Failf("body", "JSON(%d, %#v): body %q, expected %q: %s", code, v, clip(r.body, 200), clip(string(want), 200), why)
			}
		}
		c.State(name + fmt.Sprint(code) + r.body)
		c.Outcome(name)
	}
}

func sameJSON(a, b string) string {
	dec := func(s string) (interface{}, error) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if d.More() {
			return nil, errors.New("more than one document")
		}
		return v, nil
	}
	x, e := dec(a)
	if e != nil {
		return e.Error()
	}
	y, e := dec(b)
	must(e)
	if !eqJSON(x, y) {
		return "different values"
	}
	return ""
}

func eqJSON(x, y interface{}) bool {
	a, ok1 := x.(json.Number)
	b, ok2 := y.(json.Number)
	if ok1 && ok2 {
		if a == b {
			return true
		}
		_, e1 := a.Int64()
		_, e2 := b.Int64()
		if e1 == nil || e2 == nil {
			return false
		}
		f, e1 := a.Float64()
		g, e2 := b.Float64()
		return e1 == nil && e2 == nil && f == g
	}
	switch m := x.(type) {
	case map[string]interface{}:
		n, ok := y.(map[string]interface{})
		if !ok || len(m) != len(n) {
			return false
		}
		for k := range m {
			v, ok := n[k]
			if !ok || !eqJSON(m[k], v) {
				return false
			}
		}
		return true
	case []interface{}:
		n, ok := y.([]interface{})
		if !ok || len(m) != len(n) {
			return false
		}
		for k := range m {
			if !eqJSON(m[k], n[k]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(x, y)
}

// c12Status: redirects, plain status helpers, NoCache and streams.
func c12Status(real bool) Body {
	type sh struct {
		name string
		code int
		f    func(ctx *water.Context)
	}
	shs := []sh{
		{"NotModified", 304, (*water.Context).NotModified},
		{"BadRequest", 400, (*water.Context).BadRequest},
		{"Unauthorized", 401, (*water.Context).Unauthorized},
		{"Forbidden", 403, (*water.Context).Forbidden},
		{"NotFound", 404, (*water.Context).NotFound},
		{"InternalServerError", 500, (*water.Context).InternalServerError},
	}
	for _, code := range c12Codes {
		code := code
		shs = append(shs, sh{fmt.Sprintf("Abort(%d)", code), code, func(ctx *water.Context) { ctx.Abort(code) }})
	}
	uris := []string{"/", "/to", "/to?a=b&c=d#f", "http://other.example/x", "https://other.example:8443/", "//other.example/y", "rel", "../up", "?q=1", "/ü/世界", "/with space", "mailto:a@b", "/a%20b", "", "/x\"y<z>"}
	return func(c *C) {
		method := Pick(c, "GET", "POST", "HEAD")
		wrap := c.Choose(3)
		switch c.Choose(3) {
		case 0:
			s := PickS(c, shs)
			nocache := c.Bool()
			e := c12Engine(wrap, func(ctx *water.Context) {
				if nocache {
					ctx.NoCache()
				}
				s.f(ctx)
			})
			r, p := deliver(real, e, method, "/p")
			c.Step()
			if p != nil || r.status != s.code || r.body != "" {
				c.Failf("status", "%s: panic %v status %d body %q", s.name, p, r.status, r.body)
			}
			if cc := r.h.Get("Cache-Control"); nocache != (strings.Contains(cc, "no-cache") && strings.Contains(cc, "must-revalidate") && r.h.Get("Expires") == "0") {
				c.Failf("nocache", "%s NoCache=%v: headers %s", s.name, nocache, hdr(r.h))
			}
			c.State(s.name)
			c.Outcome("status helper")
		case 1:
			code := Pick(c, 301, 302)
			uri := PickS(c, uris)
			e := c12Engine(wrap, func(ctx *water.Context) {
				if code == 301 {
					ctx.MovedPermanently(uri)
				} else {
					ctx.Found(uri)
				}
			})
			r, p := deliver(real, e, method, "/p")
			c.Step()
			ref := newRefW()
			if wrap == 2 {
				ref.h.Set("Content-Type", "application/x-pre")
				ref.h.Set("X-Pre", "pre")
			}
			http.Redirect(ref, Req(method, "/p"), uri, code)
			want := ref.body.String()
			if real && method == "HEAD" {
				want = ""
			}
			if p != nil || r.status != code || len(r.h["Location"]) != 1 || r.h.Get("Location") != ref.h.Get("Location") || r.body != want || r.h.Get("Content-Type") != ref.h.Get("Content-Type") {
				c.Failf("redirect", "%s redirect %d to %q: panic %v, status %d, headers %s, body %q; expected headers %s body %q", method, code, uri, p, r.status, hdr(r.h), r.body, hdr(ref.h), want)
			}
			c.State(fmt.Sprint(code, r.h.Get("Location")))
			c.Outcome("redirect")
		case 2:
			ct := Pick(c, "text/event-stream", "application/octet-stream", "text/plain; charset=utf-8")
			pl := PickS(c, c12Strs)
			chunk := Pick(c, 0, 1, 7, 4096)
			if chunk == 1 && len(pl) > 2000 {
				chunk = 1024
			}
			var err error
			e := c12Engine(wrap, func(ctx *water.Context) {
				err = ctx.Stream(ct, &chunkReader{data: []byte(pl), chunk: chunk, failAt: -1})
			})
			r, p := deliver(real, e, method, "/p")
			c.Step()
			want := pl
			if real && method == "HEAD" {
				want = ""
			}
			if pl == "" && wrap != 1 && !real {
				// nothing was written: the server commits 200 by itself
				if p != nil || err != nil || r.status != 0 && r.status != 200 || r.body != "" {
					c.Failf("stream", "empty stream: panic %v error %v status %d body %q", p, err, r.status, r.body)
				}
				return
			}
			if p != nil || err != nil && method != "HEAD" || r.status != 200 || r.body != want || r.h.Get("Content-Type") != ct {
				c.Failf("stream", "Stream(%q, %q by %d): panic %v error %v status %d type %q body %q", ct, clip(pl, 40), chunk, p, err, r.status, r.h.Get("Content-Type"), clip(r.body, 60))
			}
			c.State(fmt.Sprint(ct, fnv64(r.body), len(r.body)))
			c.Outcome("stream")
		}
	}
}

type recRender struct {
	ctx  *water.Context
	args []interface{}
}

func (r *recRender) HTMLSet(ctx *water.Context, code int, set, tpl string, data interface{}) {
	r.ctx, r.args = ctx, append(r.args, code, set, tpl, data)
	ctx.HTMLRaw(code, set+"|"+tpl)
}

// c12Render: an installed renderer gets exactly what was asked for (it stays installed, so this comes last).
func c12Render(c *C) {
	code := PickS(c, c12Codes)
	set := Pick(c, "", "s", "t")
	tpl := Pick(c, "t", "", "s")
	data := Pick[interface{}](c, nil, 5, "d", &c12In{1, "a"})
	viaSet := c.Bool()
	if !viaSet && set != "" {
		c.Prune()
	}
	rr := &recRender{}
	water.SetRender(rr)
	var me *water.Context
	e := c12Engine(c.Choose(3), func(ctx *water.Context) {
		me = ctx
		if viaSet {
			ctx.HTMLSet(code, set, tpl, data)
		} else {
			ctx.HTML(code, tpl, data)
		}
	})
	r, p := deliver(false, e, "GET", "/p")
	c.Step()
	if p != nil || r.status != code || r.body != set+"|"+tpl || rr.ctx != me || !reflect.DeepEqual(rr.args, []interface{}{code, set, tpl, data}) {
		c.Failf("render", "HTML set=%q tpl=%q code=%d: panic %v, renderer got %v, response %v", set, tpl, code, p, rr.args, r)
	}
	c.State(fmt.Sprint(rr.args))
}

func init() {
	d := "%s x every payload of the alphabet (empty, text, markup, binary, utf-8, 511 bytes to 80 kB) x methods x bare, behind Recovery or behind a middleware that has set headers, %s"
	register(&Prop{ID: "C12", Scopes: []Scope{
		{Name: "bytes", Desc: fmt.Sprintf(d, "String, HTMLRaw, Data, HTML, HTMLSet x 20 status codes", "direct"), Body: c12Bytes(false), Split: 3},
		{Name: "encoded", Desc: "JSON and XML x 20 status codes x 33 values, direct", Body: c12Encoded(false), Split: 3},
		{Name: "status", Desc: "6 status helpers and Abort x 20 codes, redirects x 15 locations, streams x 14 payloads x chunk sizes, direct", Body: c12Status(false), Split: 4},
		{Name: "bytes-http", Desc: fmt.Sprintf(d, "the same", "through net/http on a real connection"), Body: c12Bytes(true), Split: 3},
		{Name: "encoded-http", Desc: "the same through net/http on a real connection", Body: c12Encoded(true), Split: 3},
		{Name: "status-http", Desc: "the same through net/http on a real connection", Body: c12Status(true), Split: 4},
		{Name: "render", Desc: "an installed renderer x codes x template sets x names x data", Body: c12Render, Split: 2},
	}, Assumptions: []string{
		"values containing non-empty Go maps are not encoded: the pinned reflect2 dependency crashes the process on them with this Go version, in the dependency itself",
		"over a real connection statuses 204 and 304 and HEAD requests carry no body, as HTTP demands",
	}})
}
