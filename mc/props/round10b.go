package props

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// ---- C24: values of every kind

type c24Int int
type c24Str string
type c24Bool bool

func c24Kinds() []interface{} {
	var nilErr *url.Error
	var nilFunc func()
	var nilMap map[string]int
	var nilSlice []int
	var nilChan chan int
	var nilCtx *water.Context
	n := 5
	return []interface{}{nil, 0, int8(1), int16(1), int32(1), int64(1), uint(0), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), 1.5, math.Inf(1), math.NaN(), math.Copysign(0, -1),
		math.MinInt64, uint64(math.MaxUint64), complex(1, 2), true, false, "", "x", c24Int(3), c24Str("s"), c24Bool(true), &n, (*int)(nil), nilErr, error(nilErr), errors.New("e"), io.EOF, nilFunc, func() {},
		nilMap, map[string]int{"a": 1}, nilSlice, []int{}, []int{1}, []byte("b"), [0]int{}, [2]int{1, 2}, struct{}{}, struct{ A []int }{[]int{1}}, nilChan, make(chan int), nilCtx, time.Time{}, time.Second, 'x', byte('y'),
		reflect.ValueOf(3), reflect.TypeOf(3), http.Header(nil), url.Values{}, uintptr(4), []interface{}{nil}, map[string]interface{}{}}
}

func c24Same(a, b interface{}) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil {
		return true
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Ptr, reflect.Func, reflect.Map, reflect.Chan:
		return x.Pointer() == y.Pointer()
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len() && x.Cap() == y.Cap()
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	}
	return reflect.DeepEqual(a, b)
}

func c24EveryKind(c *C) {
	vals := c24Kinds()
	i, j := c.Choose(len(vals)), c.Choose(len(vals))
	env := c.Bool()
	name := Pick(c, "k", "", "a.b")
	v := vals[i]
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	set := func(ctx *water.Context, n string, x interface{}) {
		if env {
			ctx.Environ.Set(n, x)
		} else {
			ctx.Set(n, x)
		}
	}
	look := func(ctx *water.Context, n string, x interface{}, where string) {
		if got, ok := ctx.GetMaybe(n); !ok || !c24Same(got, x) {
			fail("%s: GetMaybe is %T %v", where, got, ok)
		}
		if !ctx.Environ.Has(n) {
			fail("%s: Has says no", where)
		}
		for k, f := range []func() interface{}{func() interface{} { return ctx.Get(n) }, func() interface{} { return ctx.Environ.Get(n) }} {
			var got interface{}
			if quiet(func() { got = f() }) || !c24Same(got, x) {
				fail("%s: Get %d is %T", where, k, got)
			}
		}
		for k, f := range []struct {
			t reflect.Type
			f func() interface{}
		}{{reflect.TypeOf(true), func() interface{} { return ctx.Environ.GetBool(n) }}, {reflect.TypeOf(1), func() interface{} { return ctx.Environ.GetInt(n) }},
			{reflect.TypeOf(int64(1)), func() interface{} { return ctx.Environ.GetInt64(n) }}, {reflect.TypeOf(uint(1)), func() interface{} { return ctx.Environ.GetUint(n) }},
			{reflect.TypeOf(uint64(1)), func() interface{} { return ctx.Environ.GetUint64(n) }}, {reflect.TypeOf(1.5), func() interface{} { return ctx.Environ.GetFloat64(n) }},
			{reflect.TypeOf(""), func() interface{} { return ctx.Environ.GetString(n) }}} {
			var got interface{}
			p := quiet(func() { got = f.f() })
			if reflect.TypeOf(x) == f.t {
				if p || !c24Same(got, x) {
					fail("%s: accessor %d is %v (panic %v)", where, k, got, p)
				}
			} else if !p {
				fail("%s: accessor %d gives %v of a %T", where, k, got, x)
			}
		}
	}
	r := water.NewRouter()
	r.Use(func(ctx *water.Context) {
		set(ctx, name, v)
		look(ctx, name, v, "at once")
		ctx.Next()
		look(ctx, name, v, "at the end")
		look(ctx, "second", vals[j], "at the end")
		if len(ctx.Environ) != 2 {
			fail("%d values are stored", len(ctx.Environ))
		}
	})
	r.GET("/", func(ctx *water.Context) {
		look(ctx, name, v, "in the handler")
		if !quiet(func() { set(ctx, name, vals[j]) }) {
			fail("storing again is accepted")
		}
		set(ctx, "second", vals[j])
		look(ctx, name, v, "after a second")
		look(ctx, "second", vals[j], "the second")
		ctx.WriteHeader(204)
	})
	rec, p := Serve(r.Handler(), Req("GET", "/"))
	c.Step()
	if p != nil || rec.Status != 204 || bad != "" {
		c.Failf("kinds", "a %T (number %d) stored under %q, then a %T (number %d): %s (panic %v)", v, i, name, vals[j], j, bad, p)
	}
	c.State(fmt.Sprint(i, j, env, name))
}

// ---- C11, C12: other headers of the request and the response change nothing

var sideHeaders = [][2]string{{"", ""}, {"Content-Encoding", "gzip"}, {"Transfer-Encoding", "chunked"}, {"X-Content-Type-Options", "nosniff"}, {"Content-Disposition", "attachment; filename=a.html"}, {"Cache-Control", "no-store"},
	{"Vary", "Accept"}, {"Location", "/x"}, {"Etag", "\"x\""}, {"Last-Modified", "Mon, 02 Jan 2006 15:04:05 GMT"}, {"Content-Language", "de"}, {"Content-Range", "bytes 0-1/9"}, {"Connection", "close"}, {"Upgrade", "websocket"}, {"Trailer", "X-T"},
	{"Accept-Ranges", "none"}, {"Set-Cookie", "a=b"}, {"Content-Length", "3"}, {"Content-Location", "/a.json"}, {"Link", "</a.css>"}, {"Server", "x"}, {"Date", ""}, {"Www-Authenticate", "Basic"}, {"Retry-After", "1"}, {"Content-Security-Policy", "x"}, {"X-Accel-Buffering", "no"}}

var askHeaders = [][2]string{{"", ""}, {"Accept", "application/json"}, {"Accept", "text/html,*/*;q=0.1"}, {"Accept", ""}, {"Accept-Encoding", "gzip, br"}, {"Accept-Charset", "gbk"}, {"Accept-Language", "zh"}, {"Range", "bytes=0-0"}, {"If-None-Match", "*"}, {"If-Modified-Since", "Mon, 02 Jan 2096 15:04:05 GMT"},
	{"Expect", "100-continue"}, {"Connection", "close"}, {"Upgrade", "h2c"}, {"Te", "trailers"}, {"X-Requested-With", "XMLHttpRequest"}, {"Origin", "http://o"}, {"User-Agent", "curl/8"}, {"User-Agent", "MSIE 6.0"}, {"Cookie", "a=b"}, {"Content-Type", "application/json"}, {"X-Http-Method-Override", "DELETE"}, {"Referer", "/"}, {"Authorization", "Basic x"}, {"Prefer", "return=minimal"}, {"Sec-Fetch-Mode", "navigate"}, {"X-Forwarded-Proto", "https"}, {"Pragma", "no-cache"}, {"Dnt", "1"}, {"Save-Data", "on"}}

type sideOp struct {
	name, ct, body string
	status         int
	do             func(ctx *water.Context)
}

var sideOps = []sideOp{
	{"Write html", "text/html; charset=utf-8", "<html>x", 200, func(ctx *water.Context) { ctx.Write([]byte("<html>x")) }},
	{"Write text", "text/plain; charset=utf-8", "text", 200, func(ctx *water.Context) { ctx.Write([]byte("text")) }},
	{"Write two", "text/plain; charset=utf-8", "text<html>", 200, func(ctx *water.Context) { ctx.Write([]byte("text")); ctx.Write([]byte("<html>")) }},
	{"Fprintf", "image/gif", "GIF89a...", 200, func(ctx *water.Context) { fmt.Fprintf(ctx, "GIF89a%s", "...") }},
	{"String", "text/plain; charset=utf-8", "s", 201, func(ctx *water.Context) { ctx.String(201, "s") }},
	{"HTMLRaw", "text/html; charset=utf-8", "{}", 404, func(ctx *water.Context) { ctx.HTMLRaw(404, "{}") }},
	{"JSON", "application/json; charset=utf-8", "{\"a\":\"x\",\"b\":1}\n", 202, func(ctx *water.Context) { ctx.JSON(202, pairT{"x", 1}) }},
	{"XML", "application/xml; charset=utf-8", "<pairT><a>x</a><b>1</b></pairT>", 500, func(ctx *water.Context) { ctx.XML(500, pairT{"x", 1}) }},
	{"Data", "a/b", "<html>", 200, func(ctx *water.Context) { ctx.Data(200, "a/b", []byte("<html>")) }},
	{"Stream", "c/d", "streamed", 200, func(ctx *water.Context) { ctx.Stream("c/d", strings.NewReader("streamed")) }},
	{"status and Write", "", "late", 403, func(ctx *water.Context) { ctx.WriteHeader(403); ctx.Write([]byte("late")) }},
	{"NotFound", "", "", 404, func(ctx *water.Context) { ctx.NotFound() }},
	{"BadRequest", "", "", 400, func(ctx *water.Context) { ctx.BadRequest() }},
	{"Abort", "", "", 418, func(ctx *water.Context) { ctx.Abort(418) }},
	{"http.Error", "text/plain; charset=utf-8", "oops\n", 503, func(ctx *water.Context) { http.Error(ctx, "oops", 503) }},
}

func sideBody(set [][2]string, two bool) Body {
	return func(c *C) {
		h := PickS(c, set)
		var h2 [2]string
		if two {
			h2 = PickS(c, set)
		}
		q := PickS(c, askHeaders)
		o := PickS(c, sideOps)
		meth := Pick(c, "GET", "HEAD", "POST", "PUT")
		helper := c.Bool() // through the helper or the header map
		r := water.NewRouter()
		seen := ""
		regMethod(r, meth, "/x", func(ctx *water.Context) {
			for _, kv := range [][2]string{h, h2} {
				if kv[0] == "" {
					continue
				}
				if helper {
					ctx.SetHeader(kv[0], kv[1])
				} else {
					ctx.Header()[kv[0]] = []string{kv[1]}
				}
			}
			o.do(ctx)
			seen = fmt.Sprint(ctx.Written(), ctx.Status())
		})
		req := Req(meth, "/x")
		if q[0] != "" {
			req.Header.Set(q[0], q[1])
		}
		rec, p := Serve(r.Handler(), req)
		c.Step()
		want := map[string]string{}
		for _, kv := range [][2]string{h, h2} {
			if kv[0] != "" {
				want[kv[0]] = kv[1]
			}
		}
		if o.ct != "" {
			want["Content-Type"] = o.ct
		}
		hd := ""
		for k, v := range rec.Snap {
			if w, ok := want[k]; (!ok || len(v) != 1 || v[0] != w) && !(k == "X-Content-Type-Options" && o.name == "http.Error") {
				hd = fmt.Sprintf("%s is %q, expected %q", k, v, w)
			}
		}
		for k := range want {
			if _, ok := rec.Snap[k]; !ok && o.name != "http.Error" {
				hd = k + " is missing"
			}
		}
		desc := fmt.Sprintf("%s with %s: %s, answered with %q %q set before by %s", meth, q, "/x", h, h2, o.name)
		if p != nil || rec.Status != o.status || len(rec.Commits) != 1 || rec.Body.String() != o.body || hd != "" || seen != fmt.Sprint(true, o.status) {
			c.Failf("side", "%s: panic %v, status %d %v (reported %s), body %q, %s; expected %d %q", desc, p, rec.Status, rec.Commits, seen, rec.Body.String(), hd, o.status, o.body)
		}
		c.State(desc + fmt.Sprint(helper))
	}
}

func init() {
	addScopes("C24", Scope{Name: "kinds", Desc: "every ordered pair of 58 values of every kind (typed nils, functions, maps, NaN, named types) under 3 names: the very same is found, by the right accessors only", Body: c24EveryKind, Split: 2})
	side := Scope{Name: "others", Desc: fmt.Sprintf("15 ways of answering x %d other response headers set before x %d request headers x 4 methods: status, type and body as ever, the others kept", len(sideHeaders), len(askHeaders)), Body: sideBody(sideHeaders, false), Split: 3}
	deep := Scope{Name: "others-two", Desc: "two response headers set before", Body: sideBody(sideHeaders, true), Split: 3, Thorough: true}
	addScopes("C11", side, deep)
	addScopes("C12", side, deep)
}
