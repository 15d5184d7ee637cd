package props

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// ---- paths that clients conventionally ask for: none of them is special

var customPaths = func() (o []string) {
	for _, base := range []string{"favicon", "robots", "index", "a", "sitemap", "default", "api", "health", "apple-touch-icon", "login"} {
		for _, ext := range []string{"", ".html", ".htm", ".ico", ".txt", ".xml", ".json", ".js", ".css", ".png", ".php", ".tar.gz", ".", ".map", ".HTML"} {
			o = append(o, "/"+base+ext)
		}
	}
	for _, p := range []string{"/.well-known/acme", "/.env", "/.git/config", "/.htaccess", "/api/v1", "/api/v1.0/users", "/debug/pprof", "/debug/vars", "/metrics",
		"/healthz", "/readyz", "/static/a.js", "/assets/x.min.css", "/public/f", "/wp-login.php", "/cgi-bin/x.cgi", "/admin", "/~user", "/@scope", "/-", "/_", "/_next/x",
		"/swagger/index.html", "/users/1", "/users/new", "/users/1/edit", "/v1", "/v2/a", "/ws", "/socket.io/", "/graphql", "/oauth/token", "/..data", "/...", "/a..b", "/$x",
		"/a+b", "/a=b", "/a,b", "/a;b", "/a@b", "/a!b", "/(a)", "/[a]", "/{a}", "/|", "/\"", "/'", "/`", "/^", "/0", "/-1", "/null", "/true", "/nil", "/undefined", "/%", "/#", "/?", "/&", "/ ",
		"/\t", "/\u00a0", "/\u200b", "/é", "/e\u0301", "/日本", "/日本.html", "/\xff", "/con", "/NUL", "/a\\b", "/index.html/x", "/index.html/", "/favicon.ico/", "/robots.txt/a", "/*", "/**", "/*x", "/:", "/:id", "/<id>", "/<", "/>", "/~", "/.", "/..", "/./a", "/../a", "/a/.", "/a/.."} {
		o = append(o, p)
	}
	return
}()

// customBody: a path asked when it is a route of its own, or only wildcards are there, or nothing.
func customBody(meths []string) Body {
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		p := PickS(c, customPaths)
		layout := c.Choose(8)
		static := c.Bool()
		nf := c.Choose(3)
		before := c.Bool()
		kind := PickS(c, meths)
		var pats []string
		own := strings.TrimRight(p, "/")
		literal := !strings.ContainsAny(p, "<>") && !strings.HasPrefix(p, "/:") && !strings.HasPrefix(p, "/*")
		switch layout {
		case 0:
			pats = []string{own}
		case 1:
			pats = []string{own, "/:x"}
		case 2:
			pats = []string{own, "/*rest"}
		case 3:
			pats = []string{"/:x"}
		case 4:
			pats = []string{"/*rest"}
		case 5:
			pats = []string{"/:x", "/:x/:y", "/<n ~ ^([a-z]+)\\.([a-z]+)$>"}
			pats[2] = "/<n,m ~ ^([a-z]+)\\.([a-z]+)$>"
		case 6:
			pats = []string{"/other"}
		case 7:
			pats = []string{"/", own + "/sub", "/sub" + own}
		}
		if layout < 3 || layout == 7 {
			if !literal || own == "" || strings.TrimSpace(own[1:]) != own[1:] {
				c.Prune()
			}
		}
		var ran []string
		r := water.NewRouter()
		note := func(tag string) func(ctx *water.Context) {
			return func(ctx *water.Context) { ran = append(ran, tag) }
		}
		if before {
			r.Before(note("before"))
		}
		m := newModel()
		why := ""
		ids := map[*MRoute]string{}
		var e *water.Engine
		for i, pat := range pats {
			i, pat := i, pat
			regMethod(r, kind, pat, func(ctx *water.Context) {
				ran = append(ran, fmt.Sprintf("h%d %s %s", i, ctx.FullPath(), mapStr(ctx.Params)))
			})
			for _, meth := range stdMethods {
				if regHas(kind, meth) && why == "" {
					var mr *MRoute
					mr, why = m.add(meth, pat)
					if mr != nil {
						ids[mr] = fmt.Sprintf("h%d %s", i, pat)
					}
				}
			}
		}
		desc := fmt.Sprintf("%q registered for %s (static %v, %d not-found handlers, before %v)", pats, kind, static, nf, before)
		refused := quiet(func() {
			opts := []water.Option{water.WithStaticRouter(static)}
			var hs []interface{}
			for i := 0; i < nf; i++ {
				i := i
				hs = append(hs, func(ctx *water.Context) {
					ran = append(ran, fmt.Sprintf("nf%d %q%s", i, ctx.FullPath(), mapStr(ctx.Params)))
					if i == nf-1 {
						ctx.WriteHeader(410)
					}
				})
			}
			if nf > 0 {
				opts = append(opts, water.WithNoFoundHandlers(hs...))
			}
			e = r.Handler(opts...)
		})
		if refused != (why != "") {
			c.Failf("refused", "%s: refused %v, expected %q", desc, refused, why)
			return
		}
		if refused {
			c.Prune()
		}
		for _, meth := range stdMethods {
			req := Req(meth, "/")
			req.URL = &url.URL{Path: p}
			req.RequestURI = p
			ran = nil
			rec, pn := Serve(e, req)
			c.Step()
			var want []string
			status := 0
			if mr, params := m.match(meth, p); mr != nil {
				if before {
					want = append(want, "before")
				}
				want = append(want, ids[mr]+" "+mapStr(params))
			} else if nf > 0 {
				status = 410
				if before {
					want = append(want, "before")
				}
				for i := 0; i < nf; i++ {
					want = append(want, fmt.Sprintf("nf%d \"\"%s", i, mapStr(nil)))
				}
			} else {
				status = 404
			}
			if pn != nil || strings.Join(ran, ",") != strings.Join(want, ",") || rec.Status != status || rec.Body.Len() != 0 {
				c.Failf("conventional", "%s: %s %q runs %q with status %d (panic %v), expected %q, status %d", desc, meth, p, ran, rec.Status, pn, want, status)
				return
			}
		}
		c.State(desc)
	}
}

// ---- C05, C08: ANY beside a registration of one of its methods

func anyOwn(c *C) {
	pat := Pick(c, "/a", "/:x", "/*rest", "/g/<n ~ ([0-9]+)>", "/", "/a/b")
	kind := PickS(c, stdMethods)
	first := c.Bool() // the own registration comes first
	group := c.Choose(3)
	static := c.Bool()
	excl := c.Choose(len(stdMethods) + 2) // what ANY excludes
	again := Pick(c, "", "GET", "PUT", "OPTIONS")
	var out []string
	switch {
	case excl == len(stdMethods):
		out = []string{"HEAD", "OPTIONS"}
	case excl == len(stdMethods)+1:
	default:
		out = []string{stdMethods[excl]}
	}
	r := water.NewRouter()
	g := r
	prefix := ""
	switch group {
	case 1:
		g, prefix = r.Group("/in"), "/in"
	case 2:
		g, prefix = r.Group("/in").Group("/deep"), "/in/deep"
	}
	if group > 0 && pat == "/" {
		c.Prune()
	}
	ran := ""
	excluded := func(m string) bool {
		for _, o := range out {
			if o == m {
				return true
			}
		}
		return false
	}
	var e *water.Engine
	refused := quiet(func() {
		a := func() {
			g.ANY(pat, func(ctx *water.Context) { ran += "any;" })
		}
		o := func() { regMethod(g, kind, pat, func(ctx *water.Context) { ran += "own;" }) }
		saved := water.MethodAnyExclude
		water.MethodAnyExclude = out
		defer func() { water.MethodAnyExclude = saved }()
		if first {
			o()
		}
		a()
		if again != "" {
			regMethod(g, again, pat, func(ctx *water.Context) { ran += "again;" })
		}
		if !first {
			o()
		}
		e = r.Handler(water.WithStaticRouter(static))
	})
	want := !excluded(kind) || again != "" && (!excluded(again) || again == kind)
	desc := fmt.Sprintf("%s with ANY (excluding %v) and %s (own first %v, then %q) in %d groups, static %v", pat, out, kind, first, again, group, static)
	if refused != want {
		c.Failf("any-own", "%s: refused %v, expected %v", desc, refused, want)
		return
	}
	if !refused {
		path := map[string]string{"/a": "/a", "/:x": "/v", "/*rest": "/v/w", "/g/<n ~ ([0-9]+)>": "/g/7", "/": "/", "/a/b": "/a/b"}[pat]
		for _, m := range stdMethods {
			ran = ""
			rec, p := Serve(e, Req(m, prefix+path))
			c.Step()
			exp, st := "any;", 0
			switch {
			case m == kind:
				exp = "own;"
			case m == again:
				exp = "again;"
			case excluded(m):
				exp, st = "", 404
			}
			if p != nil || ran != exp || rec.Status != st {
				c.Failf("any-own", "%s: %s runs %q with status %d (panic %v), expected %q, %d", desc, m, ran, rec.Status, p, exp, st)
				return
			}
		}
	}
	c.State(desc)
}

// ---- C11: underlying writers that fail

var errGone = errors.New("client gone")

// failW fails the k-th write in one of several ways.
type failW struct {
	h       http.Header
	commits []int
	status  int // 0: none
	snap    http.Header
	body    []byte
	calls   int
	at, how int
	once    bool
}

func (w *failW) Header() http.Header { return w.h }
func (w *failW) WriteHeader(code int) {
	w.commits = append(w.commits, code)
	if w.status == 0 {
		w.status, w.snap = code, w.h.Clone()
	}
}
func (w *failW) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.status, w.snap = 200, w.h.Clone()
	}
	w.calls++
	if w.calls == w.at || w.calls > w.at && !w.once {
		switch w.how {
		case 0: // nothing taken
			return 0, errGone
		case 1: // half of it
			w.body = append(w.body, b[:len(b)/2]...)
			return len(b) / 2, errGone
		case 2: // all of it, and an error
			w.body = append(w.body, b...)
			return len(b), errGone
		case 3: // half of it without telling
			w.body = append(w.body, b[:len(b)/2]...)
			return len(b) / 2, nil
		case 4:
			return 0, http.ErrBodyNotAllowed
		}
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

type fop struct {
	name string
	code int // requested if nothing has been sent
	do   func(ctx *water.Context)
}

var c11Fops = []fop{
	{"Write", 200, func(ctx *water.Context) { ctx.Write([]byte("abcd")) }},
	{"Write(nil)", 200, func(ctx *water.Context) { ctx.Write(nil) }},
	{"WriteHeader(404)", 404, func(ctx *water.Context) { ctx.WriteHeader(404) }},
	{"WriteHeader(500)", 500, func(ctx *water.Context) { ctx.WriteHeader(500) }},
	{"String(201)", 201, func(ctx *water.Context) { ctx.String(201, "text") }},
	{"JSON(202)", 202, func(ctx *water.Context) { ctx.JSON(202, pairT{"x", 1}) }},
	{"XML(203)", 203, func(ctx *water.Context) { ctx.XML(203, pairT{"x", 1}) }},
	{"Data(409)", 409, func(ctx *water.Context) { ctx.Data(409, "a/b", []byte("data")) }},
	{"Stream", 200, func(ctx *water.Context) { ctx.Stream("a/b", strings.NewReader("stream")) }},
	{"http.Error", 503, func(ctx *water.Context) { http.Error(ctx, "oops", 503) }},
	{"Found", 302, func(ctx *water.Context) { ctx.Found("/x") }},
	{"InternalServerError", 500, func(ctx *water.Context) { ctx.InternalServerError() }},
	{"SetHeader", 0, func(ctx *water.Context) { ctx.SetHeader("X-A", "1") }},
	{"panic", 500, nil},
}

func c11Failing(n int) Body {
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		at, how := 1+c.Choose(3), c.Choose(5)
		once := c.Bool()
		meth := Pick(c, "GET", "POST")
		var ops []int
		for i := 0; i < n; i++ {
			ops = append(ops, c.Choose(len(c11Fops)))
			if c11Fops[ops[i]].do == nil && i < n-1 {
				c.Prune()
			}
		}
		w := &failW{h: http.Header{}, at: at, how: how, once: once}
		var names []string
		first := 0
		snap := func(ctx *water.Context, where string) {
			if ctx.Written() != (first != 0) || ctx.Status() != first {
				c.Failf("failing", "write %d failing (way %d, once %v): after %v (%s): reports written=%v status=%d, but %d was requested first (client has %d)", at, how, once, names, where, ctx.Written(), ctx.Status(), first, w.status)
			}
		}
		r := water.NewRouter()
		r.Use(func(ctx *water.Context) {
			ctx.Next()
			snap(ctx, "outer middleware")
		}, water.Recovery())
		regMethod(r, meth, "/", func(ctx *water.Context) {
			for _, o := range ops {
				op := c11Fops[o]
				names = append(names, op.name)
				if op.code != 0 && first == 0 {
					first = op.code
				}
				if op.do == nil {
					panic(op.name)
				}
				op.do(ctx)
				snap(ctx, "handler")
			}
			if first == 0 {
				first = 200 // the recovery's
			}
		})
		_, _, pn := Try(func() { r.Handler().ServeHTTP(w, Req(meth, "/")) })
		c.Step()
		if pn || len(w.commits) > 1 || w.status != first {
			c.Failf("failing", "write %d failing (way %d, once %v): %v: panic %v, status calls %v, the client has %d, requested first %d", at, how, once, names, pn, w.commits, w.status, first)
		}
		c.State(fmt.Sprint(at, how, once, meth, ops))
	}
}

// c11Statuses: bodies of many sizes under every status, all bytes delivered.
func c11Statuses(c *C) {
	st := 200 + c.Choose(400)
	size := Pick(c, 0, 1, 512, 513, 4096, 32768, 32769, 65537)
	meth := Pick(c, "GET", "HEAD", "POST")
	way := c.Choose(5)
	body := []byte(strings.Repeat("0123456789abcdef", size/16+1)[:size])
	r := water.NewRouter()
	var n int
	var err error
	var rep string
	regMethod(r, meth, "/", func(ctx *water.Context) {
		switch way {
		case 0:
			ctx.WriteHeader(st)
			n, err = ctx.Write(body)
		case 1:
			ctx.Data(st, "a/b", body)
			n = size
		case 2:
			ctx.WriteHeader(st)
			var k int64
			k, err = io.Copy(ctx, strings.NewReader(string(body)))
			n = int(k)
		case 3:
			ctx.String(st, string(body))
			n = size
		case 4:
			ctx.WriteHeader(st)
			for i := 0; i < size; i += 1000 {
				end := i + 1000
				if end > size {
					end = size
				}
				k, e := ctx.Write(body[i:end])
				n += k
				if e != nil {
					err = e
				}
			}
		}
		rep = fmt.Sprint(ctx.Written(), ctx.Status())
	})
	rec, p := Serve(r.Handler(), Req(meth, "/"))
	c.Step()
	if p != nil || rec.Status != st || len(rec.Commits) != 1 || rec.Body.String() != string(body) || n != size || err != nil || rep != fmt.Sprint(true, st) {
		c.Failf("statuses", "%s with status %d and %d bytes (way %d): panic %v, status %d %v, %d bytes arrived, told %d (%v), reported %s", meth, st, size, way, p, rec.Status, rec.Commits, rec.Body.Len(), n, err, rep)
	}
	c.State(fmt.Sprint(st, size, meth, way))
}

// ---- C12: a Content-Type set before the helper

func c12Preset(c *C) {
	pre := Pick(c, "", "none", "image/png", "text/html", "TEXT/PLAIN", "x", "application/json")
	ct := Pick(c, "", "x", " ", "text/html", "text/html; charset=gbk", "a/b", "application/octet-stream", "text/plain")
	n := c.Choose(9)
	body := Pick(c, "", "x", "<html>", "{}", "\x00\x01")
	st := Pick(c, 200, 201, 404, 500)
	meth := Pick(c, "GET", "HEAD", "POST")
	preNil := c.Bool()
	r := water.NewRouter()
	want, wantBody, code := "", body, st
	regMethod(r, meth, "/", func(ctx *water.Context) {
		if pre != "none" {
			ctx.SetHeader("Content-Type", pre)
		}
		if preNil {
			ctx.Header()["Content-Type"] = nil
		}
		switch n {
		case 0:
			want = ct
			ctx.Data(st, ct, []byte(body))
		case 1:
			want, code = ct, 200
			ctx.Stream(ct, strings.NewReader(body))
		case 2:
			want = "text/plain; charset=utf-8"
			ctx.String(st, body)
		case 3:
			want = "text/html; charset=utf-8"
			ctx.HTMLRaw(st, body)
		case 4:
			want, wantBody = "application/json; charset=utf-8", "{\"a\":\"q\",\"b\":1}\n"
			ctx.JSON(st, pairT{"q", 1})
		case 5:
			want, wantBody = "application/xml; charset=utf-8", "<pairT><a>q</a><b>1</b></pairT>"
			ctx.XML(st, pairT{"q", 1})
		case 6:
			want = ct
			ctx.WriteHeader(st)
			ctx.Data(st, ct, []byte(body))
		case 7:
			want, wantBody = ct, body+body
			ctx.Data(st, ct, []byte(body))
			ctx.Write([]byte(body))
		case 8:
			want = ct
			ctx.Data(st, ct, []byte(body))
			ctx.SetHeader("Content-Type", "late/late")
		}
	})
	rec, p := Serve(r.Handler(), Req(meth, "/"))
	c.Step()
	desc := fmt.Sprintf("%s, Content-Type %q before (emptied %v), helper %d given %q, status %d, body %q", meth, pre, preNil, n, ct, st, body)
	if n == 1 && body == "" { // nothing has been written at all
		if p != nil || rec.Status != 0 || rec.H.Get("Content-Type") != ct {
			c.Failf("preset", "%s: panic %v, status %d, %q", desc, p, rec.Status, rec.H["Content-Type"])
		}
		c.State(desc)
		return
	}
	got := rec.Snap["Content-Type"]
	if n == 6 { // committed before
		got = nil
		if len(rec.H["Content-Type"]) == 1 {
			got = rec.H["Content-Type"]
		}
	}
	if want == "" && len(got) == 1 && got[0] == http.DetectContentType([]byte(body)) { // none given: a body write may find it out
		want = got[0]
	}
	if p != nil || rec.Status != code || len(rec.Commits) != 1 || rec.Body.String() != wantBody || len(got) != 1 || got[0] != want {
		c.Failf("preset", "%s: panic %v, status %d %v, Content-Type %q, body %q; expected %d, %q, %q", desc, p, rec.Status, rec.Commits, got, rec.Body.String(), code, want, wantBody)
	}
	c.State(desc)
}

// ---- C13: every method, with and without a panic

func c13Methods(c *C) {
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	meth := PickS(c, stdMethods)
	what := c.Choose(7)
	mount := c.Choose(4)
	pat := Pick(c, "/p", "/:x", "/*")
	ct := Pick(c, "", "application/json")
	seen := ""
	outer := func(ctx *water.Context) {
		ctx.Next()
		seen = fmt.Sprint(ctx.Written(), ctx.Status())
	}
	h := func(ctx *water.Context) {
		switch what {
		case 1:
			ctx.WriteHeader(202)
		case 2:
			ctx.Write([]byte("body"))
		case 3:
			panic("early")
		case 4:
			ctx.WriteHeader(202)
			panic("late")
		case 5:
			ctx.SetHeader("X-A", "1")
		case 6:
			ctx.SetHeader("X-A", "1")
			panic("after a header")
		}
	}
	r := water.NewRouter()
	switch mount {
	case 0:
		r.Use(outer, water.Recovery())
		regMethod(r, meth, pat, h)
	case 1:
		r.Before(outer, water.Recovery())
		regMethod(r, meth, pat, h)
	case 2:
		regMethod(r, meth, pat, outer, water.Recovery(), func(ctx *water.Context) { ctx.Next() }, h)
	case 3:
		r.Before(outer)
		r.Use(water.Recovery(), water.Recovery())
		regMethod(r, meth, pat, h)
	}
	want := map[int]int{0: 200, 1: 202, 2: 200, 3: 500, 4: 202, 5: 200, 6: 500}[what]
	e := r.Handler()
	for i := 0; i < 2; i++ {
		req := Req(meth, "/p")
		if ct != "" {
			req.Header.Set("Content-Type", ct)
		}
		seen = ""
		rec, p := Serve(e, req)
		c.Step()
		body := map[int]string{2: "body"}[what]
		if p != nil || rec.Status != want || len(rec.Commits) != 1 || seen != fmt.Sprint(true, want) || rec.Body.String() != body {
			c.Failf("methods", "%s %s (behaviour %d, mount %d): panic %v, status %d %v, outside it is seen %s, body %q; expected %d", meth, pat, what, mount, p, rec.Status, rec.Commits, seen, rec.Body.String(), want)
			return
		}
	}
	c.State(fmt.Sprint(meth, what, mount, pat, ct))
}

// ---- C14: requests that leave a lot behind

func c14Heavy(n int) Body {
	var kinds []hk
	look := func(ctx *water.Context) string {
		var keys []string
		for k := range ctx.Environ {
			keys = append(keys, k)
		}
		return fmt.Sprintf("%d stored %d params q=%q all=%q w=%v", len(keys), len(ctx.Params), ctx.Query("k3"), ctx.QueryArray("k3"), ctx.Written())
	}
	for _, many := range []int{1, 7, 8, 9, 17, 33, 100, 1000} {
		many := many
		kinds = append(kinds, hk{name: fmt.Sprint("stores ", many), do: func(ctx *water.Context, t string) string {
			s := look(ctx)
			for i := 0; i < many; i++ {
				ctx.Set(fmt.Sprint("k", i), t)
				ctx.Params[fmt.Sprint("p", i)] = t
			}
			return s
		}})
	}
	for _, many := range []int{9, 100, 1000} {
		many := many
		kinds = append(kinds, hk{name: fmt.Sprint("form of ", many), req: func(r *http.Request, t string) {
			var kv []string
			for i := 0; i < many; i++ {
				kv = append(kv, fmt.Sprintf("k%d=%s", i%50, t))
			}
			r.URL.RawQuery = strings.Join(kv, "&")
		}, do: func(ctx *water.Context, t string) string {
			return look(ctx) + fmt.Sprint(len(ctx.Request.Form))
		}})
	}
	kinds = append(kinds,
		hk{name: "looks", do: func(ctx *water.Context, t string) string { return look(ctx) }},
		hk{name: "writes", do: func(ctx *water.Context, t string) string {
			s := look(ctx)
			ctx.Write(make([]byte, 100000))
			return s
		}},
		hk{name: "deep path", path: "/d/1/2/3/4/5/6/7/8/9/10/11/12"},
		hk{name: "long chain", path: "/long"},
		hk{name: "no route", path: "/none/" + strings.Repeat("x/", 50)})
	return histBody(n, kinds, func(r *water.Router) {
		r.GET("/d/:a/:b/:c/:d/:e/:f/:g/:h/:i/:j/:k/:l", func(ctx *water.Context) {
			fmt.Fprint(ctx, look(ctx), mapStr(ctx.Params))
		})
		var hs []interface{}
		for i := 0; i < 60; i++ {
			i := i
			hs = append(hs, func(ctx *water.Context) {
				ctx.Header().Add("X-Obs", look(ctx))
				ctx.Set(fmt.Sprint("l", i), i)
			})
		}
		r.GET("/long", hs...)
	})
}

// ---- C16: texts that mean something to formatting

func c16Verbs(c *C) {
	defer func() { water.LogHttpBody = false }()
	water.LogHttpBody = c.Bool()
	body := Pick(c, "%", "%%", "%s", "%d%v%q", "100%", "%!s(MISSING)", "%[1]s", "%5", "{\"a\":\"50%\"}", "%\n%", "\\", "{{.}}", "$1", "\x1b[31m", "\r\nX: y", "\x00", "é%é", "<a>&\"'", "")
	uri := Pick(c, "/l/a", "/l/%25s", "/l/a?x=%25d", "/l/a?%s", "/l/%C3%A9?%v%v")
	trace := Pick(c, "", "%s", "%!d", "a%b")
	ct := Pick(c, "application/json", "text/plain", "application/json; charset=%s")
	color := c.Bool()
	defer func() { water.LogColor = true }()
	water.LogColor = color
	u, err := url.Parse(uri)
	if err != nil {
		c.Prune()
	}
	read := ""
	r := water.NewRouter()
	r.Use(water.Logger())
	r.POST("/l/*", func(ctx *water.Context) {
		b, _ := io.ReadAll(ctx.Request.Body)
		read = string(b)
		ctx.WriteHeader(207)
	})
	req := ReqBody("POST", "/", ct, []byte(body))
	req.URL = u
	if trace != "" {
		req.Header.Set("Trace-ID", trace)
	}
	req.ContentLength = Pick(c, int64(len(body)), 0, -1, int64(len(body))+5)
	lg := getLog()
	rec, p := Serve(r.Handler(), req)
	line := lg.text()
	c.Step()
	desc := fmt.Sprintf("POST %s, body %q (%s), announced as %d bytes, trace %q, LogHttpBody %v, color %v", uri, body, ct, req.ContentLength, trace, water.LogHttpBody, color)
	if p != nil || rec.Status != 207 || read != body {
		c.Failf("verbs", "%s: panic %v, status %d, read %q", desc, p, rec.Status, read)
		return
	}
	tail := "POST " + u.String()
	if water.LogHttpBody && strings.HasPrefix(ct, "application/json") {
		tail += "\n" + body
	}
	if trim := strings.TrimRight(strings.TrimSuffix(strings.TrimRight(line, "\n"), "\x1b[0m"), "\n"); !strings.HasSuffix(trim, strings.TrimRight(tail, "\n")) || !strings.Contains(line, trace) || !strings.Contains(line, " 207 ") {
		c.Failf("verbs", "%s: the log says %q, expected it to end with %q", desc, clip(line, 400), tail)
	}
	c.State(desc)
}

// ---- C01, C02: segments with line breaks and other uncommon characters; repeated names

func tableScope(pats [][]string, judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit), paths func(c *C) string) Body {
	return func(c *C) {
		ps := PickS(c, pats)
		static := c.Bool()
		t, why := newTable(ps, water.WithStaticRouter(static))
		if why != "" {
			c.Prune()
		}
		path := paths(c)
		got := t.serve("GET", path)
		c.Step()
		want, wantP := t.m.match("GET", path)
		judge(c, t, ps, path, want, wantP, got)
		c.State(fmt.Sprint(ps, static, path))
	}
}

func judgeWhich(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit) {
	id := -1
	if want != nil {
		id = want.ID
	}
	n := 1
	if want == nil {
		n = 0
	}
	if got.ID != id || got.Count != n {
		c.Failf("match", "routes %q: GET %q is answered by %s, expected %d", pats, path, showHit(got, pats), id)
	}
}

var linePats = func() (o [][]string) {
	for _, re := range []string{"^([a-z]+)$", "^(.+)$", "(?s)^(.+)$", "(?m)^([a-z]+)$", "([a-z]+)", "^(\\S+)$", "([0-9])$", "^([^a]*)$", "^(\\pL+)$", "a\\z", "\\ba\\b"} {
		name := "n"
		o = append(o, []string{"/<" + name + " ~ " + re + ">"}, []string{"/<" + name + " ~ " + re + ">", "/:x"}, []string{"/<" + name + " ~ " + re + ">/s", "/*rest"})
	}
	return
}()

func linePaths(n int) func(c *C) string {
	return func(c *C) string {
		p := "/" + strings.Join(Seq(c, n, []string{"a", "1", "\n", "\r", "\t", " ", "\x00", "\u2028", "\xff", "é", "A", "\\", "%0A"}), "")
		if c.Bool() {
			p += "/s"
		}
		return p
	}
}

var alikePats = func() (o [][]string) {
	ps := []string{"/<id>/<id>", "/:id/x/:id", "/<id>/<id ~ ([0-9]+)>", "/<id ~ ([a-z]+)>/<id>", "/<id ~ ([a-z]+)>/<id ~ ([a-z]+)>", "/*id/*id", "/<id>/*id", "/*id/<id>", "/<id>/<id>/<id>", "/<a,a ~ ([a-z])([a-z])>", "/<id>/<id>/id", "/*/<id>/<id>", "/<id>", "/id/<id>", "/<_>/<_>", "/<id>/<_>"}
	for _, a := range ps {
		o = append(o, []string{a})
		for _, b := range ps {
			if a != b {
				o = append(o, []string{a, b})
			}
		}
	}
	return
}()

func alikePaths(n int) func(c *C) string {
	return func(c *C) string {
		return "/" + strings.Join(Seq(c, n, []string{"a", "b", "1", "id", "x", "ab", ""}), "/")
	}
}

// c08Alike: tables whose patterns repeat names are refused exactly when they are double.
func c08Alike(c *C) {
	pats := PickS(c, alikePats)
	how := c.Choose(3)
	m := newModel()
	r := water.NewRouter()
	g := r
	prefix := ""
	if how > 0 {
		g, prefix = r.Group("/g"), "/g"
	}
	if how > 1 {
		g, prefix = g.Group("/:id"), "/g/:id"
	}
	why := ""
	refused := quiet(func() {
		for _, p := range pats {
			if _, w := m.add("GET", prefix+p); w != "" {
				why = w
			}
			g.GET(p, func(ctx *water.Context) { ctx.String(200, ctx.FullPath()) })
		}
		r.Handler()
	})
	c.Step()
	if refused != (why != "") {
		c.Failf("alike", "%q under %q: refused %v, expected %q", pats, prefix, refused, why)
	}
	c.State(fmt.Sprint(pats, how))
}

// ---- C23: request cookies in several header lines

func c23Lines(c *C) {
	names := []string{"a", "b", "sid", "A"}
	n := 1 + c.Choose(4)
	lines := []string{""}
	first := map[string]string{}
	for i := 0; i < n; i++ {
		name := PickS(c, names)
		v := fmt.Sprint("v", i)
		if _, ok := first[name]; !ok {
			first[name] = v
		}
		if i > 0 {
			switch c.Choose(3) {
			case 0:
				lines = append(lines, "")
			case 1:
				lines[len(lines)-1] += "; "
			case 2:
				lines[len(lines)-1] += ";"
			}
		}
		lines[len(lines)-1] += name + "=" + v
	}
	r := water.NewRouter()
	bad := ""
	r.GET("/", func(ctx *water.Context) {
		for _, m := range append(names, "c") {
			if got := ctx.Cookie(m); got != first[m] {
				bad = fmt.Sprintf("Cookie(%s) is %q", m, got)
			}
			if got := ctx.CookieEscape(m); got != first[m] {
				bad = fmt.Sprintf("CookieEscape(%s) is %q", m, got)
			}
		}
	})
	req := Req("GET", "/")
	req.Header["Cookie"] = lines
	_, p := Serve(r.Handler(), req)
	c.Step()
	if p != nil || bad != "" {
		c.Failf("lines", "request with Cookie lines %q: panic %v, %s; expected %v", lines, p, bad, first)
	}
	c.State(fmt.Sprint(lines))
}

func init() {
	addScopes("C23", Scope{Name: "lines", Desc: "up to 4 request cookies of 4 names, repeated or not, over one or several header lines: the accessors find each", Body: c23Lines, Split: 2})
	conv := Scope{Name: "conventional", Desc: fmt.Sprintf("%d paths clients conventionally ask for (favicon, robots, index files, extensions, dot names, punctuation, Unicode) x 8 tables (itself a route, wildcards only, neither) x static x 0-2 not-found handlers x Before, GET or ANY, asked by every method", len(customPaths)), Body: customBody([]string{"GET", "ANY"}), Split: 2}
	for _, id := range []string{"C01", "C02", "C04", "C05", "C06", "C07", "C09"} {
		addScopes(id, conv)
	}
	lines := Scope{Name: "lines", Desc: "11 regular expressions in 3 tables x every segment of up to 3 of 13 characters (line breaks, tabs, NUL, invalid and wide ones), last or not", Split: 3, Body: tableScope(linePats, judgeWhich, linePaths(3))}
	lines4 := Scope{Name: "lines-5", Desc: "every segment of up to 5 of these", Split: 3, Thorough: true, Body: tableScope(linePats, judgeWhich, linePaths(5))}
	addScopes("C01", lines, lines4, Scope{Name: "alike", Desc: "every table of one or two of 16 patterns that repeat names x every path of up to 4 of 7 segments", Split: 3, Body: tableScope(alikePats, judgeWhich, alikePaths(4))})
	addScopes("C08", Scope{Name: "alike", Desc: "every table of one or two of 16 patterns that repeat names, in groups repeating them too: accepted unless double", Split: 1, Body: c08Alike})
	lines.Body, lines4.Body = tableScope(linePats, judgeParams, linePaths(3)), tableScope(linePats, judgeParams, linePaths(5))
	addScopes("C02", lines, lines4)
	deep := conv
	deep.Name, deep.Desc, deep.Body, deep.Thorough = "conventional-all", "the same registered in all 8 ways", customBody(regKinds), true
	for _, id := range []string{"C01", "C05"} {
		addScopes(id, deep)
	}
	own := Scope{Name: "any-own", Desc: "6 patterns registered by ANY with 9 sets of excluded methods and by each method before or after, and maybe once more, in 0-2 groups: refused exactly when a method has it twice, every method answered by its own", Body: anyOwn, Split: 2}
	addScopes("C05", own)
	addScopes("C08", own)
	addScopes("C11", Scope{Name: "failing", Desc: "every sequence of 3 of 14 operations (writes, statuses, helpers, redirect, panic) on a writer whose 1st, 2nd or 3rd write fails in 5 ways, once or from then on: one status, reported truthfully after each", Body: c11Failing(3), Split: 3},
		Scope{Name: "failing-4", Desc: "every sequence of 4 of these", Body: c11Failing(4), Split: 3, Thorough: true},
		Scope{Name: "statuses", Desc: "every status 200-599 x bodies of 8 lengths up to 65537 x 5 ways of writing x GET/HEAD/POST: every byte arrives", Body: c11Statuses, Split: 2})
	addScopes("C12", Scope{Name: "preset", Desc: "9 uses of the helpers x 8 given content types (empty, blank, wrong) x 7 set before x 5 bodies x 4 statuses x 3 methods", Body: c12Preset, Split: 3})
	addScopes("C13", Scope{Name: "methods", Desc: "each of the 7 methods x 7 behaviours (silent, status, body, header, panics before and after) x 4 mounts x 3 patterns, twice: the status seen outside the recovery and by the client", Body: c13Methods, Split: 2})
	addScopes("C14", Scope{Name: "heavy", Desc: "every history of 2 of 16 requests that store up to 1000 values, have up to 1000 form values, 12 parameters or chains of 60: each answered as by a fresh engine", Body: c14Heavy(2), Split: 3},
		Scope{Name: "heavy-3", Desc: "every history of 3 of these", Body: c14Heavy(3), Split: 3, Thorough: true})
	addScopes("C16", Scope{Name: "verbs", Desc: "19 bodies, 5 URLs and 4 trace ids with formatting verbs, escapes and line breaks x 3 content types x 4 announced lengths x LogHttpBody x LogColor: logged and read as they are", Body: c16Verbs, Split: 3})
}
