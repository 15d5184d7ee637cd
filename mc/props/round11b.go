package props

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// ---- C18: a file system that changes between requests

func c18Changing(n int) Body {
	return func(c *C) {
		kind := c.Choose(4)
		seen, err := os.MkdirTemp(scratch(), "chg")
		must(err)
		defer os.RemoveAll(seen)
		opts := func() *water.StaticOptions {
			o := &water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(seen)}
			if kind&1 == 1 {
				o.IndexFile = "i.html"
			}
			if kind&2 == 2 {
				o.ETag = water.ETagType2
			}
			return o
		}
		build := func() http.Handler {
			r := water.NewRouter()
			r.StaticAdvance(opts())
			return r.Handler()
		}
		e := build()
		at := func(p, body string, sec int64) {
			full := filepath.Join(seen, p)
			must(os.MkdirAll(filepath.Dir(full), 0755))
			must(os.WriteFile(full, []byte(body), 0644))
			must(os.Chtimes(full, time.Unix(sec, 0), time.Unix(sec, 0)))
		}
		ask := func(m, p string) {
			// directory times are part of no answer but Last-Modified of none
			got, p1 := Serve(e, Req(m, p))
			want, p2 := Serve(build(), Req(m, p))
			c.Step()
			if got.Summary() != want.Summary() || fmt.Sprint(p1) != fmt.Sprint(p2) {
				c.Failf("changing", "kind %d, choices %v: %s %s is answered %s, by a fresh engine %s", kind, c.Choices(), m, p, got.Summary(), want.Summary())
			}
		}
		for i := 0; i < n; i++ {
			switch c.Choose(10) {
			case 0:
				ask("GET", "/s/f")
			case 1:
				ask("GET", "/s/d/")
			case 2:
				ask("HEAD", "/s/d")
			case 3:
				ask("GET", "/s/d/i.html")
			case 4:
				must(os.RemoveAll(filepath.Join(seen, "f")))
				at("f", "one", 1600000000)
			case 5:
				must(os.RemoveAll(filepath.Join(seen, "f")))
				at("f", "two, longer", 1600000000)
			case 6:
				must(os.RemoveAll(filepath.Join(seen, "f")))
			case 7:
				must(os.RemoveAll(filepath.Join(seen, "d")))
				at("d/i.html", "index", 1600000000)
			case 8:
				must(os.RemoveAll(filepath.Join(seen, "d")))
				at("d", "a file now", 1600000001)
			case 9:
				must(os.RemoveAll(filepath.Join(seen, "d")))
				must(os.RemoveAll(filepath.Join(seen, "f")))
				at("f/x", "a directory now", 1600000000)
				at("d/x", "no index", 1600000000)
			}
		}
		for _, p := range []string{"/s/f", "/s/d/", "/s/d", "/s/d/i.html"} {
			ask("GET", p)
		}
	}
}

// ---- C09, C33: listings one after another, and after the router has grown

var listings = []struct {
	name string
	do   func(e *water.Engine)
}{
	{"all routes", func(e *water.Engine) { e.PrintRawAllRoutes() }},
	{"GET routes", func(e *water.Engine) { e.PrintRawRoutes("GET") }},
	{"post routes", func(e *water.Engine) { e.PrintRawRoutes("post") }},
	{"HEAD routes", func(e *water.Engine) { e.PrintRawRoutes("HEAD") }},
	{"GET tree", func(e *water.Engine) { e.PrintRouterTree("GET") }},
	{"POST tree", func(e *water.Engine) { e.PrintRouterTree("POST") }},
	{"raw router", func(e *water.Engine) { e.PrintRawRouter() }},
}

func listTable(which int) *water.Router {
	h := func(ctx *water.Context) { ctx.String(200, ctx.FullPath()) }
	r := water.NewRouter()
	r.Use(func(ctx *water.Context) {})
	switch which {
	case 0:
		r.POST("/b", h)
		r.GET("/z/<x>", h)
		r.GET("/a", h)
		r.GET("/z/a", h, h)
		r.POST("/a/*", h)
		r.GET("/", h)
	case 1:
		g := r.Group("/g", func(ctx *water.Context) {})
		g.GET("/<y ~ [0-9]+>/t", h)
		g.POST("/q", h)
		g.GET("/*", h)
		r.ANY("/k", h)
		g.GET("/a/b/c", h)
		g.GET("/a/b/a", h)
	}
	return r
}

func listed(e *water.Engine, i int) string {
	s, p := captureStdout(func() { listings[i].do(e) })
	return fmt.Sprint(s, p)
}

func c09Lists(n int) Body {
	return func(c *C) {
		which := c.Choose(2)
		e := listTable(which).Handler()
		var done []string
		for i := 0; i < n; i++ {
			k := c.Choose(len(listings) + 1)
			if k == len(listings) {
				for _, p := range []string{"/a", "/g/7/t", "/z/q", "/"} {
					got, _ := Serve(e, Req("GET", p))
					want, _ := Serve(listTable(which).Handler(), Req("GET", p))
					c.Step()
					if got.Summary() != want.Summary() {
						c.Failf("after", "after %q GET %s is answered %s instead of %s", done, p, got.Summary(), want.Summary())
					}
				}
				done = append(done, "requests")
				continue
			}
			got, want := listed(e, k), listed(listTable(which).Handler(), k)
			c.Step()
			if got != want {
				c.Failf("listings", "table %d, after %q the listing of %s is %q, of a fresh engine %q", which, done, listings[k].name, clip(got, 400), clip(want, 400))
			}
			done = append(done, listings[k].name)
		}
		c.State(fmt.Sprint(which, done))
	}
}

func c33Listings(n int) Body {
	return func(c *C) {
		which := c.Choose(2)
		h := func(ctx *water.Context) { ctx.String(201, "new") }
		r := listTable(which)
		e := r.Handler()
		fresh := listTable(which).Handler()
		var did []string
		for i := 0; i < n; i++ {
			switch k := c.Choose(8); k {
			case 0:
				Try(func() { r.GET("/new"+fmt.Sprint(i), h) })
			case 1:
				Try(func() { r.POST("/<new"+fmt.Sprint(i)+">/n", h) })
			case 2:
				Try(func() { r.Use(h) })
			case 3:
				Try(func() { r.Before(h) })
			case 4:
				Try(func() { r.Group("/grp"+fmt.Sprint(i)).HEAD("/x", h) })
			case 5:
				Try(func() { r.Handler() })
			case 6:
				Try(func() { r.Handler(water.WithStaticRouter(true), water.WithNoFoundHandlers(h)) })
			case 7:
				Try(func() { listTable(1 - which).Handler() })
			}
			did = append(did, fmt.Sprint(i))
		}
		for k := range listings {
			if listings[k].name == "raw router" { // it shows the router as it is now
				continue
			}
			got, want := listed(e, k), listed(fresh, k)
			c.Step()
			if got != want {
				c.Failf("listings", "table %d, after the choices %v the listing of %s of the engine built before is %q instead of %q", which, c.Choices(), listings[k].name, clip(got, 400), clip(want, 400))
			}
		}
		for _, p := range []string{"/a", "/b", "/g/7/t", "/g/a/b/c", "/g/r/s", "/z/q", "/", "/k", "/new0", "/x/n", "/none"} {
			for _, m := range []string{"GET", "POST", "HEAD"} {
				got, _ := Serve(e, Req(m, p))
				want, _ := Serve(fresh, Req(m, p))
				c.Step()
				if got.Summary() != want.Summary() {
					c.Failf("answers", "table %d, after the choices %v the engine built before answers %s %s with %s instead of %s", which, c.Choices(), m, p, got.Summary(), want.Summary())
				}
			}
		}
	}
}

// ---- C17: a near origin between exact ones

func c17Between(c *C) {
	conf := "http://a.example"
	near := Pick(c, "HTTP://a.example", "http://A.example", "http://a.example:80", "http://a.example/", "http://a.example.evil.net", "https://a.example", "http://a.exampl", "a.example", "http://b.a.example", "http://a.example ", "null", "*", "http://zz.example", "")
	list := PickS(c, [][]string{{conf}, {"http://zz.example", conf}, {conf, "null"}})
	r := water.NewRouter()
	r.Use(water.CORS(water.CORSConfig{AllowOrigins: list}))
	r.ANY("/p", func(ctx *water.Context) { ctx.String(200, "x") })
	r.OPTIONS("/p", func(ctx *water.Context) { ctx.String(200, "x") })
	e := r.Handler()
	var asked []string
	for i := 0; i < 4; i++ {
		o := near
		if c.Bool() {
			o = conf
		}
		req := Req(Pick(c, "GET", "OPTIONS"), "/p")
		want := ""
		if o != "" {
			req.Header["Origin"] = []string{o}
			for _, x := range list {
				if x == o {
					want = o
				}
			}
		}
		rec, p := Serve(e, req)
		c.Step()
		if got := strings.Join(rec.Snap["Access-Control-Allow-Origin"], "|"); p != nil || got != want {
			c.Failf("between", "origins %q, after %q %s with Origin %q: allowed origin %q, panic %v", list, asked, req.Method, o, got, p)
		}
		asked = append(asked, req.Method+" "+o)
	}
	c.State(fmt.Sprint(list, asked))
}

// ---- C14: what a handler was given stays as it was

func c14Kept(c *C) {
	n := 4
	size := Pick(c, 3, 40, 511, 513, 5000)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = c.Choose(5)
	}
	type kept struct {
		what string
		now  func() string
		was  string
	}
	var all []kept
	keep := func(what string, now func() string) { all = append(all, kept{what, now, now()}) }
	r := water.NewRouter()
	r.POST("/:k", func(ctx *water.Context) {
		switch ctx.Param("k") {
		case "bytes":
			b, _ := ctx.BodyBytes()
			keep("body", func() string { return string(b) })
		case "json":
			var v struct {
				A string            `json:"a"`
				L []string          `json:"l"`
				M map[string]string `json:"m"`
			}
			ctx.Bind(&v)
			keep("bound JSON", func() string { return v.A + fmt.Sprint(v.L) + mapStr(v.M) })
		case "query":
			l, m := ctx.QueryArray("l"), ctx.QueryMap("m")
			s := ctx.Query("a")
			keep("query", func() string { return fmt.Sprint(l, s) + mapStr(m) })
		case "form":
			var v struct {
				A string   `form:"a"`
				L []string `form:"l"`
				P *string  `form:"p"`
			}
			ctx.Bind(&v)
			keep("bound form", func() string { return v.A + fmt.Sprint(v.L) + *v.P })
		case "meta":
			l, s, t := ctx.Proxy(), ctx.Cookie("c"), ctx.UserAgent()+ctx.ContentType()+ctx.RealIp()
			keep("metadata", func() string { return fmt.Sprint(l, s, t) })
		}
		ctx.String(200, "ok")
	})
	e := r.Handler()
	for i, k := range kinds {
		mark := strings.Repeat(string(rune('a'+i)), size)
		var req *http.Request
		switch k {
		case 0:
			req = ReqBody("POST", "/bytes", "text/plain", []byte(mark))
		case 1:
			req = ReqBody("POST", "/json", "application/json", []byte(`{"a":"`+mark+`","l":["`+mark+`"],"m":{"`+mark+`":"x"}}`))
		case 2, 3:
			p := "/query"
			if k == 3 {
				p = "/form"
			}
			req = ReqBody("POST", p, "application/x-www-form-urlencoded", []byte(url.Values{"a": {mark}, "l": {mark, "x" + mark}, "m[k]": {mark}, "p": {mark}}.Encode()))
		case 4:
			req = ReqBody("POST", "/meta", "x/"+mark, nil)
			req.Header.Set("X-Forwarded-For", mark+", 1.1.1.1")
			req.Header.Set("Cookie", "c="+mark)
			req.Header.Set("User-Agent", mark)
		}
		Serve(e, req)
		c.Step()
	}
	if len(all) != n {
		c.Failf("kept", "kinds %v, size %d: %d of %d handlers have got their values", kinds, size, len(all), n)
	}
	for i, k := range all {
		if now := k.now(); now != k.was {
			c.Failf("kept", "kinds %v, size %d: the %s of request %d was %q and is now %q", kinds, size, k.what, i, clip(k.was, 100), clip(now, 100))
		}
	}
	c.State(fmt.Sprint(size, kinds))
}

func init() {
	addScopes("C09", Scope{Name: "listings", Desc: "2 tables, every sequence of 4 of 7 listings and requests: each as of a fresh engine", Body: c09Lists(4), Split: 3})
	addScopes("C14", Scope{Name: "kept", Desc: "every sequence of 4 of 5 requests x 5 sizes whose handlers keep the body, bound values, query lists and maps or metadata: unchanged by the later ones", Body: c14Kept, Split: 2})
	addScopes("C17", Scope{Name: "between", Desc: "every sequence of 4 simple or preflight requests of an allowed origin and one of 14 others near it x 3 lists", Body: c17Between, Split: 2})
	addScopes("C18", Scope{Name: "changing", Desc: "every sequence of 3 of 10 requests and changes (files and directories created, replaced, removed) x index or not x tags or not: each request as by a fresh engine", Body: c18Changing(3), Split: 2},
		Scope{Name: "changing-5", Desc: "every sequence of 5 of these", Body: c18Changing(5), Split: 3, Thorough: true})
	addScopes("C33", Scope{Name: "listings", Desc: "2 tables, every sequence of 3 of 8 later changes of the router or builds of engines: the listings and answers of the engine built before stay", Body: c33Listings(3), Split: 3},
		Scope{Name: "listings-5", Desc: "every sequence of 5 of these", Body: c33Listings(5), Split: 3, Thorough: true})
}
