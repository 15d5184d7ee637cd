package props

import (
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

type panicky struct{}

func (panicky) Error() string { panic("error method panics") }

type panicStr struct{}

func (*panicStr) String() string { return "stringer" }

type pval struct {
	name string
	do   func(ctx *water.Context)
}

var nilErr error
var nilMap map[string]int
var emptySl []int

var c13Vals = []pval{
	{"string", func(*water.Context) { panic("boom") }},
	{"error", func(*water.Context) { panic(errors.New("boom")) }},
	{"int 0", func(*water.Context) { panic(0) }},
	{"empty string", func(*water.Context) { panic("") }},
	{"index out of range", func(*water.Context) { _ = emptySl[len(emptySl)] }},
	{"nil map write", func(*water.Context) { nilMap["a"] = 1 }},
	{"nil dereference", func(*water.Context) { var p *http.Request; _ = p.Method }},
	{"http.ErrAbortHandler", func(*water.Context) { panic(http.ErrAbortHandler) }},
	{"value whose Error panics", func(*water.Context) { panic(panicky{}) }},
	{"typed nil pointer", func(*water.Context) { panic((*panicStr)(nil)) }},
	{"struct", func(*water.Context) { panic(struct{ A, B int }{1, 2}) }},
	{"long string", func(*water.Context) { panic(strings.Repeat("x", 100000)) }},
	{"format verbs", func(*water.Context) { panic("%d %s %!") }},
	{"missing environ", func(ctx *water.Context) { ctx.Get("nope") }},
	{"double environ", func(ctx *water.Context) { ctx.Set("once", 1); ctx.Set("once", 2) }},
	{"malformed query", func(ctx *water.Context) { ctx.Request.URL.RawQuery = "%zz"; ctx.Query("a") }},
	{"nested panic in defer", func(*water.Context) {
		defer func() { panic("second") }()
		panic("first")
	}},
	{"negative slice", func(*water.Context) { n := -1; _ = make([]int, n) }},
	{"type assertion", func(*water.Context) { var v interface{} = 1; _ = v.(string) }},
	{"false", func(*water.Context) { panic(false) }},
	{"func", func(*water.Context) { panic(func() {}) }},
	{"chan", func(*water.Context) { panic(make(chan int)) }},
	{"rethrown", func(*water.Context) {
		defer func() { panic(recover()) }()
		panic("again")
	}},
}

type pre struct {
	name   string
	do     func(ctx *water.Context)
	status int
	body   string
}

var c13Pre = []pre{
	{"nothing", func(*water.Context) {}, 0, ""},
	{"header", func(ctx *water.Context) { ctx.SetHeader("X-A", "1") }, 0, ""},
	{"status 202", func(ctx *water.Context) { ctx.WriteHeader(202) }, 202, ""},
	{"body", func(ctx *water.Context) { ctx.Write([]byte("part")) }, 200, "part"},
	{"status 404 and body", func(ctx *water.Context) { ctx.String(404, "gone") }, 404, "gone"},
	{"empty body", func(ctx *water.Context) { ctx.Write(nil) }, 200, ""},
	{"status 500", func(ctx *water.Context) { ctx.InternalServerError() }, 500, ""},
}

// c13Body: [outer] Recovery [mid...] handlers, a panic (or none) somewhere after Recovery.
func c13Body(n int, vals []pval) Body {
	return func(c *C) {
		place := c.Choose(5)     // how the chain is mounted
		where := c.Choose(n + 1) // the handler that panics, n: none
		val := pval{"no panic", nil}
		after := 0
		if where < n {
			val = PickS(c, vals)
			after = c.Choose(2) // before or after calling Next
		}
		var nexts [4]bool
		for i := 0; i < n; i++ {
			nexts[i] = c.Bool()
		}
		if after == 1 && !nexts[where] {
			c.Prune()
		}
		wr := c.Choose(n) // the handler that writes something first
		pr := PickS(c, c13Pre)
		if pr.name == "nothing" && wr != 0 {
			c.Prune()
		}
		mode := Pick(c, water.Dev, water.Stable)
		water.Status = mode
		defer func() { water.Status = water.Dev }()
		nested := false
		if place == 1 {
			nested = true
		}
		var trace []string
		rec := NewRec()
		h := func(i int) func(ctx *water.Context) {
			return func(ctx *water.Context) {
				trace = append(trace, fmt.Sprint(i))
				if i == wr {
					pr.do(ctx)
				}
				if i == where && after == 0 {
					val.do(ctx)
				}
				if nexts[i] {
					ctx.Next()
					trace = append(trace, fmt.Sprintf("%d'", i))
				}
				if i == where && after == 1 {
					val.do(ctx)
				}
			}
		}
		outer := func(ctx *water.Context) {
			ctx.SetHeader("X-Outer", "1")
			ctx.Next()
			if ctx.Request.URL.Path == "/fine" {
				return
			}
			trace = append(trace, "outer")
			if ctx.Written() != (rec.Status != 0) || ctx.Status() != rec.Status {
				c.Failf("report", "the outer middleware sees written=%v status=%d, the client has %d", ctx.Written(), ctx.Status(), rec.Status)
			}
		}
		r := water.NewRouter()
		opts := []water.Option{}
		path := "/p"
		switch place {
		case 0, 1: // all middleware on the root
			r.Use(outer, water.Recovery())
			if nested {
				r.Use(water.Recovery())
			}
			for i := 0; i < n-1; i++ {
				r.Use(h(i))
			}
			r.GET(path, h(n-1))
		case 2: // Before, group, route
			r.Before(outer)
			g := r.Group("/p")
			g.Use(water.Recovery())
			for i := 0; i < n-1; i++ {
				g.Use(h(i))
			}
			path = "/p/q"
			g.GET("/q", h(n-1))
		case 3: // not-found handling
			hs := []interface{}{outer, water.Recovery()}
			for i := 0; i < n; i++ {
				hs = append(hs, h(i))
			}
			var nf []interface{}
			nf = append(nf, hs...)
			opts = append(opts, water.WithNoFoundHandlers(nf...))
			r.GET("/other", func(*water.Context) {})
		case 4: // http handlers between
			r.Before(outer, water.Logger())
			r.Use(water.Recovery())
			var hs []interface{}
			for i := 0; i < n; i++ {
				hs = append(hs, h(i))
			}
			r.GET(path, hs...)
		}
		r.GET("/fine", func(ctx *water.Context) { ctx.String(200, "fine") })
		e := r.Handler(opts...)
		// what must happen
		started, written, panicked := 0, 0, false
		var run func(i int)
		var exp []string
		run = func(i int) {
			for ; started < n && !panicked; started++ {
				me := started
				exp = append(exp, fmt.Sprint(me))
				if me == wr && written == 0 {
					written = pr.status
				}
				if me == where && after == 0 {
					panicked = true
					return
				}
				if nexts[me] {
					started++
					run(started)
					if panicked {
						return
					}
					exp = append(exp, fmt.Sprintf("%d'", me))
				}
				if me == where && after == 1 {
					panicked = true
					return
				}
				if written != 0 {
					started++
					return
				}
			}
		}
		run(0)
		exp = append(exp, "outer")
		wantStatus := written
		if written == 0 {
			if panicked {
				wantStatus = 500
			} else {
				wantStatus = 200
			}
		}
		v, _, escaped := Try(func() { e.ServeHTTP(rec, Req("GET", path)) })
		c.Step()
		desc := fmt.Sprintf("mount %d, %d handlers calling Next %v, %s by %d, %s in %d (after Next: %v), mode %v", place, n, nexts[:n], pr.name, wr, val.name, where, after == 1, mode)
		if escaped {
			c.Failf("escaped", "%s: the panic escaped to the server: %v", desc, clip(fmt.Sprint(v), 200))
			return
		}
		if rec.Status != wantStatus || len(rec.Commits) > 1 {
			c.Failf("status", "%s: the client gets status %d (commits %v), expected %d", desc, rec.Status, rec.Commits, wantStatus)
		}
		if strings.Join(trace, " ") != strings.Join(exp, " ") {
			c.Failf("trace", "%s: ran %v, expected %v", desc, trace, exp)
		}
		wb := ""
		for _, x := range exp {
			if x == fmt.Sprint(wr) {
				wb = pr.body
			}
		}
		if !strings.HasPrefix(rec.Body.String(), wb) {
			c.Failf("body", "%s: body %q does not start with %q", desc, clip(rec.Body.String(), 50), wb)
		}
		if !panicked && rec.Body.String() != wb {
			c.Failf("body", "%s: body %q, expected %q", desc, clip(rec.Body.String(), 50), wb)
		}
		if panicked && mode == water.Stable && rec.Body.String() != wb {
			c.Failf("leak", "%s: in stable mode the body is %q, expected %q", desc, clip(rec.Body.String(), 50), wb)
		}
		// every other request is served as if nothing had happened
		for i := 0; i < 2; i++ {
			rec2, p := Serve(e, Req("GET", "/fine"))
			c.Step()
			if place == 3 || place == 2 {
				if p != nil || rec2.Status != 200 || rec2.Body.String() != "fine" {
					c.Failf("after", "%s: afterwards another request gets panic %v, %s", desc, p, rec2.Summary())
				}
			}
			if p != nil {
				c.Failf("after", "%s: afterwards another request panics: %v", desc, clip(fmt.Sprint(p), 200))
			}
		}
		c.State(desc)
		c.Outcome(fmt.Sprintf("panic=%v status=%d", panicked, rec.Status))
	}
}

// c13Seq: histories of panicking and normal requests on one engine.
func c13Seq(n int) Body {
	vals := []pval{c13Vals[0], c13Vals[4], c13Vals[7], c13Vals[13]}
	return func(c *C) {
		kinds := []string{"ok", "p0", "p1", "p2", "p3", "late", "none", "silent", "env"}
		rr := func() *water.Engine {
			r := water.NewRouter()
			r.Use(water.Recovery())
			r.GET("/ok/:id", func(ctx *water.Context) {
				ctx.Set("v", ctx.Param("id"))
				fmt.Fprintf(ctx, "%v %d %v", ctx.Get("v"), len(ctx.Environ), ctx.Params)
			})
			r.GET("/p/:k", func(ctx *water.Context) {
				ctx.Set("v", "panicking")
				vals[int(ctx.Param("k")[0]-'0')].do(ctx)
			})
			r.GET("/late/:k", func(ctx *water.Context) {
				ctx.Set("w", 1)
				ctx.Write([]byte("partial"))
				panic("late")
			})
			r.GET("/silent", func(ctx *water.Context) {})
			r.GET("/env", func(ctx *water.Context) { fmt.Fprint(ctx, len(ctx.Environ), ctx.Params, ctx.Written(), ctx.Status()) })
			return r.Handler()
		}
		e := rr()
		var hist []string
		for i := 0; i < n; i++ {
			k := PickS(c, kinds)
			hist = append(hist, k)
			p := map[string]string{"ok": "/ok/7", "p0": "/p/0", "p1": "/p/1", "p2": "/p/2", "p3": "/p/3", "late": "/late/9", "none": "/zz/zz", "silent": "/silent", "env": "/env"}[k]
			water.Status = water.Stable
			rec, v := Serve(e, Req("GET", p))
			fresh, v2 := Serve(rr(), Req("GET", p))
			water.Status = water.Dev
			c.Step()
			if v != nil || v2 != nil {
				c.Failf("escaped", "%v: panic escaped: %v %v", hist, v, v2)
				return
			}
			if rec.Summary() != fresh.Summary() {
				c.Failf("history", "%v: answered %s, a fresh engine answers %s", hist, rec.Summary(), fresh.Summary())
				return
			}
		}
		c.State(fmt.Sprint(hist))
	}
}

func init() {
	few := []pval{c13Vals[0], c13Vals[4], c13Vals[7], c13Vals[8]}
	register(&Prop{ID: "C13", Scopes: []Scope{
		{Name: "values", Desc: "every one of 23 panic values in a chain of 2 handlers, before or after Next, x what was sent before x 5 ways of mounting Recovery x Dev/Stable", Body: c13Body(2, c13Vals), Split: 3},
		{Name: "chains3", Desc: "chains of 3 handlers, every position and Next pattern, 4 panic values, x what was sent before and by whom x 5 mounts x modes", Body: c13Body(3, few), Split: 3},
		{Name: "histories", Desc: "every history of 4 requests of 9 kinds (panicking, partially written, silent, unmatched, normal) on one engine", Body: c13Seq(4), Split: 2},
		{Name: "chains3all", Desc: "chains of 3 with all panic values", Body: c13Body(3, c13Vals), Split: 3, Thorough: true},
		{Name: "chains4", Desc: "chains of 4", Body: c13Body(4, few), Split: 3, Thorough: true},
		{Name: "histories6", Desc: "every history of 6 requests", Body: c13Seq(6), Split: 3, Thorough: true},
	}})
}
