package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var c08Pats = []string{
	// acceptable
	"/", "/a", "/:id", "/<id>", "/<id:int>", "/< id >", "/<id ~ a>", "/<id ~ (a)>", "/<id ~ (?:a)>", "/*", "/*f", "/*_", "/a/b", "//a", "/a//b", "/a///b",
	"/:x/b", "/<x>/b", "/:x//b", "//:id", "/a/*/b", "/a/:y", "/a.b", "/a b", "/<p,q ~ (x)(y)>", "/<p,q ~ ((x)y)>", `/<p ~ \(x\)>`, "/<p ~ [(]>", "/<p ~ >", "/:id/*", "/<id>/*", "/A", "/_", "/:_", "/<_>", "/a:b", "/a*b", "/é",
	// malformed
	"", "a", "a/b", ":id", "*", "/a/", "//", "/:id/", "/*/", "/a//", "/a<b>", "/<b>c", "/<a", "/a>", "/>a<", "/<a ~ (>", "/<a ~ [>", "/<a ~ *>", "/<a ~ x{2,1}>", "/<a ~ (x)(y)>", "/<a,b ~ (x)>", "/<a,b ~ x>",
	"/<a,b ~ (x)(y)(z)>", "/<a,b ~ (?:x)(y)>", "/ a", "/a /b", "/a/ b/c", "/a/<b", "/<a>x/c", "/a/b>/c", "/a/<x ~ )>", "/<a ~ (?P<n>x)(y)>", "/x/<a,b,c ~ (1)(2)>/y",
}

var c08Paths = append(append([]string{"/"}, paths([]string{"a", "b", "xy", "x"}, 3)...), "//a", "/a//b", "/a.b", "/a b", "/(x)", "/(", "/A", "/_", "/a:b", "/a*b", "/é", "/a///b")

type c08Reg struct {
	method, pat string
}

// c08Table checks acceptance or refusal of a table and, if accepted, what answers.
// extra has a bit for every route that is given one more handler.
func c08Table(c *C, regs []c08Reg, static bool, groupCut, extra int) {
	m := newModel()
	why := ""
	for _, g := range regs {
		if _, w := m.add(g.method, g.pat); w != "" {
			why = w
			break
		}
	}
	t := &table{m: m}
	e, ref := Build(func() *water.Engine {
		r := water.NewRouter()
		for i, g := range regs {
			tgt, p := r, g.pat
			if groupCut > 0 && len(p) > groupCut && strings.TrimSpace(p[:groupCut]) == p[:groupCut] && strings.TrimSpace(p[groupCut:]) == p[groupCut:] {
				tgt, p = r.Group(p[:groupCut]), p[groupCut:]
				if extra&(4<<i) != 0 {
					tgt.Use(func(ctx *water.Context) {})
				}
			}
			if extra&(1<<i) != 0 {
				regMethod(tgt, g.method, p, func(ctx *water.Context) {}, t.handler(i))
				continue
			}
			regMethod(tgt, g.method, p, t.handler(i))
		}
		return r.Handler(water.WithStaticRouter(static))
	})
	c.Step()
	c.Logf("routes %q static %v: refused %v, expected: %s", regs, static, ref, why)
	if why != "" {
		c.Outcome("refused")
		if ref == nil {
			c.Failf("accepted", "routes %q are accepted (static %v), though: %s", regs, static, why)
		}
		return
	}
	c.Outcome("accepted")
	if ref != nil {
		c.Failf("refused", "routes %q are valid but refused: %v", regs, ref)
		return
	}
	t.e = e
	ps := c08Paths
	for _, g := range regs {
		ps = append(ps[:len(ps):len(ps)], spelled(g.pat)...)
	}
	for _, meth := range []string{"GET", "POST"} {
		for _, p := range ps {
			want, _ := m.match(meth, p)
			got := t.serve(meth, p)
			wid := -1
			if want != nil {
				wid = want.ID
			}
			if got.ID != wid {
				c.Failf("dropped", "routes %q accepted (static %v): %s %s answered by route %d, expected %d", regs, static, meth, p, got.ID, wid)
				return
			}
		}
	}
	c.Steps(2 * len(c08Paths))
}

func c08Pairs(c *C) {
	n := c.Range(1, 2)
	var regs []c08Reg
	for i := 0; i < n; i++ {
		regs = append(regs, c08Reg{Pick(c, "GET", "POST"), PickS(c, c08Pats)})
	}
	static := c.Bool()
	cut := 2 * c.Choose(2)
	extra := c.Choose(3)
	if cut > 0 && extra > 0 {
		extra *= 4 // a middleware on the group instead
	}
	c08Table(c, regs, static, cut, extra)
	c.State(fmt.Sprint(regs))
}

func c08Triples(c *C) {
	list := []string{"/", "/a", "//a", "/:id", "/<id>", "/<id:int>", "/*", "/*f", "/a//b", "/a/b", "/:x/b", "/<x>/b", "/a/", "/<a ~ (>", "/a/:y", "/<id ~ (a)>"}
	var regs []c08Reg
	for i := 0; i < 3; i++ {
		regs = append(regs, c08Reg{Pick(c, "GET", "ANY"), PickS(c, list)})
	}
	static := c.Bool()
	var flat []c08Reg
	for _, g := range regs {
		if g.method == "ANY" {
			for _, m := range []string{"GET", "POST"} {
				flat = append(flat, c08Reg{m, g.pat})
			}
			continue
		}
		flat = append(flat, g)
	}
	// the model registers the methods one by one, the real router through ANY
	m := newModel()
	why := ""
	for _, g := range flat {
		if _, w := m.add(g.method, g.pat); w != "" {
			why = w
			break
		}
	}
	t := &table{m: m}
	e, ref := Build(func() *water.Engine {
		r := water.NewRouter()
		for i, g := range regs {
			regMethod(r, g.method, g.pat, t.handler(i))
		}
		return r.Handler(water.WithStaticRouter(static))
	})
	c.Step()
	c.State(fmt.Sprint(regs))
	if (ref != nil) != (why != "") {
		c.Failf("triple", "routes %q static %v: refused: %v, expected refusal: %q", regs, static, ref, why)
		return
	}
	if ref != nil {
		return
	}
	t.e = e
	for _, p := range c08Paths[:25] {
		want, _ := m.match("POST", p)
		got := t.serve("POST", p)
		if (want != nil) != (got.ID >= 0) {
			c.Failf("triple-post", "routes %q: POST %s answered by %d, expected %s", regs, p, got.ID, showMatch(want, nil))
			return
		}
		if want != nil && regs[got.ID].pat != want.Pattern {
			c.Failf("triple-post", "routes %q: POST %s answered by %v, expected %s", regs, p, regs[got.ID], want.Pattern)
			return
		}
	}
}

type nopStruct struct{ a int }

// c08Handlers: bad handlers at every place where handlers are accepted.
func c08Handlers(c *C) {
	good := func(ctx *water.Context) { ctx.WriteHeader(200) }
	var nilFunc func()
	bads := []interface{}{nil, 1, "x", func() {}, func(int) {}, func(*water.Context) error { return nil }, nopStruct{}, &nopStruct{}, func(w http.ResponseWriter) {}, nilFunc, []int{}, func(water.Context) {}, water.H{}, true, (func(*water.Context))(nil), water.HandlerFunc(nil), (func(http.ResponseWriter, *http.Request))(nil), http.HandlerFunc(nil)}
	goods := []interface{}{good, water.HandlerFunc(good), hObj{good}, &hObj{good}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}), func(w http.ResponseWriter, r *http.Request) {}, http.NotFoundHandler(), water.WrapHandler(good), water.Logger(), water.Recovery(), http.NewServeMux()}
	bad := c.Bool()
	var h interface{}
	if bad {
		h = PickS(c, bads)
	} else {
		h = PickS(c, goods)
	}
	place := c.Choose(9)
	pos := c.Choose(3)
	mk := func() []interface{} {
		l := []interface{}{good, good}
		return append(append(append([]interface{}{}, l[:pos]...), h), l[pos:]...)
	}
	meth := Pick(c, "GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS", "ANY")
	if place > 1 && meth != "GET" {
		c.Prune()
	}
	_, ref := Build(func() *water.Engine {
		r := water.NewRouter()
		opts := []water.Option{}
		switch place {
		case 0:
			regMethod(r, meth, "/a", mk()...)
		case 1:
			regMethod(r.Group("/g"), meth, "/a", mk()...)
		case 2:
			r.Use(mk()...)
			r.GET("/a", good)
		case 3:
			g := r.Group("/g")
			g.Use(mk()...)
			g.GET("/a", good)
		case 4:
			r.Before(mk()...)
			r.GET("/a", good)
		case 5:
			opts = append(opts, water.WithNoFoundHandlers(mk()...))
		case 6:
			r.Before(mk()...)
			opts = append(opts, water.WithNoFoundHandlers(good))
		case 7:
			water.WrapHandler(h)
		case 8:
			if bad {
				r.Group("/g", h).GET("/a", good)
			} else {
				r.Group("/g", good, func(*water.Router) {}, good)
			}
		}
		return r.Handler(opts...)
	})
	c.Step()
	c.State(fmt.Sprintf("%T %v %d %d %s", h, bad, place, pos, meth))
	c.Logf("handler of type %T in place %d position %d (%s): refused %v", h, place, pos, meth, ref)
	if bad != (ref != nil) {
		c.Failf("handler", "handler of type %T in place %d position %d (%s): refused: %v, expected refusal: %v", h, place, pos, meth, ref, bad)
	}
}

// c08Misc: routes without handlers, empty routers and groups, root-only operations on groups.
func c08Misc(c *C) {
	good := func(ctx *water.Context) { ctx.WriteHeader(200) }
	type tc struct {
		name   string
		refuse bool
		f      func() *water.Engine
	}
	dir := scratch()
	cases := []tc{
		{"empty router", false, func() *water.Engine { return water.NewRouter().Handler() }},
		{"empty router with Use", false, func() *water.Engine { r := water.NewRouter(); r.Use(good); return r.Handler() }},
		{"empty router with Before", false, func() *water.Engine { r := water.NewRouter(); r.Before(good); return r.Handler() }},
		{"default router without routes", false, func() *water.Engine { return water.Default().Handler() }},
		{"empty group", false, func() *water.Engine { r := water.NewRouter(); r.Group("/g"); r.GET("/a", good); return r.Handler() }},
		{"only an empty group", false, func() *water.Engine { r := water.NewRouter(); r.Group("/g"); return r.Handler() }},
		{"empty group with Use", false, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/g").Use(good)
			r.GET("/a", good)
			return r.Handler()
		}},
		{"empty group with inline middleware", false, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/g", good)
			r.GET("/a", good)
			return r.Handler()
		}},
		{"empty group with a malformed prefix", false, func() *water.Engine { r := water.NewRouter(); r.Group("g"); r.GET("/a", good); return r.Handler() }},
		{"nested empty groups", false, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/g").Group("/h").Group("/i")
			r.GET("/a", good)
			return r.Handler()
		}},
		{"route with middleware only", false, func() *water.Engine { r := water.NewRouter(); r.Use(good); r.GET("/a"); return r.Handler() }},
		{"route in a group with group middleware only", false, func() *water.Engine { r := water.NewRouter(); r.Group("/g", good).GET("/a"); return r.Handler() }},
		{"route without handlers", true, func() *water.Engine { r := water.NewRouter(); r.GET("/a"); return r.Handler() }},
		{"route without handlers in a group", true, func() *water.Engine { r := water.NewRouter(); r.Group("/g").GET("/a"); return r.Handler() }},
		{"ANY without handlers", true, func() *water.Engine { r := water.NewRouter(); r.ANY("/a"); return r.Handler() }},
		{"route without handlers beside a group with middleware", true, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/g", good).GET("/a", good)
			r.GET("/b")
			return r.Handler()
		}},
		{"Before on a group", true, func() *water.Engine {
			r := water.NewRouter()
			r.GET("/a", good)
			r.Group("/g").Before(good)
			return r.Handler()
		}},
		{"Handler on a group", true, func() *water.Engine { g := water.NewRouter().Group("/g"); g.GET("/a", good); return g.Handler() }},
		{"Handler on an empty group", true, func() *water.Engine { return water.NewRouter().Group("/g").Handler() }},
		{"Handler on a subgroup", true, func() *water.Engine { return water.NewRouter().Group("/g").Group("").Handler() }},
		{"Classic on a group", true, func() *water.Engine { r := water.NewRouter(); r.Group("/g").Classic(); return r.Handler() }},
		{"StaticAdvance on a group", true, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/g").StaticAdvance(&water.StaticOptions{Prefix: "/f", FileSystem: http.Dir(dir)})
			return r.Handler()
		}},
		{"Static on a group", true, func() *water.Engine { r := water.NewRouter(); r.Group("/g").Static("/f", dir); return r.Handler() }},
		{"StaticFile on a group", true, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/g").StaticFile("/f", dir+"/x")
			return r.Handler()
		}},
		{"Static without file system", true, func() *water.Engine {
			r := water.NewRouter()
			r.StaticAdvance(&water.StaticOptions{Prefix: "/f"})
			return r.Handler()
		}},
		{"Static and StaticFile on the root", false, func() *water.Engine {
			r := water.NewRouter()
			r.Static("/f", dir)
			r.StaticFile("/g", dir+"/x")
			return r.Handler()
		}},
		{"Static twice under one prefix", true, func() *water.Engine {
			r := water.NewRouter()
			r.Static("/f", dir)
			r.Static("/f/", dir)
			return r.Handler()
		}},
		{"no not-found handlers given", true, func() *water.Engine { return water.NewRouter().Handler(water.WithNoFoundHandlers()) }},
		{"same pattern, different methods", false, func() *water.Engine {
			r := water.NewRouter()
			for _, m := range stdMethods {
				regMethod(r, m, "/:a", good)
			}
			return r.Handler()
		}},
		{"ANY and GET of one pattern", true, func() *water.Engine { r := water.NewRouter(); r.ANY("/a", good); r.GET("/a", good); return r.Handler() }},
		{"ANY and HEAD of one pattern", false, func() *water.Engine {
			r := water.NewRouter()
			r.ANY("/a", good)
			r.HEAD("/a", good)
			return r.Handler()
		}},
		{"the same pattern through two groups", true, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/a").GET("/b", good)
			r.Group("/a/b").GET("", good)
			return r.Handler()
		}},
		{"the same pattern through a group with a trailing slash", true, func() *water.Engine {
			r := water.NewRouter()
			r.Group("/a/").GET("/b", good)
			r.GET("/a/b", good)
			return r.Handler()
		}},
		{"group prefix as a route", false, func() *water.Engine {
			r := water.NewRouter()
			g := r.Group("/a")
			g.GET("", good)
			g.GET("/b", good)
			return r.Handler()
		}},
	}
	k := PickS(c, cases)
	_, ref := Build(k.f)
	c.Step()
	c.State(k.name)
	c.Logf("%s: refused %v", k.name, ref)
	if k.refuse != (ref != nil) {
		c.Failf("misc", "%s: refused: %v, expected refusal: %v", k.name, ref, k.refuse)
	}
}

// c08Wide: many routes that differ only late, all of them accepted and reachable, and one
// duplicate anywhere refused.
func c08Wide(c *C) {
	n := Pick(c, 1, 2, 3, 5, 9, 17, 40)
	dup := c.Choose(n + 1)
	of := c.Choose(n)
	kind := c.Choose(4)
	mk := func(i int) string {
		switch kind {
		case 0:
			return fmt.Sprintf("/a/b/c%d", i)
		case 1:
			return fmt.Sprintf("/a%d/:x", i)
		case 2:
			return fmt.Sprintf("/<v%d ~ ^v%d$>/x", i, i)
		}
		return "/" + strings.Repeat("s/", i) + "e"
	}
	alias := func(i int) string {
		p := mk(i)
		switch kind {
		case 1:
			return strings.Replace(p, ":x", "<x>", 1)
		case 2:
			return "/" + p
		}
		return strings.Replace(p, "/", "//", -1)
	}
	t := &table{m: newModel()}
	e, ref := Build(func() *water.Engine {
		r := water.NewRouter()
		for i := 0; i < n; i++ {
			if i == dup {
				r.GET(alias(of), t.handler(1000))
			}
			r.GET(mk(i), t.handler(i))
		}
		return r.Handler()
	})
	c.Step()
	c.State(fmt.Sprint(n, dup, of, kind))
	if dup < n {
		if ref == nil {
			c.Failf("wide-dup", "%d routes like %q and a second spelling %q of one of them are accepted", n, mk(0), alias(of))
		}
		return
	}
	if ref != nil {
		c.Failf("wide", "%d routes like %q refused: %v", n, mk(0), ref)
		return
	}
	t.e = e
	for i := 0; i < n; i++ {
		p := mk(i)
		if kind == 2 {
			p = fmt.Sprintf("/v%d/x", i)
		}
		if h := t.serve("GET", p); h.ID != i {
			c.Failf("wide-route", "%d routes like %q: GET %s answered by %d, expected %d", n, mk(0), p, h.ID, i)
			return
		}
	}
}

func init() {
	register(&Prop{ID: "C08", Scopes: []Scope{
		{Name: "pairs", Desc: fmt.Sprintf("every table of 1 or 2 routes over %d patterns (valid and malformed) x 2 methods, static lookup on/off, cut into a group or not, with equal or different numbers of handlers and group middlewares; accepted tables answer %d requests", len(c08Pats), 2*len(c08Paths)), Body: c08Pairs, Split: 3},
		{Name: "triples", Desc: "every triple of GET or ANY routes over 16 patterns, static lookup on/off", Body: c08Triples, Split: 4},
		{Name: "handlers", Desc: "14 bad and 11 good handler values at every place and position handlers are given", Body: c08Handlers, Split: 2},
		{Name: "misc", Desc: "34 constructions: empty routers and groups, routes without handlers, root-only operations on groups, collisions through groups", Body: c08Misc, Split: 1},
		{Name: "wide", Desc: "up to 40 routes of 4 shapes, a duplicate in another spelling inserted at every position, of every route", Body: c08Wide, Split: 3},
	}})
}
