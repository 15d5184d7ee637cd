package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// w33 is a world of routers under construction, engines built from them and what each engine must answer for good.
type w33 struct {
	c       *C
	routers []*r33
	opts    []water.Option // shared option values
	engines []*e33
	ran     []string
	n       int
	ops     []string
	probes  []string
	methods []string
}

type g33 struct {
	real   *water.Router
	path   string
	mws    []string
	parent *g33
}

type r33 struct {
	name   string
	root   *g33
	groups []*g33
	before []string
	routes []rt33
	used   map[string]bool
}

type rt33 struct {
	g       *g33
	method  string
	pattern string
	own     []string
}

type e33 struct {
	name  string
	e     *water.Engine
	want  map[string]string // probe -> answer, from the model
	nf    []string
	twin  int
	raw   map[string]string // probe -> answer when it was built
	limit int64
}

func (w *w33) mw() (string, func(*water.Context)) {
	tag := fmt.Sprintf("m%d", w.n)
	w.n++
	return tag, func(ctx *water.Context) {
		w.ran = append(w.ran, tag)
		ctx.Next()
		w.ran = append(w.ran, "-"+tag)
	}
}

func (w *w33) handler(tag string) func(*water.Context) {
	return func(ctx *water.Context) {
		ps := map[string]string{}
		for k, v := range ctx.Params {
			ps[k] = fmt.Sprint(v)
		}
		w.ran = append(w.ran, tag+"{"+mapStr(ps)+"}")
		ctx.WriteHeader(200)
	}
}

var pats33 = []string{"/a", "/<x>", "/<y ~ [0-9]+>", "/a/b", "/<x>/c", "/*rest", "/"}

func (w *w33) addRoute(r *r33, g *g33, pat, method string) bool {
	key := method + g.path + pat
	if pat == "/" && g.path != "" || r.used[key] {
		return false
	}
	r.used[key] = true
	tag := fmt.Sprintf("h%d", w.n)
	w.n++
	own := []string{tag}
	hs := []interface{}{w.handler(tag)}
	if w.n%2 == 0 {
		t, f := w.mw()
		own = []string{t, tag}
		hs = []interface{}{f, hs[0]}
	}
	r.routes = append(r.routes, rt33{g, method, g.path + pat, own})
	regMethod(g.real, method, pat, hs...)
	return true
}

func (g *g33) chain() []string {
	if g == nil {
		return nil
	}
	return append(append([]string{}, g.parent.chain()...), g.mws...)
}

// onion is what a chain of middlewares around a handler leaves.
func onion33(mws []string, h string) string {
	var o []string
	o = append(o, mws...)
	if h != "" {
		o = append(o, h)
	}
	for i := len(mws) - 1; i >= 0; i-- {
		o = append(o, "-"+mws[i])
	}
	return strings.Join(o, " ")
}

func (w *w33) expect(r *r33, e *e33) {
	e.want = map[string]string{}
	m := newModel()
	ids := map[int]rt33{}
	for _, rt := range r.routes {
		mr, refused := m.add(rt.method, rt.pattern)
		if refused != "" {
			w.c.Failf("model", "the model refuses %s: %s", rt.pattern, refused)
			return
		}
		ids[mr.ID] = rt
	}
	for _, meth := range w.methods {
		for _, p := range w.probes {
			mr, ps := m.match(meth, p)
			if mr == nil {
				if e.nf == nil {
					e.want[meth+p] = "404 "
				} else {
					e.want[meth+p] = "200 " + onion33(append(append([]string{}, r.before...), e.nf[:len(e.nf)-1]...), e.nf[len(e.nf)-1]+"{}")
				}
				continue
			}
			rt := ids[mr.ID]
			mws := append(append(append([]string{}, r.before...), rt.g.chain()...), rt.own[:len(rt.own)-1]...)
			e.want[meth+p] = "200 " + onion33(mws, rt.own[len(rt.own)-1]+"{"+mapStr(ps)+"}")
		}
	}
}

func (w *w33) ask(e *e33, meth, p string) string {
	w.ran = nil
	rec, pan := Serve(e.e, Req(meth, p))
	w.c.Step()
	if pan != nil {
		return fmt.Sprint("panic ", pan)
	}
	return fmt.Sprintf("%d %s", rec.Status, strings.Join(w.ran, " "))
}

func (w *w33) check(when string) {
	for _, e := range w.engines {
		for _, meth := range w.methods {
			for _, p := range w.probes {
				got := w.ask(e, meth, p)
				if got != e.want[meth+p] {
					w.c.Failf("changed", "%s, after %q: %s answers %s %s with %q, expected %q", when, w.ops, e.name, meth, p, got, e.want[meth+p])
					return
				}
			}
		}
	}
}

func (w *w33) build(r *r33, opt int) {
	e := &e33{name: fmt.Sprintf("engine %d (of %s, options %d)", len(w.engines), r.name, opt)}
	var opts []water.Option
	if opt&1 != 0 {
		opts = append(opts, water.WithStaticRouter(true))
	}
	if opt&2 != 0 {
		opts = append(opts, w.opts[0])
		e.nf = []string{"nfm", "nf"}
	}
	if opt&8 != 0 {
		opts = append(opts, w.opts[1])
		e.nf = []string{"nf1"}
	}
	if opt&4 != 0 {
		opts = append(opts, water.WithMaxMultipartMemory(1))
	}
	ee, refused := Build(func() *water.Engine { return r.root.real.Handler(opts...) })
	if refused != nil {
		w.c.Failf("refused", "after %q: building from %s is refused: %v", w.ops, r.name, refused)
		return
	}
	e.e = ee
	w.expect(r, e)
	w.engines = append(w.engines, e)
}

func newW33(c *C, routers int) *w33 {
	w := &w33{c: c, methods: []string{"GET", "POST"}}
	for i := 0; i < routers; i++ {
		r := &r33{name: fmt.Sprintf("router %d", i), used: map[string]bool{}}
		r.root = &g33{real: water.NewRouter()}
		r.groups = []*g33{r.root}
		w.routers = append(w.routers, r)
	}
	// handlers passed as a slice with room to spare
	hs := make([]interface{}, 2, 8)
	hs[0] = func(ctx *water.Context) { w.ran = append(w.ran, "nfm"); ctx.Next(); w.ran = append(w.ran, "-nfm") }
	hs[1] = w.handler("nf")
	one := make([]interface{}, 1, 4)
	one[0] = w.handler("nf1")
	w.opts = []water.Option{water.WithNoFoundHandlers(hs...), water.WithNoFoundHandlers(one...)}
	w.probes = []string{"/", "/a", "/q", "/7", "/a/b", "/q/c", "/7/c", "/a/b/c", "/g/a", "/g/7", "/g/q/c", "/g"}
	return w
}

// the option sets, as bits: 1 static lookup, 2 two shared not-found handlers, 8 one shared not-found handler, 4 multipart memory
var opts33 = []int{0, 8, 2, 1, 7, 9, 10, 4, 3}

const (
	op33Route = iota
	op33Use
	op33Before
	op33Group
	op33Build
	op33N
)

func c33Body(n, routers, npats, nopts int) Body {
	return func(c *C) {
		w := newW33(c, routers)
		built := false
		for i := 0; i < n; i++ {
			r := w.routers[c.Choose(routers)]
			k := c.Choose(op33N)
			if i == n-1 && !built {
				k = op33Build
			}
			switch k {
			case op33Route:
				g := r.groups[c.Choose(len(r.groups))]
				pat := pats33[c.Choose(npats)]
				meth := "GET"
				if npats > 4 {
					meth = Pick(c, "GET", "POST")
				}
				if !w.addRoute(r, g, pat, meth) {
					return
				}
				w.ops = append(w.ops, fmt.Sprintf("%s: %s %s%s", r.name, meth, g.path, pat))
			case op33Use:
				g := r.groups[c.Choose(len(r.groups))]
				t, f := w.mw()
				g.mws = append(g.mws, t)
				g.real.Use(f)
				w.ops = append(w.ops, r.name+g.path+": Use "+t)
			case op33Before:
				t, f := w.mw()
				r.before = append(r.before, t)
				r.root.real.Before(f)
				w.ops = append(w.ops, r.name+": Before "+t)
			case op33Group:
				if len(r.groups) > 1 {
					return
				}
				g := &g33{path: "/g", parent: r.root, real: r.root.real.Group("/g")}
				r.groups = append(r.groups, g)
				w.ops = append(w.ops, r.name+": Group")
			case op33Build:
				o := opts33[c.Choose(nopts)]
				w.ops = append(w.ops, fmt.Sprintf("%s: build %d", r.name, o))
				w.build(r, o)
				built = true
			}
			if c.Failed() {
				return
			}
			if k == op33Build || i == n-1 || n < 4 {
				w.check("step")
			}
		}
		c.State(fmt.Sprint(w.ops))
		c.Outcome(fmt.Sprint(len(w.engines)))
	}
}

// c33Grow: building again after every addition; middlewares added one by one so that lists of every capacity are shared.
func c33Grow(c *C) {
	w := newW33(c, 1)
	r := w.routers[0]
	w.methods = []string{"GET"}
	pre := c.Choose(6)
	for i := 0; i < pre; i++ {
		t, f := w.mw()
		r.root.mws = append(r.root.mws, t)
		r.root.real.Use(f)
	}
	preB := c.Choose(4)
	for i := 0; i < preB; i++ {
		t, f := w.mw()
		r.before = append(r.before, t)
		r.root.real.Before(f)
	}
	w.addRoute(r, r.root, "/a", "GET")
	g := &g33{path: "/g", parent: r.root, real: r.root.real.Group("/g")}
	r.groups = append(r.groups, g)
	w.addRoute(r, g, "/a", "GET")
	w.ops = append(w.ops, fmt.Sprintf("%d Use, %d Before, 2 routes", pre, preB))
	opt := opts33[c.Choose(5)]
	for i := 0; i < 4; i++ {
		w.build(r, opt)
		w.build(r, opt)
		switch k := c.Choose(4); k {
		case 0, 1:
			gg := r.groups[k]
			t, f := w.mw()
			gg.mws = append(gg.mws, t)
			gg.real.Use(f)
			w.ops = append(w.ops, "Use"+gg.path)
		case 2:
			t, f := w.mw()
			r.before = append(r.before, t)
			r.root.real.Before(f)
			w.ops = append(w.ops, "Before")
		case 3:
			w.addRoute(r, r.root, pats33[1+i%5], "GET")
			w.ops = append(w.ops, "route")
		}
		w.check("growing")
		if c.Failed() {
			return
		}
	}
	c.State(fmt.Sprint(pre, preB, opt, w.ops))
}

// c33Any: ANY under changing exclusions; a router has what was excluded when ANY was called on it, and nothing else changes.
func c33Any(n int) Body {
	sets := [][]string{{"HEAD", "OPTIONS"}, {}, {"GET"}, {"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD"}, {"OPTIONS", "PATCH"}}
	return func(c *C) {
		old := water.MethodAnyExclude
		defer func() { water.MethodAnyExclude = old }()
		cur := map[string]bool{"HEAD": true, "OPTIONS": true}
		type rr struct {
			r    *water.Router
			g    *water.Router
			has  map[string]map[string]bool
			used map[string]bool
		}
		var rs []*rr
		for i := 0; i < 2; i++ {
			r := &rr{r: water.NewRouter(), has: map[string]map[string]bool{}, used: map[string]bool{}}
			r.g = r.r.Group("/g")
			rs = append(rs, r)
		}
		type ee struct {
			e   *water.Engine
			has map[string]map[string]bool
		}
		var es []ee
		ok := func(ctx *water.Context) { ctx.WriteHeader(200) }
		ops := ""
		build := func(i int) bool {
			e, refused := Build(func() *water.Engine { return rs[i].r.Handler() })
			if refused != nil {
				c.Failf("refused", "%s: building is refused: %v", ops, refused)
				return false
			}
			h := map[string]map[string]bool{}
			for p, ms := range rs[i].has {
				h[p] = map[string]bool{}
				for m := range ms {
					h[p][m] = true
				}
			}
			es = append(es, ee{e, h})
			return true
		}
		for i := 0; i < n; i++ {
			switch k := c.Choose(len(sets) + 6); {
			case k < len(sets):
				water.MethodAnyExclude = append([]string{}, sets[k]...)
				cur = map[string]bool{}
				for _, m := range sets[k] {
					cur[m] = true
				}
				ops += fmt.Sprintf("; exclude %v", sets[k])
			case k < len(sets)+4:
				j, inG := (k-len(sets))%2, k >= len(sets)+2
				r, p, path := rs[j].r, "/a", "/a"
				if inG {
					r, p, path = rs[j].g, "/<x>", "/g/v"
				}
				if rs[j].used[path] {
					return
				}
				rs[j].used[path] = true
				r.ANY(p, ok)
				rs[j].has[path] = map[string]bool{}
				for _, m := range stdMethods {
					if !cur[m] {
						rs[j].has[path][m] = true
					}
				}
				ops += fmt.Sprintf("; router %d: ANY %s", j, path)
			default:
				ops += fmt.Sprintf("; build router %d", k-len(sets)-4)
				if !build(k - len(sets) - 4) {
					return
				}
			}
		}
		if !build(0) || !build(1) {
			return
		}
		for i, e := range es {
			for _, p := range []string{"/a", "/g/v"} {
				for _, m := range stdMethods {
					rec, pan := Serve(e.e, Req(m, p))
					c.Step()
					want := 404
					if e.has[p][m] {
						want = 200
					}
					if pan != nil || rec.Status != want {
						c.Failf("any", "%s: engine %d answers %s %s with %d (panic %v), expected %d", ops, i, m, p, rec.Status, pan, want)
						return
					}
				}
			}
		}
		c.State(ops)
	}
}

// c33Kinds: a busy engine answers as before whatever is built and served beside it.
func c33Kinds(nreq int) Body {
	kinds := c14Kinds
	return func(c *C) {
		cfg := func() (bool, bool) { return c.Bool(), c.Bool() }
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		s1, n1 := cfg()
		k := c.Choose(len(kinds))
		e1 := c14Engine(s1, n1)
		want := outcomeOf(e1, kinds[k].req("t"))
		c.Step()
		desc := fmt.Sprintf("engine (static lookup %v, no-found %v), request %s", s1, n1, kinds[k].name)
		for i := 0; i < nreq; i++ {
			s2, n2 := cfg()
			e2 := c14Engine(s2, n2)
			j := c.Choose(len(kinds))
			w2 := outcomeOf(e2, kinds[j].req("t"))
			got := outcomeOf(e1, kinds[k].req("t"))
			c.Steps(2)
			if got != want {
				c.Failf("beside", "%s: answered %s, but after another engine (static lookup %v, no-found %v) served %s: %s", desc, clip(want, 300), s2, n2, kinds[j].name, clip(got, 300))
				return
			}
			if s1 == s2 && n1 == n2 && j == k && w2 != want {
				c.Failf("twin", "%s: an engine built alike answers %s, expected %s", desc, clip(w2, 300), clip(want, 300))
				return
			}
		}
		c.State(desc)
	}
}

// c33Mounted: an engine mounted in another answers as by itself.
func c33Mounted(c *C) {
	kinds := c14Kinds
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	k := kinds[c.Choose(len(kinds))]
	s, nf := c.Bool(), c.Bool()
	how := c.Choose(4)
	inner := c14Engine(s, nf)
	want := outcomeOf(inner, k.req("t"))
	r := water.NewRouter()
	var h interface{}
	switch how {
	case 0:
		h = inner
	case 1:
		h = http.Handler(inner)
	case 2:
		h = func(ctx *water.Context) { inner.ServeHTTP(ctx.ResponseWriter, ctx.Request) }
	case 3:
		h = func(w http.ResponseWriter, req *http.Request) { inner.ServeHTTP(w, req) }
	}
	for _, m := range c26Methods {
		regMethod(r, m, "/", h)
		regMethod(r, m, "/*", h)
	}
	got := outcomeOf(r.Handler(), k.req("t"))
	again := outcomeOf(inner, k.req("t"))
	c.Steps(3)
	if got != want || again != want {
		c.Failf("mounted", "request %s, mounted engine (static lookup %v, no-found %v, way %d) answers %s, alone %s, later %s", k.name, s, nf, how, clip(got, 300), clip(want, 300), clip(again, 300))
	}
	c.State(fmt.Sprint(k.name, s, nf, how))
}

func init() {
	register(&Prop{ID: "C33", Scopes: []Scope{
		{Name: "grow", Desc: "0-5 Use and 0-3 Before, then 4 times two equal engines built and one addition (Use on root or group, Before, route), every engine asked again after each", Body: c33Grow, Split: 4},
		{Name: "any", Desc: "every sequence of 4 of {exclude one of 5 method sets from ANY, ANY on root or group of 2 routers, build either}, then both built; every engine asked 2 paths by 7 methods", Body: c33Any(4), Split: 3},
		{Name: "any-6", Desc: "the same with 6 operations", Body: c33Any(6), Split: 3, Thorough: true},
		{Name: "mounted", Desc: "every kind of request to an engine mounted in another in 4 ways", Body: c33Mounted, Split: 2},
		{Name: "beside", Desc: "every kind of request to an engine, another engine built and serving every kind of request, the first asked again; all option pairs", Body: c33Kinds(1), Split: 3},
		{Name: "one-router", Desc: "every sequence of 5 of {add one of 4 routes to root or group, Use on root or group, Before, group, build with one of 4 option sets}; all engines asked 12 paths by 2 methods after each build and at the end", Body: c33Body(5, 1, 4, 4), Split: 4},
		{Name: "two-routers", Desc: "every sequence of 3 operations on 2 routers, 8 option sets, 7 patterns by GET or POST", Body: c33Body(3, 2, 7, 8), Split: 4},
		{Name: "one-router-6", Desc: "every sequence of 6 operations on one router", Body: c33Body(6, 1, 3, 4), Split: 4, Thorough: true},
		{Name: "two-routers-4", Desc: "every sequence of 4 operations on 2 routers, 2 patterns, 4 option sets", Body: c33Body(4, 2, 2, 4), Split: 4},
		{Name: "two-routers-5", Desc: "every sequence of 5 operations on 2 routers, 4 patterns", Body: c33Body(5, 2, 4, 4), Split: 4, Thorough: true},
		{Name: "beside-2", Desc: "two other engines in turn", Body: c33Kinds(2), Split: 4, Thorough: true},
	}})
}
