package props

import (
	"fmt"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

type mGroup struct {
	parent *mGroup
	path   string // as requested
	pat    string // as registered
	mws    []string
	real   *water.Router
	nsub   int
}

func (g *mGroup) chain() []string {
	if g == nil {
		return nil
	}
	return append(append([]string{}, g.parent.chain()...), g.mws...)
}

type mRt struct {
	g    *mGroup
	path string
	meth string
	own  []string
}

// c07World is a router under construction together with its model.
type c07World struct {
	c      *C
	onion  bool
	groups []*mGroup
	before []string
	routes []mRt
	ran    []string
	n      int
	naming int // group patterns: all different, all the same, all empty, all different with routes at the group itself, holders
	ops    []string
}

func (w *c07World) groupPath() string {
	switch w.naming {
	case 1:
		return "/g"
	case 2:
		return ""
	case 4:
		return fmt.Sprintf("/:g%d", len(w.groups))
	}
	return fmt.Sprintf("/g%d", len(w.groups))
}

func (w *c07World) mw() (string, func(*water.Context)) {
	tag := fmt.Sprintf("m%d", w.n)
	w.n++
	return tag, func(ctx *water.Context) {
		w.ran = append(w.ran, tag)
		if w.onion {
			ctx.Next()
			w.ran = append(w.ran, "-"+tag)
		}
	}
}

func (w *c07World) newGroup(g *mGroup, inline ...interface{}) *mGroup {
	p := w.groupPath()
	ng := &mGroup{parent: g, path: g.path + strings.Replace(p, ":", "v", 1), pat: p}
	w.groups = append(w.groups, ng)
	ng.real = g.real.Group(p, inline...)
	return ng
}

func (w *c07World) route(g *mGroup, hs int) {
	p := fmt.Sprintf("/r%d", len(w.routes))
	tag := "h" + p
	rt := mRt{g: g, path: g.path + p, meth: "GET"}
	if w.naming >= 3 {
		rt.meth = stdMethods[len(w.routes)%len(stdMethods)]
	}
	if w.naming == 3 && g.pat != "" { // the group's own path, once for each method
		p, rt.path = "", g.path
		for _, o := range w.routes {
			if o.path == rt.path && o.meth == rt.meth {
				p = fmt.Sprintf("/r%d", len(w.routes))
				rt.path = g.path + p
			}
		}
	}
	var l []interface{}
	for i := 0; i < hs-1; i++ {
		t, f := w.mw()
		rt.own = append(rt.own, t)
		l = append(l, f)
	}
	rt.own = append(rt.own, tag)
	l = append(l, func(ctx *water.Context) { w.ran = append(w.ran, tag); ctx.WriteHeader(200) })
	w.routes = append(w.routes, rt)
	switch rt.meth {
	case "GET":
		g.real.GET(p, l...)
	case "POST":
		g.real.POST(p, l...)
	case "PUT":
		g.real.PUT(p, l...)
	case "PATCH":
		g.real.PATCH(p, l...)
	case "DELETE":
		g.real.DELETE(p, l...)
	case "HEAD":
		g.real.HEAD(p, l...)
	case "OPTIONS":
		g.real.OPTIONS(p, l...)
	}
}

// op applies one operation to group g.
func (w *c07World) op(k int, g *mGroup) {
	desc := func(f string, a ...interface{}) {
		w.ops = append(w.ops, fmt.Sprintf(f, a...)+" on "+"root"+g.path)
	}
	switch k {
	case 0:
		desc("GET")
		w.route(g, 1)
	case 1:
		desc("Use")
		t, f := w.mw()
		g.mws = append(g.mws, t)
		g.real.Use(f)
	case 2:
		desc("Group")
		w.newGroup(g)
	case 3:
		desc("Group with a middleware")
		t, f := w.mw()
		w.newGroup(g, f).mws = []string{t}
	case 4:
		desc("Before")
		t, f := w.mw()
		w.before = append(w.before, t)
		w.groups[0].real.Before(f)
	case 5:
		desc("Group with middleware, callback (route, Use), middleware")
		t1, f1 := w.mw()
		t2, f2 := w.mw()
		t3, f3 := w.mw()
		p := w.groupPath()
		ng := &mGroup{parent: g, path: g.path + strings.Replace(p, ":", "v", 1), pat: p}
		w.groups = append(w.groups, ng)
		ng.mws = []string{t1, t2, t3}
		ng.real = g.real.Group(p, f1, func(r *water.Router) {
			ng.real = r
			w.route(ng, 1)
			r.Use(f2)
		}, f3)
	case 6:
		desc("Use of three")
		var l []interface{}
		for i := 0; i < 3; i++ {
			t, f := w.mw()
			g.mws = append(g.mws, t)
			l = append(l, f)
		}
		g.real.Use(l...)
	case 7:
		desc("GET with three handlers")
		w.route(g, 3)
	}
}

func (w *c07World) check(e *water.Engine, extra string) {
	c := w.c
	for _, rt := range w.routes {
		exp := append(append(append([]string{}, w.before...), rt.g.chain()...), rt.own...)
		if w.onion {
			for i := len(exp) - 2; i >= 0; i-- {
				exp = append(exp, "-"+exp[i])
			}
		}
		w.ran = nil
		rec, p := Serve(e, Req(rt.meth, rt.path))
		c.Step()
		c.Logf("%s%v: %s %s -> %v", extra, w.ops, rt.meth, rt.path, w.ran)
		if p != nil || rec.Status != 200 || strings.Join(w.ran, " ") != strings.Join(exp, " ") {
			c.Failf("chain", "%safter %q: %s %s (status %d) ran %v, expected %v", extra, w.ops, rt.meth, rt.path, rec.Status, w.ran, exp)
			return
		}
	}
	// nothing runs elsewhere
	for _, g := range w.groups {
		w.ran = nil
		Serve(e, Req("GET", g.path+"/none"))
		if len(w.ran) > 0 {
			c.Failf("outside", "%safter %q: unmatched GET %s ran %v", extra, w.ops, g.path+"/none", w.ran)
		}
	}
}

func c07Ops(n int, kinds []int) Body {
	return func(c *C) {
		w := &c07World{c: c}
		root := &mGroup{real: water.NewRouter()}
		w.groups = []*mGroup{root}
		w.onion = c.Bool()
		w.naming = c.Choose(5)
		for i := 0; i < n; i++ {
			k := PickS(c, kinds)
			g := root
			if k != 4 {
				g = w.groups[c.Choose(len(w.groups))]
			}
			w.op(k, g)
		}
		w.finish(c, root)
	}
}

func (w *c07World) finish(c *C, root *mGroup) {
	if len(w.routes) == 0 {
		w.op(0, w.groups[len(w.groups)-1])
	}
	if len(w.groups) > 1 {
		w.op(0, root)
	}
	e, ref := Build(func() *water.Engine { return root.real.Handler() })
	if ref != nil {
		c.Failf("refused", "after %q: refused: %v", w.ops, ref)
		return
	}
	w.check(e, "")
	e2, ref := Build(func() *water.Engine { return root.real.Handler(water.WithStaticRouter(true)) })
	if ref != nil {
		c.Failf("refused2", "after %q: second build refused: %v", w.ops, ref)
		return
	}
	w.check(e2, "second engine, ")
	w.check(e, "first engine again, ")
	c.State(fmt.Sprint(w.ops))
}

// c07Counts: every combination of how many middleware sit at each of three levels, and routes at each.
func c07Counts(c *C) {
	w := &c07World{c: c}
	root := &mGroup{real: water.NewRouter()}
	w.groups = []*mGroup{root}
	nb, n0, n1, n2 := c.Range(0, 3), c.Range(0, 4), c.Range(0, 4), c.Range(0, 3)
	oneCall := c.Bool()
	routesFirst := c.Bool()
	use := func(g *mGroup, n int) {
		if oneCall {
			var l []interface{}
			for i := 0; i < n; i++ {
				t, f := w.mw()
				g.mws = append(g.mws, t)
				l = append(l, f)
			}
			g.real.Use(l...)
			return
		}
		for i := 0; i < n; i++ {
			t, f := w.mw()
			g.mws = append(g.mws, t)
			g.real.Use(f)
		}
	}
	w.ops = append(w.ops, fmt.Sprintf("%d Before, %d/%d/%d Use on three levels, one call %v, routes first %v", nb, n0, n1, n2, oneCall, routesFirst))
	g1 := w.newGroup(root)
	g2 := w.newGroup(g1)
	g1b := w.newGroup(root)
	all := []*mGroup{root, g1, g2, g1b}
	routes := func() {
		for i, g := range all {
			w.route(g, 1+i%3)
			w.route(g, 2)
		}
	}
	if routesFirst {
		routes()
	}
	for i := 0; i < nb; i++ {
		t, f := w.mw()
		w.before = append(w.before, t)
		root.real.Before(f)
	}
	use(g2, n2)
	use(g1, n1)
	use(root, n0)
	if !routesFirst {
		routes()
	}
	e, ref := Build(func() *water.Engine { return root.real.Handler() })
	if ref != nil {
		c.Failf("refused", "%q: refused: %v", w.ops, ref)
		return
	}
	w.check(e, "")
	w.check(e, "again, ")
	c.State(fmt.Sprint(w.ops))
}

// c07Classic: the stock constructors put logger and recovery in front of the root's middleware.
func c07Classic(c *C) {
	var r *water.Router
	how := c.Choose(3)
	before, use, group := c.Bool(), c.Bool(), c.Bool()
	w := &c07World{c: c}
	switch how {
	case 0:
		r = water.Default()
	case 1:
		r = water.NewRouter()
		r.Classic()
	case 2:
		r = water.NewRouter()
		r.Use(water.Logger(), water.Recovery())
	}
	root := &mGroup{real: r}
	w.groups = []*mGroup{root}
	w.ops = append(w.ops, fmt.Sprintf("stock router %d", how))
	if before {
		w.op(4, root)
	}
	if use {
		w.op(1, root)
	}
	g := root
	if group {
		w.op(3, root)
		g = w.groups[1]
	}
	w.op(7, g)
	w.op(0, root)
	// a panicking route proves that recovery is there
	r.GET("/panic", func(ctx *water.Context) { panic("x") })
	e := r.Handler()
	w.check(e, "")
	rec, p := Serve(e, Req("GET", "/panic"))
	if p != nil || rec.Status != 500 {
		c.Failf("recovery", "stock router %d: panicking route: status %d, escaped %v", how, rec.Status, p)
	}
	c.State(fmt.Sprint(w.ops))
}

func init() {
	register(&Prop{ID: "C07", Scopes: []Scope{
		{Name: "ops5", Desc: "every sequence of 5 operations of {GET, Use, Group, Group with middleware, Before} on any group created so far, with and without Next; group patterns all different, the same, empty, parameters, and with routes of all methods at the group's own path; all routes of two engines built from the router", Body: c07Ops(5, []int{0, 1, 2, 3, 4}), Split: 4},
		{Name: "ops4", Desc: "every sequence of 4 operations of the 8 (also callbacks inside Group, several middleware in a call, several handlers)", Body: c07Ops(4, []int{0, 1, 2, 3, 4, 5, 6, 7}), Split: 4},
		{Name: "counts", Desc: "0-3 Before, 0-4 root, 0-4 group, 0-3 subgroup middleware, in one or several calls, before or after the routes; two routes on each of four levels", Body: c07Counts, Split: 4},
		{Name: "classic", Desc: "Default, Classic and explicit logger and recovery with Before, Use and groups", Body: c07Classic, Split: 2},
		{Name: "ops6", Desc: "every sequence of 6 operations of {GET, Use, Group, Group with middleware, Before}", Body: c07Ops(6, []int{0, 1, 2, 3, 4}), Split: 5, Thorough: true},
		{Name: "ops5-all", Desc: "every sequence of 5 operations of the 8", Body: c07Ops(5, []int{0, 1, 2, 3, 4, 5, 6, 7}), Split: 5, Thorough: true},
	}})
}
