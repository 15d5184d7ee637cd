package props

import (
	"fmt"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// the handlers whose names are reported
func c09Last0(ctx *water.Context) { c09Seen(ctx); ctx.WriteHeader(200) }
func c09Last1(ctx *water.Context) { c09Seen(ctx); ctx.WriteHeader(200) }
func c09Last2(ctx *water.Context) { c09Seen(ctx); ctx.WriteHeader(200) }
func c09Mid(ctx *water.Context)   { c09Seen(ctx) }
func c09NF(ctx *water.Context)    { c09Seen(ctx); ctx.WriteHeader(404) }

type c09Methods struct{}

func (c09Methods) Last(ctx *water.Context) { c09Seen(ctx); ctx.WriteHeader(200) }

var c09Log []string

func c09Seen(ctx *water.Context) {
	c09Log = append(c09Log, ctx.FullPath()+" | "+ctx.HandlerName())
}

func funcName(f interface{}) string {
	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
}

var c09Lasts = []func(*water.Context){c09Last0, c09Last1, c09Last2, c09Methods{}.Last}

// mTree models the printed trees.
type mTree struct {
	text string
	kind int
	n    int
	sub  []*mTree
	end  []*mTree
}

func (t *mTree) insert(list *[]*mTree, s MSeg) *mTree {
	for _, x := range *list {
		if x.text == s.Text {
			return x
		}
	}
	n := &mTree{text: s.Text, kind: s.Kind}
	*list = append(*list, n)
	return n
}

func (t *mTree) add(segs []MSeg, n int) {
	if len(segs) == 1 {
		t.insert(&t.end, segs[0]).n = n
		return
	}
	t.insert(&t.sub, segs[0]).add(segs[1:], n)
}

func (t *mTree) lines(depth int, out *[]string) {
	byKind := func(l []*mTree) {
		sort.SliceStable(l, func(i, j int) bool { return l[i].kind < l[j].kind })
	}
	byKind(t.sub)
	byKind(t.end)
	for _, s := range t.sub {
		*out = append(*out, fmt.Sprintf("%d %s", depth, s.text))
		s.lines(depth+1, out)
	}
	for _, e := range t.end {
		if depth == 0 && e.text == "" {
			continue
		}
		*out = append(*out, fmt.Sprintf("%d %s [%3d]", depth, e.text, e.n))
	}
}

// treeLines reads a drawn tree as depth and text per line.
func treeLines(s string) (out []string) {
	if s == "" {
		return
	}
	s = strings.NewReplacer("\u00a0", " ", "│", " ", "└──", "├──").Replace(s)
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		t := strings.TrimLeft(l, " ")
		if !strings.HasPrefix(t, "├── ") {
			out = append(out, "- "+l)
			continue
		}
		out = append(out, fmt.Sprintf("%d %s", (len(l)-len(t))/4, strings.TrimPrefix(t, "├── ")))
	}
	return
}

type c09Route struct {
	method, full string
	n            func() int
	last         int
	m            *MRoute
}

type c09Node struct {
	pattern string
	method  string
	rt      *c09Route
	sub     []*c09Node
	mws     int
	parent  *c09Node
	real    *water.Router
	full    string
}

func (n *c09Node) count() int {
	if n == nil {
		return 0
	}
	return n.mws + n.parent.count()
}

func (n *c09Node) raw(depth int, out *[]string) {
	for _, s := range n.sub {
		if s.rt != nil {
			*out = append(*out, fmt.Sprintf("%d %s [%-7s : %d]", depth, s.pattern, s.method, s.rt.n()))
		} else {
			*out = append(*out, fmt.Sprintf("%d %s", depth, s.pattern))
		}
		s.raw(depth+1, out)
	}
}

func (n *c09Node) dfs(out *[]*c09Node) {
	for _, s := range n.sub {
		if s.rt != nil {
			*out = append(*out, s)
		} else {
			s.dfs(out)
		}
	}
}

func c09Body(n int, pats []string, methods []string) Body {
	return func(c *C) {
		root := &c09Node{real: water.NewRouter()}
		groups := []*c09Node{root}
		gb := 0
		var ops []string
		nroutes := 0
		for i := 0; i < n; i++ {
			g := groups[c.Choose(len(groups))]
			switch k := c.Choose(4); k {
			case 0: // route
				m, p := PickS(c, methods), PickS(c, pats)
				own := 1 + nroutes%3
				last := nroutes % len(c09Lasts)
				nroutes++
				ops = append(ops, fmt.Sprintf("%s %s in %q (%d handlers)", m, p, g.full, own))
				var hs []interface{}
				for j := 1; j < own; j++ {
					hs = append(hs, c09Mid)
				}
				hs = append(hs, c09Lasts[last])
				if i%2 == 1 {
					hs[len(hs)-1] = water.HandlerFunc(c09Lasts[last])
				}
				ms := []string{m}
				if m == "ANY" {
					ms = []string{"GET", "POST", "DELETE", "PUT", "PATCH"}
				}
				regMethod(g.real, m, p, hs...)
				for _, x := range ms {
					rt := &c09Route{method: x, full: g.full + strings.TrimSpace(p), last: last, n: func() int { return gb + g.count() + own }}
					g.sub = append(g.sub, &c09Node{pattern: p, method: x, rt: rt})
				}
			case 1:
				p := Pick(c, "/g", "/:p", "")
				ng := &c09Node{pattern: p, parent: g, real: g.real.Group(p), full: g.full + p}
				g.sub = append(g.sub, ng)
				groups = append(groups, ng)
				ops = append(ops, fmt.Sprintf("Group %q in %q", p, g.full))
			case 2:
				g.mws++
				g.real.Use(c09Mid)
				ops = append(ops, fmt.Sprintf("Use in %q", g.full))
			case 3:
				gb++
				root.real.Before(c09Mid)
				ops = append(ops, "Before")
			}
		}
		static := c.Bool()
		var all []*c09Node
		root.dfs(&all)
		m := newModel()
		for _, x := range all {
			mr, why := m.add(x.method, x.rt.full)
			if why != "" {
				c.Prune()
			}
			x.rt.m = mr
		}
		nf := c.Bool()
		opts := []water.Option{water.WithStaticRouter(static)}
		if nf {
			opts = append(opts, water.WithNoFoundHandlers(c09Mid, c09NF))
		}
		e, ref := Build(func() *water.Engine { return root.real.Handler(opts...) })
		if ref != nil {
			c.Failf("refused", "%q refused: %v", ops, ref)
			return
		}
		// what handlers see
		for _, meth := range []string{"GET", "POST", "PATCH"} {
			for _, p := range []string{"/", "/a", "/g/a", "/g/g/a", "/x/a", "/g/a/b", "/a/b", "/zz/zz/zz/zz", "/g", "/g/"} {
				c09Log = nil
				Serve(e, Req(meth, p))
				c.Step()
				want, _ := m.match(meth, p)
				var exp []string
				if want != nil {
					var rt *c09Route
					for _, x := range all {
						if x.rt.m == want {
							rt = x.rt
						}
					}
					for i := 0; i < rt.n(); i++ {
						exp = append(exp, rt.full+" | "+funcName(c09Lasts[rt.last]))
					}
				} else if nf {
					for i := 0; i < gb+2; i++ {
						exp = append(exp, " | "+funcName(c09NF))
					}
				}
				if strings.Join(c09Log, "\n") != strings.Join(exp, "\n") {
					c.Failf("reported", "%q static=%v: %s %s: handlers saw (full path | handler name)\n%s\nexpected\n%s", ops, static, meth, p, strings.Join(c09Log, "\n"), strings.Join(exp, "\n"))
					return
				}
			}
		}
		c09Print(c, e, root, all, ops)
		c.State(fmt.Sprint(ops))
	}
}

func c09Print(c *C, e *water.Engine, root *c09Node, all []*c09Node, ops []string) {
	check := func(what, got string, exp []string, tree bool) {
		c.Step()
		var g []string
		if tree {
			g = treeLines(got)
		} else if got != "" {
			g = strings.Split(strings.TrimSuffix(got, "\n"), "\n")
		}
		if strings.Join(g, "\n") != strings.Join(exp, "\n") {
			c.Failf("print", "%q: %s prints\n%s\nread as\n%s\nexpected\n%s", ops, what, got, strings.Join(g, "\n"), strings.Join(exp, "\n"))
		}
	}
	// everything is printed into one capture, separated by marks
	methods := []string{"GET", "POST", "get", "OPTIONS"}
	out, p := captureStdout(func() {
		e.PrintRawAllRoutes()
		fmt.Print("\x00")
		e.PrintRawRouter()
		for _, m := range methods {
			fmt.Print("\x00")
			e.PrintRawRoutes(m)
			fmt.Print("\x00")
			e.PrintRouterTree(m)
		}
	})
	if p != nil {
		c.Failf("print-panic", "%q: printing panics: %v", ops, p)
		return
	}
	parts := strings.Split(out, "\x00")
	var exp []string
	for _, x := range all {
		exp = append(exp, fmt.Sprintf("[%-7s : %d] %s", x.method, x.rt.n(), x.rt.full))
	}
	if len(all) == 0 {
		exp = []string{"no route"}
	}
	check("PrintRawAllRoutes", parts[0], exp, false)
	exp = nil
	root.raw(0, &exp)
	check("PrintRawRouter", parts[1], exp, true)
	for i, m := range methods {
		um := strings.ToUpper(m)
		byUri := map[string]string{}
		var uris []string
		tree := &mTree{}
		rootN := -1
		for _, x := range all {
			if x.method != um {
				continue
			}
			byUri[x.rt.full] = fmt.Sprintf("[%3d] %s", x.rt.n(), x.rt.full)
			uris = append(uris, x.rt.full)
			tree.add(x.rt.m.Segs, x.rt.n())
			if x.rt.full == "/" {
				rootN = x.rt.n()
			}
		}
		sort.Strings(uris)
		exp = nil
		for _, u := range uris {
			exp = append(exp, byUri[u])
		}
		if len(uris) == 0 {
			exp = []string{"no route"}
		}
		check("PrintRawRoutes("+m+")", parts[2+2*i], exp, false)
		exp = nil
		if len(uris) == 0 {
			exp = []string{"- no route"}
		} else {
			if rootN >= 0 {
				exp = append(exp, fmt.Sprintf("- / [%3d]", rootN))
			}
			tree.lines(0, &exp)
		}
		check("PrintRouterTree("+m+")", parts[3+2*i], exp, true)
		if c.Failed() {
			return
		}
	}
}

// c09Tables: printed listings of tables with every pair or triple of patterns.
func c09Tables(n int) Body {
	pats := []string{"/", "/a", "/b", "/a/b", "/a/:h", "/:h", "/<k>", "/:h/b", "/<r ~ a|b>", "/<r ~ (a)>/b", "/*", "/*g", "/a/*", "/*/a", "/a/b/c", "/a//d", "/b/<x,y ~ (1)(2)>/*z", "/ab", "/a/a"}
	return func(c *C) {
		root := &c09Node{real: water.NewRouter()}
		m := newModel()
		var ops []string
		for i := 0; i < n; i++ {
			meth := "GET"
			if i == n-1 && n > 2 {
				meth = Pick(c, "GET", "ANY")
			}
			p := PickS(c, pats)
			ops = append(ops, meth+" "+p)
			own := 1 + i
			var hs []interface{}
			for j := 0; j < own; j++ {
				hs = append(hs, c09Lasts[i])
			}
			regMethod(root.real, meth, p, hs...)
			ms := []string{meth}
			if meth == "ANY" {
				ms = []string{"GET", "POST", "DELETE", "PUT", "PATCH"}
			}
			for _, x := range ms {
				mr, why := m.add(x, p)
				if why != "" {
					c.Prune()
				}
				rt := &c09Route{method: x, full: p, n: func() int { return own }, m: mr}
				root.sub = append(root.sub, &c09Node{pattern: p, method: x, rt: rt})
			}
		}
		var all []*c09Node
		root.dfs(&all)
		e, ref := Build(func() *water.Engine { return root.real.Handler() })
		if ref != nil {
			c.Failf("refused", "%q refused: %v", ops, ref)
			return
		}
		c09Print(c, e, root, all, ops)
		// the same routes report their own pattern
		for _, p := range []string{"/", "/a", "/b", "/a/b", "/a/x", "/x", "/x/b", "/a/b/c", "/a/d", "/b/12/z", "/ab", "/x/y/z"} {
			c09Log = nil
			Serve(e, Req("GET", p))
			c.Step()
			want, _ := m.match("GET", p)
			if (want == nil) != (len(c09Log) == 0) {
				c.Failf("answer", "%q: GET %s reported %q, expected %s", ops, p, c09Log, showMatch(want, nil))
				return
			}
			if want != nil && !strings.HasPrefix(c09Log[0], want.Pattern+" | ") {
				c.Failf("fullpath", "%q: GET %s reported %q, answered by %s", ops, p, c09Log, want.Pattern)
				return
			}
		}
		c.State(fmt.Sprint(ops))
	}
}

type c09Obj struct{ tag string }

func (o c09Obj) ServeHTTP(ctx *water.Context) {
	c09Seen(ctx)
	if o.tag != "mid" {
		ctx.WriteHeader(200)
	}
}

type c09HTTPObj struct{ tag string }

func (o *c09HTTPObj) ServeHTTP(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) }

func c09HTTP(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) }

// c09Names: the reported name for every form of handler in the last place.
func c09Names(c *C) {
	lit := func(ctx *water.Context) { c09Seen(ctx); ctx.WriteHeader(200) }
	type form struct {
		h    interface{}
		name string // empty: not a function, any name will do
	}
	forms := []form{{c09Last0, funcName(c09Last0)}, {water.HandlerFunc(c09Last1), funcName(c09Last1)}, {lit, funcName(lit)}, {c09Methods{}.Last, funcName(c09Methods{}.Last)}, {c09HTTP, funcName(c09HTTP)}, {http.HandlerFunc(c09HTTP), funcName(c09HTTP)}, {water.WrapHandler(c09HTTP), funcName(c09HTTP)},
		{c09Obj{"x"}, ""}, {&c09Obj{"x"}, ""}, {&c09HTTPObj{"x"}, ""}, {http.NotFoundHandler(), "net/http.NotFound"}}
	f := PickS(c, forms)
	place := c.Choose(4)
	mids := []interface{}{c09Mid}
	switch c.Choose(3) {
	case 1:
		mids = append(mids, c09Obj{"mid"})
	case 2:
		mids = append([]interface{}{func(ctx *water.Context) { c09Seen(ctx); ctx.Next(); c09Seen(ctx) }}, mids...)
	}
	static := c.Bool()
	seen := ""
	probe := func(ctx *water.Context) { seen = ctx.FullPath() + " | " + ctx.HandlerName(); ctx.Next() }
	r := water.NewRouter()
	full, path := "/r/:x", "/r/1"
	opts := []water.Option{water.WithStaticRouter(static)}
	hs := append([]interface{}{probe}, f.h)
	switch place {
	case 0:
		r.Use(mids[0])
		r.GET(full, hs...)
	case 1:
		g := r.Group("/r", func(ctx *water.Context) {})
		full, path = "/r/lit", "/r/lit"
		g.GET("/lit", hs...)
	case 2:
		r.Before(mids...)
		r.Use(probe)
		r.ANY(full, f.h)
	case 3:
		full, path = "", "/none/at/all"
		r.GET("/x", c09Last2)
		opts = append(opts, water.WithNoFoundHandlers(append(mids[:len(mids):len(mids)], hs...)...))
	}
	c09Log = nil
	e, ref := Build(func() *water.Engine { return r.Handler(opts...) })
	desc := fmt.Sprintf("last handler %T in place %d, static lookup %v", f.h, place, static)
	if ref != nil {
		c.Failf("refused", "%s: refused: %v", desc, ref)
		return
	}
	for i := 0; i < 2; i++ {
		seen = ""
		_, p := Serve(e, Req("GET", path))
		c.Step()
		if p != nil {
			c.Failf("panic", "%s: %v", desc, p)
			return
		}
		if f.name != "" && seen != full+" | "+f.name || !strings.HasPrefix(seen, full+" | ") {
			c.Failf("name", "%s: reported %q, expected %q", desc, seen, full+" | "+f.name)
			return
		}
	}
	c.State(desc)
}

func init() {
	register(&Prop{ID: "C09", Scopes: []Scope{
		{Name: "ops3", Desc: "every sequence of 3 operations of {route with one of 3 methods and 5 patterns, Group of 3 patterns, Use, Before} on any group, static lookup on/off, not-found handlers or not; 30 requests and all listings", Body: c09Body(3, []string{"/", "/a", "/:x", "/a/b", "/<x>/a"}, []string{"GET", "POST", "ANY"}), Split: 4},
		{Name: "names", Desc: "11 forms of handler in the last place of 4 kinds of chain, static lookup on and off", Body: c09Names, Split: 2},
		{Name: "tables3", Desc: "all listings and 12 requests for every table of 3 of 19 patterns", Body: c09Tables(3), Split: 3},
		{Name: "tables2", Desc: "the same for 2 patterns", Body: c09Tables(2), Split: 2},
		{Name: "ops4", Desc: "every sequence of 4 operations", Body: c09Body(4, []string{"/", "/a", "/:x"}, []string{"GET", "ANY"}), Split: 5, Thorough: true},
		{Name: "tables4", Desc: "all listings and requests for every table of 4 of 19 patterns", Body: c09Tables(4), Split: 4, Thorough: true},
	}})
}
