package props

import (
	"fmt"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var stdMethods = []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}

func regMethod(r *water.Router, m, p string, hs ...interface{}) {
	switch m {
	case "GET":
		r.GET(p, hs...)
	case "POST":
		r.POST(p, hs...)
	case "DELETE":
		r.DELETE(p, hs...)
	case "PUT":
		r.PUT(p, hs...)
	case "PATCH":
		r.PATCH(p, hs...)
	case "HEAD":
		r.HEAD(p, hs...)
	case "OPTIONS":
		r.OPTIONS(p, hs...)
	case "ANY":
		r.ANY(p, hs...)
	default:
		panic("harness: method " + m)
	}
}

type protoT struct {
	name     string
	maj, min int
}

var protos = []protoT{{"HTTP/1.1", 1, 1}, {"HTTP/1.0", 1, 0}, {"HTTP/0.9", 0, 9}, {"HTTP/2.0", 2, 0}, {"HTTP/3.0", 3, 0}, {"HTTP/1.2", 1, 2}, {"HTTP/0.0", 0, 0}, {"HTTP/0.2", 0, 2}, {"HTTP/2.1", 2, 1}}

var reqMethods = append(append([]string{}, stdMethods...), "CONNECT", "TRACE", "", "get", "Get", "PROPFIND", "GETX", "GE", " GET", "OPTIONS ", "POST\n", "*", "connect", "LINK", "QUERY", "ANY", "PRI")

// c05Gate explores methods x protocols x request targets on a table.
func c05Gate(c *C) {
	route := Pick(c, "/x", "/:h", "/*", "", "/")
	regs := Pick(c, []string{"ANY"}, stdMethods, []string{"GET"}, []string{"POST", "HEAD"}, []string{"OPTIONS"}, []string{})
	static, nf, before := c.Bool(), c.Bool(), c.Bool()
	var ran []string
	mark := func(s string) func(*water.Context) { return func(ctx *water.Context) { ran = append(ran, s) } }
	r := water.NewRouter()
	if before {
		r.Before(mark("before"))
	}
	r.Use(mark("use"))
	has := map[string]bool{}
	if route != "" {
		for _, m := range regs {
			m := m
			if m == "ANY" {
				r.ANY(route, func(ctx *water.Context) { ran = append(ran, "ANY:"+ctx.Request.Method); ctx.WriteHeader(200) })
				for _, s := range stdMethods {
					if s != "HEAD" && s != "OPTIONS" {
						has[s] = true
					}
				}
				continue
			}
			has[m] = true
			regMethod(r, m, route, func(ctx *water.Context) { ran = append(ran, m); ctx.WriteHeader(200) })
		}
	}
	opts := []water.Option{water.WithStaticRouter(static)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(mark("nf")))
	}
	e := r.Handler(opts...)
	for _, pr := range protos {
		for _, m := range reqMethods {
			for _, target := range []string{"/x", "*", "", "/*", "http://example.com/x", "**"} {
				for _, path := range []string{"/x", "", "/", "*"} {
					ran = nil
					req := Req(m, path)
					req.Proto, req.ProtoMajor, req.ProtoMinor = pr.name, pr.maj, pr.min
					req.RequestURI = target
					rec, p := Serve(e, req)
					c.Step()
					desc := fmt.Sprintf("route %q for %v, request %q %q (path %q) %s", route, regs, m, target, path, pr.name)
					c.Logf("%s -> %d %v", desc, rec.Status, ran)
					if p != nil {
						c.Failf("panic", "%s: panic %v", desc, p)
						return
					}
					old := pr.maj < 1 || pr.maj == 1 && pr.min < 1
					known := false
					for _, s := range stdMethods {
						known = known || s == m
					}
					switch {
					case old || target == "*" || m == "CONNECT":
						if rec.Status != 406 || len(ran) > 0 {
							c.Failf("406", "%s: status %d, handlers run %v; expected 406 and none", desc, rec.Status, ran)
						}
					case !known:
						if rec.Status != 405 || len(ran) > 0 {
							c.Failf("405", "%s: status %d, handlers run %v; expected 405 and none", desc, rec.Status, ran)
						}
					default:
						model := newModel()
						var want string
						if route != "" && has[m] {
							model.add("GET", route)
							if mr, _ := model.match("GET", path); mr != nil {
								want = m
							}
						}
						got := ""
						for _, x := range ran {
							if x != "before" && x != "use" && x != "nf" {
								got = strings.TrimPrefix(x, "ANY:")
							}
						}
						if got != want {
							c.Failf("method", "%s: answered by %v, expected %q", desc, ran, want)
						}
						if want == "" && !nf && (rec.Status != 404 || len(ran) > 0) {
							c.Failf("unmatched", "%s: status %d handlers %v", desc, rec.Status, ran)
						}
					}
					if rec.Status == 405 || rec.Status == 406 {
						if rec.Body.Len() > 0 || len(rec.Commits) != 1 {
							c.Failf("gate-body", "%s: %s (%d commits)", desc, rec.Summary(), len(rec.Commits))
						}
					}
					c.Outcome(fmt.Sprint(rec.Status))
					if c.Failed() {
						return
					}
				}
			}
		}
	}
	c.State(fmt.Sprint(route, regs, static, nf, before))
}

// c05Any explores every exclusion list for ANY.
func c05Any(c *C) {
	var excl []string
	for _, m := range stdMethods {
		if c.Bool() {
			excl = append(excl, m)
		}
	}
	switch c.Choose(4) {
	case 1:
		for i, j := 0, len(excl)-1; i < j; i, j = i+1, j-1 {
			excl[i], excl[j] = excl[j], excl[i]
		}
	case 2:
		excl = append(excl, "TRACE", "")
	case 3:
		excl = append([]string{"get", "ANY", " "}, excl...)
	}
	group := c.Bool()
	pat := Pick(c, "/x", "/:h", "/*")
	save := water.MethodAnyExclude
	defer func() { water.MethodAnyExclude = save }()
	water.MethodAnyExclude = excl
	r := water.NewRouter()
	tgt, prefix := r, ""
	if group {
		tgt, prefix = r.Group("/g"), "/g"
	}
	ran := ""
	tgt.ANY(pat, func(ctx *water.Context) { ran += ctx.Request.Method; ctx.WriteHeader(200) })
	// the list at registration counts, not a later one
	water.MethodAnyExclude = save
	e, ref := Build(func() *water.Engine { return r.Handler() })
	if ref != nil {
		c.Failf("refused", "ANY with exclusions %v refused: %v", excl, ref)
		return
	}
	for _, m := range stdMethods {
		ran = ""
		rec, _ := Serve(e, Req(m, prefix+"/x"))
		c.Step()
		ex := false
		for _, x := range excl {
			ex = ex || x == m
		}
		c.Logf("ANY %s excluding %v: %s -> %d %q", prefix+pat, excl, m, rec.Status, ran)
		if ex && (ran != "" || rec.Status != 404) || !ex && (ran != m || rec.Status != 200) {
			c.Failf("any", "ANY %s excluding %v: %s gives status %d, handler saw %q", prefix+pat, excl, m, rec.Status, ran)
			return
		}
	}
	c.State(fmt.Sprint(excl, group, pat))
}

// c05Isolation: each of two routes with the same or overlapping pattern belongs to its own methods.
func c05Isolation(c *C) {
	pats := []string{"/x", "/:h", "/*", "/<r ~ x>", "/x/y", "/:h/y", "/"}
	ms := append(append([]string{}, stdMethods...), "ANY")
	n := 2
	if c.Thorough {
		n = 3
	}
	static := c.Bool()
	m := newModel()
	r := water.NewRouter()
	var hit []string
	type reg struct{ m, p string }
	var regs []reg
	for i := 0; i < n; i++ {
		g := reg{PickS(c, ms), PickS(c, pats)}
		regs = append(regs, g)
		tag := fmt.Sprintf("%d", i)
		list := []string{g.m}
		if g.m == "ANY" {
			list = []string{"GET", "POST", "DELETE", "PUT", "PATCH"}
		}
		for _, x := range list {
			if _, why := m.add(x, g.p); why != "" {
				c.Prune()
			}
			m.Routes[len(m.Routes)-1].ID = i
		}
		regMethod(r, g.m, g.p, func(ctx *water.Context) {
			hit = append(hit, tag+ctx.Request.Method)
			ctx.WriteHeader(200)
		})
	}
	e := r.Handler(water.WithStaticRouter(static))
	for _, meth := range stdMethods {
		for _, path := range []string{"/", "/x", "/x/", "/x/y", "/z", "/z/y", "/x/y/z"} {
			hit = nil
			rec, _ := Serve(e, Req(meth, path))
			c.Step()
			want, _ := m.match(meth, path)
			exp := []string(nil)
			if want != nil {
				exp = []string{fmt.Sprintf("%d%s", want.ID, meth)}
			}
			if fmt.Sprint(hit) != fmt.Sprint(exp) || want == nil && rec.Status != 404 {
				c.Failf("isolation", "routes %v static=%v: %s %s gave %v (status %d), expected %v", regs, static, meth, path, hit, rec.Status, exp)
				return
			}
		}
	}
	c.State(fmt.Sprint(regs))
}

// c05Index: the exported method table.
func c05Index(c *C) {
	m := PickS(c, reqMethods)
	idx := water.MethodIndex(m)
	c.Step()
	c.State(m)
	want := -1
	for i, s := range stdMethods {
		if s == m {
			want = i
		}
	}
	if (want < 0) != (idx < 0) {
		c.Failf("index", "MethodIndex(%q) = %d", m, idx)
	}
	for _, s := range stdMethods {
		if s != m && idx >= 0 && water.MethodIndex(s) == idx {
			c.Failf("index-shared", "MethodIndex(%q) = MethodIndex(%q)", m, s)
		}
	}
}

func init() {
	register(&Prop{ID: "C05", Scopes: []Scope{
		{Name: "gate", Desc: "6 method sets x 5 patterns x static lookup x not-found handler x Before; 9 protocol versions x 24 methods x 6 request targets x 4 paths", Body: c05Gate, Split: 4},
		{Name: "any", Desc: "ANY under every exclusion set of the 7 methods in 4 spellings, in a group or not, 3 patterns; every method", Body: c05Any, Split: 4},
		{Name: "isolation", Desc: "every pair (thorough: triple) of routes over 8 registration methods x 7 patterns; every method x 7 paths", Body: c05Isolation, Split: 4},
		{Name: "index", Desc: "the exported method index for every method text", Body: c05Index, Split: 1},
	}})
}
