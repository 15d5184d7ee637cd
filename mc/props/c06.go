package props

import (
	"fmt"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// c06: route tables with middleware everywhere; what runs for unmatched requests.
func c06Body(c *C) {
	nb := c.Range(0, 3) // global Before middleware
	nu := c.Range(0, 2) // root Use
	nfMode := c.Choose(5)
	static := c.Bool()
	table := c.Choose(8)
	late := c.Bool() // Before registered after the routes
	var ran []string
	mw := func(tag string) func(*water.Context) { return func(ctx *water.Context) { ran = append(ran, tag) } }
	r := water.NewRouter()
	m := newModel()
	before := func() {
		for i := 0; i < nb; i++ {
			r.Before(mw(fmt.Sprintf("b%d", i)))
		}
	}
	if !late {
		before()
	}
	for i := 0; i < nu; i++ {
		r.Use(mw(fmt.Sprintf("u%d", i)))
	}
	route := func(g *water.Router, full, p string) {
		m.add("GET", full)
		g.GET(p, func(ctx *water.Context) { ran = append(ran, "route"); ctx.WriteHeader(200) })
	}
	switch table {
	case 0: // no routes at all
	case 1:
		route(r, "/a", "/a")
	case 2:
		g := r.Group("/g", mw("gi"))
		g.Use(mw("gu"))
		route(g, "/g/:x", "/:x")
	case 3:
		g := r.Group("/g")
		g.Use(mw("gu"))
		h := g.Group("/<h ~ ^h$>")
		h.Use(mw("hu"))
		route(h, "/g/<h ~ ^h$>/x", "/x")
		route(r, "/a", "/a")
	case 4:
		r.Group("/empty", mw("ei")).Use(mw("eu"))
		route(r, "/", "/")
	case 5:
		route(r, "/a/*/z", "/a/*/z")
		route(r, "/:p/b/<q ~ c>", "/:p/b/<q ~ c>")
	case 6:
		r.POST("/a", func(ctx *water.Context) { ran = append(ran, "post"); ctx.WriteHeader(200) })
	case 7: // routes that answer nothing
		for _, p := range []string{"/a", "/g/:x"} {
			m.add("GET", p)
			r.GET(p, func(ctx *water.Context) { ran = append(ran, "route") })
		}
	}
	if late {
		before()
	}
	opts := []water.Option{water.WithStaticRouter(static)}
	var nf []string
	writer := -1
	status := 0
	switch nfMode {
	case 0:
	case 1:
		opts = append(opts, water.WithNoFoundHandlers(mw("n0")))
		nf = []string{"n0"}
	case 2: // three handlers, the second writes
		opts = append(opts, water.WithNoFoundHandlers(mw("n0"), func(ctx *water.Context) { ran = append(ran, "n1"); ctx.WriteHeader(410) }, mw("n2")))
		nf = []string{"n0", "n1", "n2"}
		writer, status = 1, 410
	case 3: // onion
		opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) {
			ran = append(ran, "n0")
			ctx.Next()
			ran = append(ran, "n0'")
		}, func(ctx *water.Context) { ran = append(ran, "n1"); ctx.Write([]byte("nf")) }))
		nf = []string{"n0", "n1", "n0'"}
		status = 200
	case 4: // the last option wins
		opts = append(opts, water.WithNoFoundHandlers(mw("old")), water.WithNoFoundHandlers(mw("n0"), mw("n1")))
		nf = []string{"n0", "n1"}
	}
	e := r.Handler(opts...)
	if c.Bool() { // building again from the same router must not change anything
		e2 := r.Handler(opts...)
		if c.Bool() {
			e = e2
		}
	}
	paths := []string{"/", "/a", "/a/", "/b", "/g", "/g/h", "/g/h/x", "/g/h/y", "/g/q/x", "/empty", "/a/x/z", "/a/x/y", "/p/b/d", "/a/b/c", "/zzz/yyy/xxx/www", ""}
	for _, meth := range stdMethods {
		for _, p := range paths {
			ran = nil
			want, _ := m.match(meth, p)
			if meth == "POST" && table == 6 && strings.Trim(p, "/") == "a" {
				continue
			}
			rec, pan := Serve(e, Req(meth, p))
			c.Step()
			desc := fmt.Sprintf("table %d, %d Before, %d Use, not-found mode %d, static %v: %s %s", table, nb, nu, nfMode, static, meth, p)
			c.Logf("%s -> %d %v", desc, rec.Status, ran)
			if pan != nil {
				c.Failf("panic", "%s: panic %v", desc, pan)
				return
			}
			if want != nil {
				for _, x := range ran {
					if strings.HasPrefix(x, "n") || x == "old" {
						c.Failf("nf-on-match", "%s matches %s but not-found handlers ran: %v", desc, want.Pattern, ran)
					}
				}
				if len(ran) == 0 || ran[len(ran)-1] != "route" {
					c.Failf("matched", "%s matches %s but ran %v", desc, want.Pattern, ran)
				}
				continue
			}
			var exp []string
			if nfMode > 0 {
				for i := 0; i < nb; i++ {
					exp = append(exp, fmt.Sprintf("b%d", i))
				}
				for i, x := range nf {
					exp = append(exp, x)
					if i == writer {
						break
					}
				}
			}
			if fmt.Sprint(ran) != fmt.Sprint(exp) {
				c.Failf("ran", "%s: ran %v, expected %v", desc, ran, exp)
			}
			switch nfMode {
			case 0:
				if rec.Status != 404 || rec.Body.Len() != 0 || len(rec.Commits) != 1 {
					c.Failf("plain404", "%s: %s", desc, rec.Summary())
				}
			case 2, 3:
				if rec.Status != status {
					c.Failf("nf-status", "%s: %s", desc, rec.Summary())
				}
			}
			if c.Failed() {
				return
			}
		}
	}
	c.State(fmt.Sprint(nb, nu, nfMode, table, static))
}

// c06Writers: global middleware that writes stops the not-found chain too.
func c06Writers(c *C) {
	nb := c.Range(1, 3)
	nn := c.Range(1, 3)
	total := nb + nn
	at := c.Choose(total + 1) // which handler writes; total: none
	how := c.Choose(3)
	next := c.Choose(total + 1) // which handler calls Next
	types := c.Choose(5)
	var ran []string
	mk := func(i int) interface{} {
		f := func(ctx *water.Context) {
			ran = append(ran, fmt.Sprint(i))
			if i == at {
				switch how {
				case 0:
					ctx.WriteHeader(418)
				case 1:
					ctx.Write(nil)
				case 2:
					ctx.String(200, "x")
				}
			}
			if i == next {
				ctx.Next()
				ran = append(ran, fmt.Sprintf("%d'", i))
			}
		}
		switch types {
		case 1:
			return water.HandlerFunc(f)
		case 2:
			return water.WrapHandler(f)
		}
		return f
	}
	r := water.NewRouter()
	var hs []interface{}
	for i := 0; i < total; i++ {
		if i < nb {
			if types == 3 {
				continue
			}
			r.Before(mk(i))
		} else {
			hs = append(hs, mk(i))
		}
	}
	if types == 3 { // all Before in one call
		var bs []interface{}
		for i := 0; i < nb; i++ {
			bs = append(bs, mk(i))
		}
		r.Before(bs...)
	}
	e := r.Handler(water.WithNoFoundHandlers(hs...))
	for rep := 0; rep < 2; rep++ {
		ran = nil
		Serve(e, Req("GET", "/nope"))
		c.Step()
		prog := make([][]act, total)
		for i := range prog {
			if i == at {
				prog[i] = append(prog[i], actWrite)
			}
			if i == next {
				prog[i] = append(prog[i], actNext)
			}
		}
		exp := chainModel(prog)
		got := fmt.Sprint(ran)
		c.Logf("%d Before, %d not-found handlers, writer %d, Next caller %d -> %v", nb, nn, at, next, ran)
		if got != fmt.Sprint(exp) {
			c.Failf("chain", "%d Before and %d not-found handlers, handler %d writes, handler %d calls Next: ran %v, expected %v", nb, nn, at, next, ran, exp)
		}
	}
	c.State(fmt.Sprint(nb, nn, at, next))
}

func init() {
	register(&Prop{ID: "C06", Scopes: []Scope{
		{Name: "tables", Desc: "8 route tables (one of routes that write nothing) x 0-3 Before x 0-2 Use x 5 not-found configurations x static lookup x order of registration x rebuilt engine; 7 methods x 16 paths", Body: c06Body, Split: 4},
		{Name: "writers", Desc: "1-3 Before and 1-3 not-found handlers, each possible writer (3 ways) and Next caller, 5 handler forms", Body: c06Writers, Split: 3},
	}})
}
