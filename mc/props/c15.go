package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
	"verif/mc/vsched"
)

// c15Run serves the requests as threads of the controlled scheduler and compares every
// response with what the request gets alone.
func c15Run(c *C, static, nf bool, kinds []rkind, bound int, memo map[string]string, extra ...func()) {
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	e := c14Engine(static, nf)
	got := make([]string, len(kinds))
	same := len(kinds) == 2 && kinds[0].name == kinds[1].name && c.Bool()
	tag := func(i int) string {
		if same {
			return "at"
		}
		return string(rune('a'+i)) + strings.Repeat("t", i)
	}
	var bodies []func()
	for i := range kinds {
		i := i
		req := kinds[i].req(tag(i))
		bodies = append(bodies, func() { got[i] = outcomeOf(e, req) })
	}
	bodies = append(bodies, extra...)
	c.SetBudget(bound)
	c.InThreads(true)
	dead := vsched.Run(c, bodies...)
	c.InThreads(false)
	c.SetBudget(0)
	c.Steps(len(kinds))
	var names []string
	for _, k := range kinds {
		names = append(names, k.name)
	}
	if dead {
		c.Failf("deadlock", "requests %q: deadlock", names)
		return
	}
	for i, k := range kinds {
		mk := fmt.Sprint(static, nf, k.name, tag(i))
		want, ok := memo[mk]
		if !ok {
			want = outcomeOf(c14Engine(static, nf), k.req(tag(i)))
			memo[mk] = want
		}
		if got[i] != want {
			c.Failf("mixed", "concurrent requests %q: request %d (%s) is answered\n %s\nalone\n %s", names, i, k.name, got[i], want)
			return
		}
	}
	// the engine still works
	after := outcomeOf(e, c14Kinds[0].req("z"))
	mk := fmt.Sprint(static, nf, "after")
	if _, ok := memo[mk]; !ok {
		memo[mk] = outcomeOf(c14Engine(static, nf), c14Kinds[0].req("z"))
	}
	if after != memo[mk] {
		c.Failf("after", "after concurrent requests %q a request is answered\n %s\nalone\n %s", names, after, memo[mk])
	}
	c.State(fmt.Sprint(names, len(c.Choices())))
}

func c15Pairs(kinds []rkind, bound int) Body {
	memo := map[string]string{}
	return func(c *C) {
		i := c.Choose(len(kinds))
		j := i + c.Choose(len(kinds)-i)
		c15Run(c, true, (i+j)%2 == 0, []rkind{kinds[i], kinds[j]}, bound, memo)
	}
}

func c15Triples(kinds []rkind, bound int) Body {
	memo := map[string]string{}
	return func(c *C) {
		i := c.Choose(len(kinds))
		j := i + c.Choose(len(kinds)-i)
		k := j + c.Choose(len(kinds)-j)
		c15Run(c, false, (i+j+k)%2 == 0, []rkind{kinds[i], kinds[j], kinds[k]}, bound, memo)
	}
}

// c15Build: requests while another engine, from a router of its own, is being built.
func c15Build(kinds []rkind, bound int) Body {
	memo := map[string]string{}
	return func(c *C) {
		i := c.Choose(len(kinds))
		opt := c.Choose(3)
		var probeGot string
		c15Run(c, c.Bool(), opt == 1, []rkind{kinds[i]}, bound, memo, func() {
			r := water.NewRouter()
			r.Use(water.Recovery(), water.Logger())
			r.GET("/p/:other", func(ctx *water.Context) { ctx.String(299, "other "+ctx.Param("other")) })
			r.GET("/p/<x ~ (a+)>/*", func(ctx *water.Context) {})
			g := r.Group("/g/<y>")
			g.POST("/*", func(ctx *water.Context) {})
			var opts []water.Option
			if opt > 0 {
				opts = append(opts, water.WithStaticRouter(true), water.WithMaxMultipartMemory(int64(opt)))
			}
			if opt == 2 {
				opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) { ctx.NotFound() }))
			}
			e2 := r.Handler(opts...)
			rec, p := Serve(e2, Req("GET", "/p/q"))
			probeGot = fmt.Sprint(rec.Status, rec.Body.String(), p)
		})
		if probeGot != "299other q<nil>" {
			c.Failf("other-engine", "the engine built meanwhile answers %q", probeGot)
		}
	}
}

// c15Two: one request each to two engines sharing a router.
func c15Two(bound int) Body {
	return func(c *C) {
		r := water.NewRouter()
		var log [2]string
		r.Use(func(ctx *water.Context) { vsched.Yield(); ctx.Set("who", ctx.Param("id")); vsched.Yield() })
		r.GET("/:id", func(ctx *water.Context) { vsched.Yield(); ctx.String(200, observe(ctx)+fmt.Sprint(ctx.Get("who"))) })
		e1 := r.Handler()
		e2 := r.Handler(water.WithStaticRouter(true))
		c.SetBudget(bound)
		c.InThreads(true)
		dead := vsched.Run(c,
			func() { log[0] = outcomeOf(e1, Req("GET", "/one")) },
			func() { log[1] = outcomeOf(e2, Req("GET", "/two")) })
		c.InThreads(false)
		c.SetBudget(0)
		c.Steps(2)
		w0, w1 := outcomeOf(e1, Req("GET", "/one")), outcomeOf(e2, Req("GET", "/two"))
		if dead || log[0] != w0 || log[1] != w1 {
			c.Failf("mixed", "two engines: deadlock %v\n %s\n %s\nalone\n %s\n %s", dead, log[0], log[1], w0, w1)
		}
		c.State(fmt.Sprint(len(c.Choices())))
	}
}

var _ http.Handler

func init() {
	all := c14Kinds
	core := kindsNamed("param", "regexp", "abandoned", "chain", "boom", "unmatched", "form", "bind json")
	tri := kindsNamed("param", "unmatched", "chain", "recovered late")
	register(&Prop{ID: "C15", Race: true, Scopes: []Scope{
		{Name: "pairs1", Desc: "every pair of 43 request kinds concurrently, every schedule with at most 1 preemption (scheduling points: every statement of the repository)", Body: c15Pairs(all, 1), Split: 2},
		{Name: "pairs2", Desc: "every pair of 4 kinds, every schedule with at most 2 preemptions", Body: c15Pairs(kindsNamed("param", "unmatched", "chain", "boom"), 2), Split: 3},
		{Name: "triples1", Desc: "every triple of 4 kinds, every schedule with at most 1 preemption", Body: c15Triples(tri, 1), Split: 3},
		{Name: "build1", Desc: "every one of 10 kinds while another engine with other options is built and used, 1 preemption", Body: c15Build(kindsNamed("param", "abandoned", "unmatched", "form", "upload", "bind json", "recovered", "log", "static dir", "nested"), 1), Split: 2},
		{Name: "engines2", Desc: "two engines built from one router, one request each, 2 preemptions", Body: c15Two(2), Split: 3},
		{Name: "build1all", Desc: "every one of 46 kinds while another engine is built, 1 preemption", Body: c15Build(all, 1), Split: 2, Thorough: true},
		{Name: "pairs2core", Desc: "every pair of 8 kinds, 2 preemptions", Body: c15Pairs(core, 2), Split: 3, Thorough: true},
		{Name: "pairs2all", Desc: "every pair of 46 kinds, 2 preemptions", Body: c15Pairs(all, 2), Split: 3, Thorough: true},
		{Name: "pairs3", Desc: "every pair of 2 kinds, 3 preemptions", Body: c15Pairs(kindsNamed("unmatched", "chain"), 3), Split: 4, Thorough: true},
		{Name: "triples2", Desc: "every triple of 4 kinds, 2 preemptions", Body: c15Triples(tri, 2), Split: 4, Thorough: true},
	}, Assumptions: []string{
		"preemption is explored between statements of the repository's own code; the standard library and dependencies run without preemption in the controlled passes and are covered for data races only by the free-running pass under the race detector",
		"the free-running pass under the race detector is a supplement: it observes some schedules, not all",
	}})
}
