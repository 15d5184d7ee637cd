package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// probe writes everything a handler can observe about routing into the response.
func probe(tag string) func(*water.Context) {
	return func(ctx *water.Context) {
		ctx.Header().Set("X-Tag", tag)
		ctx.WriteHeader(200 + len(tag)%5)
		fmt.Fprintf(ctx, "%s|%s|%s|%v|%d", tag, ctx.FullPath(), mapStr(ctx.Params), ctx.Params == nil, len(ctx.Environ))
		ctx.Params["zz"] = tag // private to this request
	}
}

var c04Pats = []string{
	"/", "/a", "/a/b", "/a/b/c", "/b", "/A", "/a.b", "/:h", "/<k>/b", "/a/:h", "/<r ~ a|b>", "/<r ~ (a)>/b", "/*", "/a/*", "/*g", "/*m/b", "/a//c", "/a:b", "/a b",
}

type c04Req struct{ method, path string }

func c04Reqs() []c04Req {
	var out []c04Req
	for _, p := range []string{"/", "", "/a", "/a/", "a", "/a/b", "/a/b/", "/a/b/c", "/b", "/b/b", "/A", "/a.b", "/x", "/x/y/z", "/a/c", "/a//c", "//a", "/a:b", "/a b", "/zz", "/a//", "//"} {
		out = append(out, c04Req{"GET", p})
	}
	return append(out, c04Req{"POST", "/a"}, c04Req{"POST", "/a/b"}, c04Req{"POST", "/q"}, c04Req{"HEAD", "/a"}, c04Req{"TRACE", "/a"})
}

// c04Build registers the chosen patterns for GET, and some of them for POST too.
func c04Build(pats []string, postMask int, static bool, nf, grouped, before bool) (*water.Engine, interface{}) {
	return Build(func() *water.Engine {
		r := water.NewRouter()
		if before {
			r.Before(func(ctx *water.Context) { ctx.Header().Add("X-Before", "1") })
		}
		r.Use(func(ctx *water.Context) { ctx.Environ.Set("mw", 1); ctx.Next() })
		for i, p := range pats {
			tgt, pp := r, p
			if grouped && strings.Count(p, "/") > 1 {
				j := strings.Index(p[1:], "/") + 1
				tgt, pp = r.Group(p[:j]), p[j:]
				tgt.Use(func(ctx *water.Context) { ctx.Header().Add("X-Group", p[:j]) })
			}
			tgt.GET(pp, probe(fmt.Sprintf("G%d", i)))
			if postMask&(1<<i) != 0 {
				tgt.POST(pp, probe(fmt.Sprintf("PO%d", i)))
			}
		}
		opts := []water.Option{water.WithStaticRouter(static)}
		if nf {
			opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) {
				ctx.WriteHeader(404)
				fmt.Fprintf(ctx, "nf|%s|%s", ctx.FullPath(), mapStr(ctx.Params))
			}))
		}
		return r.Handler(opts...)
	})
}

func c04Body(n int) Body {
	reqs := c04Reqs()
	return func(c *C) {
		var pats []string
		for i := 0; i < n; i++ {
			p := PickS(c, c04Pats)
			for _, q := range pats {
				if p == q {
					c.Prune()
				}
			}
			pats = append(pats, p)
		}
		mask := 0
		if n < 3 {
			mask = c.Choose(1 << n)
		} else {
			mask = Pick(c, 0, 5)
		}
		nf, grouped, before := c.Bool(), c.Bool(), c.Bool()
		on, ref1 := c04Build(pats, mask, true, nf, grouped, before)
		off, ref2 := c04Build(pats, mask, false, nf, grouped, before)
		if (ref1 != nil) != (ref2 != nil) {
			c.Failf("refused", "routes %q: with static lookup refused: %v, without: %v", pats, ref1, ref2)
			return
		}
		if ref1 != nil {
			c.Prune()
		}
		m := newModel()
		for i, p := range pats {
			if _, why := m.add("GET", p); why != "" {
				c.Failf("accepted", "routes %q accepted, though: %s", pats, why)
			}
			if mask&(1<<i) != 0 {
				m.add("POST", p)
			}
		}
		reqs := reqs
		for _, p := range pats {
			for _, q := range spelled(p) {
				reqs = append(reqs[:len(reqs):len(reqs)], c04Req{"GET", q})
			}
		}
		for qi, q := range reqs {
			if n == 2 && qi%2 == 1 && qi < 18 {
				continue
			}
			for _, q2 := range reqs {
				for i, x := range []c04Req{q, q2} {
					if i == 0 && n > 2 {
						continue
					}
					r1, p1 := Serve(on, Req(x.method, x.path))
					r2, p2 := Serve(off, Req(x.method, x.path))
					c.Step()
					a, b := r1.Summary(), r2.Summary()
					if p1 != nil || p2 != nil || a != b {
						c.Failf("differs", "routes %q (POST mask %b, not-found handler %v): requests %v then %v: request %d gives\n with static lookup:    %s panic=%v\n without static lookup: %s panic=%v", pats, mask, nf, q, q2, i+1, a, p1, b, p2)
						return
					}
					if i == 1 {
						want, _ := m.match(x.method, x.path)
						if (want != nil) != (r1.Snap.Get("X-Tag") != "") && x.method != "TRACE" {
							c.Failf("model", "routes %q: %v gives %s, expected %s", pats, x, a, showMatch(want, nil))
							return
						}
					}
				}
			}
		}
		c.State(fmt.Sprint(pats, mask, nf, grouped, before))
	}
}

func init() {
	_ = http.StatusOK
	register(&Prop{ID: "C04", Scopes: append(sizesScopes(judgeBoth, water.WithStaticRouter(true)), []Scope{
		{Name: "pairs", Desc: "every ordered pair of 19 patterns, any subset also for POST, with/without not-found handler, groups and Before; engines with and without static lookup get every one of 27 requests after each of 16 others", Body: c04Body(2), Split: 2},
		{Name: "triples", Desc: "every ordered triple of the 19 patterns, likewise", Body: c04Body(3), Split: 3, Thorough: true},
		{Name: "tables", Desc: "all ordered pairs of patterns of at most 3 segments over 5 segment kinds, engine with static lookup: every path of at most 4 segments over a, b with and without trailing slash and every path spelling a pattern, answered and with captures as by the model", Body: (&routeSpace{kinds: []string{"a", "<x# ~ b>", ":h#", "*", "b"}, depth: 3, routes: 2, letters: abc[:2], pdepth: 4, slash: true, opts: []water.Option{water.WithStaticRouter(true)}}).body(judgeBoth), Split: 2},
		{Name: "single", Desc: "every single pattern, likewise", Body: c04Body(1), Split: 2},
	}...)})
}
