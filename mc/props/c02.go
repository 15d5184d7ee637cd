package props

import (
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

func judgeParams(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit) {
	if c.Verbose {
		c.Logf("routes %q: GET %s -> %s", pats, path, showHit(got, pats))
	}
	if want == nil || got.ID != want.ID {
		return // which route answers is C01's subject
	}
	if !eqParams(got.Params, wantP) {
		c.Failf("params", "routes %q: GET %s answered by %q saw {%s}, its captures are {%s}", pats, path, want.Pattern, mapStr(got.Params), mapStr(wantP))
	}
}

// nfTable adds not-found handling that looks at the parameters.
func c02NotFound(c *C) {
	ps := c02nfPats
	n := c.Range(1, 2)
	var pats []string
	for i := 0; i < n; i++ {
		pats = append(pats, PickS(c, ps))
	}
	if n == 2 && pats[0] == pats[1] {
		c.Prune()
	}
	static := c.Bool()
	t := &table{m: newModel()}
	for _, p := range pats {
		if _, why := t.m.add("GET", p); why != "" {
			c.Prune()
		}
	}
	r := water.NewRouter()
	for i, p := range pats {
		r.GET(p, t.handler(i))
	}
	t.e = r.Handler(water.WithStaticRouter(static), water.WithNoFoundHandlers(func(ctx *water.Context) {
		t.hit.ID = -2
		t.hit.Count++
		t.hit.Params = ctx.Params
		ctx.WriteHeader(404)
	}))
	// two requests in a row: nothing of the first may be visible in the second
	for _, p1 := range c02nfPaths {
		for _, p2 := range c02nfPaths {
			for i, p := range []string{p1, p2} {
				want, wantP := t.m.match("GET", p)
				got := t.serve("GET", p)
				c.Step()
				if got.Count != 1 {
					c.Failf("count", "routes %q static=%v: GET %s ran %d handlers", pats, static, p, got.Count)
					return
				}
				if want == nil {
					wantP = nil
					if got.ID != -2 {
						continue
					}
				} else if got.ID != want.ID {
					continue
				}
				if !eqParams(got.Params, wantP) {
					c.Failf("params-sequence", "routes %q static=%v: requests %s then %s: request %d saw {%s}, expected {%s}", pats, static, p1, p2, i+1, mapStr(got.Params), mapStr(wantP))
					return
				}
			}
		}
	}
	c.State(strings.Join(pats, " "))
}

var c02nfPats = []string{"/a", "/a/b", "/:h", "/<r ~ a|b>/x", "/<p,q ~ (a)(b?)>/x", "/:h/b", "/:h/:i/x", "/*", "/*/x", "/*m/x", "/a/*t", "/*_/x", "/<_ ~ a>/x", "/_/<_>"}
var c02nfPaths = []string{"/", "/a", "/b", "/a/b", "/ab/x", "/a/x", "/b/c", "/a/b/x", "/a/b/c", "/x/y/z", "/_/a"}

func c02Kinds() []string {
	return []string{"a", "<x# ~ a|b>", "<y#,z# ~ ^(b)(c?)$>", "<_ ~ b>", "<u#,_ ~ (a)(b?)>", ":h#", ":_", "*", "*g#", "*_"}
}

func init() {
	scopes := routeSpaces(judgeParams)
	mk := func(name, desc string, thorough bool, s *routeSpace) Scope {
		return Scope{Name: name, Desc: desc, Body: s.body(judgeParams), Split: 2, Thorough: thorough}
	}
	var out []Scope
	for _, s := range scopes {
		switch s.Name {
		case "pairs5", "fours2", "pairs3":
		default:
			out = append(out, s)
		}
	}
	out = append(out,
		mk("single4", "all patterns of at most 4 segments over 10 segment kinds (named, unnamed, ignored, multi-name), every path of at most 5 segments over a,b,bc", false,
			&routeSpace{kinds: c02Kinds(), depth: 4, routes: 1, letters: []string{"a", "b", "bc"}, pdepth: 5}),
		mk("pairs2", "all ordered pairs of patterns of at most 2 segments over the 10 kinds, every path of at most 4 segments over a,b,bc with and without trailing slash", false,
			&routeSpace{kinds: c02Kinds(), depth: 2, routes: 2, letters: []string{"a", "b", "bc"}, pdepth: 4, slash: true}),
		mk("pairs3-params", "all ordered pairs of patterns of at most 3 segments over 6 kinds, every path of at most 4 segments over a,b,c", false,
			&routeSpace{kinds: []string{"a", "<x# ~ a|b>", "<y#,z# ~ (b)(c?)>", ":h#", "*", "*g#"}, depth: 3, routes: 2, letters: abc, pdepth: 4}),
		mk("pairs3-params-deep", "all ordered pairs of patterns of at most 3 segments over the 10 kinds, every path of at most 4 segments over a,b,bc", true,
			&routeSpace{kinds: c02Kinds(), depth: 3, routes: 2, letters: []string{"a", "b", "bc"}, pdepth: 4}),
		Scope{Name: "sequences", Desc: "tables of 1 or 2 of 14 patterns, static lookup on/off, with not-found handling that reads the parameters; every pair of consecutive requests over 11 paths", Body: c02NotFound, Split: 2},
	)
	out = append(out, sizesScopes(judgeParams)...)
	register(&Prop{ID: "C02", Scopes: out})
}
