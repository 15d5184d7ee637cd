package props

import (
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var spellKinds = []string{
	"a", "70", ":h#", "<h#>", "<h#:int>", "< h# >", "<h# : string>", ": h#", ":_", "<_>", "<_:int>",
	"<r# ~ 70|80>", "<r# ~ (70|80)>", "<r# ~ red|blue>", "<r#~70|80>", "<r#:int ~ [0-9]+>", "<r#:int~([0-9]+)>", "<r# ~ z(d*)b>", "<r# ~ (?:x|y)>",
	`<r# ~ ^\d+:\d+$>`, `<r# ~ \(\d\)>`, "<r# ~ (?i)abc>", "<r# ~ x>y>", "<r# ~ x<y>", "<_ ~ 70|80>", "<_ ~ (a)b>", "<r#: int ~ ^(?P<n>a+)$>", "<r# ~ (b?)>",
	"<p#,q# ~ (a+)(b*)>", "<p#, q# ~ z(d*)h(u)b>", "<p#,_ ~ (x)(y)?>", "<p#,q#,s# ~ (.)(.)(.)>", "<p# , q#:int ~ (a)(b)>", "<p#,q# ~ ((a)b)>",
	"*", "*g#", "*_",
}

var spellLetters = []string{"70", "80", "170x", "5", "zdb", "zddb", "zb", "zdhub", "abc", "xABCx", "red", "RED", "Blue", "12:34", "(5)", "x>y", "x<y", "ab", "aabb", "a", "xy", "x", ":h0", "<h0>", "*", "é"}

func judgeBoth(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit) {
	judgeRoute(c, t, pats, path, want, wantP, got)
	judgeParams(c, t, pats, path, want, wantP, got)
}

// c03Split registers one pattern through nested groups cut at arbitrary positions.
func c03Split(pats []string, paths []string) Body {
	return func(c *C) {
		p := PickS(c, pats)
		n := c.Range(0, 3) // groups
		cuts := []int{0}
		for i := 0; i < n; i++ {
			cuts = append(cuts, c.Range(cuts[i], len(p)))
		}
		nested := 0
		t := &table{m: newModel()}
		if _, why := t.m.add("GET", p); why != "" {
			c.Failf("harness", "pattern %q: %s", p, why)
			return
		}
		r := water.NewRouter()
		cur := r
		var parts []string
		viaFunc := c.Bool()
		for i := 0; i < n; i++ {
			parts = append(parts, p[cuts[i]:cuts[i+1]])
			if viaFunc {
				var sub *water.Router
				cur.Group(p[cuts[i]:cuts[i+1]], func(g *water.Router) { sub = g })
				cur = sub
			} else {
				cur = cur.Group(p[cuts[i]:cuts[i+1]])
			}
			nested++
		}
		parts = append(parts, p[cuts[n]:])
		cur.GET(p[cuts[n]:], t.handler(0))
		e, refused := Build(func() *water.Engine { return r.Handler() })
		if refused != nil {
			c.Failf("refused", "pattern %q split as %q is refused: %v", p, parts, refused)
			return
		}
		t.e = e
		for _, path := range paths {
			want, wantP := t.m.match("GET", path)
			got := t.serve("GET", path)
			c.Logf("split %q: GET %s -> %s", parts, path, showHit(got, []string{p}))
			if (want != nil) != (got.ID == 0) || want != nil && !eqParams(got.Params, wantP) {
				c.Failf("split", "pattern %q split as %q: GET %s gave %s, expected %s", p, parts, path, showHit(got, []string{p}), showMatch(want, wantP))
				return
			}
		}
		c.Steps(len(paths))
		c.State(strings.Join(parts, "|"))
	}
}

// c03Mixed registers several routes below differently nested groups.
func c03Mixed(c *C) {
	type place struct {
		groups []string
		pat    string
	}
	places := []place{
		{nil, "/a/:x"}, {[]string{"/a"}, "/<x>"}, {[]string{"/a", ""}, "/b"}, {[]string{"/a/"}, "b"}, {[]string{"/:g"}, "/b"}, {[]string{"/<g>", "/b"}, ""},
		{[]string{"/a"}, "/*"}, {[]string{"", "/a"}, "/*rest"}, {[]string{"/<v ~ v([0-9])>"}, "/:x"}, {[]string{"/v1"}, "/b"}, {[]string{"/*m"}, "/b"}, {nil, "/*"},
		{[]string{"/a"}, "b"}, {[]string{"/a"}, ""}, {[]string{"/a", "/b"}, "/:y"}, {[]string{"/ab"}, "/*_"}, {[]string{" /a "}, " /:x "}, {nil, "/"}, {[]string{"/:"}, "g/:x"},
	}
	k := 3
	var idx []int
	for i := 0; i < k; i++ {
		j := c.Choose(len(places))
		idx = append(idx, j)
	}
	t := &table{m: newModel()}
	r := water.NewRouter()
	shared := map[string]*water.Router{}
	share := c.Bool()
	var pats []string
	for i, j := range idx {
		pl := places[j]
		full := ""
		cur := r
		for _, g := range pl.groups {
			full += strings.TrimSpace(g)
			key := full + "|" + g
			if s := shared[key]; share && s != nil {
				cur = s
			} else {
				cur = cur.Group(g)
				shared[key] = cur
			}
		}
		full += strings.TrimSpace(pl.pat)
		pats = append(pats, full)
		cur.GET(pl.pat, t.handler(i))
	}
	// routes of one group are registered together, so the order is the depth-first one
	order := dfsOrder(r2shape(idx, share, func(j int) ([]string, string) { return places[j].groups, places[j].pat }))
	ids := map[int]int{} // model id -> handler
	for _, i := range order {
		m, why := t.m.add("GET", pats[i])
		if why != "" {
			c.Prune()
		}
		ids[m.ID] = i
	}
	e, refused := Build(func() *water.Engine { return r.Handler() })
	if refused != nil {
		c.Failf("refused-mixed", "routes %q are refused: %v", pats, refused)
		return
	}
	t.e = e
	for _, path := range c03MixedPaths {
		want, wantP := t.m.match("GET", path)
		got := t.serve("GET", path)
		wid := -1
		if want != nil {
			wid = ids[want.ID]
		}
		if got.ID != wid || want != nil && !eqParams(got.Params, wantP) {
			c.Failf("mixed", "routes %q (shared groups %v): GET %s gave %s, expected %s", pats, share, path, showHit(got, pats), showMatch(want, wantP))
			return
		}
	}
	c.Steps(len(c03MixedPaths))
	c.State(strings.Join(pats, " "))
}

// r2shape and dfsOrder give the order in which routes are registered: depth first through the
// groups, each group at the place where it was created.
type shape struct {
	key   string
	route int // -1: group
	sub   []*shape
}

func r2shape(idx []int, share bool, at func(int) ([]string, string)) *shape {
	root := &shape{route: -1}
	byKey := map[string]*shape{}
	for i, j := range idx {
		gs, _ := at(j)
		cur := root
		full := ""
		for _, g := range gs {
			full += strings.TrimSpace(g)
			key := full + "|" + g
			if s := byKey[key]; share && s != nil {
				cur = s
				continue
			}
			s := &shape{key: key, route: -1}
			cur.sub = append(cur.sub, s)
			byKey[key] = s
			cur = s
		}
		cur.sub = append(cur.sub, &shape{route: i})
	}
	return root
}

func dfsOrder(s *shape) []int {
	if s.route >= 0 {
		return []int{s.route}
	}
	var out []int
	for _, x := range s.sub {
		out = append(out, dfsOrder(x)...)
	}
	return out
}

var c03MixedPaths = append(paths([]string{"a", "b", "v1", "x"}, 3), "/", "/ab", "/ab/b", "/a/b/c/d", "/a//b")

func init() {
	p2 := paths(spellLetters, 2)
	single := []string{"70", "zdb", "abc", "12:34", "x>y", "ab", "a", "xy"}
	mk := func(name, desc string, thorough bool, s *routeSpace) Scope {
		return Scope{Name: name, Desc: desc, Body: s.body(judgeBoth), Split: 1, Thorough: thorough}
	}
	splitPats := []string{"/a/b", "/:id", "/<id>/x", "/a/<id:int>/*", "/<r~70|80>/b", "/<a,b~z(d*)h(u)b>", "/*f/x/*", "/*_", "/", "/a:b/c*d", "/<r~^a:b$>"}
	splitPaths := append(append([]string{"/"}, p2...), paths([]string{"a", "b", "x", "70", "zdhub", "a:b", "c*d"}, 3)...)
	register(&Prop{ID: "C03", Scopes: []Scope{
		mk("single2", "every pattern of at most 2 segments over 37 segment spellings, every path of at most 3 segments over 26 letters", false,
			&routeSpace{kinds: spellKinds, depth: 2, routes: 1, letters: spellLetters, pdepth: 3}),
		mk("pair1", "every ordered pair of one-segment patterns over the 37 spellings, every path of at most 2 segments", false,
			&routeSpace{kinds: spellKinds, depth: 1, routes: 2, letters: spellLetters, pdepth: 2, slash: true}),
		mk("single3", "every pattern of at most 3 segments over the 37 spellings, every path of at most 3 segments over 8 letters", false,
			&routeSpace{kinds: spellKinds, depth: 3, routes: 1, letters: single, pdepth: 3}),
		{Name: "splits", Desc: "11 patterns cut at every choice of at most 3 character positions into nested groups and a route, with and without group callbacks", Body: c03Split(splitPats, splitPaths), Split: 3},
		{Name: "mixed", Desc: "every triple of 19 routes registered through different group nestings, groups shared or not, every path of at most 3 segments over a,b,v1,x", Body: c03Mixed, Split: 2},
		mk("pair2-deep", "every ordered pair of patterns of at most 2 segments over the 37 spellings, every path of at most 2 segments", true,
			&routeSpace{kinds: spellKinds, depth: 2, routes: 2, letters: single, pdepth: 3}),
	}})
}
