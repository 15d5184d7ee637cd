package props

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"html"
	"net/http"
	"net/url"
	"os"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// Spaces beyond the small bounds of the exhaustive ones: the same property at every size of a
// list around the powers of two and some round numbers. What an implementation does only from
// some size on (a fixed array, a threshold, a counter) shows here.

var counts = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 26, 30, 31, 32, 33, 34, 40, 48, 49, 50, 51, 60, 63, 64, 65, 66, 80, 99, 100, 101, 102, 120, 127, 128, 129, 130, 150, 199, 200, 201, 250, 254, 255, 256, 257, 258, 300}

func countsTo(max int) (o []int) {
	for _, n := range counts {
		if n <= max {
			o = append(o, n)
		}
	}
	return
}

// c07Sizes: depth and number of middleware, with a sibling at every level.
func c07Sizes(c *C) {
	depth := PickS(c, countsTo(66))
	per := PickS(c, []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65})
	if depth*per > 600 {
		return
	}
	oneCall, late, onion := c.Bool(), c.Bool(), c.Bool()
	w := &c07World{c: c, onion: onion}
	root := &mGroup{real: water.NewRouter()}
	w.groups = []*mGroup{root}
	use := func(g *mGroup, n int) {
		var l []interface{}
		for i := 0; i < n; i++ {
			t, f := w.mw()
			g.mws = append(g.mws, t)
			if oneCall {
				l = append(l, f)
			} else {
				g.real.Use(f)
			}
		}
		if oneCall {
			g.real.Use(l...)
		}
	}
	w.ops = append(w.ops, fmt.Sprintf("%d nested groups with %d middleware each, one call %v, registered after the routes %v", depth, per, oneCall, late))
	g := root
	var all []*mGroup
	add := func(g *mGroup) {
		if !late {
			use(g, per)
		}
		all = append(all, g)
	}
	add(root)
	for i := 0; i < depth; i++ {
		sib := w.newGroup(g)
		g = w.newGroup(g)
		if i%7 == 0 || i == depth-1 {
			all = append(all, sib)
			use(sib, 1+i%3)
		}
		add(g)
	}
	for i, g := range all {
		if i%5 == 0 || i >= len(all)-4 {
			w.route(g, 1+i%2)
			w.route(g, 3)
		}
	}
	if late {
		for _, g := range all {
			use(g, per)
		}
	}
	e, ref := Build(func() *water.Engine { return root.real.Handler() })
	if ref != nil {
		c.Failf("refused", "after %q: refused: %v", w.ops, ref)
		return
	}
	w.check(e, "")
	c.State(fmt.Sprint(w.ops))
}

// c08Sizes: one route too many among many.
func c08Sizes(c *C) {
	shape := c.Choose(9)
	n := PickS(c, wideSizes)
	pats, _ := wideTable(shape, n)
	if len(pats) > 600 {
		return
	}
	static := c.Bool()
	with := func(extra string, what string) {
		m := newModel()
		why := ""
		all := append(pats[:len(pats):len(pats)], extra)
		if extra == "-" {
			all = pats
		}
		for _, p := range all {
			if _, w := m.add("GET", p); w != "" {
				why = w
				break
			}
		}
		_, ref := Build(func() *water.Engine {
			r := water.NewRouter()
			for _, p := range all {
				r.GET(p, func(ctx *water.Context) {})
			}
			return r.Handler(water.WithStaticRouter(static))
		})
		c.Step()
		if (ref != nil) != (why != "") {
			c.Failf("refusal", "%d routes like %q and then %q (%s): refused %v, expected %q", len(pats), clip(pats[0], 40), extra, what, ref, why)
		}
	}
	with("-", "nothing")
	with("/fresh", "new")
	with("/fresh/:h/x", "new")
	for _, i := range []int{0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 254, 255, 256, 298, len(pats) / 2, len(pats) - 2, len(pats) - 1} {
		if i < 0 || i >= len(pats) || c.Failed() {
			continue
		}
		with(pats[i], "again")
		if strings.Contains(pats[i], ":h") {
			with(strings.Replace(pats[i], ":h", ":k", 1), "renamed")
			with(strings.Replace(pats[i], ":h", "<z", 1)+">", "respelled")
		}
		with("/<q ~ (>", "malformed")
	}
	c.State(fmt.Sprint(shape, n, static))
}

// c08Deep: patterns of many segments, refused or not for their last one.
func c08Deep(c *C) {
	n := PickS(c, deepSizes)
	kind := Pick(c, "s", ":h", "*", "<r%d ~ s>")
	pre := ""
	for i := 0; i < n; i++ {
		if strings.Contains(kind, "%d") {
			pre += "/" + fmt.Sprintf(kind, i)
		} else if kind == "*" {
			pre += "/*"
		} else {
			pre += "/" + kind + fmt.Sprint(i)
		}
	}
	for _, end := range []string{"", "/", "/x", "//x", "/<a", "/a>", "/<a,b ~ (x)>", "/<a,b ~ (x)(y)>", "/*", "/:h0", "/ ", "/<a ~ [>", "/*z/:z"} {
		for _, split := range []bool{false, true} {
			p := pre + end
			m := newModel()
			_, why := m.add("GET", p)
			_, ref := Build(func() *water.Engine {
				r := water.NewRouter()
				if split {
					r = r.Group(pre)
					if end == "" {
						return r.Handler()
					}
					r.GET(end, func(ctx *water.Context) {})
				} else {
					r.GET(p, func(ctx *water.Context) {})
				}
				return r.Handler()
			})
			c.Step()
			if split {
				continue // only must not hang or crash the process
			}
			if (ref != nil) != (why != "") {
				c.Failf("deep", "%d segments like %s and the end %q: refused %v, expected %q", n, kind, end, ref, why)
				return
			}
		}
	}
	c.State(fmt.Sprint(n, kind))
}

// c09Sizes: listings and reported names with many routes, groups, handlers.
func c09Sizes(c *C) {
	shape := c.Choose(4)
	n := PickS(c, []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257})
	root := &c09Node{real: water.NewRouter()}
	m := newModel()
	var paths []string
	route := func(g *c09Node, p string, own, last int, path string) {
		var hs []interface{}
		for j := 1; j < own; j++ {
			hs = append(hs, c09Mid)
		}
		hs = append(hs, c09Lasts[last])
		g.real.GET(p, hs...)
		mr, why := m.add("GET", g.full+p)
		if why != "" {
			panic("harness: " + why)
		}
		rt := &c09Route{method: "GET", full: g.full + p, last: last, m: mr, n: func() int { return g.count() + own }}
		g.sub = append(g.sub, &c09Node{pattern: p, method: "GET", rt: rt})
		paths = append(paths, path)
	}
	group := func(g *c09Node, p string) *c09Node {
		ng := &c09Node{pattern: p, parent: g, real: g.real.Group(p), full: g.full + p}
		g.sub = append(g.sub, ng)
		return ng
	}
	switch shape {
	case 0: // n routes
		for i := 0; i < n; i++ {
			route(root, fmt.Sprintf("/s%d", i), 1+i%3, i%4, fmt.Sprintf("/s%d", i))
		}
	case 1: // n handlers
		route(root, "/x", n, 1, "/x")
		root.mws = 2
		root.real.Use(c09Mid, c09Mid)
		g := group(root, "/g")
		g.mws = n
		for i := 0; i < n; i++ {
			g.real.Use(c09Mid)
		}
		route(g, "/:h", 2, 2, "/g/v")
	case 2: // n nested groups
		if n > 129 {
			return
		}
		g := root
		full := ""
		for i := 0; i < n; i++ {
			g = group(g, fmt.Sprintf("/g%d", i))
			full += fmt.Sprintf("/g%d", i)
			if i%9 == 0 {
				g.mws++
				g.real.Use(c09Mid)
			}
		}
		route(g, "/end", 2, 3, full+"/end")
		route(g, "/:h", 1, 0, full+"/v")
	case 3: // n sibling groups with two routes
		for i := 0; i < n; i++ {
			g := group(root, fmt.Sprintf("/g%d", i))
			g.mws = 1
			g.real.Use(c09Mid)
			route(g, "/a", 1, i%4, fmt.Sprintf("/g%d/a", i))
			route(g, "/<h>", 2, (i+1)%4, fmt.Sprintf("/g%d/zz", i))
		}
	}
	ops := []string{fmt.Sprintf("shape %d (routes, handlers, nested groups, sibling groups), %d of them", shape, n)}
	var all []*c09Node
	root.dfs(&all)
	e, ref := Build(func() *water.Engine { return root.real.Handler() })
	if ref != nil {
		c.Failf("refused", "%q refused: %v", ops, ref)
		return
	}
	for i, x := range all {
		c09Log = nil
		Serve(e, Req("GET", paths[i]))
		c.Step()
		one := x.rt.full + " | " + funcName(c09Lasts[x.rt.last])
		if len(c09Log) != x.rt.n() || c09Log[0] != one || c09Log[len(c09Log)-1] != one {
			c.Failf("reported", "%q: GET %s: %d handlers saw %q, expected %d to see %q", ops, clip(paths[i], 60), len(c09Log), clip(fmt.Sprint(c09Log), 200), x.rt.n(), one)
			return
		}
	}
	c09Print(c, e, root, all, ops)
	c.State(fmt.Sprint(ops))
}

// c11Sizes: many writes and large ones.
func c11Sizes(c *C) {
	n := PickS(c, countsTo(300))
	size := Pick(c, 0, 1, 511, 512, 513, 2048, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 1<<20+1)
	code := Pick(c, 0, 201, 404)
	again := c.Bool()
	if n*size > 4<<20 {
		return
	}
	var seen []string
	bad := ""
	e := func() *water.Engine {
		r := water.NewRouter()
		r.GET("/x", func(ctx *water.Context) {
			if code != 0 {
				ctx.WriteHeader(code)
			}
			b := []byte(strings.Repeat("z", size))
			for i := 0; i < n; i++ {
				for j := range b {
					b[j] = byte('a' + i%26)
				}
				k, err := ctx.Write(b)
				if k != size || err != nil {
					bad = fmt.Sprintf("write %d returns %d, %v", i, k, err)
				}
				want := code
				if want == 0 {
					want = 200
				}
				if !ctx.Written() || ctx.Status() != want {
					bad = fmt.Sprintf("after write %d Written is %v, Status %d", i, ctx.Written(), ctx.Status())
				}
				if again {
					ctx.WriteHeader(500)
				}
			}
			seen = append(seen, fmt.Sprint(ctx.Status()))
		})
		return r.Handler()
	}()
	rec, p := Serve(e, Req("GET", "/x"))
	c.Step()
	var want strings.Builder
	for i := 0; i < n; i++ {
		want.WriteString(strings.Repeat(string(rune('a'+i%26)), size))
	}
	st := code
	if code == 0 && n > 0 {
		st = 200
	}
	if p != nil || bad != "" || n > 0 && rec.Status != st || rec.Body.String() != want.String() || len(rec.Commits) > 1 {
		c.Failf("sizes", "status %d, then %d writes of %d bytes, WriteHeader after each %v: %s, panic %v, status %d (commits %d), %d bytes", code, n, size, again, bad, p, rec.Status, len(rec.Commits), rec.Body.Len())
	}
	c.State(fmt.Sprint(n, size, code, again))
}

// c12Sizes: payloads of many lengths through every byte helper, JSON and XML.
func c12Sizes(c *C) {
	n := PickS(c, append([]int{0, 3, 100, 300, 510, 511, 512, 513, 514, 1000, 2047, 2049, 4094, 10000, 32766, 32767, 32768, 32769, 100000, 131072, 262145}, longSizes...))
	which := c.Choose(6)
	ch := Pick(c, "a", "<", "é")
	pl := strings.Repeat(ch, n)
	code := Pick(c, 200, 418)
	ct, want := "text/plain; charset=utf-8", pl
	var err error
	e := c12Engine(n%3, func(ctx *water.Context) {
		switch which {
		case 0:
			ctx.String(code, pl)
		case 1:
			ct = "text/html; charset=utf-8"
			ctx.HTMLRaw(code, pl)
		case 2:
			ct = "image/x-thing"
			ctx.Data(code, ct, []byte(pl))
		case 3:
			ct = "application/json; charset=utf-8"
			err = ctx.JSON(code, []string{pl, "end"})
		case 4:
			ct = "application/xml; charset=utf-8"
			err = ctx.XML(code, c12In{X: n, Y: pl})
		case 5:
			ct, code = "application/x-s", 200
			err = ctx.Stream(ct, &chunkReader{data: []byte(pl), failAt: -1, chunk: 1 + n/50})
		}
	})
	r, p := deliver(false, e, "GET", "/p")
	c.Step()
	if r.status == 0 && which == 5 && n == 0 { // nothing written: the server will send 200
		r.status, r.h = 200, http.Header{"Content-Type": {ct}}
	}
	switch which {
	case 3:
		want = jsonText([]string{pl, "end"})
	case 4:
		want = xmlText(c12In{X: n, Y: pl})
	}
	got := r.body
	if which == 3 {
		if sameJSON(got, want) == "" {
			got = want
		}
	}
	if which == 4 && strings.HasPrefix(got, "<?xml") {
		got = strings.TrimLeft(got[strings.Index(got, "?>")+2:], "\n")
	}
	if p != nil || err != nil || r.status != code || got != want || !sameType(r.h.Get("Content-Type"), ct) {
		c.Failf("sizes", "helper %d with %d times %q: panic %v error %v status %d type %q, %d bytes, expected %d of %q", which, n, ch, p, err, r.status, r.h.Get("Content-Type"), len(got), len(want), ct)
	}
	c.State(fmt.Sprint(n, which, ch, code))
}

func jsonText(v interface{}) string { b, err := json.Marshal(v); must(err); return string(b) }
func xmlText(v interface{}) string  { b, err := xml.Marshal(v); must(err); return string(b) }

// c14Long: long histories: one kind, then another many times, then the first.
func c14Long(kinds, before []rkind, ns []int) Body {
	memo := map[string]string{}
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		static := c.Bool()
		nf := !static
		a := PickS(c, kinds)
		n := PickS(c, ns)
		b := PickS(c, before)
		e := c14Engine(static, nf)
		ask := func(k rkind, tag string, when string) {
			mk := fmt.Sprint(static, nf, k.name, tag)
			want, ok := memo[mk]
			if !ok {
				want = outcomeOf(c14Engine(static, nf), k.req(tag))
				memo[mk] = want
			}
			got := outcomeOf(e, k.req(tag))
			c.Step()
			if got != want {
				c.Failf("trace-left", "static=%v notfound=%v: %s the request %q is answered\n %s\nby a fresh engine\n %s", static, nf, when, k.name, got, want)
			}
		}
		tags := []string{"r", "ss", "ttt"}
		for i := 0; i < n; i++ {
			ask(b, tags[i%3], fmt.Sprintf("after %d times %q", i, b.name))
			if c.Failed() {
				return
			}
		}
		ask(a, "fin", fmt.Sprintf("after %d times %q", n, b.name))
		ask(a, "r", fmt.Sprintf("after %d times %q and one %q", n, b.name, a.name))
		c.State(fmt.Sprint(static, a.name, b.name, n))
	}
}

// c17Sizes: long lists in the configuration.
func c17Sizes(c *C) {
	n := PickS(c, countsTo(300))
	at := c.Choose(8)
	what := c.Choose(4)
	list := func(f string) (o []string) {
		for i := 0; i < n; i++ {
			o = append(o, fmt.Sprintf(f, i))
		}
		return
	}
	cfg := water.CORSConfig{AllowOrigins: []string{"http://h0.example", "http://h1.example"}, AllowCredentials: n%2 == 0, MaxAge: n}
	origin := "http://h1.example"
	switch what {
	case 0:
		cfg.AllowOrigins = list("http://h%d.example")
		i := []int{0, n - 1, n, n / 2, n - 2, 9, 99, -1}[at]
		origin = fmt.Sprintf("http://h%d.example", i)
		if at == 7 { // the wild card at the end
			cfg.AllowOrigins = append(cfg.AllowOrigins, "*")
			origin = "http://other.example"
		}
	case 1:
		cfg.AllowMethods = list("M%d")
	case 2:
		cfg.AllowHeaders = list("X-H%d")
	case 3:
		cfg.ExposeHeaders = list("X-E%d")
	}
	if what > 0 && at > 1 {
		return
	}
	c17Check(c, cfg, []string{"GET", "OPTIONS"}[c.Choose(2)], origin, "PUT", strings.Join(list("X-R%d"), ", "), at%2 == 0, at%3)
}

// c18Sizes: deep directories, long names, large files, full directories.
func c18Sizes(c *C) {
	kind := c.Choose(4)
	n := PickS(c, [][]int{countsTo(130)[1:], {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 250, 251, 252, 253, 254, 255}, longSizes, {0, 1, 2, 3, 9, 10, 11, 49, 50, 51, 63, 64, 65, 99, 100, 101, 199, 200, 255, 256, 257, 500}}[kind])
	mt := Pick(c, c18Mounts[0], c18Mounts[1])
	if kind == 3 {
		mt = c18Mounts[0]
	}
	root, err := os.MkdirTemp(scratch(), "c18s")
	must(err)
	defer os.RemoveAll(root)
	dir, file, body := "", "f.bin", "content\x00"
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			dir += fmt.Sprintf("/d%d", i)
		}
	case 1:
		file = strings.Repeat("n", n)
	case 2:
		body = strings.Repeat("0123456789abcdef", n/16+1)[:n]
	case 3:
		dir = "/full"
	}
	must(os.MkdirAll(root+dir, 0755))
	must(os.WriteFile(root+dir+"/"+file, []byte(body), 0644))
	want := map[string]bool{file: true}
	if kind == 3 {
		for i := 1; i < n; i++ {
			f := fmt.Sprintf("x%03d", i)
			must(os.WriteFile(root+dir+"/"+f, nil, 0644))
			want[f] = true
		}
	}
	r := water.NewRouter()
	mt.mk(r, root)
	e := r.Handler()
	get := func(p string, hs ...string) resp {
		got, pv := deliver(false, e, "GET", "/s"+p, hs...)
		c.Step()
		if pv != nil {
			c.Failf("panic", "%s kind %d size %d: %v", mt.name, kind, n, pv)
		}
		return got
	}
	desc := fmt.Sprintf("%s, %s %d", mt.name, []string{"directories", "length of the name", "length of the file", "files in the directory"}[kind], n)
	got := get(dir + "/" + file)
	if got.status != 200 || got.body != body {
		c.Failf("content", "%s: status %d, %d bytes, expected %d", desc, got.status, len(got.body), len(body))
	}
	if got := get(dir + "/" + file + "x"); got.status != 404 {
		c.Failf("missing", "%s: another name gives %d %q", desc, got.status, clip(got.body, 60))
	}
	if kind == 0 {
		if got := get(dir[:strings.LastIndex(dir, "/")] + "/dx/" + file); got.status != 404 {
			c.Failf("missing", "%s: another directory gives %d", desc, got.status)
		}
		up := strings.Repeat("/..", n)
		if got := get(dir + up + up + "/../../etc/passwd"); strings.Contains(got.body, "root:") {
			c.Failf("leak", "%s: delivers a file outside", desc)
		}
	}
	if kind == 2 && n > 2 {
		if got := get("/"+file, fmt.Sprintf("Range: bytes=%d-", n-2)); got.status != 206 || got.body != body[n-2:] {
			c.Failf("range", "%s: the last two bytes: status %d %q", desc, got.status, clip(got.body, 60))
		}
	}
	if kind == 3 {
		got := get("/full/")
		seen := map[string]bool{}
		for _, h := range hrefRe.FindAllStringSubmatch(got.body, -1) {
			u, err := url.Parse(html.UnescapeString(h[1]))
			if err == nil {
				seen[u.Path] = true
			}
		}
		if got.status != 404 && (got.status != 200 || fmt.Sprint(sortedSet(seen)) != fmt.Sprint(sortedSet(want))) {
			c.Failf("listing", "%s: status %d, lists %d of %d", desc, got.status, len(seen), len(want))
		}
	}
	c.State(desc)
}

// c20Sizes: many values, many keys, long values.
func c20Sizes(c *C) {
	kind := c.Choose(4)
	n := PickS(c, counts)
	if kind == 3 {
		n = PickS(c, longSizes[:len(longSizes)-1]) // net/http limits forms to 10 MB
	}
	way := PickS(c, c20Ways)
	inURL := c.Bool()
	ps := []kv{{"b", "y"}}
	names := []string{"a", "b", "m", "k0", fmt.Sprint("k", n/2), fmt.Sprint("k", n-1), "none"}
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			ps = append(ps, kv{"a", fmt.Sprintf(" v%d ", i)})
		}
	case 1:
		for i := 0; i < n; i++ {
			ps = append(ps, kv{fmt.Sprint("k", i), fmt.Sprint("v", i)})
		}
	case 2:
		for i := 0; i < n; i++ {
			ps = append(ps, kv{fmt.Sprintf("m[x%d]", i), fmt.Sprint("v", i)})
		}
	case 3:
		ps = append(ps, kv{"a", strings.Repeat("é+", n)}, kv{"m[" + strings.Repeat("k", n) + "]", "v"}, kv{"a", "2"})
	}
	var u, b []kv
	if inURL {
		u, b = ps, []kv{{"a", "body"}, {"m[x0]", "body"}}
	} else {
		u, b = []kv{{"a", "url"}, {"m[x0]", "url"}}, ps
	}
	req, form := wayReq(way, u, b, 0)
	desc := fmt.Sprintf("%s, kind %d (values, names, map entries, length) %d, in the URL %v", way.name, kind, n, inURL)
	bad := ""
	ran := false
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		ran = true
		for i := 0; i < 6 && bad == ""; i++ {
			for _, nm := range names {
				if bad = c20Ask(ctx, form, i, nm); bad != "" {
					break
				}
				c.Step()
			}
		}
	}
	for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE"} {
		regMethod(r, m, "/q", h)
	}
	_, p := Serve(r.Handler(), req)
	if p != nil {
		c.Failf("panic", "%s: %v", desc, p)
	} else if !ran {
		c.Failf("none", "%s: the handler did not run", desc)
	} else if bad != "" {
		c.Failf("value", "%s: %s", desc, clip(bad, 400))
	}
	c.State(desc)
}

// c21Long: numerals of many digits.
func c21Long(c *C) {
	n := PickS(c, counts[1:])
	text := Pick(c, "0", "1", "9", "-0", "+0", "0.", "0x0", " ")
	tail := Pick(c, "7", "x", "", "e5", ".5", " ")
	body := text[len(text)-1:]
	c21One(c, text+strings.Repeat(body, n)+tail, "5", true)
}

// c22Sizes: many proxies in one or many headers.
func c22Sizes(c *C) {
	n := PickS(c, counts)
	many := c.Bool()
	sep := Pick(c, ", ", ",")
	junk := c.Bool()
	var es []string
	for i := 0; i < n; i++ {
		if junk && i%5 == 3 {
			es = append(es, "unknown")
			continue
		}
		es = append(es, fmt.Sprintf("10.%d.%d.1", i/200, i%200))
	}
	c22Run(c, func(req *http.Request) {
		if many {
			for _, e := range es {
				req.Header.Add("X-Forwarded-For", e)
			}
		} else if n > 0 {
			req.Header.Set("X-Forwarded-For", strings.Join(es, sep))
		}
	}, "GET", func(ctx *water.Context) string {
		want := "192.0.2.1"
		if n > 0 {
			want = es[0]
		}
		if ip := ctx.RealIp(); ip != want {
			return fmt.Sprintf("RealIp is %q, expected %q", ip, want)
		}
		if got := ctx.Proxy(); !sameStrings(noEmpty(got), es) {
			return fmt.Sprintf("Proxy has %d entries, expected %d: %q", len(got), n, clip(fmt.Sprint(got), 200))
		}
		return ""
	}, fmt.Sprintf("%d proxies, in headers of their own %v, separator %q, names among them %v", n, many, sep, junk))
}

// c22Long: long header values.
func c22Long(c *C) {
	n := PickS(c, longSizes[:len(longSizes)-4])
	v := strings.Repeat("v", n)
	which := Pick(c, "User-Agent", "X-Any", "Content-Type", "Host")
	c22Run(c, func(req *http.Request) {
		if which == "Host" {
			req.Host = v
			return
		}
		req.Header.Set(which, v)
	}, "GET", func(ctx *water.Context) string {
		got := ""
		switch which {
		case "User-Agent":
			got = ctx.UserAgent()
		case "Content-Type":
			got = ctx.ContentType()
		case "X-Any":
			got = ctx.GetHeader("x-any")
		case "Host":
			got = ctx.Request.Host
		}
		if got != v {
			return fmt.Sprintf("%s of %d bytes is reported with %d", which, n, len(got))
		}
		return ""
	}, fmt.Sprint(which, n))
}

// c23Sizes: many cookies, long values.
func c23Sizes(c *C) {
	n := PickS(c, countsTo(130))
	size := Pick(c, 0, 1, 31, 32, 33, 100, 255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 3999, 4000)
	if n > 20 && size > 300 {
		return
	}
	r := water.NewRouter()
	name := func(i int) string { return fmt.Sprint("c", i) }
	val := func(i int) string { return strings.Repeat(string(rune('a'+i%26)), size) }
	r.GET("/set", func(ctx *water.Context) {
		for i := 0; i < n; i++ {
			ctx.SetCookie(name(i), val(i), i+1)
		}
		ctx.Abort(204)
	})
	bad := ""
	r.GET("/get", func(ctx *water.Context) {
		for i := 0; i <= n; i++ {
			want := val(i)
			if i == n {
				want = ""
			}
			if got := ctx.Cookie(name(i)); got != want {
				bad = fmt.Sprintf("Cookie(%s) has %d bytes, expected %d", name(i), len(got), len(want))
			}
		}
	})
	e := r.Handler()
	got, p := deliver(false, e, "GET", "/set")
	c.Step()
	cs := (&http.Response{Header: got.h}).Cookies()
	desc := fmt.Sprintf("%d cookies with %d bytes each", n, size)
	if p != nil || len(cs) != n {
		c.Failf("sizes", "%s: panic %v, the client got %d", desc, p, len(cs))
		return
	}
	req := Req("GET", "/get")
	for i, k := range cs {
		if k.Name != name(i) || k.Value != val(i) || k.MaxAge != i+1 || k.Path != "/" {
			c.Failf("sizes", "%s: number %d is %s with %d bytes", desc, i, k.Name, len(k.Value))
			return
		}
		req.AddCookie(&http.Cookie{Name: k.Name, Value: k.Value})
	}
	if _, p := Serve(e, req); p != nil || bad != "" {
		c.Failf("sizes", "%s: reading back: %v %s", desc, p, bad)
	}
	c.State(desc)
}

// c24Sizes: many values.
func c24Sizes(c *C) {
	n := PickS(c, counts)
	spread := c.Choose(3) // all in one handler, one per middleware, half and half
	mixed := c.Bool()
	set := func(ctx *water.Context, i int) bool {
		var v interface{} = i
		if i%4 == 1 {
			v = nil
		}
		return !quiet(func() {
			if mixed && i%2 == 1 {
				ctx.Environ.Set(fmt.Sprint("k", i), v)
			} else {
				ctx.Set(fmt.Sprint("k", i), v)
			}
		})
	}
	bad := ""
	r := water.NewRouter()
	lo, hi := 0, n
	if spread > 0 {
		lo = n / spread
		for i := 0; i < lo; i++ {
			i := i
			r.Use(func(ctx *water.Context) {
				if !set(ctx, i) {
					bad = fmt.Sprintf("Set of k%d is refused", i)
				}
			})
		}
	}
	r.GET("/x", func(ctx *water.Context) {
		for i := lo; i < hi; i++ {
			if !set(ctx, i) {
				bad = fmt.Sprintf("Set of k%d is refused", i)
			}
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			v, ok := ctx.GetMaybe(k)
			if !ok || i%4 != 1 && v != i || i%4 == 1 && v != nil || !ctx.Environ.Has(k) {
				bad = fmt.Sprintf("%s is %v, %v", k, v, ok)
			}
			if set(ctx, i) {
				bad = fmt.Sprintf("%s is set twice", k)
			}
		}
		if len(ctx.Environ) != n || ctx.Environ.Has(fmt.Sprint("k", n)) {
			bad = fmt.Sprintf("%d values are there", len(ctx.Environ))
		}
	})
	e := r.Handler()
	for i := 0; i < 3; i++ {
		if _, p := Serve(e, Req("GET", "/x")); p != nil || bad != "" {
			c.Failf("sizes", "%d values, spread %d: request %d: %v %s", n, spread, i, p, bad)
			return
		}
		c.Step()
	}
	c.State(fmt.Sprint(n, spread, mixed))
}

type c27Lists struct {
	S []string `form:"s" header:"s" uri:"s"`
	I []int    `form:"i" header:"i" uri:"i"`
	P []*uint8 `form:"p" header:"p" uri:"p"`
}

// c27Sizes: long lists of values, one of them wrong or none.
func c27Sizes(c *C) {
	n := PickS(c, counts[1:])
	src := c.Choose(6)
	second := c.Bool()
	field := c.Choose(3)
	badAt := c.Choose(5)
	if src == 5 && second || field == 2 && !c27Accepts(second, shSlicePtr) {
		return
	}
	pos := []int{-1, 0, n / 2, n - 1, n - 2}[badAt]
	if pos < 0 && badAt > 0 {
		return
	}
	name := []string{"s", "i", "p"}[field]
	var vals []string
	for i := 0; i < n; i++ {
		v := fmt.Sprint(i % 251)
		if field == 0 {
			v = "v" + v
		}
		if i == pos {
			v = []string{"v", "x1", "256"}[field]
		}
		vals = append(vals, v)
	}
	key := name
	if src == 3 {
		key = http.CanonicalHeaderKey(name)
	}
	var got c27Lists
	var err error
	p := quiet(func() { err = bindFrom(src, second, map[string][]string{key: vals}, &got) })
	c.Step()
	desc := fmt.Sprintf("%s of %d values, bad one at %d, from %s, second implementation %v", name, n, pos, srcNames[src], second)
	wantErr := pos >= 0 && (field == 1 || field == 2)
	if p || (err != nil) != wantErr {
		c.Failf("sizes", "%s: panic %v, error %v, expected one %v", desc, p, err, wantErr)
		return
	}
	if err == nil {
		var texts []string
		for i := range vals {
			switch field {
			case 0:
				if i < len(got.S) {
					texts = append(texts, got.S[i])
				}
			case 1:
				if i < len(got.I) {
					texts = append(texts, fmt.Sprint(got.I[i]))
				}
			case 2:
				if i < len(got.P) && got.P[i] != nil {
					texts = append(texts, fmt.Sprint(*got.P[i]))
				}
			}
		}
		if !sameStrings(texts, vals) || len(got.S)+len(got.I)+len(got.P) != n {
			c.Failf("sizes", "%s: bound %s", desc, clip(fmt.Sprint(texts), 300))
		}
	}
	c.State(desc)
}

type c28One struct {
	A string `form:"a" header:"a" uri:"a"`
	B string `form:"b" header:"b" uri:"b"`
	C struct {
		D string `form:"d" header:"d" uri:"d"`
	}
}

// c28Sizes: fields among many other names.
func c28Sizes(c *C) {
	n := PickS(c, counts)
	src := c.Choose(6)
	second := c.Bool()
	has := c.Choose(8)
	if src == 5 && second {
		return
	}
	data := map[string][]string{}
	key := func(s string) string {
		if src == 3 {
			return http.CanonicalHeaderKey(s)
		}
		return s
	}
	for i := 0; i < n; i++ {
		data[key(fmt.Sprint("x", i))] = []string{"other"}
		data[key(fmt.Sprint("a", i))] = []string{"other"}
	}
	got := c28One{A: "pa", B: "pb"}
	got.C.D = "pd"
	want := got
	for i, f := range []struct {
		n string
		p *string
	}{{"a", &want.A}, {"b", &want.B}, {"d", &want.C.D}} {
		if has&(1<<i) != 0 {
			data[key(f.n)] = []string{"new " + f.n}
			*f.p = "new " + f.n
		}
	}
	var err error
	p := quiet(func() { err = bindFrom(src, second, data, &got) })
	c.Step()
	if p || err != nil || got != want {
		c.Failf("sizes", "%d other names, from %s, second implementation %v, present %03b: bound %+v (panic %v, error %v), expected %+v", 2*n, srcNames[src], second, has, got, p, err, want)
	}
	c.State(fmt.Sprint(n, src, second, has))
}

// c30Sizes: an invalid element anywhere in long lists.
func c30Sizes(c *C) {
	n := PickS(c, counts[1:])
	at := c.Choose(6)
	pos := []int{-1, 0, 1, n / 2, n - 2, n - 1}[at]
	ptr := c.Bool()
	way := c.Choose(3)
	var sb strings.Builder
	sb.WriteByte('[')
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		if i == pos {
			sb.WriteString(c30Elems[1])
		} else {
			sb.WriteString(c30Elems[0])
		}
	}
	sb.WriteByte(']')
	doc := sb.String()
	wantErr := pos >= 0 && pos < n
	var obj interface{} = new([]v30)
	if ptr {
		obj = new([]*v30)
	}
	var err error
	var p bool
	withValidator(valDefault, func() {
		p = quiet(func() {
			req := ReqBody("POST", "/b", "application/json", []byte(doc))
			switch way {
			case 0:
				err = binding.JSON.Bind(req, obj)
			case 1:
				c30Serve(req, func(ctx *water.Context) { err = ctx.Bind(obj) })
			case 2:
				c30Serve(req, func(ctx *water.Context) { err = ctx.BindWith(obj, binding.JSON) })
			}
		})
	})
	c.Step()
	if p || (err != nil) != wantErr {
		c.Failf("sizes", "a list of %d (pointers %v) with the invalid element at %d, way %d: panic %v, error %v", n, ptr, pos, way, p, err)
	}
	c.State(fmt.Sprint(n, pos, ptr, way))
}

// c32Sizes: names of many lengths.
func c32Sizes(c *C) {
	n := PickS(c, []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 75, 76, 77, 78, 79, 80, 99, 100, 120, 127, 128, 129, 200, 240, 250, 255, 256, 257, 300, 512, 1000, 1024, 4096})
	ch := Pick(c, "a", " ", "\"", "é", "中", "😀", "%")
	name := strings.Repeat(ch, n) + ".txt"
	if c.Bool() {
		name = "x" + strings.Repeat(ch, n)
	}
	down := len(name) <= 255 && c.Bool()
	c32Serve(c, false, down, name, "content", PickS(c, c32Inline), "GET", "", 0)
}

// c25Sizes: many files and values, and sizes up to the limit and beyond.
func c25Sizes(c *C) {
	n := PickS(c, countsTo(130))
	size := Pick(c, 0, 1, 100, 1023, 1024, 1025)
	limit := Pick(c, int64(1<<20), int64(0), int64(1500))
	via := c.Choose(viaN)
	if n > 70 && limit != 1<<20 {
		return
	}
	var files []c25File
	var values []kv
	for i := 0; i < n; i++ {
		files = append(files, c25File{[]string{"f", "g"}[i%2], fmt.Sprintf("n%d.bin", i), strings.Repeat(string(rune('a'+i%26)), size)})
		values = append(values, kv{"v", fmt.Sprint("value ", i)})
	}
	tmp := c25Tmp()
	ct, body := c25Form(files, values)
	bad, ran := "", false
	r := water.NewRouter()
	r.POST("/up", func(ctx *water.Context) {
		ran = true
		bad = c25See(c, ctx, via, files, values, limit, tmp, 0)
		if ctx.Request.MultipartForm != nil {
			ctx.Request.MultipartForm.RemoveAll()
		}
	})
	e := r.Handler(water.WithMaxMultipartMemory(limit))
	_, p := Serve(e, ReqBody("POST", "/up", ct, body))
	c.Step()
	if p != nil || !ran || bad != "" {
		c.Failf("sizes", "%d files with %d bytes, limit %d, entry %d: panic %v, ran %v, %s", n, size, limit, via, p, ran, bad)
	}
	c.State(fmt.Sprint(n, size, limit, via))
}

// edgeSizes are powers of two and buffer sizes from 256 bytes to max, their multiples and neighbours.
func edgeSizes(max int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n <= max && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for p := 256; p <= max; p *= 2 {
		for _, d := range []int{0, -1, 1, p / 2} {
			add(p + d)
		}
	}
	for _, n := range []int{0, 1, 511, 513, 1000, 1500, 4000, 5 << 10, 10000, 10 << 10, 60000, 65535, 80 << 10, 96 << 10, 100000, 160 << 10, 224 << 10, 320 << 10, 1000000} {
		add(n)
	}
	return
}

// c25Edges: one upload of an edge size saved.
func c25Edges(max int) Body {
	return func(c *C) { c25Edge(c, max) }
}

func c25Edge(c *C, max int) {
	size := PickS(c, edgeSizes(max))
	limit := Pick(c, int64(8<<20), int64(0), int64(size), int64(size-1), int64(size+1))
	pre := c.Choose(3)
	ways := []int{viaParse, viaFormFile, viaBind, viaBind2}
	via := ways[c.Choose(len(ways))]
	if limit < 0 {
		return
	}
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	files := []c25File{{"f", "n.bin", string(b)}}
	tmp := c25Tmp()
	ct, body := c25Form(files, nil)
	bad, ran := "", false
	r := water.NewRouter()
	r.POST("/up", func(ctx *water.Context) {
		ran = true
		bad = c25See(c, ctx, via, files, nil, limit, tmp, pre)
		if ctx.Request.MultipartForm != nil {
			ctx.Request.MultipartForm.RemoveAll()
		}
	})
	e := r.Handler(water.WithMaxMultipartMemory(limit))
	_, p := Serve(e, ReqBody("POST", "/up", ct, body))
	c.Step()
	if p != nil || !ran || bad != "" {
		c.Failf("edges", "a file of %d bytes, limit %d, entry %d, destination before %d: panic %v, ran %v, %s", size, limit, via, pre, p, ran, bad)
	}
	c.State(fmt.Sprint(size, limit, via, pre))
}

func addScopes(id string, s ...Scope) {
	All[id].Scopes = append(All[id].Scopes, s...)
}

func init() {
	addScopes("C07", Scope{Name: "sizes", Desc: "36 nesting depths up to 66 x 17 numbers of middleware per level up to 65 (at most 600), with sibling groups, registered before or after the routes", Body: c07Sizes, Split: 3})
	addScopes("C08", Scope{Name: "sizes", Desc: "tables of 37 sizes up to 300 in 9 shapes; one more route that is new, a repetition of each of 20 positions, a renamed one or malformed", Body: c08Sizes, Split: 2},
		Scope{Name: "sizes-deep", Desc: "patterns of 33 lengths up to 300 segments of 4 kinds with 13 ends, valid and malformed", Body: c08Deep, Split: 2})
	addScopes("C09", Scope{Name: "sizes", Desc: "24 numbers up to 257 of routes, handlers, nested groups, sibling groups: all listings and what handlers see", Body: c09Sizes, Split: 2})
	addScopes("C11", Scope{Name: "sizes", Desc: "61 numbers of writes up to 300 x 14 lengths up to 1 MiB x 3 statuses", Body: c11Sizes, Split: 2})
	addScopes("C12", Scope{Name: "sizes", Desc: "58 payload lengths up to 1 MiB of 3 characters through String, HTMLRaw, Data, JSON, XML, Stream", Body: c12Sizes, Split: 2})
	core := kindsNamed("param", "regexp", "static", "chain", "boom", "unmatched", "405", "form", "bind json", "file")
	addScopes("C14", Scope{Name: "long", Desc: "12 history lengths up to 300 of each of 46 kinds, every single answer compared, followed by each of 10 kinds", Body: c14Long(core, c14Kinds, []int{9, 16, 33, 65, 129, 257}), Split: 3},
		Scope{Name: "longer", Desc: "histories of up to 5000 requests of 10 kinds", Body: c14Long(core[:2], core, []int{1001, 5000}), Split: 3, Thorough: true})
	addScopes("C17", Scope{Name: "sizes", Desc: "61 lengths up to 300 of the lists of origins (8 positions asked), methods, headers, exposed headers, and as many requested headers", Body: c17Sizes, Split: 2})
	addScopes("C18", Scope{Name: "sizes", Desc: "48 directory depths up to 130, 23 name lengths up to 255, 37 file lengths up to 1 MiB, 22 directory sizes up to 500", Body: c18Sizes, Split: 2})
	addScopes("C20", Scope{Name: "sizes", Desc: "61 numbers up to 300 of values, names, map entries and 36 lengths up to 65537 x 8 ways x URL or body", Body: c20Sizes, Split: 3})
	addScopes("C21", Scope{Name: "long", Desc: "numerals of 60 lengths up to 300 with 8 beginnings and 6 ends", Body: c21Long, Split: 2})
	addScopes("C22", Scope{Name: "sizes", Desc: "61 numbers of proxies up to 300 in one header or as many", Body: c22Sizes, Split: 2},
		Scope{Name: "long", Desc: "header values of 33 lengths up to 16384", Body: c22Long, Split: 2})
	addScopes("C23", Scope{Name: "sizes", Desc: "50 numbers of cookies up to 130 x 17 lengths up to 4000", Body: c23Sizes, Split: 2})
	addScopes("C24", Scope{Name: "sizes", Desc: "61 numbers of values up to 300 set by one handler or spread over the chain, each set again, 3 requests", Body: c24Sizes, Split: 2})
	addScopes("C25", Scope{Name: "edges", Desc: "uploads of 65 sizes up to 1 MiB at and around powers of two and buffer sizes, limits at and around the size, 4 entries, saved over 3 kinds of destination", Body: c25Edges(1<<20), Split: 2},
		Scope{Name: "edges-8M", Desc: "the same up to 8 MiB", Body: c25Edges(8<<20), Split: 2, Thorough: true})
	addScopes("C25", Scope{Name: "sizes", Desc: "50 numbers of files and values up to 130 x 6 lengths x 3 limits x every entry", Body: c25Sizes, Split: 2})
	addScopes("C27", Scope{Name: "sizes", Desc: "lists of 60 lengths up to 300 of 3 types with a wrong value at 4 positions or none, 6 sources, both implementations", Body: c27Sizes, Split: 3})
	addScopes("C28", Scope{Name: "sizes", Desc: "every subset of 3 fields among 61 numbers of other names up to 600, 6 sources, both implementations", Body: c28Sizes, Split: 2})
	addScopes("C30", Scope{Name: "sizes", Desc: "lists of 60 lengths up to 300 with the invalid element at 5 positions or none", Body: c30Sizes, Split: 2})
	addScopes("C32", Scope{Name: "sizes", Desc: "names of 34 lengths up to 4096 repetitions of 7 characters", Body: c32Sizes, Split: 2})
}
