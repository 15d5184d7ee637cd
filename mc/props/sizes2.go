package props

import (
	"fmt"
	"io"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// c06Sizes: many Before and not-found handlers, tables with many routes, middleware and groups.
func c06Sizes(c *C) {
	nf := PickS(c, countsTo(130))
	before := PickS(c, []int{0, 1, 2, 3, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128})
	routes := Pick(c, 0, 1, 33, 300)
	static, stop := c.Bool(), c.Bool()
	var ran []string
	mw := func(tag string) func(*water.Context) { return func(ctx *water.Context) { ran = append(ran, tag) } }
	r := water.NewRouter()
	var want []string
	for i := 0; i < before; i++ {
		t := fmt.Sprint("b", i)
		r.Before(mw(t))
		if nf > 0 {
			want = append(want, t)
		}
	}
	r.Use(mw("use"))
	for i := 0; i < routes; i++ {
		g := r.Group(fmt.Sprint("/g", i), mw("g"))
		g.GET("/x", mw("route"))
		g.GET("/<h ~ ^q$>/y", mw("route"))
	}
	var hs []interface{}
	for i := 0; i < nf; i++ {
		t := fmt.Sprint("n", i)
		last := i == nf/2 && stop || i == nf-1
		if len(hs) > nf/2 && stop {
			hs = append(hs, mw("after"))
			continue
		}
		want = append(want, t)
		hs = append(hs, func(ctx *water.Context) {
			ran = append(ran, t)
			if last {
				ctx.WriteHeader(410)
			}
		})
	}
	opts := []water.Option{water.WithStaticRouter(static)}
	st := 404
	if nf > 0 {
		opts = append(opts, water.WithNoFoundHandlers(hs...))
		st = 410
	}
	e, ref := Build(func() *water.Engine { return r.Handler(opts...) })
	if ref != nil {
		c.Failf("refused", "refused: %v", ref)
		return
	}
	for _, p := range []string{"/none", "/g0", "/g0/", "/g299/z", "/g5/x/y", "/g5/w/y", "/" + strings.Repeat("z/", 400)} {
		ran = nil
		rec, pv := Serve(e, Req("GET", p))
		c.Step()
		if pv != nil || rec.Status != st || fmt.Sprint(ran) != fmt.Sprint(want) {
			c.Failf("sizes", "%d not-found handlers (writing in the middle %v), %d Before, %d groups, static %v: GET %s: status %d, panic %v, ran %s, expected %d %s", nf, stop, before, routes, static, clip(p, 30), rec.Status, pv, clip(fmt.Sprint(ran), 300), st, clip(fmt.Sprint(want), 300))
			return
		}
	}
	c.State(fmt.Sprint(nf, before, routes, static, stop))
}

// c13Sizes: panics at many positions of long chains, from deep stacks, many times.
func c13Sizes(c *C) {
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	n := Pick(c, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129)
	pos := []int{0, n / 2, n - 1}[c.Choose(3)]
	depth := Pick(c, 0, 10, 31, 32, 33, 150)
	text := Pick(c, 1, 70000)
	next := c.Bool()
	times := Pick(c, 1, 12)
	on := true
	var dive func(k int)
	dive = func(k int) {
		if k == 0 {
			panic(strings.Repeat("p", text))
		}
		dive(k - 1)
	}
	ran := 0
	r := water.NewRouter()
	r.Use(water.Recovery())
	for i := 0; i < n; i++ {
		i := i
		r.Use(func(ctx *water.Context) {
			ran++
			if i == pos && on {
				dive(depth)
			}
			if next {
				ctx.Next()
			}
		})
	}
	r.GET("/x", func(ctx *water.Context) { ran++; ctx.String(202, "fine") })
	e := r.Handler()
	desc := fmt.Sprintf("panic in handler %d of %d, %d calls deep, %d bytes of text, Next %v", pos, n, depth, text, next)
	for i := 0; i < times; i++ {
		on, ran = true, 0
		rec, p := Serve(e, Req("GET", "/x"))
		c.Step()
		if p != nil || rec.Status != 500 || rec.Body.Len() != 0 || ran != pos+1 || len(rec.Commits) != 1 {
			c.Failf("sizes", "%s: round %d: panic %v, status %d (%v), body %q, %d handlers ran", desc, i, p, rec.Status, rec.Commits, clip(rec.Body.String(), 60), ran)
			return
		}
		on, ran = false, 0
		rec, p = Serve(e, Req("GET", "/x"))
		c.Step()
		if p != nil || rec.Status != 202 || rec.Body.String() != "fine" || ran != n+1 {
			c.Failf("sizes", "%s: a request after round %d: panic %v, status %d, %d handlers ran", desc, i, p, rec.Status, ran)
			return
		}
	}
	c.State(desc + fmt.Sprint(times))
}

// c16Sizes: request bodies, paths and headers of many lengths under the logger.
func c16Sizes(c *C) {
	kind := c.Choose(4)
	n := PickS(c, append([]int{0, 3, 1<<20 - 1, 1<<20 + 1, 3 << 20}, longSizes...))
	body := c.Choose(2) == 1
	lg := Pick(c, true, false)
	times := Pick(c, 1, 3)
	if kind > 0 && n > 70000 || kind == 1 && n == 0 {
		return
	}
	pl, path, hv, rep := "{}", "/log/x", "", ""
	switch kind {
	case 0:
		pl = "\"" + strings.Repeat("b", n) + "\""
	case 1:
		path = "/log/" + strings.Repeat("p", n)
	case 2:
		hv = strings.Repeat("h", n)
	case 3:
		rep = strings.Repeat("r", n)
	}
	run := func(logged bool) (out []string) {
		r := water.NewRouter()
		if logged {
			r.Use(water.Logger())
		}
		r.POST("/log/*rest", func(ctx *water.Context) {
			b, err := io.ReadAll(ctx.Request.Body)
			out = append(out, fmt.Sprintf("%d %x %v %d %x %s", len(b), fnv64(string(b)), err, len(ctx.Param("rest")), fnv64(ctx.Request.URL.String()), clip(ctx.GetHeader("X-H"), 20)))
			ctx.String(201, rep)
		})
		e := r.Handler()
		for i := 0; i < times; i++ {
			req := ReqBody("POST", path, "application/json", []byte(pl))
			if hv != "" {
				req.Header.Set("X-H", hv)
			}
			rec, p := Serve(e, req)
			out = append(out, fmt.Sprintf("%s %v", rec.Summary(), p))
			c.Step()
		}
		return
	}
	water.LogHttpBody = body
	if !lg {
		water.LogClose = true
	}
	want := run(false)
	getLog()
	got := run(true)
	if lg {
		if k := strings.Count(theLog.text(), "[ water : "); k != times {
			c.Failf("lines", "kind %d size %d: %d requests are logged in %d lines", kind, n, times, k)
		}
	}
	if strings.Join(got, "|") != strings.Join(want, "|") {
		c.Failf("sizes", "kind %d (body, path, header, response) of %d bytes, bodies logged %v: with the logger\n%s\nwithout\n%s", kind, n, body, strings.Join(got, "|"), strings.Join(want, "|"))
	}
	c.State(fmt.Sprint(kind, n, body, lg, times))
}

// c29Sizes: long and deep documents, cut, broken at the end, or fine.
func c29Sizes(c *C) {
	isXML := c.Bool()
	n := PickS(c, counts[1:])
	how := c.Choose(6)
	form := c.Choose(3) // a list, a deep one, many members
	target := 0
	chunk := Pick(c, 0, 7)
	var open, item, sep, end string
	switch {
	case isXML && form == 0:
		open, item, end = "<r>", "<c>1</c>", "</r>"
	case isXML && form == 1:
		open, item, end = strings.Repeat("<z>", n), "<a>1</a>", strings.Repeat("</z>", n)
	case isXML:
		open, item, end = "<r>", "<q>x</q><a>1</a>", "</r>"
	case form == 0:
		open, item, sep, end = `{"c":[`, "1", ",", "]}"
	case form == 1:
		open, item, end = `{"g":`+strings.Repeat("[", n), "1", strings.Repeat("]", n)+"}"
	default:
		open, item, sep, end = `{`, `"a":1`, ",", "}"
	}
	body := open
	k := n
	if form == 1 {
		k = 1
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			body += sep
		}
		if i == k-1 && how == 1 {
			if isXML {
				body += "<a>x</a>"
			} else if form == 2 {
				body += `"a":"x"`
			} else {
				body += "tru"
			}
			continue
		}
		body += item
	}
	switch how {
	case 0, 1:
		body += end
	case 2: // cut
	case 3:
		body += end[:len(end)-1]
	case 4:
		body += "!" + end
	case 5:
		body += end[1:]
	}
	s := c29One(isXML, target, body, chunk, 3)
	c.Steps(3)
	if s != "" {
		c.Failf("sizes", "xml %v form %d size %d broken %d, chunks of %d: %s (%q)", isXML, form, n, how, chunk, clip(s, 300), clip(body, 100))
	}
	c.State(fmt.Sprint(isXML, n, how, form, chunk))
}

// c36Long: what a long history of requests leaves open.
func c36Long(c *C) {
	mod := c18Time
	fsys := &trackFS{files: map[string]fakeEntry{"/f": {body: "file", mod: mod}, "/": {dir: true, mod: mod}, "/d": {dir: true, mod: mod}, "/d/index.html": {body: "index", mod: mod}, "/e": {dir: true, mod: mod}}, faultN: -1, open: map[*trackFile]bool{}}
	index := Pick(c, "", "index.html")
	paths := []string{"/f", "/d/", "/e/", "/none", "/d"}
	a, b := PickS(c, paths), PickS(c, paths)
	period := Pick(c, 2, 3, 10)
	n := Pick(c, 33, 300, 1025)
	r := water.NewRouter()
	r.StaticAdvance(&water.StaticOptions{Prefix: "/s", IndexFile: index, FileSystem: fsys})
	e := r.Handler()
	for i := 0; i < n; i++ {
		p := a
		if i%period == period-1 {
			p = b
		}
		fsys.trace = nil
		Serve(e, Req("GET", "/s"+p))
		c.Step()
		if len(fsys.open) > 0 || len(fsys.bad) > 0 {
			c.Failf("leak", "after %d requests for %q, every %dth for %q, index %q: %d files are open, misuse %q", i+1, a, period, b, index, len(fsys.open), fsys.bad)
			return
		}
	}
	c.State(fmt.Sprint(index, a, b, period, n))
}

func init() {
	addScopes("C06", Scope{Name: "sizes", Desc: "50 numbers of not-found handlers up to 130 x 14 of Before up to 128 x 4 table sizes up to 300 groups, one of them writing in the middle or not; 7 unmatched paths", Body: c06Sizes, Split: 3})
	addScopes("C13", Scope{Name: "sizes", Desc: "chains of 19 lengths up to 129 with the panic at 3 positions, 6 depths of the stack up to 150, 2 lengths of its text, once or 12 times, each followed by a normal request", Body: c13Sizes, Split: 3})
	addScopes("C16", Scope{Name: "sizes", Desc: "bodies of 42 lengths up to 3 MiB, paths, headers and responses of 39 up to 65537", Body: c16Sizes, Split: 3})
	addScopes("C29", Scope{Name: "sizes", Desc: "JSON and XML lists, nestings and member lists of 60 lengths up to 300, fine or broken in 5 ways at the end", Body: c29Sizes, Split: 3})
	addScopes("C36", Scope{Name: "long", Desc: "histories of up to 1025 static requests mixing 2 of 5 kinds in 3 ratios: open files after each", Body: c36Long, Split: 3})
}
