package props

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// ---- C03: expressions that look alike

var c03Twins = []string{`\d`, `\D`, `\w`, `\W`, `[a-c]`, `[A-C]`, `(?i)ab`, `ab`, `AB`, `Ab`, `^a`, `^A`, `b$`, `B$`, `\pL`, `\PL`, `\bz`, `\Bz`, `\x41`, `\x61`, `a+`, `a*c`, `a?c`, `a.c`, `a\.c`, `[^a]`, `[a^]`, `b{2}`, `b{2,}`, `(?:ab)c`, `.`, `\.`}

var c03TwinSegs = []string{"a", "A", "ab", "AB", "Ab", "aB", "1", "-", "é", "z", "az", "a.c", "aXc", "ac", "c", "abc", "bb", "bbb", "^", "bA", "B", "."}

func c03Twin(c *C) {
	i, j := c.Choose(len(c03Twins)), c.Choose(len(c03Twins))
	how := c.Choose(4) // two branches of one engine; the second engine; plain and with parentheses
	ex := [2]string{c03Twins[i], c03Twins[j]}
	spell := func(e string) string {
		if how&2 == 2 {
			return "<x ~ (" + e + ")>"
		}
		return "<x ~ " + e + ">"
	}
	pre := [2]string{"/p/", "/q/"}
	var got string
	h := func(ctx *water.Context) { got = ctx.Param("x") }
	var es [2]http.Handler
	r := water.NewRouter()
	for k := 0; k < 2; k++ {
		k := k
		if how&1 == 1 {
			r = water.NewRouter()
		}
		r.GET(pre[k]+spell(ex[k]), h)
		if how&1 == 1 {
			e, ref := Build(func() *water.Engine { return r.Handler() })
			if ref != nil {
				c.Failf("refused", "%s: %v", spell(ex[k]), ref)
				return
			}
			es[k] = e
		}
	}
	if how&1 == 0 {
		e, ref := Build(func() *water.Engine { return r.Handler() })
		if ref != nil {
			c.Failf("refused", "%q: %v", ex, ref)
			return
		}
		es = [2]http.Handler{e, e}
	}
	for k := 0; k < 2; k++ {
		re := regexp.MustCompile("(" + ex[k] + ")")
		for _, s := range c03TwinSegs {
			m := re.FindStringSubmatch(s)
			got = "<none>"
			rec, p := Serve(es[k], Req("GET", pre[k]+s))
			c.Step()
			want := "<none>"
			if m != nil {
				want = m[1]
			}
			if p != nil || got != want || (rec.Status == 404) != (m == nil) {
				c.Failf("twin", "expressions %q, way %d: %s%s with %s: status %d, x is %q, expected %q (%v)", ex, how, pre[k], s, spell(ex[k]), rec.Status, got, want, p)
			}
		}
	}
	c.State(fmt.Sprint(ex, how))
}

// ---- C07: many handlers at every place they can be given

var c07Many = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33}

func c07Crowd(c *C) {
	place, n := c.Choose(8), PickS(c, c07Many)
	place2, n2 := c.Choose(8), Pick(c, 0, 1, 3, 6)
	next := c.Bool()
	var ran []string
	mk := func(t string) func(*water.Context) {
		return func(ctx *water.Context) {
			ran = append(ran, t)
			if next {
				ctx.Next()
			}
		}
	}
	counts := [8]int{}
	counts[place] += n
	counts[place2] += n2
	lists := [8][]interface{}{}
	want := [8][]string{}
	for p := range lists {
		for i := 0; i < counts[p]; i++ {
			t := fmt.Sprintf("%d.%d", p, i)
			want[p] = append(want[p], t)
			lists[p] = append(lists[p], mk(t))
		}
	}
	r := water.NewRouter()
	each := func(l []interface{}, f func(...interface{})) {
		for _, x := range l {
			f(x)
		}
	}
	end := func(ctx *water.Context) { ran = append(ran, "end") }
	r.Before(lists[0]...)
	each(lists[1], r.Use)
	in := func(g *water.Router) {
		g.Use(lists[3]...)
		g.GET("/x", end)
		each(lists[4], g.Use)
		g.Group("/s", func(s *water.Router) {
			each(lists[6], s.Use)
			s.GET("/y", append(append([]interface{}{}, lists[7]...), end)...)
		})
		g.GET("/z", end)
	}
	// the middleware given to Group, then its function, then more of both
	is := append([]interface{}{}, lists[2]...)
	is = append(is, in)
	is = append(is, lists[5]...)
	g := r.Group("/g", is...)
	g.GET("/w", end)
	r.GET("/o", end)
	// counts of what is in scope: those given to Group and those used inside belong to the group
	e := r.Handler()
	grp := append(append(append(append([]string{}, want[2]...), want[3]...), want[4]...), want[5]...)
	exp := map[string][]string{
		"/g/x":   grp,
		"/g/z":   grp,
		"/g/w":   grp,
		"/g/s/y": append(append(append([]string{}, grp...), want[6]...), want[7]...),
		"/o":     nil,
	}
	for _, p := range []string{"/g/x", "/g/z", "/g/w", "/g/s/y", "/o"} {
		for again := 0; again < 2; again++ {
			ran = nil
			_, pan := Serve(e, Req("GET", p))
			c.Step()
			w := append(append(append(append([]string{}, want[0]...), want[1]...), exp[p]...), "end")
			if pan != nil || !sameStrings(ran, w) {
				c.Failf("crowd", "%d at place %d, %d at place %d, next %v: %s ran %q, expected %q (%v)", n, place, n2, place2, next, p, ran, w, pan)
				return
			}
		}
	}
	c.State(fmt.Sprint(place, n, place2, n2, next))
}

// ---- C20: names close to each other, short and long

var c20Near = []string{"a", "A", "aa", "filters", "filter", "Filter", "filters_", "filtersearch", "filtersearch_by_name", "filtersearch_by_nam", "by_name", "filters.name", "filters-name", "filters name", "名", "名前", "filters%5B", strings.Repeat("n", 31), strings.Repeat("n", 32), strings.Repeat("n", 33), strings.Repeat("n", 300)}

func c20Close(c *C) {
	have, ask := PickS(c, c20Near), PickS(c, c20Near)
	second := Pick(c, "", "a", "filtersearch")
	way := c.Choose(3)
	form := url.Values{}
	for _, n := range []string{have, second} {
		if n != "" {
			form[n] = []string{" v ", "w" + n}
			form[n+"[k]"] = []string{" kv ", "x"}
			form[n+"["+n+"]"] = []string{"own"}
			form[n+"[]"] = []string{"list"}
		}
	}
	var req *http.Request
	switch way {
	case 0:
		req = withQuery(Req("GET", "/p"), form.Encode())
	case 1:
		req = ReqBody("POST", "/p", "application/x-www-form-urlencoded", []byte(form.Encode()))
	case 2:
		var ps []kv
		for _, k := range sortedNames(form) {
			for _, v := range form[k] {
				ps = append(ps, kv{k, v})
			}
		}
		ct, b := encodeMulti(ps)
		req = ReqBody("POST", "/p", ct, b)
	}
	bad := "the handler did not run"
	r := water.NewRouter()
	r.ANY("/p", func(ctx *water.Context) {
		bad = ""
		for round := 0; round < 2; round++ {
			for acc := 0; acc < 6 && bad == ""; acc++ {
				bad = c20Ask(ctx, form, acc, ask)
				c.Step()
			}
		}
	})
	_, p := Serve(r.Handler(), req)
	if p != nil || bad != "" {
		c.Failf("close", "%q and %q sent, way %d: %s %v", have, second, way, bad, p)
	}
	c.State(fmt.Sprint(have, ask, second, way))
}

// ---- C25: saving over what is there already

func c25Over(c *C) {
	size := Pick(c, 0, 1, 511, 512, 513, 1024, 1025, 4096, 4097, 32768, 32769, 65537, 1<<20+1)
	prior := c.Choose(9)
	disk := c.Bool()
	twice := c.Bool()
	body := make([]byte, size)
	for i := range body {
		body[i] = byte(i*7 + i>>8)
	}
	d, err := os.MkdirTemp(scratch(), "over")
	must(err)
	defer os.RemoveAll(d)
	c25Tmp()
	dst := filepath.Join(d, "dst")
	old := append([]byte{}, body...)
	switch prior {
	case 0: // absent
		old = nil
	case 1: // the first byte differs
		if size > 0 {
			old[0] ^= 1
		}
	case 2: // the last byte differs
		if size > 0 {
			old[size-1] ^= 1
		}
	case 3: // a byte in the middle
		if size > 0 {
			old[size/2] ^= 1
		}
	case 4: // the same
	case 5: // longer, the same beginning
		old = append(old, "more"...)
	case 6: // shorter, the same beginning
		old = old[:size/2]
	case 7: // empty
		old = []byte{}
	case 8: // zeroes of the same size
		old = make([]byte, size)
	}
	if old != nil {
		must(os.WriteFile(dst, old, 0644))
	}
	limit := int64(2 << 20)
	if disk {
		limit = 1
	}
	var errs []error
	r := water.NewRouter()
	r.POST("/up", func(ctx *water.Context) {
		src, fh, err := ctx.FormFile("f")
		if src != nil {
			src.Close()
		}
		errs = append(errs, err)
		if err == nil {
			errs = append(errs, ctx.SaveUploadedFile(fh, dst))
			if twice {
				errs = append(errs, ctx.SaveUploadedFile(fh, dst))
			}
		}
	})
	e := r.Handler(water.WithMaxMultipartMemory(limit))
	p := c25Serve(c, e, "POST", []c25File{{"f", "n", string(body)}}, nil, 4096)
	now, rerr := os.ReadFile(dst)
	if p != nil || rerr != nil || !bytes.Equal(now, body) || len(errs) < 2 {
		c.Failf("over", "an upload of %d bytes (disk %v, twice %v) saved over state %d: %v %v %v, then %d bytes, equal %v", size, disk, twice, prior, p, rerr, errs, len(now), bytes.Equal(now, body))
	}
	for _, x := range errs {
		if x != nil {
			c.Failf("over-err", "an upload of %d bytes saved over state %d: %v", size, prior, errs)
		}
	}
	c.State(fmt.Sprint(size, prior, disk, twice))
}

func init() {
	addScopes("C03", Scope{Name: "twins", Desc: fmt.Sprintf("every ordered pair of %d expressions that differ in case, class or a quantifier, in two branches of one engine or two engines, with and without parentheses, %d segments each", len(c03Twins), len(c03TwinSegs)), Body: c03Twin, Split: 2})
	addScopes("C07", Scope{Name: "crowds", Desc: "up to 33 handlers at one of 8 places (Before, Use outside and inside a group function, arguments of Group before and after it, a subgroup, the route) and up to 6 at another, with and without Next: 5 routes, each asked twice", Body: c07Crowd, Split: 2})
	addScopes("C20", Scope{Name: "close", Desc: fmt.Sprintf("every ordered pair of %d names close to each other sent and asked x 3 further names x 3 ways, with the map and list spellings of each", len(c20Near)), Body: c20Close, Split: 2})
	addScopes("C25", Scope{Name: "over", Desc: "uploads of 13 sizes in memory or on disk saved once or twice over 9 states of the destination", Body: c25Over, Split: 2})
}

// ---- C02: values that are nearly equal

var c02Alike = []string{"abcdefgh", "ABCDEFGH", "Abcdefgh", "abcdefgh ", "abcdefg", "abcdefghi", "a", "A", "00000001", "1", "01", "ſ", "s", "K", "k", "é", "e\u0301", "true", "True", strings.Repeat("v", 40), strings.Repeat("v", 39) + "V"}

func c02Equal(c *C) {
	shape := PickS(c, []string{"/:a/:b/:c", "/<a>/x/<b>/<c>", "/<a ~ .+>/<b ~ .+>/<c ~ .+>", "/*/*/*", "/*a/*b/*c", "/:a/<b ~ .+>/*c", "/<a,z ~ (.)(.*)>/:b/:c"})
	v := [3]string{PickS(c, c02Alike), PickS(c, c02Alike), PickS(c, c02Alike)}
	var got map[string]string
	r := water.NewRouter()
	r.GET(shape, func(ctx *water.Context) {
		got = map[string]string{}
		for k, x := range ctx.Params {
			got[k] = x
		}
	})
	path := "/" + v[0] + "/" + v[1] + "/" + v[2]
	if strings.Contains(shape, "/x/") {
		path = "/" + v[0] + "/x/" + v[1] + "/" + v[2]
	}
	want := map[string]string{"a": v[0], "b": v[1], "c": v[2]}
	switch {
	case shape == "/*/*/*":
		want = map[string]string{"*0": v[0], "*1": v[1], "*2": v[2]}
	case strings.Contains(shape, "z"):
		f := []rune(v[0])
		want["a"], want["z"] = string(f[:1]), string(f[1:])
	}
	req := Req("GET", "/")
	req.URL.Path = path
	e := r.Handler()
	for i := 0; i < 2; i++ {
		got = nil
		_, p := Serve(e, req)
		c.Step()
		if p != nil || !sameMap(got, want) || got == nil {
			c.Failf("alike", "%s asked for %q: captures %q, expected %q (%v)", shape, path, mapStr(got), mapStr(want), p)
		}
	}
	c.State(fmt.Sprint(shape, v))
}

// ---- C05: methods that are nearly a known one

var c05Near = func() (o []string) {
	seen := map[string]bool{"CONNECT": true}
	known := []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}
	for _, k := range known {
		seen[k] = true
	}
	add := func(s string) {
		if !seen[s] && s != "" {
			seen[s] = true
			o = append(o, s)
		}
	}
	for _, k := range known {
		for i := range k {
			for b := byte('A'); b <= 'Z'; b++ {
				add(k[:i] + string(b) + k[i+1:])
			}
			for _, x := range []string{"-", "_", "1", "!", strings.ToLower(k[i : i+1])} {
				add(k[:i] + x + k[i+1:])
			}
			add(k[:i] + k[i+1:])
			add(k[:i] + k[i:i+1] + k[i:])
			add(k[:i] + strings.ToLower(k[i:]))
			add(k[:i])
			add(k[i:])
			if i > 0 {
				add(k[:i-1] + k[i:i+1] + k[i-1:i] + k[i+1:])
			}
		}
		for _, l := range known {
			add(k + l)
			add(k + "," + l)
		}
		add(" " + k)
		add(k + " ")
		add("X-" + k)
	}
	for b := 0; b < 256; b++ {
		add(string([]byte{byte(b)}))
	}
	return o
}()

func c05Nearly(c *C) {
	m := PickS(c, c05Near)
	way := c.Choose(4)
	ran := ""
	mk := func(s string) func(*water.Context) { return func(*water.Context) { ran += s } }
	r := water.NewRouter()
	var opts []water.Option
	opts = append(opts, water.WithStaticRouter(way&1 == 1))
	if way&2 == 2 {
		r.Before(mk("before "))
		opts = append(opts, water.WithNoFoundHandlers(water.HandlerFunc(mk("nf "))))
	}
	for _, k := range []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"} {
		regMethod(r, k, "/p", mk(k))
		regMethod(r, k, "/:x/y", mk(k))
	}
	e := r.Handler(opts...)
	for _, p := range []string{"/p", "/a/y", "/none"} {
		req := Req("GET", p)
		req.Method = m
		rec, pan := Serve(e, req)
		c.Step()
		if pan != nil || ran != "" || rec.Status != http.StatusMethodNotAllowed {
			c.Failf("nearly", "%q %s, way %d: status %d, ran %q (%v)", m, p, way, rec.Status, ran, pan)
			return
		}
	}
	c.State(fmt.Sprint(m, way))
}

// ---- C14: one path of several lengths and spellings, asked for with several methods

func c14Spelled(n int) Body {
	return func(c *C) {
		size := Pick(c, 1, 4, 8, 16, 24, 25, 32, 64, 65, 300)
		own := Pick(c, "GET", "POST", "OPTIONS")
		kind := c.Choose(4)
		p := "/" + strings.Repeat("abc-", size/4+1)[:size]
		if kind&1 == 1 {
			p = "/seg" + p
		}
		build := func() http.Handler {
			r := water.NewRouter()
			if kind&2 == 2 {
				regMethod(r, own, "/<x ~ ^abc>", func(ctx *water.Context) { ctx.String(200, "x="+ctx.Param("x")) })
				regMethod(r, own, "/seg/:h", func(ctx *water.Context) { ctx.String(200, "h="+ctx.Param("h")) })
			}
			regMethod(r, own, p, func(ctx *water.Context) { ctx.String(200, "own") })
			return r.Handler(water.WithStaticRouter(size%2 == 1))
		}
		e := build()
		for i := 0; i < n; i++ {
			m := PickS(c, []string{own, "PUT", "DELETE"})
			q := PickS(c, []string{p, p + "/", strings.ToUpper(p), p + "x", p[:len(p)-1], "/" + p})
			rq := func() *http.Request {
				req := Req(m, "/")
				req.URL.Path = q
				return req
			}
			got, p1 := Serve(e, rq())
			want, p2 := Serve(build(), rq())
			c.Step()
			if got.Summary() != want.Summary() || fmt.Sprint(p1) != fmt.Sprint(p2) {
				c.Failf("spelled", "request %d of %v: %s %q is answered %s, by a fresh engine %s", i, c.Choices(), m, q, got.Summary(), want.Summary())
				return
			}
		}
		c.State(fmt.Sprint(c.Choices()))
	}
}

// ---- C18: names with a mark at their ends

// net/http opens no names that are not UTF-8
var c18Ends = func() (o []string) {
	for b := 1; b < 0x80; b++ {
		if b != '/' {
			o = append(o, string([]byte{byte(b)}))
		}
	}
	return append(o, "é", "\u00a0", "\u3000", "\u200b", "\ufeff", "\u2028", "e\u0301", "\U0001f600", "%20", "%2e", "%00", "+", "..x", ".html", ".gz", "~1", "::$DATA", "CON")
}()

func c18Mark(c *C) {
	m := PickS(c, c18Ends)
	place := c.Choose(6)
	beside := c.Bool() // the name without the mark exists too
	opt := c.Choose(3)
	name := []string{"f" + m, m + "f", "f" + m + "g", "f" + m + m, m + "d/f", "d" + m + "/f"}[place]
	plain := []string{"f", "f", "fg", "f", "d/f", "d/f"}[place]
	d, err := os.MkdirTemp(scratch(), "mark")
	must(err)
	defer os.RemoveAll(d)
	put := func(n, body string) {
		must(os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0755))
		must(os.WriteFile(filepath.Join(d, n), []byte(body), 0644))
	}
	put(name, "the marked one")
	if beside {
		put(plain, "the plain one")
	}
	r := water.NewRouter()
	switch opt {
	case 0:
		r.Static("/s", d)
	case 1:
		r.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(d), ETag: water.ETagType2, IndexFile: "f"})
	case 2:
		r.StaticAdvance(&water.StaticOptions{Prefix: "/s/", FileSystem: http.Dir(d), ETag: water.ETagType1})
	}
	e := r.Handler()
	ask := func(n string, want string) {
		req := Req("GET", "/")
		req.URL.Path = "/s/" + n
		rec, p := Serve(e, req)
		c.Step()
		got := rec.Body.String()
		if p != nil || (want != "" && (rec.Status != 200 || got != want)) || (want == "" && rec.Status != 404) {
			c.Failf("mark", "%q with %q there: %v, option %d: GET %q: %d %q, expected %q (%v)", name, plain, beside, opt, req.URL.Path, rec.Status, got, want, p)
		}
	}
	ask(name, "the marked one")
	if beside {
		ask(plain, "the plain one")
	} else {
		ask(plain, "")
	}
	c.State(fmt.Sprint(m, place, beside, opt))
}

func init() {
	addScopes("C02", Scope{Name: "alike", Desc: fmt.Sprintf("every triple of %d values that are nearly equal (in case, spaces, length, folding) as captures of 7 patterns", len(c02Alike)), Body: c02Equal, Split: 2})
	addScopes("C05", Scope{Name: "nearly", Desc: fmt.Sprintf("%d methods that are one edit from a known one or join two x 4 engines with routes for all 7 x 3 paths", len(c05Near)), Body: c05Nearly, Split: 1})
	addScopes("C14", Scope{Name: "spelled", Desc: "2 requests of 3 methods and 6 spellings for a path of 10 lengths x 3 routes' methods x 4 tables, each compared with a fresh engine", Body: c14Spelled(2), Split: 4},
		Scope{Name: "spelled-3", Desc: "3 of those requests", Body: c14Spelled(3), Split: 4, Thorough: true})
	addScopes("C18", Scope{Name: "marks", Desc: fmt.Sprintf("%d marks (every ASCII byte but NUL and slash among them) at 6 places of a name, with the name without it there or not, x 3 ways to serve: each name has its own file or none", len(c18Ends)), Body: c18Mark, Split: 1})
}

// ---- C07: a router that is built, extended and built again

func c07Rebuild(n int) Body {
	return func(c *C) {
		w := &c07World{c: c}
		root := &mGroup{real: water.NewRouter()}
		w.groups = []*mGroup{root}
		w.onion = c.Bool()
		g1 := w.newGroup(root)
		g2 := w.newGroup(g1)
		all := []*mGroup{root, g1, g2}
		for _, g := range all {
			w.op(0, g)
		}
		if c.Bool() { // middleware that is there from the beginning
			for _, g := range all {
				w.op(6, g)
			}
		}
		for i := 0; i <= n; i++ {
			e, ref := Build(func() *water.Engine { return root.real.Handler(water.WithStaticRouter(i%2 == 1)) })
			if ref != nil {
				c.Failf("refused", "after %q: build %d refused: %v", w.ops, i, ref)
				return
			}
			w.check(e, fmt.Sprintf("build %d, ", i))
			if i < n {
				k := Pick(c, 0, 1, 3, 4, 6)
				g := root
				if k != 4 {
					g = PickS(c, all)
				}
				w.op(k, g)
				if k == 3 {
					w.op(0, w.groups[len(w.groups)-1])
				}
			}
		}
		c.State(fmt.Sprint(w.onion, w.ops))
	}
}

func init() {
	addScopes("C07", Scope{Name: "rebuilds", Desc: "a router with routes on 3 levels built, extended by one of 13 operations and built again, 3 times", Body: c07Rebuild(3), Split: 3})
}

// ---- C28: structs of many fields, at every level

var c28WideTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf([]string{}), reflect.TypeOf((*string)(nil)), reflect.TypeOf([]int{}), reflect.TypeOf(false)}

func c28Wide(c *C) {
	n := Pick(c, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 257)
	nest := c.Choose(5)
	src := c.Choose(6)
	second := c.Bool()
	mode := c.Choose(3) // one field, all of them, all but one
	at := Pick(c, 0, n/2, n-1)
	if second && src == 5 || mode == 1 && at > 0 {
		c.Prune()
		return
	}
	var fs []reflect.StructField
	data := map[string][]string{}
	given := func(i int) bool { return mode == 1 || (i == at) == (mode == 0) }
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("X-F%d", i)
		fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: c28WideTypes[i%len(c28WideTypes)], Tag: reflect.StructTag(fmt.Sprintf(`%s:"%s"`, srcTag[src], name))})
		if given(i) {
			data[name] = []string{"1"}
		}
	}
	t := reflect.StructOf(fs)
	in := func(x reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "In", Type: x}, {Name: "After", Type: reflect.TypeOf(""), Tag: reflect.StructTag(srcTag[src] + `:"X-After"`)}})
	}
	switch nest {
	case 1:
		t = in(t)
	case 2:
		t = in(reflect.PtrTo(t))
	case 3:
		t = in(in(t))
	case 4:
		t = in(in(reflect.PtrTo(t)))
	}
	data["X-After"] = []string{"after"}
	v := reflect.New(t)
	err := bindFrom(src, second, data, v.Interface())
	c.Step()
	what := fmt.Sprintf("%d fields, nesting %d, source %s, second %v, mode %d at %d", n, nest, srcNames[src], second, mode, at)
	if err != nil {
		c.Failf("wide", "%s: %v", what, err)
		return
	}
	w := v.Elem()
	for w.Kind() == reflect.Struct && w.Type().Field(0).Name == "In" {
		if got := w.Field(1).String(); got != "after" {
			c.Failf("wide", "%s: the field after the nested struct is %q", what, got)
		}
		w = w.Field(0)
	}
	if w.Kind() == reflect.Ptr {
		if w.IsNil() {
			if len(data) > 1 {
				c.Failf("wide", "%s: the nested struct is nil", what)
			}
			return
		}
		w = w.Elem()
	}
	for i := 0; i < n; i++ {
		if f := w.Field(i); f.IsZero() == given(i) {
			c.Failf("wide", "%s: field %d is %v", what, i, f.Interface())
			return
		}
	}
	c.State(what)
}

func init() {
	addScopes("C28", Scope{Name: "wide", Desc: "structs of 21 numbers of fields of 6 types up to 257, at 5 kinds of nesting, from 6 sources by both implementations: one field, all, all but one given", Body: c28Wide, Split: 2})
}
