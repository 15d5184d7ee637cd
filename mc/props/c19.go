package props

import (
	"fmt"
	"net/http"
	"strconv"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

type c19File struct {
	name string
	mod  time.Time
	body string
}

func c19Opt(kind int, fsys http.FileSystem, expires func() string, index string) *water.StaticOptions {
	return &water.StaticOptions{Prefix: "/s", FileSystem: fsys, ETag: water.ETagType(kind), Expires: expires, IndexFile: index}
}

func c19Engine(kind int, f c19File, expires func() string) *water.Engine {
	r := water.NewRouter()
	r.StaticAdvance(c19Opt(kind, &fakeFS{m: map[string]fakeEntry{"/" + f.name: {body: f.body, mod: f.mod}}}, expires, ""))
	return r.Handler()
}

var c19Mods = []time.Time{
	time.Unix(1600000000, 0), time.Unix(1600000000, 1), time.Unix(1600000000, 999999999), time.Unix(1600000001, 0), time.Unix(1600000000, 0).UTC(), time.Unix(1600000000, 0).In(time.FixedZone("x", 3600*5+1)),
	time.Unix(1600003600, 0), time.Unix(1600000060, 0), time.Unix(1, 0), time.Unix(16, 0), time.Unix(17, 5), time.Unix(0, 5), time.Unix(-1, 0), time.Unix(-16, 0), {}, time.Unix(0x123, 0), time.Unix(0x12, 0), time.Unix(1<<33, 0), time.Unix(1600000000+1<<32, 0), time.Unix(4102444800, 0),
}

func c19Body(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return string(b)
}

// c19Get fetches the file.
func c19Get(kind int, f c19File, inm string, method string) (resp, interface{}) {
	var hs []string
	if inm != "\x00" {
		hs = append(hs, "If-None-Match: "+inm)
	}
	return deliver(false, c19Engine(kind, f, nil), method, "/s/"+f.name, hs...)
}

func one(h http.Header, k string) (string, bool) {
	v := h[http.CanonicalHeaderKey(k)]
	if len(v) != 1 {
		return fmt.Sprint(v), false
	}
	return v[0], v[0] != ""
}

// c19Pairs: the tag distinguishes exactly files that differ.
func c19Pairs(mods []time.Time, sizes []int, names []string) Body {
	return func(c *C) {
		kind := 1 + c.Choose(2)
		pick := func() c19File {
			return c19File{mod: PickS(c, mods), body: c19Body(PickS(c, sizes)), name: PickS(c, names)}
		}
		a, b := pick(), pick()
		ra, pa := c19Get(kind, a, "\x00", "GET")
		rb, pb := c19Get(kind, b, "\x00", "GET")
		c.Steps(2)
		desc := fmt.Sprintf("type %d, %s %v %d bytes and %s %v %d bytes", kind, a.name, a.mod.Unix(), len(a.body), b.name, b.mod.Unix(), len(b.body))
		if pa != nil || pb != nil || ra.status != 200 || rb.status != 200 || ra.body != a.body || rb.body != b.body {
			c.Failf("serve", "%s: %d %v, %d %v", desc, ra.status, pa, rb.status, pb)
			return
		}
		ta, oka := one(ra.h, "Etag")
		tb, okb := one(rb.h, "Etag")
		if !oka || !okb {
			c.Failf("tag", "%s: tags %q and %q", desc, ta, tb)
			return
		}
		same := a.mod.Unix() == b.mod.Unix() && len(a.body) == len(b.body) && (kind == 1 || a.name == b.name)
		if same != (ta == tb) {
			c.Failf("distinct", "%s: tags %q and %q", desc, ta, tb)
		}
		// presenting a's tag for b
		for _, m := range []string{"GET", "HEAD"} {
			r, p := c19Get(kind, b, ta, m)
			c.Step()
			switch {
			case p != nil:
				c.Failf("panic", "%s: %v", desc, p)
			case ta == tb && (r.status != 304 || r.body != ""):
				c.Failf("match", "%s: presenting tag %q with %s gives %d %q", desc, ta, m, r.status, clip(r.body, 50))
			case ta != tb && (r.status != 200 || m == "GET" && r.body != b.body):
				c.Failf("other", "%s: presenting tag %q with %s gives %d %q", desc, ta, m, r.status, clip(r.body, 50))
			}
		}
		c.State(ta + " " + tb)
		c.Outcome(fmt.Sprint(same))
	}
}

// c19Tags: which presented tags match.
func c19Tags(c *C) {
	kind := c.Choose(3)
	f := c19File{mod: PickS(c, c19Mods), body: c19Body(Pick(c, 0, 1, 300)), name: Pick(c, "f.txt", "a b.html", "x", "ü-1")}
	method := Pick(c, "GET", "HEAD")
	r, p := c19Get(kind, f, "\x00", method)
	c.Step()
	desc := fmt.Sprintf("type %d, %s %v %d bytes, %s", kind, f.name, f.mod.Unix(), len(f.body), method)
	if p != nil || r.status != 200 {
		c.Failf("serve", "%s: %d %v", desc, r.status, p)
		return
	}
	tag, ok := one(r.h, "Etag")
	if kind == 0 {
		if len(r.h["Etag"]) != 0 {
			c.Failf("untagged", "%s: a tag %q is sent though not configured", desc, r.h["Etag"])
		}
		tag = "5f5e1000-1"
	} else if !ok {
		c.Failf("tag", "%s: no tag: %q", desc, tag)
		return
	}
	other := []string{"", " ", tag + "0", tag[:len(tag)-1], tag[1:], "0" + tag, "x", "\"", "-", "--", tag + "-" + tag, "5f5e1000-0", water.GenerateETag(f.mod.Add(time.Second), int64(len(f.body))), water.GenerateETag2(f.mod, int64(len(f.body)), f.name+"x")}
	t := c.Choose(len(other) + 1)
	inm := tag
	if t > 0 {
		inm = other[t-1]
		if inm == tag {
			c.Prune()
		}
	}
	for round := 0; round < 2; round++ {
		r, p = c19Get(kind, f, inm, method)
		c.Step()
		match := t == 0 && kind != 0
		switch {
		case p != nil:
			c.Failf("panic", "%s: %v", desc, p)
		case match && (r.status != 304 || r.body != ""):
			c.Failf("match", "%s: presenting its tag %q gives %d %q", desc, inm, r.status, clip(r.body, 50))
		case !match && (r.status != 200 || method == "GET" && r.body != f.body):
			c.Failf("other", "%s: presenting %q for %q gives %d %q", desc, inm, tag, r.status, clip(r.body, 50))
		}
		if !match && kind != 0 {
			if got, _ := one(r.h, "Etag"); got != tag {
				c.Failf("stable", "%s: the tag is %q, before it was %q", desc, got, tag)
			}
		}
	}
	c.State(desc + inm)
	c.Outcome(fmt.Sprint(r.status))
}

// c19History: one engine, one path whose file changes between requests; a client revalidates.
func c19History(depth int) Body {
	return func(c *C) {
		kind := 1 + c.Choose(2)
		index := c.Bool()
		fsys := &fakeFS{m: map[string]fakeEntry{}}
		n, exp := 0, []string{"Thu, 01 Dec 1994 16:00:00 GMT", "0", "Fri, 02 Dec 1994 16:00:00 GMT"}
		var fn func() string
		if c.Bool() {
			fn = func() string { n++; return exp[n%len(exp)] }
		}
		path, key := "/s/f", "/f"
		opt := c19Opt(kind, fsys, fn, "")
		if index {
			path, key = "/s/d/", "/d/home"
			fsys.m["/d"] = fakeEntry{dir: true, mod: c18Time}
			opt = c19Opt(kind, fsys, fn, "home")
		}
		r := water.NewRouter()
		r.StaticAdvance(opt)
		e := r.Handler()
		files := []fakeEntry{{body: "one", mod: time.Unix(100, 0)}, {body: "two", mod: time.Unix(101, 0)}, {body: "three", mod: time.Unix(100, 0)}, {body: "", mod: time.Unix(-5, 0)}}
		cached, cachedBody, cachedFor := "", "", -1
		have := false
		cur := c.Choose(len(files))
		fsys.m[key] = files[cur]
		desc := fmt.Sprintf("type %d index %v expires %v start %d", kind, index, fn != nil, cur)
		for i := 0; i < depth; i++ {
			switch op := c.Choose(3 + len(files)); op {
			case 0, 1: // (re)validate, or plain
				method := "GET"
				var hs []string
				if have && op == 0 {
					hs = append(hs, "If-None-Match: "+cached)
				}
				before := n
				got, p := deliver(false, e, method, path, hs...)
				c.Step()
				desc += fmt.Sprintf("; GET revalidate=%v", len(hs) > 0)
				if p != nil {
					c.Failf("panic", "%s: %v", desc, p)
					return
				}
				if _, ok := fsys.m[key]; !ok {
					if got.status != 404 {
						c.Failf("missing", "%s: status %d %q", desc, got.status, got.body)
					}
					continue
				}
				body := files[cur].body
				if got.status == 304 && len(hs) > 0 && got.body == "" {
					if cachedFor != cur {
						c.Failf("stale", "%s: 304 though the file changed from %q to %q", desc, cachedBody, body)
					}
				} else if got.status == 200 && got.body == body {
					if len(hs) > 0 && cachedFor == cur {
						c.Failf("match", "%s: the whole file although the presented tag %q is current", desc, cached)
					}
					cached, _ = one(got.h, "Etag")
					cachedBody, cachedFor, have = body, cur, true
				} else {
					c.Failf("answer", "%s: status %d body %q, the file holds %q", desc, got.status, got.body, body)
				}
				if fn != nil {
					if v, _ := one(got.h, "Expires"); v != exp[n%len(exp)] || n == before {
						c.Failf("expires", "%s: Expires %q, the function said %q (called %d times)", desc, v, exp[n%len(exp)], n-before)
					}
				} else if len(got.h["Expires"]) > 0 {
					c.Failf("expires", "%s: Expires %q though not configured", desc, got.h["Expires"])
				}
			case 2:
				delete(fsys.m, key)
				desc += "; delete"
			default:
				cur = op - 3
				fsys.m[key] = files[cur]
				desc += fmt.Sprintf("; file %d", cur)
			}
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(cachedFor))
	}
}

// c19Real: over a real connection.
func c19Real(c *C) {
	kind := c.Choose(3)
	f := c19File{mod: Pick(c, time.Unix(1600000000, 7), time.Unix(-3, 0), time.Time{}, time.Unix(5, 0)), body: c19Body(Pick(c, 0, 1, 5000)), name: Pick(c, "f.txt", "x.html", "noext")}
	var fn func() string
	if c.Bool() {
		fn = func() string { return "Thu, 01 Dec 1994 16:00:00 GMT" }
	}
	e := c19Engine(kind, f, fn)
	method := Pick(c, "GET", "HEAD")
	cond := c.Choose(3)
	desc := fmt.Sprintf("type %d %s %d bytes %s expires %v", kind, f.name, len(f.body), method, fn != nil)
	r, p := deliver(true, e, method, "/s/"+f.name)
	if p != nil {
		c.Failf("panic", "%s: %v", desc, p)
		return
	}
	tag, ok := one(r.h, "Etag")
	if ok != (kind != 0) {
		c.Failf("tag", "%s: tag %q", desc, tag)
	}
	switch cond {
	case 1:
		r, p = deliver(true, e, method, "/s/"+f.name, "If-None-Match: "+tag)
	case 2:
		r, p = deliver(true, e, method, "/s/"+f.name, "If-None-Match: zzz")
	}
	c.Steps(2)
	if p != nil {
		c.Failf("panic", "%s: %v", desc, p)
		return
	}
	want, body := 200, f.body
	if cond == 1 && kind != 0 {
		want, body = 304, ""
	}
	if method == "HEAD" {
		body = ""
	}
	if r.status != want || r.body != body {
		c.Failf("answer", "%s, condition %d: status %d with %d bytes, expected %d with %d", desc, cond, r.status, len(r.body), want, len(body))
	}
	if v := r.h.Get("Expires"); fn != nil && v != fn() || fn == nil && len(r.h["Expires"]) > 0 {
		c.Failf("expires", "%s: Expires %q", desc, r.h["Expires"])
	}
	c.State(desc)
	c.Outcome(fmt.Sprint(r.status))
}

// c19Function: the tag functions are injective on times, sizes and names whose renderings run into each other.
func c19Function(c *C) {
	kind := 1 + c.Choose(2)
	digits := []string{"1", "3", "-"}
	nums := []int64{}
	for _, s := range strs([]string{"1", "3", "c"}, 3)[1:] {
		n, err := strconv.ParseInt(s, 16, 64)
		must(err)
		nums = append(nums, n)
	}
	mods := []int64{1, 0x13, 0x131, 0x1313, 3, 0x31, 0xc, 0xc1, 0, -1, -0x13, 0x15f5e100, 0x5f5e100}
	names := append(strs(digits, 3), "f", "F", "f.txt", "é", "e", " ", "f ", "\x001")
	if kind == 1 {
		names = []string{""}
	}
	type file struct {
		m, s int64
		n    string
	}
	seen := map[string]file{}
	for _, m := range mods {
		for _, s := range append(nums, 0) {
			for _, n := range names {
				f := file{m, s, n}
				var tag, again string
				if kind == 1 {
					tag, again = water.GenerateETag(time.Unix(m, 5), s), water.GenerateETag(time.Unix(m, 999).UTC(), s)
				} else {
					tag, again = water.GenerateETag2(time.Unix(m, 5), s, n), water.GenerateETag2(time.Unix(m, 999).UTC(), s, n)
				}
				c.Step()
				if o, dup := seen[tag]; dup {
					c.Failf("function", "type %d: time %d, %d bytes, name %q and time %d, %d bytes, name %q have the same tag %q", kind, o.m, o.s, o.n, f.m, f.s, f.n, tag)
					return
				}
				if tag != again || tag == "" {
					c.Failf("function", "type %d: time %d, %d bytes, name %q has the tags %q and %q", kind, f.m, f.s, f.n, tag, again)
					return
				}
				seen[tag] = f
			}
		}
	}
	c.State(fmt.Sprint(kind))
}

func init() {
	names := []string{"f", "1", "f1", "-1", "a-b", "f.txt"}
	register(&Prop{ID: "C19", Scopes: []Scope{
		{Name: "tags", Desc: "both tag types and none x 20 times x 3 sizes x 4 names x the tag itself or one of 14 others x GET, HEAD", Body: c19Tags, Split: 3},
		{Name: "history", Desc: "histories of 5 steps on one engine: requests with and without the cached tag, the file replaced (4 versions) or deleted; file or index; Expires from a function that changes", Body: c19History(5), Split: 4},
		{Name: "pairs", Desc: "all pairs of files of 20 times x 6 sizes x 3 names", Body: c19Pairs(c19Mods, []int{0, 1, 2, 16, 17, 256}, names[:3]), Split: 4},
		{Name: "function", Desc: "the two tag functions on 13 times x 40 sizes x 48 names whose renderings run into each other: all tags distinct, equal for equal whole seconds", Body: c19Function, Split: 1},
		{Name: "real", Desc: "through a real HTTP server", Body: c19Real, Split: 3},
		{Name: "history-6", Desc: "histories of 6 steps", Body: c19History(6), Split: 4, Thorough: true},
		{Name: "pairs-all", Desc: "all pairs of files of 20 times x 9 sizes x 6 names", Body: c19Pairs(c19Mods, []int{0, 1, 2, 15, 16, 17, 256, 257, 4096}, names), Split: 4, Thorough: true},
	}})
}
