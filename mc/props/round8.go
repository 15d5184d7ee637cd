package props

import (
	"fmt"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
	"verif/mc/vsched"
)

// ---- C02: what a group captures, wherever the segment stands

var c02GroupRes = []string{
	"^v([0-9]+)$", "v([0-9]+)", "([0-9]+)", "^([a-z])", "([a-z])$", "(a)|b", "a|(b)", "(a)?b", "(a*)", "(?:a|v)(.)", "(?i)V(.*)", "(v|a)*", "((v)([0-9]))", "(v)([0-9]?)", "(a)|(b)|(v)", "()", "()(v)", "(v)()",
	"a(?P<name>b?)", "^(.)(.)?(.)?$", "x(é)", "[(]v[)]", "(-)?v", "v(-.*)?$", "(.*)-(.*)", "(.+?)([0-9]*)$", "^$|(.)", "^[^(]*$", `\(v`, `(v\.)?a`,
}

var c02GroupSegs = []string{"v1", "v12", "a", "b", "ab", "av", "V7", "v", "vv1", "xé", "-v", "v-", "v-a-b", "a-b", "(v)", "(v", "v.a", "1", "12v", "aab", "é", "ba"}

// c02Groups: one regexp in one of 6 places, in a table with competitors or alone.
func c02Groups(c *C) {
	re := PickS(c, c02GroupRes)
	place := c.Choose(6)
	other := c.Choose(4)
	ignore := c.Choose(3) - 1
	n := regexp.MustCompile(re).NumSubexp()
	if n == 0 {
		n = 1
	}
	var names []string
	for i := 0; i < n; i++ {
		if i == ignore {
			names = append(names, "_")
		} else {
			names = append(names, fmt.Sprintf("g%d", i))
		}
	}
	if ignore >= n {
		c.Prune()
	}
	seg := "<" + strings.Join(names, ",") + " ~ " + re + ">"
	pat := []string{"/" + seg, "/" + seg + "/x", "/" + seg + "/*", "/p/" + seg, "/:h/" + seg + "/<t>", "/" + seg + "/<z,w ~ (.)(.*)>"}[place]
	pats := []string{pat}
	switch other {
	case 1:
		pats = append(pats, []string{"/<k>", "/<k>/x", "/<k>/*", "/p/<k>", "/:i/<k>/<t>", "/<k>/<w>"}[place])
	case 2:
		pats = append([]string{"/*"}, pats...)
	case 3:
		pats = append(pats, []string{"/v1", "/v1/x", "/v1/y", "/p/v1", "/q/v1/t", "/v1/zz"}[place])
	}
	t, why := newTable(pats)
	if why != "" {
		c.Failf("refused", "%q: %s", pats, why)
		return
	}
	for _, s := range c02GroupSegs {
		for _, p := range []string{"/" + s, "/" + s + "/x", "/" + s + "/x/y", "/p/" + s, "/q/" + s + "/t", "/" + s + "/zz"} {
			want, wantP := t.m.match("GET", p)
			got := t.serve("GET", p)
			c.Step()
			if want != nil {
				judgeParams(c, t, pats, p, want, wantP, got)
			}
		}
	}
	c.State(fmt.Sprint(pats))
}

// ---- C15: things made on first use, and what is written about each request

type freshForm struct {
	A string `form:"a" json:"a" binding:"required,max=3"`
	B int    `form:"b" json:"b" binding:"min=2"`
}

// c15Fresh: requests that bind while nobody has validated anything yet.
func c15Fresh(threads, bound int) Body {
	bodies := []string{`{"a":"x","b":2}`, `{"b":7}`, `{"a":"long one","b":1}`}
	return func(c *C) {
		same := c.Bool()
		var ks []int
		for i := 0; i < threads; i++ {
			ks = append(ks, c.Choose(len(bodies)))
		}
		run := func(eng http.Handler, k int) string {
			return outcomeOf(eng, ReqBody("POST", "/b", "application/json", []byte(bodies[k])))
		}
		mk := func() http.Handler {
			r := water.NewRouter()
			r.POST("/b", func(ctx *water.Context) {
				var err error
				var f freshForm
				if same {
					err = ctx.Bind(&f)
				} else {
					var g struct {
						A string `json:"a" binding:"required,max=3"`
						B int    `json:"b" binding:"min=2"`
					}
					err = ctx.BindWith(&g, binding.JSON)
					f.A, f.B = g.A, g.B
				}
				ctx.String(200, fmt.Sprint(f, err != nil))
			})
			return r.Handler()
		}
		save := binding.Validator
		defer func() { binding.Validator = save }()
		binding.Validator = binding.NewvVlidatorV10()
		e := mk()
		got := make([]string, threads)
		var fs []func()
		for i := range ks {
			i := i
			fs = append(fs, func() { got[i] = run(e, ks[i]) })
		}
		c.SetBudget(bound)
		c.InThreads(true)
		dead := vsched.Run(c, fs...)
		c.InThreads(false)
		c.SetBudget(0)
		c.Steps(threads)
		for i, k := range ks {
			binding.Validator = binding.NewvVlidatorV10()
			want := run(mk(), k)
			if dead || got[i] != want {
				c.Failf("fresh", "requests with the bodies %v concurrently, first of all to be validated: deadlock %v, request %d is answered %s, alone %s", ks, dead, i, got[i], want)
				return
			}
		}
		c.State(fmt.Sprint(same, ks, len(c.Choices())))
	}
}

var logTimes = regexp.MustCompile(`\d{4}[-/]\d\d[-/]\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?| +[0-9.]+(ns|µs|ms|s) `)

// c15Log: the lines logged about concurrent requests are those logged about each alone.
func c15Log(threads, bound int) Body {
	type lr struct {
		trace, ip, method, path, body string
		status                        int
	}
	rs := []lr{
		{"t-1", "192.0.2.1", "GET", "/l/a", "", 200},
		{"trace-two", "192.0.2.22", "POST", "/l/bb", `{"body":"second"}`, 404},
		{"", "2001:db8::9", "PUT", "/l/c", `{"c":3}`, 503},
		{"t-1", "192.0.2.1", "POST", "/l/a", `{}`, 302},
	}
	return func(c *C) {
		water.LogColor, water.LogHttpBody, water.LogClose = c.Bool(), c.Bool(), false
		defer func() { water.LogColor, water.LogHttpBody = true, true }()
		var ks []int
		from := 0
		for i := 0; i < threads; i++ {
			k := from + c.Choose(len(rs)-from)
			ks = append(ks, k)
			from = k
		}
		r := water.NewRouter()
		r.Use(water.Logger())
		h := func(ctx *water.Context) {
			b, _ := ctx.BodyBytes()
			for _, x := range rs {
				if ctx.Param("n") == path.Base(x.path) && ctx.Request.Method == x.method {
					ctx.String(x.status, string(b))
				}
			}
		}
		for _, m := range []string{"GET", "POST", "PUT"} {
			regMethod(r, m, "/l/<n>", h)
		}
		e := r.Handler()
		mkReq := func(x lr) *http.Request {
			q := ReqBody(x.method, x.path, "application/json", []byte(x.body))
			q.RemoteAddr = "203.0.113.1:1"
			q.Header.Set("X-Real-IP", x.ip)
			if x.trace != "" {
				q.Header.Set("Trace-ID", x.trace)
			}
			return q
		}
		lines := func(s string) []string {
			l := strings.Split(logTimes.ReplaceAllString(s, " T "), "\n")
			for i := range l {
				l[i] = strings.TrimSpace(l[i])
			}
			sort.Strings(l)
			return l
		}
		lg := getLog()
		for _, k := range ks {
			e.ServeHTTP(NewRec(), mkReq(rs[k]))
		}
		want := lines(lg.text())
		var fs []func()
		for _, k := range ks {
			q := mkReq(rs[k])
			fs = append(fs, func() { e.ServeHTTP(NewRec(), q) })
		}
		lg = getLog()
		c.SetBudget(bound)
		c.InThreads(true)
		dead := vsched.Run(c, fs...)
		c.InThreads(false)
		c.SetBudget(0)
		c.Steps(threads)
		if got := lines(lg.text()); dead || !reflect.DeepEqual(got, want) {
			c.Failf("log", "requests %v: deadlock %v, logged concurrently\n %q\none after the other\n %q", ks, dead, got, want)
		}
		c.State(fmt.Sprint(ks, len(c.Choices())))
	}
}

// ---- C16: settings switched at any moment

// c16Switches: the settings of the log as they are when a request is served.
func c16Switches(n int) Body {
	return func(c *C) {
		save := water.LogTimeFormat
		defer func() {
			water.LogClose, water.LogHttpBody, water.LogColor, water.LogTimeFormat = false, true, true, save
		}()
		formats := []string{save, "2006 Jan 2", "15h04"}
		desc := ""
		set := func(when string) {
			v := c.Choose(6)
			water.LogClose = v == 1
			water.LogHttpBody = v != 2
			water.LogColor = v != 3
			water.LogTimeFormat = formats[0]
			if v > 3 {
				water.LogTimeFormat = formats[v-3]
			}
			desc += fmt.Sprintf(" %s: %d", when, v)
		}
		set("before Logger()")
		mw := water.Logger()
		r := water.NewRouter()
		r.Use(mw)
		set("before Handler()")
		r.POST("/s", func(ctx *water.Context) { ctx.String(207, "x") })
		e := r.Handler()
		for i := 0; i < n; i++ {
			set("before a request")
			lg := getLog()
			t0 := time.Now()
			_, p := Serve(e, ReqBody("POST", "/s", "application/json", []byte(`{"the":"body"}`)))
			t1 := time.Now()
			line := lg.text()
			c.Step()
			if p != nil {
				c.Failf("panic", "settings%s: %v", desc, p)
				return
			}
			want := 1
			if water.LogClose {
				want = 0
			}
			bad := strings.Count(line, " POST ") != want
			if want == 1 {
				bad = bad || strings.Contains(line, `{"the":"body"}`) != water.LogHttpBody || strings.Contains(line, "\x1b[97;42m") != water.LogColor ||
					!strings.Contains(line, t0.Format(water.LogTimeFormat)) && !strings.Contains(line, t1.Format(water.LogTimeFormat))
			}
			if bad {
				c.Failf("switch", "settings%s (0 all on, 1 closed, 2 no body, 3 no colour, 4 and 5 other time formats): logged %q", desc, line)
				return
			}
		}
		c.State(desc)
	}
}

// ---- C17: lists of requested headers of many lengths, one after the other

func c17Lists(n int) Body {
	lens := []int{0, 5, 63, 64, 65, 100, 129, 255, 256, 257, 600, 1025, 5000}
	return func(c *C) {
		cfg := water.CORSConfig{}
		if c.Bool() {
			cfg.AllowOrigins = []string{"http://a.example"}
		}
		var reqs []c17Req
		for i := 0; i < n; i++ {
			l := PickS(c, lens)
			q := c17Req{"OPTIONS", "http://a.example", "PUT", ""}
			if l > 0 {
				s := strings.Repeat(fmt.Sprintf("X-Some-Header-%d, ", i), l/10+1)
				q.reqH = strings.TrimRight(s[:l], ", ") + string(rune('a'+i))
			}
			reqs = append(reqs, q)
		}
		c17Requests(c, cfg, reqs, false, c.Choose(3))
	}
}

// ---- C18: file systems of other kinds

// naiveFS joins what it is asked for to its root, as a file system behind http.FileServer may.
type naiveFS struct {
	root string
	all  map[string]string
}

func (n *naiveFS) Open(name string) (http.File, error) {
	full := path.Join(n.root, name)
	if name == "" || name[0] != '/' {
		return nil, &os.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	b, ok := n.all[full]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f := &fakeFile{name: path.Base(full), mod: c18Time, dir: b == c18Dir}
	if b == c18Dir {
		b = ""
		for _, k := range sortedStr(n.all) {
			if k != full && path.Dir(k) == full {
				f.entries = append(f.entries, fakeInfo{path.Base(k), 0, c18Time, n.all[k] == c18Dir})
			}
		}
	}
	f.Reader = strings.NewReader(b)
	return f, nil
}

func sortedStr(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var c18Naive, c18Map = func() (map[string]string, fstest.MapFS) {
	m, f := map[string]string{"/": c18Dir, "/srv": c18Dir}, fstest.MapFS{}
	for k, v := range c18Tree {
		m[path.Join("/srv/root", k)] = v
		if v != c18Dir {
			f[strings.TrimPrefix(k, "/")] = &fstest.MapFile{Data: []byte(v), Mode: 0644, ModTime: c18Time}
		} else if k != "/" {
			f[strings.TrimPrefix(k, "/")] = &fstest.MapFile{Mode: os.ModeDir | 0755}
		}
	}
	for k, v := range c18Trap {
		m[path.Join("/srv", k)] = v
		m[path.Join("/", k)] = v
		for d := path.Dir(path.Join("/srv", k)); d != "/"; d = path.Dir(d) {
			if m[d] == "" {
				m[d] = c18Dir
			}
		}
	}
	return m, f
}()

// c18Systems: every path over other kinds of file system.
func c18Systems(depth int) Body {
	segs := []string{"f.txt", "dir", "sub", "idx", "", "..", ".", "nope", "secret.txt", "index.html", "x.bin", "empty"}
	prefixes := []string{"/s", "", "/a/b"}
	return func(c *C) {
		base := c18Setup()
		kind := c.Choose(4)
		prefix := PickS(c, prefixes)
		index := Pick(c, "", "index.html", "home.txt")
		segl := Seq(c, depth, segs)
		slash, head := c.Bool(), c.Bool()
		var sys http.FileSystem
		switch kind {
		case 0:
			sys = http.Dir(filepath.Join(base, "base/root"))
		case 1:
			sys = http.FS(os.DirFS(filepath.Join(base, "base/root")))
		case 2:
			sys = http.FS(c18Map)
		case 3:
			sys = &naiveFS{"/srv/root", c18Naive}
		}
		p := prefix
		for _, s := range segl {
			p += "/" + s
		}
		if slash || p == "" {
			p += "/"
		}
		r := water.NewRouter()
		r.StaticAdvance(&water.StaticOptions{Prefix: prefix, IndexFile: index, FileSystem: sys})
		e := r.Handler()
		w := c18Expect(c18Model(c18Mount{pattern: prefix + "/*"}), index, p)
		method := "GET"
		if head {
			method = "HEAD"
		}
		got, pv := deliver(false, e, method, p)
		c.Step()
		desc := fmt.Sprintf("file system %d (Dir, FS of a directory, FS of a map, naive) under %q with index %q: %s %q", kind, prefix, index, method, p)
		if pv != nil {
			c.Failf("panic", "%s: %v", desc, pv)
			return
		}
		if head && (w.kind == "dir" || w.kind == "redirect" || w.kind == "none" || w.kind == "escape") {
			got.body = ""
		}
		c18Check(c, desc, p, w, head, got)
		c.State(desc)
	}
}

// ---- C24: long names

func c24Long(c *C) {
	n := Pick(c, 1, 8, 16, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 70000)
	base := strings.Repeat("nM", n)[:n]
	names := []string{base, strings.ToUpper(base), strings.ToLower(base), base + " ", " " + base, base + "\n", base + "\x00", base + base, base[:n-1], base[:n-1] + "x", "x" + base[1:], base[:n/2] + "." + base[n/2:], base + "é"}
	a, b := c.Choose(len(names)), c.Choose(len(names))
	env := c.Bool()
	bad := ""
	h := func(ctx *water.Context) {
		model := map[string]interface{}{}
		for i, k := range []int{a, b} {
			name, v := names[k], c24Values[i]
			_, exists := model[name]
			p := quiet(func() {
				if env {
					ctx.Environ.Set(name, v)
				} else {
					ctx.Set(name, v)
				}
			})
			if p != exists && bad == "" {
				bad = fmt.Sprintf("storing name %d (stored before: %v) panics: %v", k, exists, p)
			}
			if !exists {
				model[name] = v
			}
		}
		if bad == "" {
			bad = clip(c24Sweep(ctx, model, names), 500)
		}
		ctx.WriteHeader(200)
	}
	r := water.NewRouter()
	r.GET("/", h)
	_, p := Serve(r.Handler(), Req("GET", "/"))
	c.Steps(len(names))
	if p != nil || bad != "" {
		c.Failf("long", "names %d and %d of those alike of %d bytes: %s %v", a, b, n, bad, p)
	}
	c.State(fmt.Sprint(n, a, b, env))
}

// ---- C28: the source stays as it is, and serves every field that names it

type twice28 struct {
	A1 string   `form:"a" header:"a" uri:"a"`
	A2 string   `form:"a" header:"a" uri:"a"`
	A3 []string `form:"a" header:"a" uri:"a"`
	B1 int      `form:"b" header:"b" uri:"b"`
	In struct {
		B2 int8     `form:"b" header:"b" uri:"b"`
		A4 *string  `form:"a" header:"a" uri:"a"`
		B3 []uint16 `form:"b" header:"b" uri:"b"`
	}
	B4 string  `form:"b" header:"b" uri:"b"`
	B5 float64 `form:"b" header:"b" uri:"b"`
}

func c28Twice(c *C) {
	src := Pick(c, srcQuery, srcForm, srcMulti, srcHeader, srcUri, srcMap)
	second := src != srcMap && c.Bool()
	as := Pick(c, nil, []string{"x"}, []string{"x", "y"})
	bs := Pick(c, nil, []string{"5"}, []string{"5", "6"}, []string{"5", "6", "7", "8", "9", "10"})
	extra := c.Choose(9)
	times := 1 + c.Choose(3)
	data := map[string][]string{}
	if as != nil {
		data["a"] = as
	}
	if bs != nil {
		data["b"] = bs
	}
	for i := 0; i < extra*extra; i++ {
		data[fmt.Sprintf("e%d", i)] = []string{"1"}
	}
	copyOf := map[string][]string{}
	for k, v := range data {
		copyOf[k] = append([]string(nil), v...)
	}
	var req *http.Request
	switch src {
	case srcQuery:
		req = ReqURL("GET", "/", url.Values(data).Encode())
	case srcForm:
		req = ReqBody("POST", "/", "application/x-www-form-urlencoded", []byte(url.Values(data).Encode()))
	case srcHeader:
		req = Req("GET", "/")
		for k, v := range data {
			req.Header[http.CanonicalHeaderKey(k)] = v
		}
	}
	for i := 0; i < times; i++ {
		var o twice28
		want := twice28{}
		if len(as) > 0 {
			want.A1, want.A2, want.A3 = as[0], as[0], as
			s := as[0]
			want.In.A4 = &s
		}
		if len(bs) > 0 {
			want.B1, want.In.B2, want.B4, want.B5 = 5, 5, "5", 5
			for j := range bs {
				want.In.B3 = append(want.In.B3, uint16(5+j))
			}
		}
		var err error
		p := quiet(func() {
			way := src
			if second {
				way = srcMap + 1
			}
			switch way {
			case srcQuery:
				err = binding.Query.Bind(req, &o)
			case srcForm:
				err = binding.Form.Bind(req, &o)
			case srcHeader:
				err = binding.Header.Bind(req, &o)
			default:
				err = bindFrom(src, second, data, &o)
			}
		})
		c.Step()
		if p || err != nil || !reflect.DeepEqual(o, want) {
			c.Failf("twice", "names used by several fields, from %s (Bind2: %v), a=%q b=%q and %d other entries, time %d: panic %v, error %v, now %+v, expected %+v", srcNames[src], second, as, bs, extra*extra, i, p, err, o, want)
			return
		}
		same := reflect.DeepEqual(data, copyOf)
		switch {
		case second:
		case src == srcForm:
			same = same && reflect.DeepEqual(map[string][]string(req.PostForm), copyOf)
		case src == srcQuery:
			same = same && reflect.DeepEqual(map[string][]string(req.URL.Query()), copyOf)
		}
		if !same {
			c.Failf("source", "binding from %s changes the source: now %v, was %v", srcNames[src], data, copyOf)
			return
		}
	}
	c.State(fmt.Sprint(src, second, as, bs, extra, times))
}

// ---- C29: documents of many megabytes

func c29Huge(mibs ...int) Body {
	return func(c *C) {
		isXML := c.Bool()
		mib := PickS(c, mibs)
		second := c.Bool()
		how := c.Choose(3) // fine, cut short, the wrong type at the end
		fill := strings.Repeat("0123456789abcdef", mib<<16)
		doc, ct := `{"a":"`+fill+`","i":7}`, "application/json"
		if isXML {
			doc, ct = "<t><a>"+fill+"</a><i>7</i></t>", "application/xml"
		}
		switch how {
		case 1:
			doc = doc[:len(doc)-3]
		case 2:
			doc = strings.Replace(doc, "7", "seven", -1)
			if isXML {
				doc = "<t><a>" + fill + "</a><i>seven</i></t>"
			} else {
				doc = `{"a":"` + fill + `","i":"seven"}`
			}
		}
		var v struct {
			A string `json:"a" xml:"a"`
			I int    `json:"i" xml:"i"`
		}
		var err error
		p := quiet(func() {
			req := ReqBody("POST", "/b", ct, []byte(doc))
			if second {
				c30Serve(req, func(ctx *water.Context) { err = ctx.Bind(&v) })
			} else if isXML {
				err = binding.XML.Bind(req, &v)
			} else {
				err = binding.JSON.Bind(req, &v)
			}
		})
		c.Step()
		if p || (err != nil) != (how > 0) || how == 0 && (v.A != fill || v.I != 7) {
			c.Failf("huge", "a document of %d MiB (XML %v, through a request %v), flaw %d: panic %v, error %v, %d bytes bound, number %d", mib, isXML, second, how, p, err != nil, len(v.A), v.I)
		}
		c.State(fmt.Sprint(isXML, mib, second, how))
	}
}

// ---- C30: long lists

func c30Long(c *C) {
	n := Pick(c, 301, 999, 1000, 1001, 1025, 4097, 10001, 65537)
	at := c.Choose(4)
	pos := []int{-1, 0, n / 2, n - 1}[at]
	kind := c.Choose(3)
	type el struct {
		A string `json:"a" binding:"required"`
	}
	var sb strings.Builder
	sb.WriteString(`[`)
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		if i == pos {
			sb.WriteString(`{}`)
		} else {
			sb.WriteString(`{"a":"x"}`)
		}
	}
	sb.WriteString(`]`)
	doc := sb.String()
	var obj interface{} = new([]el)
	switch kind {
	case 1:
		obj = new([]*el)
	case 2:
		doc = `{"l":` + doc + `}`
		obj = new(struct {
			L []el `json:"l" binding:"dive"`
		})
	}
	var err error
	var p bool
	withValidator(valDefault, func() {
		p = quiet(func() { err = binding.JSON.Bind(ReqBody("POST", "/b", "application/json", []byte(doc)), obj) })
	})
	c.Step()
	if p || (err != nil) != (pos >= 0) {
		c.Failf("long", "a list of %d (kind %d) with the invalid element at %d: panic %v, error %v", n, kind, pos, p, err != nil)
	}
	c.State(fmt.Sprint(n, pos, kind))
}

// ---- C31: layouts put together from parts

func c31Layouts(srcs []int) Body {
	pre := []string{"", "(", "at ", "On Monday, ", "DATE="}
	dates := []string{"", "2006-01-02", "Jan _2 2006", "Monday, 02 January 2006", "02.01.06", "2006-002"}
	clocks := []string{"", "15:04:05", "3:04PM", "03:04:05.000 pm", "T15h"}
	zones := []string{"", " -0700", "Z07:00", " MST", " Z0700"}
	post := []string{"", ")", " o'clock"}
	return func(c *C) {
		l := PickS(c, pre) + PickS(c, dates) + strings.TrimSuffix(" ", "") + PickS(c, clocks) + PickS(c, zones) + PickS(c, post)
		if strings.TrimSpace(l) != l {
			l = strings.TrimSpace(l)
		}
		if !strings.ContainsAny(l, "0123456789") {
			c.Prune()
		}
		utc := Pick(c, "", "1")
		loc := Pick(c, "", "Asia/Shanghai")
		shape := c.Choose(2)
		src := PickS(c, srcs)
		second := src != srcMap && c.Bool()
		how := c.Choose(5)
		zone, ok := c31Zone(utc, loc)
		if !ok {
			c.Prune()
		}
		t := time.Date(2021, 11, 8, 21, 22, 23, 456e6, time.FixedZone("EST", -5*3600))
		text := t.Format(l)
		switch how {
		case 1:
			text = strings.ToLower(text)
		case 2:
			text = strings.ToUpper(text)
		case 3:
			text = text[1:]
		case 4:
			text += "0"
		}
		save := time.Local
		time.Local = c31LocalZone
		w, err := time.ParseInLocation(l, text, zone)
		time.Local = save
		if text == "" || strings.TrimSpace(text) != text && src == srcHeader {
			c.Prune()
		}
		c31Run(c, c31Lay{tag: l, lay: l}, utc, loc, shape, src, second, false, []string{text}, []c31Inst{{w, err == nil}}, "")
	}
}

// ---- C34: a form read from a body that fails, of a request with a query

func c34Query(c *C) {
	q := Pick(c, "", "a=fromquery", "b=5&zz=1", "%zz", "a=1;b=2", "x")
	ways := []string{"Bind", "BindWith(Form)", "Form.Bind", "Form.Bind2", "Query", "BindWith(FormMultipart)", "FormMultipart.Bind", "FormFile"}
	way := c.Choose(len(ways))
	method := Pick(c, "POST", "PUT", "PATCH")
	b := bodies34["form"]
	if way > 4 {
		b = bodies34["multi"]
	}
	at := c.Choose(len(b.body)+2) - 1
	with, known := c.Bool(), c.Bool()
	if way > 4 && at >= len(b.body)-2 {
		c.Prune() // the end of the last part has been read
	}
	var err error
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		defer func() {
			if p := recover(); p != nil && err == nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		o := new(form34)
		switch way {
		case 0:
			err = ctx.Bind(o)
		case 1:
			err = ctx.BindWith(o, binding.Form)
		case 2:
			err = binding.Form.Bind(ctx.Request, o)
		case 3:
			err = binding.Form.Bind2(ctx.Request, o)
		case 4:
			ctx.Query("a")
		case 5:
			err = ctx.BindWith(o, binding.FormMultipart)
		case 6:
			err = binding.FormMultipart.Bind(ctx.Request, o)
		case 7:
			_, _, err = ctx.FormFile("f")
		}
	}
	regMethod(r, method, "/p", h)
	e := r.Handler()
	req := ReqURL(method, "/p", q)
	req.Header.Set("Content-Type", b.ct)
	req.Body = &chunkReader{data: []byte(b.body), chunk: 7, failAt: at, err: errSource, with: with}
	req.ContentLength = -1
	if known {
		req.ContentLength = int64(len(b.body))
	}
	_, pv := Serve(e, req)
	c.Step()
	badQuery := q == "%zz" || q == "a=1;b=2"
	switch {
	case pv != nil:
		c.Failf("panic", "%s of a request with the query %q: %v", ways[way], q, pv)
	case at >= 0 && err == nil:
		c.Failf("query", "%s %s of a body that fails after %d of %d bytes (with them: %v, length known: %v), with the query %q: no error", method, ways[way], at, len(b.body), with, known, q)
	case at < 0 && err != nil && !badQuery:
		c.Failf("query", "%s %s of a sound body with the query %q: %v", method, ways[way], q, err)
	}
	c.State(fmt.Sprint(q, way, method, at, with, known))
}

func init() {
	addScopes("C02", Scope{Name: "groups", Desc: "30 regexps (partial, optional, nested, named, non-capturing and flagged groups) as a segment in 6 places, each name or none ignored, alone or beside 3 kinds of competitor; 132 paths", Body: c02Groups, Split: 2})
	addScopes("C15", Scope{Name: "fresh", Desc: "two requests that bind and validate with a validator nobody has used yet, 2 preemptions", Body: c15Fresh(2, 2), Split: 3},
		Scope{Name: "log", Desc: "two logged requests of 4 kinds x colour x bodies, 1 preemption: the lines logged are those of each alone", Body: c15Log(2, 1), Split: 3},
		Scope{Name: "log-2", Desc: "the same with 2 preemptions", Body: c15Log(2, 2), Split: 3, Thorough: true},
		Scope{Name: "fresh-3", Desc: "three requests, 1 preemption", Body: c15Fresh(3, 1), Split: 3, Thorough: true},
		Scope{Name: "log-3", Desc: "three logged requests, 1 preemption", Body: c15Log(3, 1), Split: 3, Thorough: true})
	addScopes("C16", Scope{Name: "switches", Desc: "6 settings of the log switched before Logger(), before Handler() and before each of 2 requests", Body: c16Switches(2), Split: 2},
		Scope{Name: "switches-4", Desc: "before each of 4 requests", Body: c16Switches(4), Split: 2, Thorough: true})
	addScopes("C17", Scope{Name: "lists", Desc: "every sequence of 3 preflights whose lists of requested headers have 13 lengths up to 5000, 2 configurations x 3 mounts", Body: c17Lists(3), Split: 2})
	addScopes("C18", Scope{Name: "systems", Desc: "4 kinds of file system (Dir, FS of a directory, FS of a map, one that joins names naively) x 3 prefixes x 3 index files x every path of up to 3 of 12 segments (empty, dots, secrets outside) with and without a trailing slash, GET and HEAD", Body: c18Systems(3), Split: 4},
		Scope{Name: "systems-4", Desc: "every path of up to 4 segments", Body: c18Systems(4), Split: 4, Thorough: true})
	addScopes("C24", Scope{Name: "long", Desc: "every ordered pair of 13 names alike (case, blanks, a byte more or less) of 21 lengths up to 70000, directly or through the store", Body: c24Long, Split: 2})
	addScopes("C28", Scope{Name: "twice", Desc: "a struct whose fields share names, from all sources, 0 to 64 other entries, bound up to 3 times from the same request: every field set, the source as it was", Body: c28Twice, Split: 2})
	addScopes("C29", Scope{Name: "huge", Desc: "JSON and XML documents of 11 and 33 MiB, fine, cut short or ill-typed at the end", Body: c29Huge(11, 33), Split: 1},
		Scope{Name: "huge-70", Desc: "documents of 70 MiB", Body: c29Huge(70), Split: 1, Thorough: true})
	addScopes("C30", Scope{Name: "long", Desc: "lists of 8 lengths up to 65537, the invalid element first, in the middle, last or nowhere", Body: c30Long, Split: 1})
	addScopes("C31", Scope{Name: "layouts", Desc: "layouts put together from 5 beginnings x 6 dates x 5 clocks x 5 zones x 3 ends, UTC or located, Bind and Bind2 x 3 sources: texts that fit, in other case, cut or too long; the time package as the oracle", Body: c31Layouts([]int{srcUri, srcQuery, srcHeader}), Split: 3})
	addScopes("C34", Scope{Name: "query", Desc: "forms read in 8 ways from bodies that fail at every position, the request having one of 6 queries", Body: c34Query, Split: 2})
}
