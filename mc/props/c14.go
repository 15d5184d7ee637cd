package props

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"path/filepath"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
	"verif/mc/vsched"
)

// The engine on which histories (C14) and interleavings (C15) of requests are explored.
// Every handler reports all it can observe about its request.

type boundT struct {
	ID   int      `json:"id" form:"id" binding:"gte=0"`
	Name string   `json:"name" form:"name"`
	Tags []string `json:"tags" form:"tags"`
	Sub  *struct {
		V int `json:"v" form:"v"`
	} `json:"sub"`
}

type boundXT struct {
	D string `xml:"d"`
}

// observe renders what a handler can see about routing and stored state.
func observe(ctx *water.Context) string {
	var env []string
	for _, k := range []string{"mw", "v", "own", "leak", "sub"} {
		if v, ok := ctx.GetMaybe(k); ok {
			env = append(env, fmt.Sprint(k, "=", v))
		}
	}
	vsched.Yield()
	s := fmt.Sprintf("path=%s full=%s params=%s env=%d%v written=%v/%d", ctx.Request.URL.Path, ctx.FullPath(), mapStr(ctx.Params), len(ctx.Environ), env, ctx.Written(), ctx.Status())
	vsched.Yield()
	return s
}

// dirty changes all of the request's own state that a handler may change; nobody may see it later.
func dirty(ctx *water.Context) {
	for k := range ctx.Params {
		ctx.Params[k] = "dirty"
	}
	if ctx.Params != nil {
		ctx.Params["zz"] = "leak"
	}
	for k, vs := range ctx.Request.Form {
		for i := range vs {
			vs[i] = "dirty"
		}
		ctx.Request.Form[k] = append(vs, "more")
	}
	for _, vs := range []url.Values{ctx.Request.Form, ctx.Request.PostForm} {
		if vs != nil {
			for _, k := range []string{"q", "name", "id", "m[a]", "k", "n", "d", "zz"} {
				vs.Add(k, "leak")
			}
		}
	}
	if m := ctx.Request.MultipartForm; m != nil && m.Value != nil {
		m.Value["name"] = []string{"leak"}
	}
	ctx.Request.Header.Set("X-T", "leak")
	for k, vs := range ctx.Request.Header {
		for i := range vs {
			vs[i] = "dirty"
		}
		ctx.Request.Header[k] = append(vs, "more")
	}
	if ctx.Written() { // what was answered is answered
		for k, vs := range ctx.Header() {
			if strings.HasPrefix(k, "X-") {
				continue
			}
			for i := range vs {
				vs[i] = "dirty"
			}
			_ = append(vs, "more")
		}
	}
	ctx.Environ["own"] = "dirty"
	ctx.Environ["v"] = "dirty"
}

func c14Engine(static, nf bool) *water.Engine {
	dir := fixtureDir()
	r := water.NewRouter()
	r.Before(func(ctx *water.Context) {
		ctx.Header().Add("X-Obs", "before "+observe(ctx))
		ctx.Environ.Set("mw", ctx.Request.URL.Path)
		ctx.Next()
		ctx.Header().Add("X-Late", "1")
		ctx.Environ["leak"] = ctx.Request.URL.Path
		dirty(ctx)
	})
	r.GET("/p/:id", func(ctx *water.Context) {
		ctx.Set("v", ctx.Param("id"))
		fmt.Fprintf(ctx, "one %s v=%v;", observe(ctx), ctx.Get("v"))
		ctx.Params["zz"] = "leak"
		fmt.Fprintf(ctx, "q=%s all=%q", ctx.Query("q"), ctx.QueryArray("q"))
	})
	r.GET("/p/:id/<n ~ [0-9]+>/x", func(ctx *water.Context) {
		ctx.String(201, "deep "+observe(ctx))
	})
	r.GET("/p/<a,b ~ ([a-z])([0-9])>/:tail/y", func(ctx *water.Context) {
		ctx.String(202, "re "+observe(ctx))
	})
	r.GET("/stat", func(ctx *water.Context) { ctx.String(203, "stat "+observe(ctx)) })
	r.GET("/stat/ic", func(ctx *water.Context) { ctx.Header().Add("X-Obs", "ic1 "+observe(ctx)) }, func(ctx *water.Context) {
		fmt.Fprintf(ctx, "ic2 %s", observe(ctx))
	}, func(ctx *water.Context) { fmt.Fprint(ctx, "never") })
	r.GET("/silent/*", func(ctx *water.Context) { ctx.Header().Add("X-Obs", "silent "+ctx.Query("q")+observe(ctx)); ctx.Environ["own"] = 1 })
	r.GET("/boom/*rest", func(ctx *water.Context) {
		ctx.Set("own", ctx.Param("rest"))
		fmt.Fprintf(ctx, "partial %s%s", ctx.Query("q"), observe(ctx))
		panic("boom " + ctx.Param("rest"))
	})
	g := r.Group("/rec")
	g.Use(water.Recovery())
	g.GET("/:k", func(ctx *water.Context) {
		ctx.Set("own", ctx.Param("k"))
		ctx.Header().Add("X-Obs", "rec "+ctx.Query("q")+observe(ctx))
		if ctx.Param("k") == "late" {
			ctx.WriteHeader(202)
		}
		vsched.Yield()
		panic("contained")
	})
	lg := r.Group("/log")
	lg.Use(water.Logger())
	lg.POST("/:k", func(ctx *water.Context) {
		vsched.Yield()
		b, err := ctx.BodyString()
		vsched.Yield()
		fmt.Fprintf(ctx, "log %s body=%q err=%v", observe(ctx), b, err)
	})
	r.POST("/bind/:k", func(ctx *water.Context) {
		var v boundT
		vsched.Yield()
		err := ctx.Bind(&v)
		vsched.Yield()
		fmt.Fprintf(ctx, "bind %s %d %s %v sub=%v err=%v", observe(ctx), v.ID, v.Name, v.Tags, v.Sub, err)
	})
	r.POST("/form/:k", func(ctx *water.Context) {
		x := ctx.Query("name")
		vsched.Yield()
		fmt.Fprintf(ctx, "form %s name=%q ids=%v map=%v", observe(ctx), x, ctx.QueryArray("id"), ctx.QueryMap("m"))
	})
	r.POST("/up/:k", func(ctx *water.Context) {
		ctx.ParseFormOrMultipartForm()
		vsched.Yield()
		f, fh, err := ctx.FormFile("file")
		var b []byte
		if err == nil {
			b, _ = io.ReadAll(f)
			f.Close()
		}
		vsched.Yield()
		name := ""
		if fh != nil {
			name = fh.Filename
		}
		fmt.Fprintf(ctx, "up %s %s %q err=%v v=%q", observe(ctx), name, b, err, ctx.Query("name"))
	})
	r.GET("/file/:k", func(ctx *water.Context) {
		vsched.Yield()
		ctx.File(filepath.Join(dir, ctx.Param("k")))
		ctx.Header().Add("X-Obs", "file "+observe(ctx))
	})
	cg := r.Group("/cors")
	cg.Use(water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a", "http://b"}, AllowCredentials: true}))
	cg.GET("/:k", func(ctx *water.Context) {
		ctx.Header().Add("Vary", "V-"+ctx.Param("k"))
		ctx.Header().Add("Access-Control-Expose-Headers", "E-"+ctx.Param("k"))
		o := observe(ctx)
		fmt.Fprintf(ctx, "cors %s %q", o, ctx.Header())
	})
	cg.OPTIONS("/:k", func(ctx *water.Context) { fmt.Fprint(ctx, "not reached") })
	r.GET("/cookie/:k", func(ctx *water.Context) {
		ctx.SetCookie("k", ctx.Param("k"), 5)
		vsched.Yield()
		ctx.JSON(200, []string{observe(ctx), ctx.Cookie("c"), ctx.RealIp()})
	})
	r.StaticAdvance(&water.StaticOptions{Prefix: "/static", FileSystem: http.Dir(dir), ETag: water.ETagType2, Expires: func() string { return "never" }})
	r.GET("/rx/<w ~ ([a-z]+)>/<u,v ~ ([a-z])(t*)>", func(ctx *water.Context) {
		vsched.Yield()
		ctx.String(200, "rx "+observe(ctx))
	})
	r.GET("/gl/*/m/*", func(ctx *water.Context) { ctx.String(200, "gl "+observe(ctx)) })
	r.GET("/gl/*g/n/*h", func(ctx *water.Context) { ctx.String(200, "gn "+observe(ctx)) })
	r.GET("/dl/:k", func(ctx *water.Context) {
		if ctx.Param("k")[0] == 'a' {
			fmt.Fprint(ctx, ctx.Download(filepath.Join(dir, "f.txt")), observe(ctx))
			return
		}
		ctx.Attachment(ctx.Param("k")+" é.txt", time.Unix(1600000000, 0), strings.NewReader("att "+ctx.Param("k")), true)
		ctx.Header().Add("X-Obs", observe(ctx))
	})
	r.GET("/stream/:k", func(ctx *water.Context) {
		err := ctx.Stream("text/csv", strings.NewReader("stream "+ctx.Param("k")))
		vsched.Yield()
		fmt.Fprint(ctx, err, observe(ctx))
	})
	r.GET("/xml/:k", func(ctx *water.Context) { ctx.XML(206, &c12In{len(ctx.Param("k")), observe(ctx)}) })
	r.GET("/html/:k", func(ctx *water.Context) { ctx.HTMLRaw(207, observe(ctx)) })
	r.GET("/std/:k", func(w http.ResponseWriter, req *http.Request) {
		w.Header().Set("X-Std", req.URL.Path)
		vsched.Yield()
		http.Redirect(w, req, "/to"+req.URL.Path, 307)
	})
	r.GET("/std2/:k", http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		vsched.Yield()
		fmt.Fprint(w, "std2 ", req.URL.Path, req.Form)
	}))
	r.GET("/go/:k", func(ctx *water.Context) { ctx.Found("/x/" + ctx.Param("k")); ctx.Header().Add("X-Obs", observe(ctx)) })
	r.PUT("/meta/:k/:n", func(ctx *water.Context) {
		var h struct {
			T string `header:"X-T"`
			N []int  `header:"X-N"`
		}
		var u struct {
			K string `uri:"k" form:"k"`
			N int    `uri:"n" form:"n" binding:"gte=1"`
		}
		e1 := binding.Header.Bind(ctx.Request, &h)
		vsched.Yield()
		var q struct {
			Q string    `form:"q"`
			D string    `form:"d" default:"dd"`
			W time.Time `form:"w" time_format:"2006-01-02"`
		}
		e3 := binding.Query.Bind(ctx.Request, &q)
		vsched.Yield()
		n, e4 := ctx.Params.Int("n")
		fmt.Fprintf(ctx, "meta %s %s %v %v|%s %d|%s %s %v %v|%d %v", observe(ctx), h.T, h.N, e1, u.K, u.N, q.Q, q.D, q.W, e3, n, e4)
		vsched.Yield()
		fmt.Fprintf(ctx, "%s %q %s %v %v %s %s %d %v", ctx.RealIp(), ctx.Proxy(), ctx.Protocol(), ctx.IsAjax(), ctx.IsWebsocket(), ctx.ContentType(), ctx.UserAgent(), ctx.QueryInt("n"), ctx.QueryFloat64("f"))
	})
	r.POST("/bindx/:k", func(ctx *water.Context) {
		var v struct {
			A string   `xml:"a" binding:"required"`
			B []int    `xml:"b"`
			C *boundXT `xml:"c"`
		}
		err := ctx.BindWith(&v, binding.XML)
		vsched.Yield()
		fmt.Fprintf(ctx, "bindx %s %q %v %v %v", observe(ctx), v.A, v.B, v.C != nil, err)
	})
	var e *water.Engine
	r.GET("/nest/:k", func(ctx *water.Context) {
		ctx.Set("own", "outer")
		fmt.Fprintf(ctx, "outer %s;", observe(ctx))
		sub := NewRec()
		e.ServeHTTP(sub, Req("GET", "/p/"+ctx.Param("k")+"sub"))
		vsched.Yield()
		fmt.Fprintf(ctx, "inner[%s] outer %s", sub.Summary(), observe(ctx))
		e.ServeHTTP(NewRec(), Req("GET", "/none/at/all/x"))
		fmt.Fprintf(ctx, "outer %s", observe(ctx))
	})
	opts := []water.Option{water.WithStaticRouter(static)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) {
			ctx.Environ.Set("own", "nf")
			ctx.Header().Add("X-Obs", "nf1 "+observe(ctx))
		}, func(ctx *water.Context) { ctx.String(404, "nf2 "+ctx.Query("q")+observe(ctx)) }))
	}
	e = r.Handler(opts...)
	return e
}

type rkind struct {
	name string
	req  func(tag string) *http.Request
}

func multipartBody(tag string) (string, []byte) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	w.SetBoundary("bound" + tag)
	w.WriteField("name", "mp"+tag)
	f, _ := w.CreateFormFile("file", "f"+tag+".bin")
	f.Write([]byte("data\x00" + tag))
	w.Close()
	return w.FormDataContentType(), b.Bytes()
}

var c14Kinds = []rkind{
	{"param", func(t string) *http.Request { return ReqURL("GET", "/p/"+t, "q=1"+t+"&q=%202") }},
	{"deep", func(t string) *http.Request { return Req("GET", "/p/"+t+"/12/x") }},
	{"regexp", func(t string) *http.Request { return Req("GET", "/p/"+string(t[0])+"4/"+t+"/y") }},
	{"abandoned", func(t string) *http.Request { return Req("GET", "/p/"+string(t[0])+"4/12/z") }},
	{"static", func(t string) *http.Request { return Req("GET", "/stat") }},
	{"chain", func(t string) *http.Request { return Req("GET", "/stat/ic") }},
	{"silent", func(t string) *http.Request { return ReqURL("GET", "/silent/"+t+"/x", "q=s"+t) }},
	{"boom", func(t string) *http.Request { return ReqURL("GET", "/boom/"+t+"/x", "q=b"+t) }},
	{"recovered", func(t string) *http.Request { return ReqURL("GET", "/rec/"+t, "q=r"+t) }},
	{"recovered late", func(t string) *http.Request { return Req("GET", "/rec/late") }},
	{"unmatched", func(t string) *http.Request { return ReqURL("GET", "/none/"+t, "q=n"+t) }},
	{"other method", func(t string) *http.Request { return Req("DELETE", "/p/"+t) }},
	{"405", func(t string) *http.Request { return Req("TRACE", "/p/"+t) }},
	{"406", func(t string) *http.Request {
		r := Req("GET", "/p/"+t)
		r.Proto, r.ProtoMinor = "HTTP/1.0", 0
		return r
	}},
	{"form", func(t string) *http.Request {
		r := ReqBody("POST", "/form/"+t, "application/x-www-form-urlencoded", []byte("name=n"+t+"&id=1&id=2&m[x]="+t))
		r.URL.RawQuery = "name=url&id=u" + t
		return r
	}},
	{"bind json", func(t string) *http.Request {
		return ReqBody("POST", "/bind/"+t, "application/json", []byte(`{"id":`+fmt.Sprint(len(t))+`,"name":"`+t+`","tags":["`+t+`"]}`))
	}},
	{"bind bad", func(t string) *http.Request {
		return ReqBody("POST", "/bind/"+t, "application/json", []byte(`{"id":-4,"name":"`+t+`"}`))
	}},
	{"bind form", func(t string) *http.Request {
		return ReqBody("POST", "/bind/"+t, "application/x-www-form-urlencoded", []byte("id=5&name="+t+"&tags="+t))
	}},
	{"log", func(t string) *http.Request {
		return ReqBody("POST", "/log/"+t, "application/json", []byte(`{"log":"`+t+`"}`))
	}},
	{"upload", func(t string) *http.Request {
		ct, b := multipartBody(t)
		return ReqBody("POST", "/up/"+t, ct, b)
	}},
	{"file", func(t string) *http.Request { return Req("GET", "/file/f.txt") }},
	{"file range", func(t string) *http.Request {
		r := Req("GET", "/file/f.txt")
		r.Header.Set("Range", fmt.Sprintf("bytes=%d-", len(t)))
		return r
	}},
	{"static dir", func(t string) *http.Request { return Req("GET", "/static/f.txt") }},
	{"cors", func(t string) *http.Request {
		r := Req("GET", "/cors/"+t)
		r.Header.Set("Origin", "http://"+string(t[0]))
		return r
	}},
	{"cors none", func(t string) *http.Request { return Req("GET", "/cors/"+t) }},
	{"cors other", func(t string) *http.Request {
		r := Req("GET", "/cors/"+t)
		r.Header.Set("Origin", "http://other")
		return r
	}},
	{"log text", func(t string) *http.Request {
		return ReqBody("POST", "/log/"+t, "text/plain", []byte("text "+t))
	}},
	{"preflight", func(t string) *http.Request {
		r := Req("OPTIONS", "/cors/"+t)
		r.Header.Set("Origin", "http://"+string(t[0]))
		r.Header.Set("Access-Control-Request-Headers", "X-"+t)
		return r
	}},
	{"cookie", func(t string) *http.Request {
		r := Req("GET", "/cookie/"+t)
		r.Header.Set("Cookie", "c=val"+t)
		r.RemoteAddr = "10.0.0." + fmt.Sprint(len(t)) + ":9"
		return r
	}},
	{"regexp end", func(t string) *http.Request { return Req("GET", "/rx/"+t+"/"+t) }},
	{"globs", func(t string) *http.Request { return Req("GET", "/gl/"+t+"/m/"+t+"/x") }},
	{"globs2", func(t string) *http.Request { return Req("GET", "/gl/"+t+"/n/"+t+"/y/"+t) }},
	{"download", func(t string) *http.Request { return Req("GET", "/dl/"+t) }},
	{"stream", func(t string) *http.Request { return Req("GET", "/stream/"+t) }},
	{"xml", func(t string) *http.Request { return Req("GET", "/xml/"+t) }},
	{"html", func(t string) *http.Request { return Req("GET", "/html/"+t) }},
	{"std", func(t string) *http.Request { return Req("GET", "/std/"+t) }},
	{"std2", func(t string) *http.Request { return Req("GET", "/std2/"+t) }},
	{"redirect", func(t string) *http.Request { return Req("GET", "/go/"+t) }},
	{"meta", func(t string) *http.Request {
		r := ReqURL("PUT", "/meta/"+t+"/"+fmt.Sprint(len(t)), "q=q"+t+"&w=200"+fmt.Sprint(len(t))+"-01-02&n="+fmt.Sprint(len(t)))
		r.Header.Set("X-T", t)
		r.Header["X-N"] = []string{fmt.Sprint(len(t)), "7"}
		r.Header.Set("X-Forwarded-For", "9.9.9."+fmt.Sprint(len(t))+", "+t)
		r.Header.Set("User-Agent", "ua "+t)
		if len(t) > 1 {
			r.Header.Set("X-Requested-With", "XMLHttpRequest")
			r.Header.Set("X-Forwarded-Proto", "https")
			r.Header.Set("Content-Type", "text/x; charset=a")
		}
		return r
	}},
	{"bind xml", func(t string) *http.Request {
		return ReqBody("POST", "/bindx/"+t, "application/xml", []byte("<v><a>"+t+"</a><b>"+fmt.Sprint(len(t))+"</b><c><d>x</d></c></v>"))
	}},
	{"bind xml bad", func(t string) *http.Request {
		return ReqBody("POST", "/bindx/"+t, "text/xml", []byte("<v><b>"+fmt.Sprint(len(t))+"</b>"))
	}},
	{"static index", func(t string) *http.Request { return Req("GET", "/static/idx/") }},
	{"static slash", func(t string) *http.Request { return Req("GET", "/static/idx") }},
	{"static tag", func(t string) *http.Request {
		r := Req("GET", "/static/f.txt")
		if len(t) > 1 {
			r.Header.Set("If-None-Match", water.GenerateETag2(time.Unix(1600000000, 0), 12, "f.txt"))
		}
		return r
	}},
	{"nested", func(t string) *http.Request { return Req("GET", "/nest/"+t) }},
}

func kindsNamed(names ...string) (out []rkind) {
	for _, n := range names {
		found := false
		for _, k := range c14Kinds {
			if k.name == n {
				out = append(out, k)
				found = true
			}
		}
		if !found {
			panic("harness: kind " + n)
		}
	}
	return
}

// outcome of one request, as far as the client and the caller can tell.
func outcomeOf(h http.Handler, req *http.Request) string {
	rec := NewRec()
	v, _, p := Try(func() { h.ServeHTTP(rec, req) })
	if p {
		return rec.Summary() + fmt.Sprint(" panic=", v)
	}
	return rec.Summary() + " all=" + hdr(rec.H)
}

// stripStack removes file positions, which depend on where the caller stands.
func stripStack(s string) string {
	i := strings.Index(s, "HandlerFunc crashed with error: ")
	if i < 0 {
		return s
	}
	if j := strings.Index(s[i:], `\n`); j >= 0 {
		return s[:i+j]
	}
	return s[:i]
}

func c14Body(n int, kinds []rkind, pool, same bool) Body {
	memo := map[string]string{}
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		static, nf := c.Bool(), c.Bool()
		var seq []int
		var names []string
		for i := 0; i < n; i++ {
			k := c.Choose(len(kinds))
			seq = append(seq, k)
			names = append(names, kinds[k].name)
		}
		devs := 0
		if pool {
			vsched.PoolDev = func(m int) int { devs++; return c.Choose(m + 1) }
			defer func() { vsched.PoolDev = nil }()
		}
		ek := fmt.Sprint(static, nf)
		e := c14Engine(static, nf)
		for i, k := range seq {
			tag := string(rune('a'+i)) + strings.Repeat("t", i)
			if same {
				tag = "at"
			}
			got := outcomeOf(e, kinds[k].req(tag))
			c.Step()
			mk := fmt.Sprint(ek, kinds[k].name, tag)
			want, ok := memo[mk]
			if !ok {
				pd := vsched.PoolDev
				vsched.PoolDev = nil
				want = outcomeOf(c14Engine(static, nf), kinds[k].req(tag))
				memo[mk] = want
				vsched.PoolDev = pd
			}
			if got != want {
				c.Failf("trace-left", "static=%v notfound=%v: after %v the request %q is answered\n %s\nby a fresh engine\n %s", static, nf, names[:i], kinds[k].name, got, want)
				return
			}
			c.State(fmt.Sprint(names[:i+1], devs))
		}
	}
}

// c14Repeat: long histories: a short pattern repeated many times, then every kind.
func c14Repeat(c *C) {
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	static, nf := c.Bool(), c.Bool()
	a, b := PickS(c, c14Kinds), PickS(c, c14Kinds)
	e := c14Engine(static, nf)
	f := c14Engine(static, nf)
	for i := 0; i < 6; i++ {
		outcomeOf(e, a.req(fmt.Sprint("r", i)))
		outcomeOf(e, b.req(fmt.Sprint("s", i)))
	}
	for _, k := range []rkind{a, b, c14Kinds[0], c14Kinds[4], c14Kinds[10]} {
		got, want := outcomeOf(e, k.req("fin")), outcomeOf(f, k.req("fin"))
		c.Step()
		if got != want {
			c.Failf("trace-left", "static=%v notfound=%v: after 6 x %q, %q the request %q is answered\n %s\nby a fresher engine\n %s", static, nf, a.name, b.name, k.name, got, want)
			return
		}
	}
	c.State(a.name + b.name)
}

var _ = binding.JSON

func init() {
	core := kindsNamed("param", "regexp", "abandoned", "static", "chain", "silent", "boom", "recovered late", "unmatched", "405", "form", "nested", "bind json", "file")
	register(&Prop{ID: "C14", Scopes: []Scope{
		{Name: "hist2", Desc: "every history of 2 requests of 46 kinds (every route kind, unmatched, rejected, panicking, recovered, partially written, bound, uploaded, nested) x static lookup x not-found handlers x every choice of recycled object", Body: c14Body(2, c14Kinds, true, false), Split: 4},
		{Name: "hist3", Desc: "every history of 3 requests of 14 kinds, every choice of recycled object", Body: c14Body(3, core, true, false), Split: 4},
		{Name: "same2", Desc: "the histories of 2 requests of 46 kinds with equal paths and contents where the kinds agree", Body: c14Body(2, c14Kinds, true, true), Split: 4},
		{Name: "same3", Desc: "the same for histories of 3 requests of 14 kinds", Body: c14Body(3, core, true, true), Split: 4},
		{Name: "repeat", Desc: "every pair of kinds repeated 6 times, then 5 probes", Body: c14Repeat, Split: 3},
		{Name: "hist3all", Desc: "every history of 3 requests of 46 kinds", Body: c14Body(3, c14Kinds, true, false), Split: 4, Thorough: true},
		{Name: "hist4", Desc: "every history of 4 requests of 14 kinds", Body: c14Body(4, core, true, false), Split: 4, Thorough: true},
	}})
}
