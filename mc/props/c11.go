package props

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// refW is the documented response of a context: the first status wins, a body write without
// one means 200 with a detected content type.
type refW struct {
	h         http.Header
	status    int
	snap      http.Header
	body      bytes.Buffer
	commitErr bool
}

func newRefW() *refW { return &refW{h: http.Header{}} }

func (r *refW) Header() http.Header { return r.h }
func (r *refW) WriteHeader(code int) {
	if r.status == 0 {
		r.status = code
		r.snap = r.h.Clone()
	}
}
func (r *refW) Write(b []byte) (int, error) {
	if r.status == 0 {
		if len(b) > 0 && r.h.Get("Content-Type") == "" {
			r.h.Set("Content-Type", http.DetectContentType(b))
		}
		r.WriteHeader(200)
	}
	return r.body.Write(b)
}
func (r *refW) Summary() string {
	return fmt.Sprintf("status=%d header={%s} body=%q", r.status, hdr(r.snap), clip(r.body.String(), 300))
}

// wop is one write operation, done through the context and on the reference.
type wop struct {
	name string
	do   func(ctx *water.Context)
	ref  func(w *refW, req *http.Request)
}

type pairT struct {
	A string `json:"a" xml:"a"`
	B int    `json:"b" xml:"b"`
}

var fixtures sync.Once
var fixDir string

// fixtureDir holds a few files for file serving.
func fixtureDir() string {
	fixtures.Do(func() {
		fixDir = filepath.Join(scratch(), "fix")
		must(os.MkdirAll(filepath.Join(fixDir, "dir"), 0755))
		must(os.MkdirAll(filepath.Join(fixDir, "idx"), 0755))
		for n, b := range map[string]string{"f.txt": "file content", "empty.txt": "", "idx/index.html": "<p>index</p>", "dir/x.bin": "\x00\x01\x02", "big.bin": strings.Repeat("0123456789abcdef", 5000)} {
			must(os.WriteFile(filepath.Join(fixDir, n), []byte(b), 0644))
			must(os.Chtimes(filepath.Join(fixDir, n), time.Unix(1600000000, 0), time.Unix(1600000000, 0)))
		}
	})
	return fixDir
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func c11Ops(dir string) []wop {
	wh := func(code int) wop {
		return wop{fmt.Sprintf("WriteHeader(%d)", code), func(ctx *water.Context) { ctx.WriteHeader(code) }, func(w *refW, _ *http.Request) { w.WriteHeader(code) }}
	}
	wr := func(b []byte) wop {
		return wop{fmt.Sprintf("Write(%d bytes)", len(b)), func(ctx *water.Context) { ctx.Write(b) }, func(w *refW, _ *http.Request) { w.Write(b) }}
	}
	helper := func(name, ct string, code int, body string, do func(ctx *water.Context)) wop {
		return wop{name, do, func(w *refW, _ *http.Request) {
			w.h.Set("Content-Type", ct)
			w.WriteHeader(code)
			w.Write([]byte(body))
		}}
	}
	std := func(name string, f func(w http.ResponseWriter, r *http.Request)) wop {
		return wop{name, func(ctx *water.Context) { f(ctx, ctx.Request) }, func(w *refW, r *http.Request) { f(w, r) }}
	}
	file := filepath.Join(dir, "f.txt")
	v := pairT{"x<y", 7}
	jb, _ := json.Marshal(v)
	xb, _ := xml.Marshal(v)
	return []wop{
		wr([]byte("hello")),
		wh(404),
		wh(200),
		{"SetHeader(CT)", func(ctx *water.Context) { ctx.SetHeader("Content-Type", "text/x-own") }, func(w *refW, _ *http.Request) { w.h.Set("Content-Type", "text/x-own") }},
		wr(nil),
		{"SetHeader(X)", func(ctx *water.Context) { ctx.SetHeader("X-One", "1") }, func(w *refW, _ *http.Request) { w.h.Set("X-One", "1") }},
		{"NotFound", func(ctx *water.Context) { ctx.NotFound() }, func(w *refW, _ *http.Request) { w.WriteHeader(404) }},
		{"Found(/to)", func(ctx *water.Context) { ctx.Found("/to") }, func(w *refW, r *http.Request) { http.Redirect(w, r, "/to", 302) }},
		helper("String(201)", "text/plain; charset=utf-8", 201, "str", func(ctx *water.Context) { ctx.String(201, "str") }),
		helper("JSON(202)", "application/json; charset=utf-8", 202, string(jb)+"\n", func(ctx *water.Context) { ctx.JSON(202, v) }),
		{"File", func(ctx *water.Context) { ctx.File(file) }, func(w *refW, r *http.Request) { http.ServeFile(w, r, file) }},
		wr([]byte("<html><body>")),
		helper("HTMLRaw(200,empty)", "text/html; charset=utf-8", 200, "", func(ctx *water.Context) { ctx.HTMLRaw(200, "") }),
		{"Stream", func(ctx *water.Context) { ctx.Stream("image/x", strings.NewReader("streamed")) }, func(w *refW, _ *http.Request) {
			w.h.Set("Content-Type", "image/x")
			w.Write([]byte("streamed"))
		}},
		{"ServeFile", func(ctx *water.Context) { ctx.ServeFile(file) }, func(w *refW, r *http.Request) { http.ServeFile(w, r, file) }},
		std("http.Error", func(w http.ResponseWriter, r *http.Request) { http.Error(w, "oops", 503) }),
		{"io.Copy(big)", func(ctx *water.Context) { io.Copy(ctx, bytes.NewReader(bigBytes)) }, func(w *refW, _ *http.Request) { io.Copy(w, bytes.NewReader(bigBytes)) }},
		helper("Data(200)", "application/x-d", 200, "\x00\xff", func(ctx *water.Context) { ctx.Data(200, "application/x-d", []byte{0, 0xff}) }),
		helper("XML(200)", "application/xml; charset=utf-8", 200, string(xb), func(ctx *water.Context) { ctx.XML(200, v) }),
		helper("HTML(203)", "text/html; charset=utf-8", 203, "", func(ctx *water.Context) { ctx.HTML(203, "t", nil) }),
		std("File(missing)", func(w http.ResponseWriter, r *http.Request) {
			if c, ok := w.(*water.Context); ok {
				c.File(filepath.Join(dir, "none"))
			} else {
				http.ServeFile(w, r, filepath.Join(dir, "none"))
			}
		}),
		wh(204),
		{"InternalServerError", func(ctx *water.Context) { ctx.InternalServerError() }, func(w *refW, _ *http.Request) { w.WriteHeader(500) }},
	}
}

var bigBytes = bytes.Repeat([]byte("0123456789"), 7000)

// c11Body: sequences of n operations split over two handlers.
func c11Body(n, nops int) Body {
	var ops []wop
	return func(c *C) {
		if ops == nil {
			ops = c11Ops(fixtureDir())
		}
		use := ops
		if nops < len(use) {
			use = use[:nops]
		}
		var seq []wop
		for i := 0; i < n; i++ {
			seq = append(seq, PickS(c, use))
		}
		cut := c.Choose(n) + 1 // operations of the first handler
		method := "GET"
		if n <= 2 {
			method = Pick(c, "GET", "HEAD", "POST")
		}
		if cut == n && n > 1 {
			c.Prune()
		}
		req := Req(method, "/p/q")
		ref := newRefW()
		rec := NewRec()
		var done []string
		where := ""
		check := func(ctx *water.Context, at string) {
			c.Step()
			if len(rec.Commits) > 1 {
				c.Failf("twice", "%s after %q: the writer received the statuses %v", at, done, rec.Commits)
			}
			if rec.Status != ref.status {
				c.Failf("status", "%s after %q: the client has status %d, expected %d", at, done, rec.Status, ref.status)
			}
			if ctx.Written() != (ref.status != 0) || ctx.Status() != ref.status {
				c.Failf("report", "%s after %q: the context reports written=%v status=%d, expected %v %d", at, done, ctx.Written(), ctx.Status(), ref.status != 0, ref.status)
			}
			if rec.Body.String() != ref.body.String() {
				c.Failf("body", "%s after %q: the client has body %q, expected %q", at, done, clip(rec.Body.String(), 100), clip(ref.body.String(), 100))
			}
			if ref.status != 0 {
				a, b := rec.Snap.Clone(), ref.snap.Clone()
				if hdr(a) != hdr(b) {
					c.Failf("header", "%s after %q: the client has headers %s, expected %s", at, done, hdr(a), hdr(b))
				}
			}
		}
		run := func(ctx *water.Context, l []wop) {
			for _, o := range l {
				o.do(ctx)
				o.ref(ref, req)
				done = append(done, o.name)
				check(ctx, where)
			}
		}
		r := water.NewRouter()
		r.Use(func(ctx *water.Context) {
			where = "before everything"
			check(ctx, where)
			ctx.Next()
			where = "outermost"
			check(ctx, where)
		})
		h1 := func(ctx *water.Context) {
			where = "in the first handler"
			run(ctx, seq[:cut])
			ctx.Next()
			check(ctx, "in the first handler after Next")
		}
		h2 := func(ctx *water.Context) {
			where = "in the second handler"
			run(ctx, seq[cut:])
		}
		if n%2 == 0 {
			regMethod(r, method, "/p/q", h1, h2)
		} else {
			g := r.Group("/p")
			g.Use(h1)
			regMethod(g, method, "/q", h2)
		}
		r.Handler().ServeHTTP(rec, req)
		if len(done) != n {
			c.Failf("ran", "only %q of the operations ran", done)
		}
		c.State(rec.Summary())
		c.Outcome(fmt.Sprint("status ", rec.Status))
	}
}

// c11Std: with the recovery middleware and static serving, the report after each kind of request.
func c11Static(c *C) {
	dir := fixtureDir()
	tgt := Pick(c, "/s/f.txt", "/s/empty.txt", "/s/none", "/s/dir", "/s/dir/", "/s/idx/", "/s/idx/index.html", "/s/dir/x.bin", "/one", "/none", "/s/idx")
	method := Pick(c, "GET", "HEAD")
	cond := c.Choose(5)
	idx := c.Bool()
	recov := c.Bool()
	req := Req(method, tgt)
	switch cond {
	case 1:
		req.Header.Set("If-Modified-Since", time.Unix(1700000000, 0).UTC().Format(http.TimeFormat))
	case 2:
		req.Header.Set("Range", "bytes=2-4")
	case 3:
		req.Header.Set("Range", "bytes=900-")
	case 4:
		req.Header.Set("If-None-Match", water.GenerateETag(time.Unix(1600000000, 0), 12))
	}
	rec := NewRec()
	seen := 0
	r := water.NewRouter()
	r.Before(func(ctx *water.Context) {
		ctx.Next()
		seen++
		if ctx.Written() != (rec.Status != 0) || ctx.Status() != rec.Status {
			c.Failf("report", "%s %s: the context reports written=%v status=%d but the client has status %d", method, tgt, ctx.Written(), ctx.Status(), rec.Status)
		}
	})
	if recov {
		r.Use(water.Recovery())
	}
	opt := &water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(dir), ETag: water.ETagType1}
	if idx {
		opt.IndexFile = "index.html"
	}
	r.StaticAdvance(opt)
	r.StaticFile("/one", filepath.Join(dir, "f.txt"))
	r.StaticFile("/none", filepath.Join(dir, "zip"))
	r.Handler().ServeHTTP(rec, req)
	c.Step()
	if len(rec.Commits) > 1 {
		c.Failf("twice", "%s %s %v: the writer received the statuses %v", method, tgt, req.Header, rec.Commits)
	}
	if seen != 1 || rec.Status == 0 {
		c.Failf("nothing", "%s %s %v: %d runs, status %d", method, tgt, req.Header, seen, rec.Status)
	}
	c.State(rec.Summary())
	c.Outcome(fmt.Sprint("status ", rec.Status))
}

func init() {
	register(&Prop{ID: "C11", Scopes: []Scope{
		{Name: "ops1", Desc: "every one of 23 response operations x 3 methods", Body: c11Body(1, 99), Split: 1},
		{Name: "ops2", Desc: "every sequence of 2 of 23 response operations over two handlers, 3 methods", Body: c11Body(2, 99), Split: 2},
		{Name: "ops3", Desc: "every sequence of 3 of 23 response operations, every split over group middleware and handler", Body: c11Body(3, 99), Split: 2},
		{Name: "static", Desc: "static files, directories and missing files x conditional and range headers x index file x Recovery: what the context reports afterwards", Body: c11Static, Split: 2},
		{Name: "ops4", Desc: "every sequence of 4 of 14 operations", Body: c11Body(4, 14), Split: 3},
		{Name: "ops4all", Desc: "every sequence of 4 of 23 operations", Body: c11Body(4, 99), Split: 3, Thorough: true},
		{Name: "ops5", Desc: "every sequence of 5 of 12 operations", Body: c11Body(5, 12), Split: 3, Thorough: true},
	}})
}
