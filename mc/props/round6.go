package props

import (
	"context"
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// ---- C03: the text of a regular expression, token by token

var c03Tokens = []string{"a", "~", ":", ">", "<", ",", "b", "(?:a|~)", "[^a]", "^", "$", `\d`, ".", "*", "+", "?", "|", " ", "(", ")", "é", `\~`, "{2}"}

// c03Regexp: every regular expression of up to n tokens as the only segment; Go's own package is the oracle.
func c03Regexp(n int) Body {
	letters := []string{"a", "~", ":", "b", ">", ",", "7", " ", "é", "<", "_"}
	var paths []string
	for _, x := range letters {
		paths = append(paths, x)
		for _, y := range letters {
			paths = append(paths, x+y)
			if x == "a" || x == "~" {
				paths = append(paths, x+y+"a", x+y+"~")
			}
		}
	}
	return func(c *C) {
		form := c.Choose(4)
		body := ""
		for i := 0; i < n; i++ {
			k := c.Choose(len(c03Tokens) + 1)
			if k == 0 {
				if i == 0 {
					c.Prune()
				}
				break
			}
			body += c03Tokens[k-1]
		}
		re, err := regexp.Compile(body)
		if body != strings.TrimSpace(body) || err != nil || strings.Contains(body, "/") || re.NumSubexp() > 1 {
			c.Prune()
		}
		pat := fmt.Sprintf([]string{"/<n~%s>", "/<n ~ %s>", "/<n:int ~ %s>", "/p/<n ~ %s>"}[form], body)
		prefix := "/"
		if form == 3 {
			prefix = "/p/"
		}
		r := water.NewRouter()
		hit, got := false, ""
		r.GET(pat, func(ctx *water.Context) {
			hit, got = true, ctx.Param("n")
			ctx.WriteHeader(200)
		})
		e, refused := Build(func() *water.Engine { return r.Handler() })
		if refused != nil {
			c.Failf("refused", "%q is refused: %v", pat, refused)
			return
		}
		for _, p := range paths {
			hit, got = false, ""
			_, pv := Serve(e, Req("GET", prefix+p))
			c.Step()
			m := re.FindStringSubmatch(p)
			want := ""
			if m != nil {
				want = m[len(m)-1]
			}
			if pv != nil || hit != (m != nil) || got != want {
				c.Failf("regexp", "%q: GET %s: matched %v with n=%q, expected %v with %q (panic %v)", pat, prefix+p, hit, got, m != nil, want, pv)
				return
			}
		}
		c.State(pat)
	}
}

// ---- C07, C33: lists of handlers that belong to the caller

// callersLists: n calls that take handlers out of one list of the caller's, with room behind it or without;
// the list is overwritten before the engine is built and after.
func callersLists(n int) Body {
	return func(c *C) {
		var ran []string
		h := func(tag string) func(*water.Context) {
			return func(ctx *water.Context) { ran = append(ran, tag) }
		}
		last := func(tag string) func(*water.Context) {
			return func(ctx *water.Context) { ran = append(ran, tag); ctx.WriteHeader(200) }
		}
		k := c.Choose(3)
		spare := c.Choose(3)
		base := make([]interface{}, k, k+spare)
		var baseTags []string
		for i := range base {
			t := fmt.Sprintf("b%d", i)
			baseTags = append(baseTags, t)
			base[i] = h(t)
		}
		r := water.NewRouter()
		g := r.Group("/g")
		var before, use, guse, nf []string
		type rt struct {
			path string
			grp  bool
			tags []string
		}
		var routes []rt
		var opts []water.Option
		desc := fmt.Sprintf("a list of %d with room for %d", k, spare)
		for i := 0; i < n; i++ {
			tag := fmt.Sprintf("x%d", i)
			op := c.Choose(7)
			if op == 5 && opts != nil {
				c.Prune()
			}
			own := h(tag)
			if op <= 1 || op >= 5 {
				own = last(tag)
			}
			l := append(base, own)
			tags := append(append([]string{}, baseTags...), tag)
			switch op {
			case 0:
				p := fmt.Sprintf("/r%d", i)
				r.GET(p, l...)
				routes = append(routes, rt{p, false, tags})
			case 1:
				p := fmt.Sprintf("/r%d", i)
				g.GET(p, l...)
				routes = append(routes, rt{"/g" + p, true, tags})
			case 2:
				r.Use(l...)
				use = append(use, tags...)
			case 3:
				g.Use(l...)
				guse = append(guse, tags...)
			case 4:
				r.Before(l...)
				before = append(before, tags...)
			case 5:
				opts = append(opts, water.WithNoFoundHandlers(l...))
				nf = tags
			case 6:
				p := fmt.Sprintf("/r%d", i)
				r.ANY(p, l...)
				routes = append(routes, rt{p, false, tags})
			}
			desc += fmt.Sprintf("; %s with the list and %s", []string{"GET", "GET in a group", "Use", "Use in a group", "Before", "not found", "ANY"}[op], tag)
		}
		r.GET("/end", last("end"))
		g.GET("/end", last("end"))
		routes = append(routes, rt{"/end", false, []string{"end"}}, rt{"/g/end", true, []string{"end"}})
		overwrite := func() {
			full := base[:cap(base)]
			for i := range full {
				full[i] = h("poison")
			}
		}
		when := c.Choose(3) // overwritten before the build, after it, or not
		if when == 1 {
			overwrite()
		}
		e := r.Handler(opts...)
		if when == 2 {
			overwrite()
		}
		for _, x := range routes {
			exp := append(append([]string{}, before...), use...)
			if x.grp {
				exp = append(exp, guse...)
			}
			exp = append(exp, x.tags...)
			ran = nil
			_, p := Serve(e, Req("GET", x.path))
			c.Step()
			if p != nil || strings.Join(ran, " ") != strings.Join(exp, " ") {
				c.Failf("lists", "%s; overwritten %d: GET %s ran %v, expected %v (panic %v)", desc, when, x.path, ran, exp, p)
				return
			}
		}
		ran = nil
		Serve(e, Req("GET", "/nowhere"))
		var exp []string
		if nf != nil {
			exp = append(append([]string{}, before...), nf...)
		}
		if strings.Join(ran, " ") != strings.Join(exp, " ") {
			c.Failf("lists", "%s; overwritten %d: an unmatched path ran %v, expected %v", desc, when, ran, exp)
		}
		c.State(desc)
	}
}

// ---- C09: the order of the listing

var c09Names3 = []string{"/a", "/B", "/b", "/Zeta", "/alpha", "/ab", "/a-b", "/a.b", "/aB", "/a_b", "/é", "/z", "/0", "/10", "/9", "/a/b", "/a0", "/~", "/:x", "/<x>/y", "/*"}

func c09Order(n int) Body {
	return func(c *C) {
		root := &c09Node{real: water.NewRouter()}
		var ops []string
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			k := c.Choose(len(c09Names3))
			if seen[k] {
				c.Prune()
			}
			seen[k] = true
			p := c09Names3[k]
			ops = append(ops, p)
			regMethod(root.real, "GET", p, c09Lasts[0])
			root.sub = append(root.sub, &c09Node{pattern: p, method: "GET", rt: &c09Route{method: "GET", full: p, n: func() int { return 1 }}})
		}
		m := newModel()
		var all []*c09Node
		root.dfs(&all)
		for _, x := range all {
			mr, why := m.add(x.method, x.rt.full)
			if why != "" {
				c.Prune()
			}
			x.rt.m = mr
		}
		e, ref := Build(func() *water.Engine { return root.real.Handler() })
		if ref != nil {
			c.Failf("refused", "%q refused: %v", ops, ref)
			return
		}
		c09Print(c, e, root, all, ops)
		c.State(fmt.Sprint(ops))
	}
}

// ---- C11: what the writer below offers

type rfRec struct{ *Rec }

func (r rfRec) ReadFrom(src io.Reader) (int64, error) {
	b, err := io.ReadAll(src)
	if len(b) > 0 || r.Status == 0 {
		r.Write(b)
	}
	return int64(len(b)), err
}

type wsRec struct{ *Rec }

func (r wsRec) WriteString(s string) (int, error) { return r.Write([]byte(s)) }

type flRec struct{ *Rec }

func (r flRec) Flush() {
	if r.Status == 0 {
		r.WriteHeader(200)
	}
}

type rfwsRec struct {
	*Rec
	rfRec0
	wsRec0
	flRec0
}
type rfRec0 = interface {
	ReadFrom(io.Reader) (int64, error)
}
type wsRec0 = interface{ WriteString(string) (int, error) }
type flRec0 = interface{ Flush() }

type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// c11Writers: sequences of n ways of writing over a writer that offers more than the required methods.
func c11Writers(n int) Body {
	text := "some text for the body"
	cp := func(name string, mk func() io.Reader) wop {
		return wop{"copy " + name, func(ctx *water.Context) { io.Copy(ctx, mk()) }, func(w *refW, _ *http.Request) {
			if b, _ := io.ReadAll(mk()); len(b) > 0 {
				w.Write(b)
			}
		}}
	}
	ops := []wop{
		cp("a text", func() io.Reader { return strings.NewReader(text) }),
		cp("part of a text", func() io.Reader { return io.LimitReader(strings.NewReader(text), 7) }),
		cp("a buffer", func() io.Reader { return bytes.NewBufferString("<html>" + text) }),
		cp("a plain reader", func() io.Reader { return plainReader{strings.NewReader(text)} }),
		cp("nothing", func() io.Reader { return plainReader{strings.NewReader("")} }),
		cp("much", func() io.Reader { return plainReader{bytes.NewReader(bigBytes)} }),
		{"copy n", func(ctx *water.Context) { io.CopyN(ctx, strings.NewReader(text), 5) }, func(w *refW, _ *http.Request) { w.Write([]byte(text[:5])) }},
		{"io.WriteString", func(ctx *water.Context) { io.WriteString(ctx, text) }, func(w *refW, _ *http.Request) { w.Write([]byte(text)) }},
		{"fmt.Fprintf", func(ctx *water.Context) { fmt.Fprintf(ctx, "%s-%d", text, 7) }, func(w *refW, _ *http.Request) { w.Write([]byte(text + "-7")) }},
		{"bufio", func(ctx *water.Context) { b := bufio.NewWriter(ctx); b.WriteString(text); b.Flush() }, func(w *refW, _ *http.Request) { w.Write([]byte(text)) }},
		{"bufio.ReadFrom", func(ctx *water.Context) {
			b := bufio.NewWriterSize(ctx, 16)
			b.ReadFrom(plainReader{strings.NewReader(text)})
			b.Flush()
		}, func(w *refW, _ *http.Request) { w.Write([]byte(text)) }},
		{"ServeContent", func(ctx *water.Context) {
			http.ServeContent(ctx, ctx.Request, "x.txt", time.Time{}, strings.NewReader(text))
		}, func(w *refW, r *http.Request) {
			http.ServeContent(w, r, "x.txt", time.Time{}, strings.NewReader(text))
		}},
		{"WriteHeader(204)", func(ctx *water.Context) { ctx.WriteHeader(204) }, func(w *refW, _ *http.Request) { w.WriteHeader(204) }},
		{"Stream", func(ctx *water.Context) { ctx.Stream("image/x", plainReader{strings.NewReader(text)}) }, func(w *refW, _ *http.Request) {
			w.h.Set("Content-Type", "image/x")
			w.Write([]byte(text))
		}},
		{"Flush", func(ctx *water.Context) {
			if f, ok := interface{}(ctx).(http.Flusher); ok {
				f.Flush()
			}
		}, nil},
	}
	return func(c *C) {
		var seq []wop
		for i := 0; i < n; i++ {
			seq = append(seq, PickS(c, ops))
		}
		kind := c.Choose(5)
		method := Pick(c, "GET", "HEAD")
		req := Req(method, "/p")
		rec, ref := NewRec(), newRefW()
		var w http.ResponseWriter
		switch kind {
		case 0:
			w = rec
		case 1:
			w = rfRec{rec}
		case 2:
			w = wsRec{rec}
		case 3:
			w = flRec{rec}
		case 4:
			w = rfwsRec{rec, rfRec{rec}, wsRec{rec}, flRec{rec}}
		}
		var done []string
		r := water.NewRouter()
		r.GET("/p", c11Run(c, rec, ref, req, seq, &done))
		r.HEAD("/p", c11Run(c, rec, ref, req, seq, &done))
		r.Handler().ServeHTTP(w, req)
		if len(done) != n && !c.Failed() {
			c.Failf("ran", "only %q ran", done)
		}
		c.State(fmt.Sprint(kind, method, done))
	}
}

func c11Run(c *C, rec *Rec, ref *refW, req *http.Request, seq []wop, done *[]string) func(ctx *water.Context) {
	return func(ctx *water.Context) {
		for _, o := range seq {
			o.do(ctx)
			if o.ref != nil {
				o.ref(ref, req)
			} else if rec.Status != 0 && ref.status == 0 {
				ref.WriteHeader(200) // a flush that reached the writer
			}
			*done = append(*done, o.name)
			c.Step()
			switch {
			case len(rec.Commits) > 1 || len(rec.Commits) > 0 && rec.Implied:
				c.Failf("twice", "after %q: the writer received the statuses %v (by a body write: %v)", *done, rec.Commits, rec.Implied)
			case rec.Status != ref.status || ctx.Status() != ref.status || ctx.Written() != (ref.status != 0):
				c.Failf("report", "after %q: the client has status %d, the context reports %v %d, expected %d", *done, rec.Status, ctx.Written(), ctx.Status(), ref.status)
			case rec.Body.String() != ref.body.String():
				c.Failf("body", "after %q: the client has body %q, expected %q", *done, clip(rec.Body.String(), 100), clip(ref.body.String(), 100))
			case ref.status != 0 && hdr(rec.Snap) != hdr(ref.snap):
				c.Failf("header", "after %q: the client has headers %s, expected %s", *done, hdr(rec.Snap), hdr(ref.snap))
			}
			if c.Failed() {
				return
			}
		}
	}
}

// ---- C16: bodies whose length is not known beforehand

func c16Unknown(c *C) {
	cs := &c16Case{failAt: -1, method: Pick(c, "POST", "PUT")}
	cs.ct = Pick(c, "application/json", "text/plain", "application/x-www-form-urlencoded")
	cs.body = []byte(Pick(c, `{"a":"b"}`, "", "a=1&b=2", `{"a":"`+strings.Repeat("x", 5000)+`"}`, `{"a":"`+strings.Repeat("y", 1<<20)+`"}`))
	cs.chunk = Pick(c, 0, 1, 512)
	if cs.chunk == 1 && len(cs.body) > 10000 {
		c.Prune()
	}
	cs.read = c.Choose(len(c16Reads))
	length := Pick[int64](c, -1, 0, int64(len(cs.body)))
	if length == 0 && len(cs.body) > 0 && !c.Bool() {
		c.Prune()
	}
	cfg := Pick(c, 2, 0)
	te := c.Bool()
	run := func(with bool) (string, string) {
		var note strings.Builder
		r := water.NewRouter()
		if with {
			r.Use(water.Logger())
		}
		r.Use(water.Recovery())
		regMethod(r, cs.method, "/log/me", c16Handler(cs, &note))
		req := ReqBody(cs.method, "/log/me", cs.ct, nil)
		req.Body = &chunkReader{data: cs.body, chunk: cs.chunk, failAt: -1}
		req.ContentLength = length
		if te && length < 0 {
			req.TransferEncoding = []string{"chunked"}
		}
		req.RemoteAddr = "203.0.113.77:4711"
		water.LogClose, water.LogHttpBody, water.LogColor = false, cfg&2 != 0, false
		rec := NewRec()
		water.Status = water.Stable
		v, _, p := Try(func() { r.Handler().ServeHTTP(rec, req) })
		water.Status = water.Dev
		s := rec.Summary()
		if p {
			s += fmt.Sprint(" panic ", v)
		}
		return s, note.String()
	}
	getLog()
	wantResp, wantNote := run(false)
	lg := getLog()
	gotResp, gotNote := run(true)
	line := lg.text()
	c.Step()
	desc := fmt.Sprintf("%s %s body of %d bytes by %d announced as %d, %s, LogHttpBody=%v", cs.method, cs.ct, len(cs.body), cs.chunk, length, c16Reads[cs.read], cfg&2 != 0)
	if gotNote != wantNote {
		c.Failf("read", "%s: with the logger the handler sees\n %s\nwithout\n %s", desc, gotNote, wantNote)
	}
	if gotResp != wantResp {
		c.Failf("response", "%s: with the logger the client gets\n %s\nwithout\n %s", desc, gotResp, wantResp)
	}
	logged := string(cs.body)
	if len(logged) > oneMiB {
		logged = logged[:oneMiB]
	}
	if length != 0 && logged != "" && strings.Contains(line, logged) != (cs.ct == "application/json" && cfg&2 != 0) {
		c.Failf("body", "%s: the body logged is %q", desc, clip(line, 300))
	}
	c.State(desc)
}

// ---- C19: sizes that do not fit 32 bits

type bigFS struct {
	size int64
	mod  time.Time
}

type bigFile struct {
	bigFS
	off int64
}

func (s bigFS) Open(name string) (http.File, error) { return &bigFile{bigFS: s}, nil }
func (f *bigFile) Close() error                     { return nil }
func (f *bigFile) Read(p []byte) (int, error) {
	if f.off >= f.size {
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > f.size-f.off {
		n = f.size - f.off
	}
	for i := range p[:n] {
		p[i] = 'x'
	}
	f.off += n
	return int(n), nil
}
func (f *bigFile) Seek(off int64, w int) (int64, error) {
	switch w {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = f.size + off
	}
	return f.off, nil
}
func (f *bigFile) Readdir(int) ([]os.FileInfo, error) { return nil, io.EOF }
func (f *bigFile) Stat() (os.FileInfo, error)         { return fakeInfo{"f.bin", f.size, f.mod, false}, nil }

var c19Sizes2 = []int64{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1<<33 + 255, 1 << 40, 1<<40 + 1, 1 << 53, 1<<53 + 1, 1 << 62, 1<<63 - 1}

// c19Huge: HEAD of two files of any sizes and times: equal tags exactly when both agree.
func c19Huge(c *C) {
	kind := 1 + c.Choose(2)
	tag := func() (bigFS, string, bool) {
		f := bigFS{PickS(c, c19Sizes2), PickS(c, []time.Time{time.Unix(1600000000, 0), time.Unix(1600000001, 0), time.Unix(1600000000+1<<32, 0), time.Unix(1, 0), time.Unix(1<<40, 0)})}
		r := water.NewRouter()
		r.StaticAdvance(c19Opt(kind, f, nil, ""))
		rr, p := deliver(false, r.Handler(), "HEAD", "/s/f.bin")
		c.Step()
		t, ok := one(rr.h, "Etag")
		if p != nil || rr.status != 200 || !ok {
			c.Failf("serve", "type %d, a file of %d bytes at %v: status %d, tag %q, panic %v", kind, f.size, f.mod.Unix(), rr.status, t, p)
			return f, "", false
		}
		return f, t, true
	}
	a, ta, ok := tag()
	if !ok {
		return
	}
	b, tb, ok := tag()
	if !ok {
		return
	}
	same := a.size == b.size && a.mod.Equal(b.mod)
	if same != (ta == tb) {
		c.Failf("distinct", "type %d: files of %d bytes at %d and %d bytes at %d have the tags %q and %q", kind, a.size, a.mod.Unix(), b.size, b.mod.Unix(), ta, tb)
	}
	c.State(ta + " " + tb)
}

// ---- C36: streams that end early leave nothing behind

func c36Streams(c *C) {
	size := Pick(c, 0, 1, 1000, 32768, 32769, 70000, 300000)
	src := c.Choose(4) // fine, fails in the middle, by small pieces, ends with data
	client := c.Choose(7)
	how := c.Choose(5)
	recov := c.Bool()
	times := Pick(c, 1, 3)
	cx, cancel := context.WithCancel(context.Background()) // as a server's, but it ends after the count
	defer cancel()
	rec := func() http.ResponseWriter {
		r := NewRec()
		switch client {
		case 1:
			r.FailAt = 0
		case 2:
			r.FailAt, r.Short = 1, true
		case 3:
			r.FailAt, r.Short = 40000, true
		case 4:
			return &panicRec{r, 0, 0}
		case 5:
			return &panicRec{r, 0, 2}
		case 6:
			r.FailAt = size - 1
		}
		return r
	}
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	before := runtime.NumGoroutine()
	var rds []*chunkReader
	r := water.NewRouter()
	if recov {
		r.Use(water.Recovery())
	}
	r.GET("/p", func(ctx *water.Context) {
		rd := &chunkReader{data: bytes.Repeat([]byte{'s'}, size), failAt: -1, err: errInjected}
		switch src {
		case 1:
			rd.failAt = size / 2
		case 2:
			rd.chunk = 777
		case 3:
			rd.failAt, rd.err, rd.with = size, io.EOF, true
		}
		rds = append(rds, rd)
		switch how {
		case 0:
			ctx.Stream("application/octet-stream", rd)
		case 1:
			io.Copy(ctx, rd)
		case 2:
			ctx.Stream("application/octet-stream", plainReader{rd})
			ctx.Stream("application/octet-stream", plainReader{rd})
		case 3:
			b, _ := io.ReadAll(rd)
			ctx.Data(200, "application/octet-stream", b)
		case 4:
			ctx.Stream("application/octet-stream", io.NopCloser(rd))
		}
	})
	e := r.Handler()
	for i := 0; i < times; i++ {
		quiet(func() { e.ServeHTTP(rec(), Req("GET", "/p").WithContext(cx)) })
		c.Step()
	}
	desc := fmt.Sprintf("%d streams (way %d) of %d bytes from source %d to client %d, Recovery %v", times, how, size, src, client, recov)
	if !c35Until(2*time.Second, func() bool { return runtime.NumGoroutine() <= before }) {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		if strings.Contains(string(buf), "meilihao/water") {
			c.Failf("goroutine", "%s: %d goroutines, %d before:\n%s", desc, runtime.NumGoroutine(), before, clip(string(buf), 1500))
		}
	}
	c.State(desc)
}

// ---- C35: connections that take their time

// c35Slow: a client, a handler or a connection that pauses is not cut off.
func c35Slow(pause time.Duration) Body {
	return func(c *C) {
		var served int64
		wait := make(chan struct{})
		e := c35Engine("slow", &served, wait)
		type conn struct {
			name string
			con  net.Conn
			br   *bufio.Reader
		}
		var cons []conn
		for entry := 0; entry < 2; entry++ { // with TLS the same server is behind
			port := freePort()
			addr := fmt.Sprintf("127.0.0.1:%d", port)
			run := c35Start(c35Call(e, entry, addr, "", ""))
			defer func() { c35Stop(port); c35Until(20*time.Second, run.over) }()
			if !c35Until(20*time.Second, func() bool { return run.over() || portSock(port) != nil }) || run.over() {
				if run.over() && run.pan == nil && run.err != nil && strings.Contains(run.err.Error(), "in use") {
					c.State("taken by somebody else")
					return
				}
				c.Failf("slow", "%s: over %v, panic %v, error %v", c35Entry[entry], run.over(), run.pan, run.err)
				return
			}
			for _, n := range []string{"before the request", "within the header", "within the body", "in the handler", "between requests"} {
				con, err := net.DialTimeout("tcp", addr, 20*time.Second)
				if err != nil {
					c.Failf("slow", "%s: %v", c35Entry[entry], err)
					return
				}
				defer con.Close()
				con.SetDeadline(time.Now().Add(pause + 60*time.Second))
				cons = append(cons, conn{c35Entry[entry] + ", a pause " + n, con, bufio.NewReader(con)})
			}
		}
		for i, x := range cons {
			first := []string{"", "GET /a?q=1 HTTP/1.1\r\nHost: x\r\nX-", "POST /echo HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\n01234", "GET /wait HTTP/1.1\r\nHost: x\r\n\r\n", "GET /a HTTP/1.1\r\nHost: x\r\n\r\n"}[i%5]
			if first != "" {
				io.WriteString(x.con, first)
			}
			if i%5 == 4 {
				resp, err := http.ReadResponse(x.br, nil)
				if err != nil {
					c.Failf("slow", "%s: %v", x.name, err)
					return
				}
				io.Copy(io.Discard, resp.Body)
			}
		}
		time.Sleep(pause)
		close(wait)
		for i, x := range cons {
			rest := []string{"GET /a?q=1 HTTP/1.1\r\nHost: x\r\n\r\n", "More: 1\r\n\r\n", "56789", "", "GET /a?q=1 HTTP/1.1\r\nHost: x\r\n\r\n"}[i%5]
			want := []string{"200 slow a 1", "200 slow a 1", "201 slow:0123456789", "200 slow waited", "200 slow a 1"}[i%5]
			if rest != "" {
				io.WriteString(x.con, rest)
			}
			resp, err := http.ReadResponse(x.br, nil)
			c.Step()
			if err != nil {
				c.Failf("slow", "%s of %v: %v", x.name, pause, err)
				return
			}
			b, err := io.ReadAll(resp.Body)
			if got := fmt.Sprintf("%d %s", resp.StatusCode, b); err != nil || got != want {
				c.Failf("slow", "%s of %v: %q (%v), expected %q", x.name, pause, got, err, want)
			}
			c.State(x.name)
		}
	}
}

func init() {
	addScopes("C03", Scope{Name: "regexps", Desc: "every regular expression of up to 3 of 23 tokens (tildes, colons, brackets, blanks, groups, anchors) as the segment, in 4 spellings; 165 paths; Go's regexp as the oracle", Body: c03Regexp(3), Split: 3},
		Scope{Name: "regexps-4", Desc: "up to 4 tokens", Body: c03Regexp(4), Split: 4, Thorough: true})
	addScopes("C07", Scope{Name: "lists", Desc: "3 calls of 7 that take their handlers from one list of the caller's of 0 to 2 with room for 0 to 2 more; the list overwritten before or after the build", Body: callersLists(3), Split: 3})
	addScopes("C33", Scope{Name: "lists", Desc: "4 calls of 7 that take their handlers from one list of the caller's of 0 to 2 with room for 0 to 2 more; the list overwritten before or after the build", Body: callersLists(4), Split: 4})
	addScopes("C09", Scope{Name: "order", Desc: "all listings of every table of 3 of 21 names (letters of both cases, digits, marks, holders)", Body: c09Order(3), Split: 2})
	addScopes("C11", Scope{Name: "writers", Desc: "every sequence of 2 of 15 ways of writing over 5 kinds of underlying writer (ReadFrom, WriteString, Flush or not), GET and HEAD", Body: c11Writers(2), Split: 2},
		Scope{Name: "writers-3", Desc: "every sequence of 3", Body: c11Writers(3), Split: 2, Thorough: true})
	addScopes("C16", Scope{Name: "lengths", Desc: "5 bodies announced with their length, none or an unknown one x chunked or not x 3 content types x 3 chunkings x 8 ways of reading x LogHttpBody", Body: c16Unknown, Split: 3})
	addScopes("C19", Scope{Name: "huge", Desc: "every pair of 19 sizes up to 2^63-1 and 5 times, both kinds of tag", Body: c19Huge, Split: 3})
	addScopes("C36", Scope{Name: "streams", Desc: "streams of 7 sizes from 4 kinds of source to 7 kinds of client in 5 ways, under a context still alive, once or three times: goroutines before and after", Body: c36Streams, Split: 3})
	addScopes("C35", Scope{Name: "slow", Desc: "pauses of 31 seconds before, within and after requests, in the handler and between requests, on 2 entry points", Body: c35Slow(31 * time.Second), Single: true},
		Scope{Name: "slow-121", Desc: "pauses of 121 seconds", Body: c35Slow(121 * time.Second), Single: true, Thorough: true})
}
