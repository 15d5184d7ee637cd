package props

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// a helper writing a response
type wr34 struct {
	name    string
	void    bool // has no error to return
	noErrOK bool // promises nothing about writers that accept less without an error
	run     func(ctx *water.Context) error
}

type onlyReader struct{ io.Reader }

var (
	small34 = strings.Repeat("0123456789abcdef", 3)
	big34   = strings.Repeat("0123456789abcdef", 5000)
)

type val34 struct {
	A string   `json:"a" xml:"a"`
	B []int    `json:"b" xml:"b"`
	C *c12In   `json:"c" xml:"c"`
	D []string `json:"d" xml:"d>e"`
}

func value34(n int) val34 {
	v := val34{A: "x<y>", B: []int{1, -2, 300}, C: &c12In{7, "why"}}
	for i := 0; i < n; i++ {
		v.D = append(v.D, fmt.Sprintf("entry %d", i))
	}
	return v
}

func file34(size int) string {
	p := filepath.Join(scratch(), fmt.Sprintf("c34-%d-%d.bin", os.Getpid(), size))
	if fi, err := os.Stat(p); err != nil || fi.Size() != int64(size) {
		if err := os.WriteFile(p, []byte(big34[:size]), 0600); err != nil {
			panic(err)
		}
	}
	return p
}

func writers34(big bool) []wr34 {
	s := small34
	v := value34(2)
	if big {
		s = big34
		v = value34(3000)
	}
	ws := []wr34{
		{name: "JSON", noErrOK: true, run: func(ctx *water.Context) error { return ctx.JSON(200, v) }},
		{name: "JSON of a string", noErrOK: true, run: func(ctx *water.Context) error { return ctx.JSON(404, s) }},
		{name: "XML", noErrOK: true, run: func(ctx *water.Context) error { return ctx.XML(200, v) }},
		{name: "XML of a string", noErrOK: true, run: func(ctx *water.Context) error { return ctx.XML(500, s) }},
		{name: "Stream of a string reader", run: func(ctx *water.Context) error { return ctx.Stream("a/b", strings.NewReader(s)) }},
		{name: "Stream of a buffer", run: func(ctx *water.Context) error { return ctx.Stream("a/b", bytes.NewBufferString(s)) }},
		{name: "Stream of a plain reader", run: func(ctx *water.Context) error { return ctx.Stream("a/b", onlyReader{strings.NewReader(s)}) }},
		{name: "Stream of a reader in chunks", run: func(ctx *water.Context) error {
			return ctx.Stream("a/b", &chunkReader{data: []byte(s), chunk: 7 + len(s)/100, failAt: -1})
		}},
		{name: "Download", run: func(ctx *water.Context) error { return ctx.Download(file34(len(s))) }},
		{name: "Write in pieces", noErrOK: true, run: func(ctx *water.Context) error {
			ctx.WriteHeader(201)
			for i := 0; i < len(s); {
				j := min(i+5+len(s)/50, len(s))
				n, err := ctx.Write([]byte(s[i:j]))
				if err != nil {
					return err
				}
				if n != j-i {
					return io.ErrShortWrite
				}
				i = j
			}
			return nil
		}},
		{name: "Write at once", run: func(ctx *water.Context) error {
			n, err := ctx.Write([]byte(s))
			if err == nil && n != len(s) {
				err = io.ErrShortWrite
			}
			return err
		}},
		{name: "io.WriteString", run: func(ctx *water.Context) error {
			n, err := io.WriteString(ctx, s)
			if err == nil && n != len(s) {
				err = io.ErrShortWrite
			}
			return err
		}},
		{name: "String", void: true, run: func(ctx *water.Context) error { ctx.String(200, s); return nil }},
		{name: "HTMLRaw", void: true, run: func(ctx *water.Context) error { ctx.HTMLRaw(200, s); return nil }},
		{name: "Data", void: true, run: func(ctx *water.Context) error { ctx.Data(200, "a/b", []byte(s)); return nil }},
		{name: "ServeFile", void: true, run: func(ctx *water.Context) error { ctx.ServeFile(file34(len(s))); return nil }},
		{name: "File", void: true, run: func(ctx *water.Context) error { ctx.File(file34(len(s))); return nil }},
		{name: "Attachment", void: true, run: func(ctx *water.Context) error {
			ctx.Attachment("n", c18Time, strings.NewReader(s))
			return nil
		}},
	}
	return ws
}

// engine34 runs h inside the given surroundings; after tells what else ran.
func engine34(wrap int, h func(ctx *water.Context)) http.Handler {
	r := water.NewRouter()
	switch wrap {
	case 1:
		r.Use(water.Recovery())
	case 2:
		r.Before(func(ctx *water.Context) { ctx.Next() })
	}
	r.GET("/p", h)
	r.POST("/p", h)
	if wrap == 3 {
		inner := r.Handler()
		o := water.NewRouter()
		o.GET("/p", inner)
		o.POST("/p", inner)
		return o.Handler()
	}
	return r.Handler()
}

func cuts34(n int, all bool) []int {
	if all {
		r := make([]int, n+2)
		for i := range r {
			r[i] = i
		}
		return r
	}
	set := map[int]bool{}
	for _, b := range []int{0, 512, 1024, 2048, 4096, 8192, 32768, 65536, n} {
		for d := -1; d <= 1; d++ {
			if x := b + d; x >= 0 && x <= n+1 {
				set[x] = true
			}
		}
	}
	var r []int
	for i := 0; i <= n+1; i++ {
		if set[i] {
			r = append(r, i)
		}
	}
	return r
}

// c34Write: every helper, the connection failing at every position in every way.
const (
	small34s = iota
	big34s
	kinds34
)

func c34Write(space int) Body {
	big := space == big34s
	return func(c *C) {
		ws := writers34(big)
		w := ws[c.Choose(len(ws))]
		wrap := c.Choose(4)
		mode := c.Choose(6) // bit0: takes what fits first; bit1: works again later; 4,5: accepts less without an error
		var err error
		returned := false
		e := engine34(wrap, func(ctx *water.Context) {
			err = w.run(ctx)
			returned = true
		})
		ref := NewRec()
		if p := quiet(func() { e.ServeHTTP(ref, Req("GET", "/p")) }); p || err != nil {
			c.Failf("clean", "%s without faults: panic %v, error %v", w.name, p, err)
			return
		}
		full := ref.Body.String()
		cuts := cuts34(len(full), !big)
		fault := errInjected
		if space == kinds34 {
			if mode >= 4 {
				return
			}
			fault = PickS(c, faultKinds).err
			cuts = fewCuts(len(full))
		}
		at := PickS(c, cuts)
		rec := NewRec()
		rec.FailAt, rec.Err = at, fault
		rec.Short, rec.Once, rec.NoErr = mode&1 == 1, mode&2 == 2 || mode == 5, mode >= 4
		if rec.NoErr && w.noErrOK {
			return
		}
		returned = false
		p := quiet(func() { e.ServeHTTP(rec, Req("GET", "/p")) })
		c.Step()
		desc := fmt.Sprintf("%s (surroundings %d), the connection failing after %d of %d bytes (mode %d, %v)", w.name, wrap, at, len(full), mode, fault)
		if p || !returned {
			c.Failf("panic", "%s: panics", desc)
			return
		}
		got := rec.Body.String()
		if rec.Faults == 0 {
			if err != nil || got != full {
				c.Failf("nofault", "%s: no write failed, but error %v, %d bytes arrived", desc, err, len(got))
			}
			return
		}
		wantErr := fault
		if rec.NoErr {
			wantErr = io.ErrShortWrite
		}
		if !w.void && !isErr(err, wantErr) && !(rec.NoErr && err != nil) {
			c.Failf("swallowed", "%s: the returned error is %v, expected %v", desc, err, wantErr)
		}
		if !strings.HasPrefix(full, got) || len(got) > at {
			c.Failf("order", "%s: the connection received %s, not the first %d bytes", desc, clip(got, 100), at)
		}
		if (rec.Short || rec.NoErr) && len(got) != at {
			c.Failf("lost", "%s: the connection received %d bytes", desc, len(got))
		}
		if !reflect.DeepEqual(rec.Commits, ref.Commits) || rec.Status != ref.Status || hdr(rec.Snap) != hdr(ref.Snap) {
			c.Failf("header", "%s: header sent %v %s, without fault %v %s", desc, rec.Commits, hdr(rec.Snap), ref.Commits, hdr(ref.Snap))
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(err))
	}
}

// c34Stream: a source and a connection which both fail somewhere.
func c34Stream(n int, chunks []int) Body {
	return func(c *C) {
		data := []byte(strings.Repeat("0123456789abcdef", n/16+1)[:n])
		src := &chunkReader{data: data, chunk: PickS(c, chunks), failAt: c.Choose(n+2) - 1, with: c.Bool(), err: Pick(c, errSource, io.ErrUnexpectedEOF)}
		body := c.Bool()
		sink := c.Choose(n+2) - 1
		short, nilErr := false, false
		if sink >= 0 {
			short, nilErr = c.Bool(), c.Bool()
		}
		var err error
		e := engine34(0, func(ctx *water.Context) {
			if body {
				err = ctx.Stream("a/b", ctx.ReadCloser())
			} else {
				err = ctx.Stream("a/b", src)
			}
		})
		req := ReqBody("POST", "/p", "a/b", nil)
		req.Body = src
		rec := NewRec()
		rec.FailAt, rec.Short, rec.NoErr = sink, short, nilErr
		p := quiet(func() { e.ServeHTTP(rec, req) })
		c.Step()
		desc := fmt.Sprintf("Stream (from request body %v) of %d bytes in chunks of %d, source failing at %d (with data %v, %v), connection at %d (short %v, without error %v)", body, n, src.chunk, src.failAt, src.with, src.err, sink, short, nilErr)
		got := rec.Body.String()
		avail := n
		if src.failAt >= 0 {
			avail = src.failAt
		}
		var want error
		switch {
		case rec.Faults > 0 && nilErr:
			want = io.ErrShortWrite
		case rec.Faults > 0:
			want = errInjected
		case src.failAt >= 0:
			want = src.err
		}
		if p {
			c.Failf("panic", "%s: panics", desc)
		}
		if !errors.Is(err, want) || (want == nil && err != nil) {
			c.Failf("error", "%s: error %v, expected %v", desc, err, want)
		}
		if !strings.HasPrefix(string(data), got) || len(got) > avail {
			c.Failf("order", "%s: received %q", desc, got)
		}
		if rec.Faults == 0 && len(got) != avail {
			c.Failf("lost", "%s: received %d bytes, %d were read before the failure", desc, len(got), avail)
		}
		if rec.Faults > 0 && (short || nilErr) && len(got) != sink {
			c.Failf("lost", "%s: received %d bytes", desc, len(got))
		}
		c.State(desc)
	}
}

// c34StreamKinds: a source that fails in every way, and a connection.
func c34StreamKinds(c *C) {
	const n = 9
	data := []byte("012345678")
	srcErr := PickS(c, readKinds())
	src := &chunkReader{data: data, chunk: Pick(c, 0, 4), failAt: c.Choose(n+2) - 1, with: c.Bool(), err: srcErr}
	sink := Pick(c, -1, 0, 5)
	sinkErr := errInjected
	if sink >= 0 {
		sinkErr = PickS(c, faultKinds).err
	}
	var err error
	e := engine34(0, func(ctx *water.Context) { err = ctx.Stream("a/b", src) })
	rec := NewRec()
	rec.FailAt, rec.Err = sink, sinkErr
	p := quiet(func() { e.ServeHTTP(rec, Req("GET", "/p")) })
	c.Step()
	desc := fmt.Sprintf("Stream of %d bytes in chunks of %d, source failing at %d (with data %v, %v), connection at %d (%v)", n, src.chunk, src.failAt, src.with, srcErr, sink, sinkErr)
	avail := n
	var want error
	if src.failAt >= 0 {
		avail, want = src.failAt, srcErr
	}
	if rec.Faults > 0 {
		want = sinkErr
	}
	got := rec.Body.String()
	switch {
	case p:
		c.Failf("panic", "%s: panics", desc)
	case want == nil && err != nil || want != nil && !isErr(err, want):
		c.Failf("error", "%s: error %v, expected %v", desc, err, want)
	case len(got) > avail || got != string(data[:len(got)]):
		c.Failf("order", "%s: received %q", desc, got)
	case rec.Faults == 0 && len(got) != avail:
		c.Failf("lost", "%s: received %d bytes, %d were read before the failure", desc, len(got), avail)
	}
	c.State(desc)
}

var errSource = errors.New("injected source fault")

type form34 struct {
	A string   `form:"a" json:"a" xml:"a"`
	B int      `form:"b" json:"b" xml:"b"`
	C []string `form:"c" json:"c" xml:"c"`
}

type read34 struct {
	name   string
	bodies []string // indexes into bodies34
	run    func(ctx *water.Context) (interface{}, error)
}

const (
	urlenc34 = "a=hello&b=12345&c=x&c=y+z%21"
	multi34  = "--bnd\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nhello\r\n--bnd\r\nContent-Disposition: form-data; name=\"b\"\r\n\r\n12345\r\n--bnd\r\nContent-Disposition: form-data; name=\"f\"; filename=\"f.txt\"\r\nContent-Type: text/plain\r\n\r\nfile data\r\n--bnd--\r\n"
)

var bodies34 = map[string]struct{ ct, body string }{
	"form":  {"application/x-www-form-urlencoded", urlenc34},
	"multi": {"multipart/form-data; boundary=bnd", multi34},
	"json":  {"application/json", `{"a":"hello","b":12345,"c":["x","y"]}`},
	"num":   {"application/json", `12345`},
	"xml":   {"text/xml", `<t><a>hello</a><b>12345</b><c>x</c><c>y</c></t>`},
	"text":  {"text/plain", small34},
}

func reads34() []read34 {
	bind := func(b binding.Bindinger) func(ctx *water.Context) (interface{}, error) {
		return func(ctx *water.Context) (interface{}, error) {
			o := new(form34)
			err := ctx.BindWith(o, b)
			return o, err
		}
	}
	direct := func(b binding.Bindinger) func(ctx *water.Context) (interface{}, error) {
		return func(ctx *water.Context) (interface{}, error) {
			o := new(form34)
			err := b.Bind(ctx.Request, o)
			return o, err
		}
	}
	auto := func(ctx *water.Context) (interface{}, error) {
		o := new(form34)
		err := ctx.Bind(o)
		return o, err
	}
	all := []string{"form", "multi", "json", "xml", "text"}
	return []read34{
		{"BodyBytes", all, func(ctx *water.Context) (interface{}, error) {
			b, err := ctx.BodyBytes()
			return string(b), err
		}},
		{"BodyString", all, func(ctx *water.Context) (interface{}, error) { return ctx.BodyString() }},
		{"Bind", []string{"form", "multi", "json", "xml"}, auto},
		{"Bind of a number", []string{"num"}, func(ctx *water.Context) (interface{}, error) {
			var n int
			err := ctx.Bind(&n)
			return n, err
		}},
		{"BindWith(JSON)", []string{"json"}, bind(binding.JSON)},
		{"BindWith(XML)", []string{"xml"}, bind(binding.XML)},
		{"BindWith(Form)", []string{"form"}, bind(binding.Form)},
		{"BindWith(FormMultipart)", []string{"multi"}, bind(binding.FormMultipart)},
		{"JSON.Bind", []string{"json"}, direct(binding.JSON)},
		{"XML.Bind", []string{"xml"}, direct(binding.XML)},
		{"Form.Bind", []string{"form"}, direct(binding.Form)},
		{"FormMultipart.Bind", []string{"multi"}, direct(binding.FormMultipart)},
		{"FormFile", []string{"multi"}, func(ctx *water.Context) (interface{}, error) {
			f, fh, err := ctx.FormFile("f")
			if err != nil {
				return nil, err
			}
			b, err := io.ReadAll(f)
			return fh.Filename + string(b), err
		}},
		{"Query", []string{"form", "multi"}, func(ctx *water.Context) (interface{}, error) { return ctx.Query("a"), nil }},
		{"QueryInt", []string{"form", "multi"}, func(ctx *water.Context) (interface{}, error) { return ctx.QueryInt("b"), nil }},
	}
}

// c34Read: every way of reading a body, the reading failing at every position in every way.
func c34Read(kinds bool) Body {
	return func(c *C) { c34ReadOf(c, kinds) }
}

func c34ReadOf(c *C, kinds bool) {
	rs := reads34()
	r := rs[c.Choose(len(rs))]
	kind := r.bodies[c.Choose(len(r.bodies))]
	b := bodies34[kind]
	chunk, wrap, at := 0, 0, 0
	var fault error
	with, known := c.Bool(), c.Bool()
	if kinds {
		fault = PickS(c, readKinds())
		at = PickS(c, fewCuts(len(b.body)))
	} else {
		chunk = Pick(c, 0, 1, 2, 7, 16)
		fault = Pick(c, errSource, io.ErrUnexpectedEOF, error(&os.PathError{Op: "read", Path: "x", Err: errSource}))
		wrap = c.Choose(4)
		at = c.Choose(len(b.body)+2) - 1
	}
	var v interface{}
	var err error
	returned, crash := false, false
	// these have no error to return, or read the form before they decode it: they say it by panicking
	mayPanic := map[string]bool{"Query": true, "QueryInt": true, "Bind": true}
	e := engine34(wrap, func(ctx *water.Context) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
				_, isRuntime := p.(runtime.Error)
				crash = isRuntime || !mayPanic[r.name] && !strings.HasPrefix(r.name, "BindWith(")
			}
			returned = true
		}()
		v, err = r.run(ctx)
	})
	do := func(failAt int) interface{} {
		v, err, returned = nil, nil, false
		req := ReqBody("POST", "/p", b.ct, nil)
		req.Body = &chunkReader{data: []byte(b.body), chunk: chunk, failAt: failAt, err: fault, with: with}
		req.ContentLength = -1
		if known {
			req.ContentLength = int64(len(b.body))
		}
		if p := quiet(func() { e.ServeHTTP(NewRec(), req) }); p || !returned {
			c.Failf("panic", "%s of %s: panics or was not called", r.name, kind)
		}
		if crash {
			c.Failf("panic", "%s of %q in chunks of %d, failing after %d bytes with %v: %v", r.name, clip(b.body, 60), chunk, failAt, fault, err)
		}
		return v
	}
	want := fmt.Sprintf("%+v", do(-1))
	if err != nil {
		c.Failf("clean", "%s of %q: fails without fault: %v", r.name, b.body, err)
		return
	}
	if at < 0 {
		return
	}
	got := fmt.Sprintf("%+v", do(at))
	c.Step()
	desc := fmt.Sprintf("%s of %q in chunks of %d, failing after %d bytes with %v (with the last bytes %v)", r.name, clip(b.body, 60), chunk, at, fault, with)
	c.State(desc)
	if err != nil {
		same := isErr(err, fault) || strings.Contains(err.Error(), fault.Error())
		if kind == "multi" && !strings.HasPrefix(r.name, "Body") {
			same = true // the standard multipart reader may report what it had read so far as malformed
		} else if isErr(fault, io.ErrUnexpectedEOF) && kind == "xml" {
			same = strings.Contains(err.Error(), "EOF") // an early end of the text, reported in the decoder's words
		}
		if !same {
			c.Failf("other", "%s: reported as %v", desc, err)
		}
		if strings.HasPrefix(r.name, "Body") && !isErr(err, fault) {
			c.Failf("other", "%s: reported as %v", desc, err)
		}
		c.Outcome("error")
		return
	}
	// success: only with everything that there is to it
	complete := false
	switch kind {
	case "xml":
		complete = at >= len(b.body)
		if r.name == "BodyBytes" || r.name == "BodyString" {
			complete = false
		}
	case "multi":
		complete = at >= len(b.body)-2 && !strings.HasPrefix(r.name, "Body")
	}
	if !complete || got != want {
		c.Failf("success", "%s: succeeds with %s (the whole body gives %s)", desc, got, want)
	}
	c.Outcome("complete")
}

// c34Encode: values that cannot be encoded while the connection may fail as well.
func c34Encode(c *C) {
	type bad struct {
		A string      `json:"a" xml:"a"`
		B interface{} `json:"b" xml:"b"`
	}
	vals := []interface{}{make(chan int), bad{"x", make(chan int)}, []interface{}{1, func() {}}, &bad{strings.Repeat("long", 3000), complex(1, 2)}}
	v := vals[c.Choose(len(vals))]
	isXML := c.Bool()
	at := Pick(c, -1, 0, 1, 5, 4095, 4096, 4097, 1<<20)
	short := c.Bool()
	var err error
	e := engine34(c.Choose(4), func(ctx *water.Context) {
		if isXML {
			err = ctx.XML(200, v)
		} else {
			err = ctx.JSON(200, v)
		}
	})
	rec := NewRec()
	rec.FailAt, rec.Short = at, short
	p := quiet(func() { e.ServeHTTP(rec, Req("GET", "/p")) })
	c.Step()
	if p || err == nil {
		c.Failf("encode", "%T by XML %v, connection failing at %d: panic %v, error %v", v, isXML, at, p, err)
	}
	if at >= 0 && rec.Body.Len() > at {
		c.Failf("order", "%T: %d bytes received", v, rec.Body.Len())
	}
	c.State(fmt.Sprintf("%T %v %d", v, isXML, at))
}

// c34Save: uploads whose destination or source fails.
func c34Save(c *C) {
	size := Pick(c, 0, 1, 100, 5000, 40000)
	mem := Pick(c, int64(1), int64(32<<20))
	dst := c.Choose(6)
	data := []byte(big34[:size])
	dir := filepath.Join(scratch(), fmt.Sprintf("c34-%d-save", os.Getpid()))
	os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "sub"), 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	good := filepath.Join(dir, "good")
	var path string
	ok := false
	switch dst {
	case 0:
		path, ok = good, true
	case 1:
		path, ok = good, true
		os.WriteFile(good, bytes.Repeat([]byte("o"), 50000), 0600)
	case 2:
		path = filepath.Join(dir, "none", "x")
	case 3:
		path = filepath.Join(dir, "sub")
	case 4:
		path, ok = "/dev/full", size == 0
	case 5:
		path = good
	}
	var err error
	r := water.NewRouter()
	r.POST("/p", func(ctx *water.Context) {
		_, fh, e := ctx.FormFile("f")
		if e != nil {
			err = e
			return
		}
		if dst == 5 { // the uploaded data is gone
			if mem != 1 || size == 0 {
				ok = true
			} else {
				ctx.Request.MultipartForm.RemoveAll()
			}
		}
		err = ctx.SaveUploadedFile(fh, path)
	})
	e := r.Handler(water.WithMaxMultipartMemory(mem))
	body := "--bnd\r\nContent-Disposition: form-data; name=\"f\"; filename=\"f.txt\"\r\n\r\n" + string(data) + "\r\n--bnd--\r\n"
	req := ReqBody("POST", "/p", "multipart/form-data; boundary=bnd", []byte(body))
	p := quiet(func() { e.ServeHTTP(NewRec(), req) })
	c.Step()
	desc := fmt.Sprintf("SaveUploadedFile of %d bytes (memory %d) to destination %d", size, mem, dst)
	if req.MultipartForm != nil {
		req.MultipartForm.RemoveAll()
	}
	if p {
		c.Failf("panic", "%s: panics", desc)
	}
	if dst == 5 && mem == 1 && size > 0 && err == nil {
		// the data may still be in memory whatever the limit: then it must have been saved
		ok = true
	}
	if ok {
		if err != nil {
			c.Failf("refused", "%s: %v", desc, err)
		} else if path == good {
			if b, _ := os.ReadFile(good); !bytes.Equal(b, data) {
				c.Failf("bytes", "%s: %d bytes saved", desc, len(b))
			}
		}
	} else if err == nil && !(dst == 5) {
		c.Failf("success", "%s: reported as success", desc)
	}
	c.State(desc)
}

func init() {
	_ = json.Marshal
	_ = xml.Marshal
	register(&Prop{ID: "C34", Scopes: []Scope{
		{Name: "write", Desc: "18 ways of writing a response x 4 surroundings x every position of a write failure x {rejecting, taking what fits, working again later, accepting less without an error}", Body: c34Write(small34s), Split: 3},
		{Name: "write-big", Desc: "80 kB responses, failures around every buffer size", Body: c34Write(big34s), Split: 3},
		{Name: "stream", Desc: "Stream of 24 bytes: every position of a source failure x every position of a connection failure x 4 chunk sizes x ways of failing", Body: c34Stream(24, []int{0, 1, 5, 8}), Split: 3},
		{Name: "read", Desc: "15 ways of reading a body x its formats x every position of a read failure x 5 chunk sizes x 3 errors x with data or after it x 4 surroundings", Body: c34Read(false), Split: 4},
		{Name: "encode", Desc: "values that cannot be encoded, over failing connections", Body: c34Encode, Split: 2},
		{Name: "save", Desc: "saving uploads to failing destinations and from a missing source", Body: c34Save, Split: 2},
		{Name: "stream-long", Desc: "Stream of 70 bytes, every pair of fault positions", Body: c34Stream(70, []int{0, 1, 3, 16, 64}), Split: 3, Thorough: true},
	}})
}
