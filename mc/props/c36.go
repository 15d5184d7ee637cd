package props

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// C36: whatever a request opens is closed again, on every path.

// trackFS is a file system that counts what is open and can fail at any operation.
type trackFS struct {
	files  map[string]fakeEntry
	ops    int // operations so far
	faultN int // the operation that fails (-1: none)
	kind   int // 0: error, 1: panic
	open   map[*trackFile]bool
	bad    []string // misuse
	trace  []string
}

func (s *trackFS) op(what string) error {
	n := s.ops
	s.ops++
	s.trace = append(s.trace, what)
	if n != s.faultN {
		return nil
	}
	if s.kind == 1 {
		panic("fault in " + what)
	}
	if s.kind > 1 {
		return faultKinds[s.kind-2].err
	}
	return errInjected
}

func (s *trackFS) Open(name string) (http.File, error) {
	if err := s.op("open " + name); err != nil {
		return nil, err
	}
	k := path.Clean("/" + name)
	e, ok := s.files[k]
	if !ok {
		return nil, os.ErrNotExist
	}
	f := &trackFile{s: s, name: k, e: e, r: strings.NewReader(e.body)}
	s.open[f] = true
	return f, nil
}

type trackFile struct {
	s      *trackFS
	name   string
	e      fakeEntry
	r      *strings.Reader
	closed int
	listed bool
}

func (f *trackFile) use(what string) error {
	if f.closed > 0 {
		f.s.bad = append(f.s.bad, what+" "+f.name+" after it was closed")
	}
	return f.s.op(what + " " + f.name)
}

func (f *trackFile) Close() error {
	f.closed++
	delete(f.s.open, f)
	return f.s.op("close " + f.name)
}

func (f *trackFile) Stat() (os.FileInfo, error) {
	if err := f.use("stat"); err != nil {
		return nil, err
	}
	return fakeInfo{name: filepath.Base(f.name), size: int64(len(f.e.body)), mod: f.e.mod, dir: f.e.dir}, nil
}

func (f *trackFile) Read(p []byte) (int, error) {
	if err := f.use("read"); err != nil {
		return 0, err
	}
	return f.r.Read(p)
}

func (f *trackFile) Seek(off int64, w int) (int64, error) {
	if err := f.use("seek"); err != nil {
		return 0, err
	}
	return f.r.Seek(off, w)
}

func (f *trackFile) Readdir(n int) ([]os.FileInfo, error) {
	if err := f.use("readdir"); err != nil {
		return nil, err
	}
	if f.listed {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.listed = true
	return []os.FileInfo{fakeInfo{name: "x", mod: f.e.mod}, fakeInfo{name: "y", mod: f.e.mod, dir: true}}, nil
}

// panicRec panics at the n-th call of the writer.
type panicRec struct {
	*Rec
	n, at int
}

func (r *panicRec) tick() {
	r.n++
	if r.n-1 == r.at {
		panic(http.ErrAbortHandler)
	}
}
func (r *panicRec) WriteHeader(code int)        { r.tick(); r.Rec.WriteHeader(code) }
func (r *panicRec) Write(b []byte) (int, error) { r.tick(); return r.Rec.Write(b) }

var c36Hdrs = [][2]string{{}, {"Range", "bytes=1-2"}, {"Range", "bytes=0-0,2-3"}, {"Range", "bytes=99999-"}, {"If-Modified-Since", "Fri, 31 Dec 2100 00:00:00 GMT"}, {"If-None-Match", "*"}, {"If-Match", "\"nope\""}}

var c36Client = []string{"fine", "fails at once", "fails after 1 byte", "panics at once", "panics second"}

func c36Writer(k int) http.ResponseWriter {
	rec := NewRec()
	switch k {
	case 1:
		rec.FailAt = 0
	case 2:
		rec.FailAt, rec.Short = 1, true
	case 3:
		return &panicRec{rec, 0, 0}
	case 4:
		return &panicRec{rec, 0, 1}
	}
	return rec
}

// c36Static: every fault position of every kind of static request.
func c36Static(c *C) { c36StaticOf(c, false) }

func c36StaticOf(c *C, kinds bool) {
	mod := c18Time
	files := map[string]fakeEntry{
		"/f.txt": {body: strings.Repeat("0123456789", 7000), mod: mod}, "/noext": {body: "<html>plain text", mod: mod}, "/empty": {mod: mod},
		"/": {dir: true, mod: mod}, "/d": {dir: true, mod: mod}, "/d/index.html": {body: "the index of d", mod: mod},
		"/e": {dir: true, mod: mod}, "/g": {dir: true, mod: mod}, "/g/index.html": {dir: true, mod: mod},
	}
	p := Pick(c, "/f.txt", "/noext", "/empty", "/", "/d", "/d/", "/e/", "/g/", "/none", "/f.txt/")
	index := Pick(c, "", "index.html")
	etag := c.Choose(3)
	recov := c.Bool()
	method := Pick(c, "GET", "HEAD")
	h := c36Hdrs[c.Choose(len(c36Hdrs))]
	client, from, to := 0, 0, 2
	if kinds {
		from = 2 + c.Choose(len(faultKinds))
		to = from + 1
	} else {
		client = c.Choose(len(c36Client))
	}
	run := func(fault, kind int) *trackFS {
		fsys := &trackFS{files: files, faultN: fault, kind: kind, open: map[*trackFile]bool{}}
		opt := &water.StaticOptions{Prefix: "/s", IndexFile: index, FileSystem: fsys}
		switch etag {
		case 1:
			opt.ETag = water.ETagType1
		case 2:
			opt.ETag = water.ETagType2
		}
		r := water.NewRouter()
		if recov {
			r.Use(water.Recovery())
		}
		r.StaticAdvance(opt)
		req := Req(method, "/s"+p)
		if h[0] != "" {
			req.Header.Set(h[0], h[1])
		}
		e := r.Handler()
		fault0 := fmt.Sprintf("%s %s (index %q, tag %d, recovery %v, %s: %s), client %s, fault at operation %d of kind %d", method, p, index, etag, recov, h[0], h[1], c36Client[client], fault, kind)
		quiet(func() { e.ServeHTTP(c36Writer(client), req) })
		c.Step()
		if len(fsys.open) > 0 {
			var n []string
			for f := range fsys.open {
				n = append(n, f.name)
			}
			sort.Strings(n)
			c.Failf("leak", "%s: still open %q after %q", fault0, n, fsys.trace)
		} else if len(fsys.bad) > 0 {
			c.Failf("misuse", "%s: %q in %q", fault0, fsys.bad, fsys.trace)
		}
		return fsys
	}
	base := run(-1, 0)
	if c.Failed() {
		return
	}
	for i := 0; i < base.ops; i++ {
		for kind := from; kind < to; kind++ {
			run(i, kind)
			if c.Failed() {
				return
			}
		}
	}
	c.State(strings.Join(base.trace, " "))
}

// openFiles lists the descriptors of this process that refer to files below dir.
func openFiles(dir string) []string {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	var out []string
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(l, dir+"/") || l == dir) {
			out = append(out, strings.TrimPrefix(l, dir))
		}
	}
	sort.Strings(out)
	return out
}

// c36Files: the helpers that open files by name.
func c36Files(c *C) {
	dir := filepath.Join(scratch(), "c36")
	if _, err := os.Stat(dir); err != nil {
		must(os.MkdirAll(filepath.Join(dir, "d", "sub"), 0755))
		must(os.MkdirAll(filepath.Join(dir, "out", "isdir"), 0755))
		must(os.WriteFile(filepath.Join(dir, "big.txt"), []byte(strings.Repeat("0123456789", 7000)), 0644))
		must(os.WriteFile(filepath.Join(dir, "d", "index.html"), []byte("index"), 0644))
		must(os.WriteFile(filepath.Join(dir, "noext"), []byte("<html>text"), 0644))
	}
	tmp := filepath.Join(dir, "tmp")
	must(os.MkdirAll(tmp, 0755))
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer os.Setenv("TMPDIR", old)
	op := c.Choose(8)
	file := ""
	if op < 4 {
		file = Pick(c, "big.txt", "noext", "d", "d/", "none", "d/index.html")
	}
	method := Pick(c, "GET", "HEAD", "POST")
	h := c36Hdrs[c.Choose(len(c36Hdrs))]
	client := c.Choose(len(c36Client))
	recov := c.Bool()
	late := c.Choose(3) // the handler panics: never, before Next..., after the helper
	dst := 0
	gone := false
	if op == 6 {
		if method != "POST" {
			return
		}
		dst = c.Choose(4)
		gone = c.Bool()
	}
	r := water.NewRouter()
	if recov {
		r.Use(water.Recovery())
	}
	full := filepath.Join(dir, file)
	if strings.HasSuffix(file, "/") {
		full += "/"
	}
	names := []string{"File", "ServeFile", "Download", "inline Download", "StaticFile", "Static", "SaveUploadedFile", "Static listing"}
	hd := func(ctx *water.Context) {
		if late == 1 {
			panic("early")
		}
		switch op {
		case 0:
			ctx.File(full)
		case 1:
			ctx.ServeFile(full)
		case 2:
			ctx.Download(full)
		case 3:
			ctx.Download(full, true)
		case 6:
			if err := ctx.Request.ParseMultipartForm(10); err != nil {
				return
			}
			if gone {
				ents, _ := os.ReadDir(tmp)
				for _, e := range ents {
					os.Remove(filepath.Join(tmp, e.Name()))
				}
			}
			for _, f := range ctx.Request.MultipartForm.File["f"] {
				ctx.SaveUploadedFile(f, filepath.Join(dir, []string{"out/x", "missing/x", "out/isdir", "big.txt/x"}[dst]))
			}
		}
		if late == 2 {
			panic("late")
		}
	}
	upath := "/h"
	switch op {
	case 4:
		r.StaticFile("/h", filepath.Join(dir, "big.txt"))
	case 5:
		r.Static("/h", dir)
		upath = "/h/big.txt"
	case 7:
		r.Static("/h", dir)
		upath = "/h/d/sub/"
	default:
		r.GET("/h", hd)
		r.POST("/h", hd)
		r.HEAD("/h", hd)
	}
	req := Req(method, upath)
	if op == 6 {
		ct, b := c25Form([]c25File{{"f", "a", strings.Repeat("x", 3<<10)}, {"f", "b", "tiny"}}, nil)
		req = ReqBody(method, upath, ct, b)
	}
	if h[0] != "" {
		req.Header.Set(h[0], h[1])
	}
	e := r.Handler()
	before := openFiles(dir)
	quiet(func() { e.ServeHTTP(c36Writer(client), req) })
	after := openFiles(dir)
	c.Step()
	if req.MultipartForm != nil {
		req.MultipartForm.RemoveAll()
	}
	desc := fmt.Sprintf("%s of %q by %s (%s: %s), client %s, recovery %v, handler panics %d, destination %d, source gone %v", names[op], file, method, h[0], h[1], c36Client[client], recov, late, dst, gone)
	if fmt.Sprint(before) != fmt.Sprint(after) {
		c.Failf("descriptors", "%s: open before %q, after %q", desc, before, after)
	}
	c.State(desc)
}

// c36Goroutines: no request leaves a goroutine behind.
func c36Goroutines(n int) Body {
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		e := c14Engine(c.Bool(), c.Bool())
		cx, cancel := context.WithCancel(context.Background()) // as a server's, but it ends after the count
		defer cancel()
		before := runtime.NumGoroutine()
		desc := ""
		for i := 0; i < n; i++ {
			k := c14Kinds[c.Choose(len(c14Kinds))]
			client := c.Choose(len(c36Client))
			desc += fmt.Sprintf("; %s, client %s", k.name, c36Client[client])
			quiet(func() { e.ServeHTTP(c36Writer(client), k.req("t").WithContext(cx)) })
			c.Step()
		}
		if !c35Until(400*time.Millisecond, func() bool { return runtime.NumGoroutine() <= before }) {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			if strings.Contains(string(buf), "meilihao/water") {
				c.Failf("goroutine", "%s: %d goroutines, %d before:\n%s", desc, runtime.NumGoroutine(), before, clip(string(buf), 1500))
			}
		}
		c.State(desc)
	}
}

func init() {
	register(&Prop{ID: "C36", Scopes: []Scope{
		{Name: "static", Desc: "10 paths x index file or not x 3 kinds of tag x Recovery x GET, HEAD x 7 conditional and range headers x 5 client behaviours (fine, failing, panicking), each with an error and a panic at every operation on the file system", Body: c36Static, Split: 4},
		{Name: "files", Desc: "8 helpers that open files by name x 6 files x 3 methods x 7 headers x 5 client behaviours x Recovery x a panicking handler x 4 destinations of saved uploads: descriptors before and after", Body: c36Files, Split: 3},
		{Name: "goroutines", Desc: "every one of 43 request kinds x 5 client behaviours: goroutines before and after", Body: c36Goroutines(1), Split: 3},
		{Name: "goroutines-2", Desc: "every pair of the 43 request kinds x 5 client behaviours", Body: c36Goroutines(2), Split: 3, Thorough: true},
	}})
}
