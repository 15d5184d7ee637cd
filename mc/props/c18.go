package props

import (
	"errors"
	"fmt"
	"html"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// tree is what the static root holds: a directory maps to "\x00dir".
var c18Tree = map[string]string{
	"/": c18Dir, "/f.txt": "root f", "/empty": "", "/dir": c18Dir, "/dir/x.bin": "\x00\x01\x02\xff", "/dir/sub": c18Dir, "/dir/sub/y.txt": "deep y",
	"/idx": c18Dir, "/idx/index.html": "<p>inner index</p>", "/idx/home.txt": "inner home", "/idx2": c18Dir, "/idx2/index.html": c18Dir, "/idx2/home.txt": c18Dir, "/idx2/home.txt/z": "z",
	"/sp ace.txt": "with space", "/ü.txt": "umlaut", "/a?b": c18Dir, "/a?b/index.html": "question", "/a?b/home.txt": "question home", "/100%": c18Dir, "/100%/in": "percent", "/100%25.txt": "escaped percent", "/100%.txt": "percent file", "/%66.txt": "escaped f", "/a+b.txt": "plus", "/.hidden": "hidden", "/..data": "dotdot data",
	"/big.txt": strings.Repeat("0123456789abcdef\n", 3000),
}

const c18Dir = "\x00dir"

// c18Trap is what lies around the root and in the working directory; none of it may ever be seen.
var c18Trap = map[string]string{
	"secret.txt": "SECRET", "f.txt": "SECRET f", "index.html": "SECRET index", "home.txt": "SECRET home", "dir/index.html": "SECRET dir index", "dir/home.txt": "SECRET dir home", "dir/secret-name": "SECRET",
	"idx/index.html": "SECRET idx", "idx/home.txt": "SECRET idx home", "idx2/index.html": "SECRET idx2", "nope/index.html": "SECRET nope", "nope/home.txt": "SECRET", "a?b/index.html": "SECRET q", "100%/index.html": "SECRET p", "100%/home.txt": "SECRET",
	"dir/sub/index.html": "SECRET sub", "dir/sub/home.txt": "SECRET", "rootx/f.txt": "SECRET sibling",
}

var c18Once sync.Once
var c18Base string
var c18Time = time.Unix(1600000000, 0)

func c18Setup() string {
	c18Once.Do(func() {
		c18Base = filepath.Join(scratch(), "c18")
		for _, d := range []string{"base", "trap"} {
			for n, b := range c18Trap {
				p := filepath.Join(c18Base, d, n)
				must(os.MkdirAll(filepath.Dir(p), 0755))
				must(os.WriteFile(p, []byte(b), 0644))
			}
		}
		for n, b := range c18Tree {
			p := filepath.Join(c18Base, "base/root", n)
			if b == c18Dir {
				must(os.MkdirAll(p, 0755))
				continue
			}
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, []byte(b), 0644))
			must(os.Chtimes(p, c18Time, c18Time))
		}
	})
	return c18Base
}

// c18Mount is one way to serve the root.
type c18Mount struct {
	name    string
	pattern string
	index   string
	mk      func(r *water.Router, root string)
}

func adv(prefix, index string) func(r *water.Router, root string) {
	return func(r *water.Router, root string) {
		r.StaticAdvance(&water.StaticOptions{Prefix: prefix, IndexFile: index, FileSystem: http.Dir(root)})
	}
}

var c18Mounts = []c18Mount{
	{"Static(/s)", "/s/*", "", func(r *water.Router, root string) { r.Static("/s", root) }},
	{"Advance(/s,index.html)", "/s/*", "index.html", adv("/s", "index.html")},
	{"Advance(,home.txt)", "/*", "home.txt", adv("", "home.txt")},
	{"Advance(a/b/,index.html)", "/a/b/*", "index.html", adv("a/b/", "index.html")},
	{"Static(t)", "/t/*", "", func(r *water.Router, root string) { r.Static("t", root) }},
	{"Advance(/s//,home.txt)", "/s/*", "home.txt", adv("/s//", "home.txt")},
	{"Static()", "/*", "", func(r *water.Router, root string) { r.Static("", root) }},
	{"Advance(/v1.,index.html)", "/v1./*", "index.html", adv("/v1.", "index.html")},
	{"Advance(x-/é/,home.txt)", "/x-/é/*", "home.txt", adv("x-/é/", "home.txt")},
	{"Static(/.well-known)", "/.well-known/*", "", func(r *water.Router, root string) { r.Static("/.well-known", root) }},
	{"Advance(/,index.html)", "/*", "index.html", adv("/", "index.html")},
}

// c18Want is the reference answer.
type c18Want struct {
	kind string // none, file, redirect, index, missing, dir, escape
	file string
}

func c18Expect(m *Model, index, p string) c18Want {
	rt, params := m.match("GET", p)
	if rt == nil {
		return c18Want{kind: "none"}
	}
	name := path.Clean("/" + params["*0"])
	body, ok := c18Tree[name]
	switch {
	case !ok:
		return c18Want{kind: "missing"}
	case body != c18Dir:
		return c18Want{kind: "file", file: name}
	}
	prefix := strings.TrimSuffix(rt.Pattern, "/*")
	if cl := path.Clean(p); cl == "/" && prefix != "" || !strings.HasPrefix(cl+"/", prefix+"/") {
		return c18Want{kind: "escape"}
	}
	if !strings.HasSuffix(p, "/") && path.Clean(p) != "/" {
		return c18Want{kind: "redirect", file: name}
	}
	if index == "" {
		return c18Want{kind: "dir", file: name}
	}
	in := path.Join(name, index)
	if b, ok := c18Tree[in]; !ok || b == c18Dir {
		return c18Want{kind: "missing"}
	}
	return c18Want{kind: "index", file: in}
}

var hrefRe = regexp.MustCompile(`<a href="([^"]*)"`)

// c18Listing checks that a page lists exactly the directory.
func c18Listing(body, dir string) string {
	want := map[string]bool{}
	for n, b := range c18Tree {
		if n != "/" && path.Dir(n) == dir {
			x := path.Base(n)
			if b == c18Dir {
				x += "/"
			}
			want[x] = true
		}
	}
	got := map[string]bool{}
	for _, h := range hrefRe.FindAllStringSubmatch(body, -1) {
		u, err := url.Parse(html.UnescapeString(h[1]))
		if err != nil || u.Host != "" {
			return "link " + h[1]
		}
		got[strings.TrimPrefix(u.Path, "./")] = true
	}
	if len(got) != len(want) {
		return fmt.Sprint("lists ", sortedSet(got), " of ", sortedSet(want))
	}
	for n := range want {
		if !got[n] {
			return "does not list " + n
		}
	}
	return ""
}

func sortedSet(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// c18Check compares one answer.
func c18Check(c *C, desc, reqPath string, w c18Want, head bool, r resp) {
	loc := strings.Join(r.h["Location"], "|")
	if strings.Contains(r.body, "SECRET") || strings.Contains(r.body, "secret") || strings.Contains(r.body, "rootx") {
		c.Failf("leak", "%s: delivers %q, which is outside the root", desc, clip(r.body, 200))
	}
	if head && r.body != "" {
		c.Failf("head", "%s: a HEAD request has a body %q", desc, clip(r.body, 100))
	}
	bodyIs := func(want string) {
		if !head && r.body != want {
			c.Failf("content", "%s: body %q, expected %q", desc, clip(r.body, 200), clip(want, 200))
		}
	}
	switch w.kind {
	case "none", "missing":
		if r.status != 404 {
			c.Failf("status", "%s: status %d body %q location %q, expected 404", desc, r.status, clip(r.body, 200), loc)
		}
	case "file", "index":
		if r.status != 200 {
			c.Failf("status", "%s: status %d location %q, expected 200 with the file %s", desc, r.status, loc, w.file)
			return
		}
		bodyIs(c18Tree[w.file])
		if cl := r.h.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(c18Tree[w.file])) {
			c.Failf("length", "%s: Content-Length %s, the file has %d bytes", desc, cl, len(c18Tree[w.file]))
		}
	case "redirect":
		if r.status < 301 || r.status > 308 || r.status == 304 {
			c.Failf("status", "%s: status %d body %q, expected a redirect to the slash form", desc, r.status, clip(r.body, 200))
			return
		}
		base := &url.URL{Scheme: "http", Host: "example.com", Path: reqPath}
		ref, err := url.Parse(loc)
		if err != nil {
			c.Failf("location", "%s: Location %q: %v", desc, loc, err)
			return
		}
		t := base.ResolveReference(ref)
		if t.Host != "example.com" || t.RawQuery != "" || t.Fragment != "" || !strings.HasSuffix(t.Path, "/") || path.Clean(t.Path) != path.Clean(reqPath) {
			c.Failf("location", "%s: Location %q leads to %q", desc, loc, t)
		}
	case "dir":
		in := path.Join(w.file, "index.html")
		switch {
		case r.status == 404:
		case r.status != 200:
			c.Failf("status", "%s: status %d location %q", desc, r.status, loc)
		case head:
		case c18Tree[in] != "" && c18Tree[in] != c18Dir && r.body == c18Tree[in]:
		default:
			if s := c18Listing(r.body, w.file); s != "" && !(c18Tree[in] == c18Dir && c18Listing(r.body, in) == "") {
				c.Failf("listing", "%s: %s", desc, s)
			}
		}
	}
	c.Outcome(w.kind)
}

func c18Model(mt c18Mount) *Model {
	m := newModel()
	for _, me := range []string{"GET", "HEAD"} {
		if _, bad := m.add(me, mt.pattern); bad != "" {
			panic(bad)
		}
	}
	return m
}

var c18Segs = []string{"f.txt", "dir", "idx", "idx2", "index.html", "home.txt", "nope", "..", ".", "", "sub", "x.bin", "y.txt", "empty", "sp ace.txt", "ü.txt", "a?b", "100%", "100%25.txt", "100%.txt", "%66.txt", "a+b.txt", "%2e%2e", ".hidden", "..data", "secret.txt", "trap", "root", "big.txt", "F.TXT", "..\\secret.txt", "f.txt\x00"}

func c18Paths(mounts []c18Mount, segs []string, depth int, real bool) Body {
	return func(c *C) {
		base := c18Setup()
		mt := PickS(c, mounts)
		segl := Seq(c, depth, segs)
		slash := c.Bool()
		cwd := c.Choose(3)
		head := false
		if !real {
			head = c.Bool()
		}
		root := filepath.Join(base, "base/root")
		switch cwd {
		case 0:
			must(os.Chdir(filepath.Join(base, "trap")))
		case 1:
			must(os.Chdir(filepath.Join(base, "base")))
			root = "root"
		case 2:
			must(os.Chdir(root))
			root = "."
		}
		defer os.Chdir("/")
		p := strings.TrimSuffix(mt.pattern, "/*")
		for _, s := range segl {
			p += "/" + s
		}
		if slash || p == "" {
			p += "/"
		}
		r := water.NewRouter()
		mt.mk(r, root)
		e := r.Handler()
		w := c18Expect(c18Model(mt), mt.index, p)
		desc := fmt.Sprintf("%s, working directory %d, path %q, head %v", mt.name, cwd, p, head)
		if real {
			target := (&url.URL{Path: p}).EscapedPath()
			if strings.HasPrefix(p, "//") {
				target = "/" + (&url.URL{Path: p[1:]}).EscapedPath()
			}
			if c.Bool() {
				target = strings.NewReplacer(".", "%2e").Replace(target)
			}
			got := ServeReal(e, "GET", RawReq("GET", target, nil, ""))
			gh := ServeReal(e, "HEAD", RawReq("HEAD", target, nil, ""))
			c.Steps(2)
			if got.Err != nil || gh.Err != nil {
				c.Failf("panic", "%s: %v / %v", desc, got.Err, gh.Err)
				return
			}
			c18Check(c, desc, p, w, false, resp{status: got.Status, h: got.Header, body: got.Body})
			if got.Status != gh.Status || gh.Body != "" {
				c.Failf("head", "%s: GET gives %d, HEAD gives %d with body %q", desc, got.Status, gh.Status, gh.Body)
			}
			for _, k := range []string{"Content-Type", "Content-Length", "Location", "Last-Modified", "Etag", "Expires", "Accept-Ranges"} {
				a, b := got.Header.Get(k), gh.Header.Get(k)
				if a != b && !(w.kind == "dir" || w.kind == "escape" || w.kind == "missing" || w.kind == "none" || w.kind == "redirect") {
					c.Failf("head", "%s: %s is %q with GET and %q with HEAD", desc, k, a, b)
				}
			}
			c.State(desc)
			return
		}
		method := "GET"
		if head {
			method = "HEAD"
		}
		got, pv := deliver(false, e, method, p)
		c.Step()
		if pv != nil {
			c.Failf("panic", "%s: %v", desc, pv)
			return
		}
		if head && (w.kind == "dir" || w.kind == "redirect" || w.kind == "none" || w.kind == "escape") {
			got.body = "" // net/http drops it
		}
		c18Check(c, desc, p, w, head, got)
		c.State(mt.name + p)
	}
}

// ---- file systems with faults

type fakeFile struct {
	*strings.Reader
	name    string
	dir     bool
	mod     time.Time
	statErr error
	fsys    *fakeFS
	closed  bool
	entries []os.FileInfo
}

type fakeInfo struct {
	name string
	size int64
	mod  time.Time
	dir  bool
}

func (i fakeInfo) Name() string       { return i.name }
func (i fakeInfo) Size() int64        { return i.size }
func (i fakeInfo) ModTime() time.Time { return i.mod }
func (i fakeInfo) IsDir() bool        { return i.dir }
func (i fakeInfo) Sys() interface{}   { return nil }
func (i fakeInfo) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

func (f *fakeFile) Close() error {
	f.closed = true
	return nil
}
func (f *fakeFile) Stat() (os.FileInfo, error) {
	if f.closed {
		return nil, errors.New("stat on a closed file")
	}
	if f.statErr != nil {
		return nil, f.statErr
	}
	return fakeInfo{f.name, f.Size(), f.mod, f.dir}, nil
}
func (f *fakeFile) Read(p []byte) (int, error) {
	if f.closed {
		return 0, errors.New("read on a closed file")
	}
	return f.Reader.Read(p)
}
func (f *fakeFile) Readdir(n int) ([]os.FileInfo, error) {
	if n > 0 && len(f.entries) == 0 {
		return nil, io.EOF
	}
	e := f.entries
	f.entries = nil
	return e, nil
}

type fakeEntry struct {
	openErr, statErr error
	dir              bool
	body             string
	mod              time.Time
}

type fakeFS struct {
	m    map[string]fakeEntry
	open []*fakeFile
}

func (s *fakeFS) Open(name string) (http.File, error) {
	n := path.Clean("/" + name)
	en, ok := s.m[n]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if en.openErr != nil {
		return nil, en.openErr
	}
	f := &fakeFile{Reader: strings.NewReader(en.body), name: path.Base(n), dir: en.dir, mod: en.mod, statErr: en.statErr, fsys: s}
	s.open = append(s.open, f)
	return f, nil
}

func c18Faults(c *C) {
	c18FaultsOf([]error{&os.PathError{Op: "open", Path: "x", Err: fs.ErrNotExist}, &os.PathError{Op: "open", Path: "x", Err: fs.ErrPermission}, errInjected, io.EOF})(c)
}

func c18FaultsOf(errs []error) Body {
	return func(c *C) { c18FaultsIn(c, errs) }
}

func c18FaultsIn(c *C, errs []error) {
	one := errs[0]
	if len(errs) > 10 { // the same kind everywhere
		one = PickS(c, errs)
		errs = []error{one}
	}
	mk := func(body string) fakeEntry {
		en := fakeEntry{body: body, mod: c18Time}
		switch c.Choose(3) {
		case 1:
			en.openErr = errs[c.Choose(len(errs))]
		case 2:
			en.statErr = errs[c.Choose(len(errs))]
		}
		en.dir = c.Bool()
		return en
	}
	fsys := &fakeFS{m: map[string]fakeEntry{}}
	d := mk("not a directory")
	fsys.m["/d"] = d
	index := Pick(c, "", "index.html", "home")
	var in fakeEntry
	hasIn := index != "" && c.Bool()
	if hasIn {
		in = mk("the index")
		fsys.m["/d/"+index] = in
	}
	opt := &water.StaticOptions{Prefix: "/s", IndexFile: index, FileSystem: fsys}
	if c.Bool() {
		opt.ETag = water.ETagType1
		opt.Expires = func() string { return "soon" }
	}
	slash := Pick(c, "", "/")
	method := Pick(c, "GET", "HEAD")
	r := water.NewRouter()
	r.StaticAdvance(opt)
	e := r.Handler()
	got, pv := deliver(false, e, method, "/s/d"+slash)
	c.Step()
	desc := fmt.Sprintf("entry open=%v stat=%v dir=%v, index %q present=%v open=%v stat=%v dir=%v, %s /s/d%s", d.openErr, d.statErr, d.dir, index, hasIn, in.openErr, in.statErr, in.dir, method, slash)
	if pv != nil {
		c.Failf("panic", "%s: %v", desc, pv)
		return
	}
	check := func(want int, body string) {
		if got.status != want {
			c.Failf("status", "%s: status %d body %q, expected %d", desc, got.status, clip(got.body, 100), want)
		} else if want == 200 && method == "GET" && got.body != body {
			c.Failf("content", "%s: body %q, expected %q", desc, clip(got.body, 100), body)
		} else if want == 200 && method == "HEAD" && got.body != "" {
			c.Failf("head", "%s: body %q", desc, clip(got.body, 100))
		}
	}
	switch {
	case d.openErr != nil || d.statErr != nil:
		check(404, "")
	case !d.dir:
		check(200, d.body)
	case slash == "":
		if got.status < 301 || got.status > 308 || got.status == 304 || got.h.Get("Location") != "/s/d/" {
			c.Failf("redirect", "%s: status %d location %q", desc, got.status, got.h.Get("Location"))
		}
	case index == "":
		if got.status != 200 && got.status != 404 {
			c.Failf("status", "%s: status %d", desc, got.status)
		}
	case !hasIn || in.openErr != nil || in.statErr != nil || in.dir:
		check(404, "")
	default:
		check(200, in.body)
	}
	c.Outcome(fmt.Sprint(got.status))
	c.State(desc)
}

// c18File: routes for single files, from any working directory.
func c18File(real bool) Body {
	return func(c *C) {
		base := c18Setup()
		must(os.Chdir(filepath.Join(base, Pick(c, "trap", "base"))))
		defer os.Chdir("/")
		names := []string{"/f.txt", "/empty", "/dir/x.bin", "/dir/sub/y.txt", "/idx/home.txt", "/sp ace.txt", "/ü.txt", "/.hidden", "/..data", "/nope", "/dir/nope", "/f.txt/x", "/big.txt"}
		i, j := c.Choose(len(names)), c.Choose(len(names))
		pats := []string{"/one", "/one.txt", "/a/b/two", "/<id>"}
		pi := c.Choose(len(pats))
		r := water.NewRouter()
		abs := func(n string) string { return filepath.Join(base, "base/root", n) }
		r.StaticFile(pats[pi], abs(names[i]))
		r.StaticFile("/other", abs(names[j]))
		e := r.Handler()
		ask := func(p, name string) {
			target := strings.Replace(p, "<id>", "any", 1)
			method := "GET"
			if c.Bool() {
				method = "HEAD"
			}
			got, pv := deliver(real, e, method, target)
			c.Step()
			desc := fmt.Sprintf("StaticFile(%q,%q), %s %s", p, name, method, target)
			if pv != nil {
				c.Failf("panic", "%s: %v", desc, pv)
				return
			}
			w := c18Want{kind: "missing"}
			if b, ok := c18Tree[name]; ok && b != c18Dir {
				w = c18Want{kind: "file", file: name}
			}
			if method == "HEAD" && w.kind != "file" {
				got.body = ""
			}
			c18Check(c, desc, target, w, method == "HEAD", got)
		}
		ask(pats[pi], names[i])
		ask("/other", names[j])
		c.State(fmt.Sprint(names[i], names[j], pats[pi]))
	}
}

// c18Many: several static mounts in one engine do not mix.
func c18Many(c *C) {
	base := c18Setup()
	must(os.Chdir(filepath.Join(base, "trap")))
	defer os.Chdir("/")
	root := filepath.Join(base, "base/root")
	type mt struct{ prefix, dir, index string }
	all := []mt{{"/s", "/", "index.html"}, {"/t", "/dir", ""}, {"/s/idx", "/idx", "home.txt"}, {"/u", "/idx", "index.html"}, {"/t/sub", "/dir/sub", "index.html"}}
	n := 2
	var ms []mt
	for i := 0; i < n; i++ {
		ms = append(ms, all[c.Choose(len(all))])
	}
	if ms[0].prefix == ms[1].prefix {
		c.Prune()
	}
	r := water.NewRouter()
	m := newModel()
	for i, x := range ms {
		r.StaticAdvance(&water.StaticOptions{Prefix: x.prefix, IndexFile: x.index, FileSystem: http.Dir(filepath.Join(root, x.dir))})
		_ = i
		m.add("GET", x.prefix+"/*")
	}
	e := r.Handler()
	for q := 0; q < 2; q++ {
		p := Pick(c, "/s", "/t", "/s/idx", "/u", "/t/sub") + "/" + Pick(c, "f.txt", "idx/", "idx/home.txt", "index.html", "home.txt", "x.bin", "sub/y.txt", "y.txt", "sub/")
		got, pv := deliver(false, e, "GET", p)
		c.Step()
		rt, params := m.match("GET", p)
		want, body := 404, ""
		if rt != nil {
			x := ms[rt.ID]
			name := path.Join(x.dir, path.Clean("/"+params["*0"]))
			b, ok := c18Tree[name]
			if ok && b == c18Dir {
				if x.index == "" {
					continue
				}
				b, ok = c18Tree[path.Join(name, x.index)]
			}
			if ok && b != c18Dir {
				want, body = 200, b
			}
		}
		if pv != nil || got.status != want || want == 200 && got.body != body {
			c.Failf("mixed", "mounts %v, %s: status %d body %q panic %v, expected %d %q", ms, p, got.status, clip(got.body, 80), pv, want, body)
		}
	}
	c.State(fmt.Sprint(ms))
}

func init() {
	register(&Prop{ID: "C18", Scopes: []Scope{
		{Name: "faults", Desc: "file systems failing to open or examine the file, directory or index in every combination", Body: c18Faults, Split: 3},
		{Name: "paths", Desc: "8 mounts x paths of up to 2 of 32 segments (.., ., empty, names of files inside and outside the root) with and without trailing slash x 3 working directories x GET, HEAD", Body: c18Paths(c18Mounts, c18Segs, 2, false), Split: 3},
		{Name: "deep", Desc: "2 mounts x paths of 3 of 10 segments", Body: c18Paths(c18Mounts[:3:3], []string{"f.txt", "dir", "..", ".", "", "sub", "idx", "index.html", "secret.txt", "y.txt"}, 3, false), Split: 3},
		{Name: "files", Desc: "single-file routes: 13 files x 4 patterns, two per engine, 2 working directories, GET and HEAD", Body: c18File(false), Split: 3},
		{Name: "files-real", Desc: "the same through a real HTTP server", Body: c18File(true), Split: 3},
		{Name: "real", Desc: "through a real HTTP server, plain and percent-encoded dots, GET and HEAD compared: paths of one of 32 segments", Body: c18Paths(c18Mounts[:4:4], c18Segs, 1, true), Split: 3},
		{Name: "real-2", Desc: "the same with two of 12 segments", Body: c18Paths(c18Mounts, c18Segs[:12:12], 2, true), Split: 3},
		{Name: "many", Desc: "two mounts out of 5 (nested prefixes) x two requests", Body: c18Many, Split: 3},
		{Name: "deeper", Desc: "all mounts x paths of up to 4 of 8 segments", Body: c18Paths(c18Mounts, []string{"dir", "..", ".", "", "sub", "idx", "index.html", "y.txt"}, 4, false), Split: 3},
		{Name: "paths-3", Desc: "3 mounts x paths of up to 3 of 32 segments", Body: c18Paths(c18Mounts[:3:3], c18Segs, 3, false), Split: 3},
	}})
}
