package props

import (
	"fmt"
	"net/http"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// The reference model of routing, written from the documented meaning of patterns: it knows
// nothing about trees, backtracking or the order in which alternatives are tried. A route
// answers a path if every segment matches; among the routes that do, the one whose list of
// per-segment preferences is smallest answers.

const (
	kStatic = iota
	kRegexp
	kHolder
	kGlob
)

// MSeg is one segment of a pattern.
type MSeg struct {
	Text  string // canonical text: the native spelling
	Kind  int
	Names []string // names of captures; "_" is unbound
	Re    *regexp.Regexp
	Whole bool // the regular expression has no group: the (only) name is what it found
}

var reCache = map[string]*regexp.Regexp{}

func compile(re string) *regexp.Regexp {
	r, ok := reCache[re]
	if !ok {
		r, _ = regexp.Compile(re)
		reCache[re] = r
	}
	return r
}

// parseSeg reads one segment in any documented spelling; ok is false if it is malformed.
func parseSeg(s string) (m MSeg, ok bool) {
	if s != strings.TrimSpace(s) {
		return m, false
	}
	if strings.HasPrefix(s, ":") {
		s = "<" + strings.TrimSpace(s[1:]) + ">"
	}
	m.Text = s
	if strings.HasPrefix(s, "*") {
		m.Kind = kGlob
		m.Names = []string{s[1:]}
		return m, true
	}
	if !strings.ContainsAny(s, "<>") {
		return m, true
	}
	if s[0] != '<' || s[len(s)-1] != '>' {
		return m, false
	}
	in := s[1 : len(s)-1]
	re, hasRe := "", false
	if i := strings.Index(in, "~"); i >= 0 {
		in, re, hasRe = in[:i], strings.TrimSpace(in[i+1:]), true
	}
	if i := strings.Index(in, ":"); i >= 0 {
		in = in[:i] // the type annotation
	}
	for _, n := range strings.Split(in, ",") {
		m.Names = append(m.Names, strings.TrimSpace(n))
	}
	m.Kind = kHolder
	if hasRe {
		m.Kind = kRegexp
		m.Re = compile(re)
		if m.Re == nil {
			return m, false
		}
		switch n := m.Re.NumSubexp(); {
		case n == 0 && len(m.Names) == 1:
			m.Whole = true
		case n != len(m.Names):
			return m, false
		}
	}
	return m, true
}

// MRoute is one registered route.
type MRoute struct {
	ID      int
	Method  string
	Pattern string // as registered, with group prefixes
	Segs    []MSeg
	orders  []int // preference among segments of the same kind under the same prefix, per position
}

// Canon is the pattern's canonical spelling.
func (r *MRoute) Canon() string {
	var t []string
	for _, s := range r.Segs {
		t = append(t, s.Text)
	}
	return "/" + strings.Join(t, "/")
}

var segCache = map[string][]MSeg{}

// parsePattern splits a full pattern into segments.
func parsePattern(p string) ([]MSeg, bool) {
	if v, ok := segCache[p]; ok {
		return v, v != nil
	}
	segs, ok := parsePattern0(p)
	if !ok {
		segs = nil
	}
	segCache[p] = segs
	return segs, ok
}

func parsePattern0(p string) ([]MSeg, bool) {
	if p == "/" {
		return []MSeg{{}}, true
	}
	if p == "" || p[0] != '/' || p[len(p)-1] == '/' {
		return nil, false
	}
	var out []MSeg
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue // repeated slashes
		}
		m, ok := parseSeg(s)
		if !ok {
			return nil, false
		}
		out = append(out, m)
	}
	return out, len(out) > 0
}

// Model is a route table.
type Model struct {
	Routes  []*MRoute
	orders  map[string]int
	counter int
}

func newModel() *Model { return &Model{orders: map[string]int{}} }

// add registers a route; refused tells why the table must be refused, if so.
func (m *Model) add(method, pattern string) (r *MRoute, refused string) {
	segs, ok := parsePattern(pattern)
	if !ok {
		return nil, "malformed pattern " + pattern
	}
	r = &MRoute{ID: len(m.Routes), Method: method, Pattern: pattern, Segs: segs}
	prefix := method + " "
	for i, s := range segs {
		role := "s"
		if i == len(segs)-1 {
			role = "e"
		}
		key := prefix + "/" + s.Text + "\x00" + role
		o, seen := m.orders[key]
		if !seen {
			o = m.counter
			m.counter++
			m.orders[key] = o
		} else if role == "e" {
			return nil, "double pattern " + method + " " + pattern
		}
		r.orders = append(r.orders, o)
		prefix += "/" + s.Text
	}
	m.Routes = append(m.Routes, r)
	return r, ""
}

func splitPath(path string) []string {
	path = strings.TrimPrefix(path, "/")
	path = strings.TrimSuffix(path, "/")
	return strings.Split(path, "/")
}

// covers tells whether the route's pattern covers the path and which preferences and captures
// that gives.
func (r *MRoute) covers(segs []string, key []int, params map[string]string) ([]int, bool) {
	n := len(r.Segs)
	last := r.Segs[n-1]
	if !(len(segs) == n || len(segs) > n && last.Kind == kGlob) {
		return nil, false
	}
	glob := 0
	key = key[:0]
	for i, s := range r.Segs {
		v := segs[i]
		rank := s.Kind
		switch s.Kind {
		case kStatic:
			if s.Text != v {
				return nil, false
			}
		case kHolder:
			if params != nil && s.Names[0] != "_" {
				params[s.Names[0]] = v
			}
		case kRegexp:
			f := s.Re.FindStringSubmatch(v)
			if f == nil {
				return nil, false
			}
			if params != nil {
				if s.Whole {
					f = []string{"", f[0]}
				}
				for j, name := range s.Names {
					if name != "_" {
						params[name] = f[j+1]
					}
				}
			}
		case kGlob:
			if i == n-1 && len(segs) > n {
				v = strings.Join(segs[i:], "/")
				rank = kGlob + 1
			}
			if params != nil {
				switch s.Names[0] {
				case "":
					params["*"+strconv.Itoa(glob)] = v
				case "_":
				default:
					params[s.Names[0]] = v
				}
			}
			// unnamed catch-alls are numbered by position among all catch-alls
			glob++
		}
		key = append(key, rank, r.orders[i])
	}
	return key, true
}

// match returns the answering route (nil if none) and its captures.
func (m *Model) match(method, path string) (*MRoute, map[string]string) {
	segs := splitPath(path)
	var best *MRoute
	var bestKey, buf []int
	for _, r := range m.Routes {
		if r.Method != method {
			continue
		}
		k, ok := r.covers(segs, buf, nil)
		if !ok {
			continue
		}
		if best == nil || lessInts(k, bestKey) {
			best = r
			bestKey, buf = k, bestKey
		} else {
			buf = k
		}
	}
	if best == nil {
		return nil, nil
	}
	p := map[string]string{}
	best.covers(segs, buf, p)
	return best, p
}

func lessInts(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// ---- driving the real router

// Hit is what the handlers of one request reported.
type Hit struct {
	ID     int
	Count  int
	Params map[string]string
	Path   string
}

// nullW is a minimal response writer for the high-volume routing scopes.
type nullW struct {
	h      http.Header
	status int
	n      int
	calls  int
}

func (w *nullW) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *nullW) WriteHeader(c int)           { w.calls++; w.status = c }
func (w *nullW) Write(b []byte) (int, error) { w.n += len(b); return len(b), nil }

// table is a real engine together with its model.
type table struct {
	m   *Model
	e   *water.Engine
	hit Hit
	req *http.Request
	w   nullW
}

func (t *table) handler(id int) func(*water.Context) {
	return func(ctx *water.Context) {
		t.hit.ID = id
		t.hit.Count++
		t.hit.Params = ctx.Params
		for k, v := range ctx.Params {
			if got := ctx.Param(k); got != v {
				t.hit.Params = water.Params{k: "Param() says " + got}
			}
		}
		ctx.WriteHeader(http.StatusOK)
	}
}

// serve sends one request and returns what happened.
func (t *table) serve(method, path string) Hit {
	if t.req == nil {
		t.req = Req(method, path)
	}
	t.req.Method = method
	t.req.URL.Path = path
	t.hit = Hit{ID: -1}
	t.w = nullW{}
	t.e.ServeHTTP(&t.w, t.req)
	return t.hit
}

// newTable registers the patterns (all GET) in order on a fresh router. refused is the model's
// reason for refusing the table; then the real router is not built.
func newTable(pats []string, opts ...water.Option) (t *table, refused string) {
	t = &table{m: newModel()}
	for _, p := range pats {
		if _, why := t.m.add("GET", p); why != "" {
			return nil, why
		}
	}
	r := water.NewRouter()
	for i, p := range pats {
		r.GET(p, t.handler(i))
	}
	t.e = r.Handler(opts...)
	return t, ""
}

func eqParams(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

// patterns enumerates all patterns of 1..max segments over the kinds.
func patterns(kinds []string, max int) []string {
	var out []string
	cur := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range cur {
			for _, k := range kinds {
				next = append(next, p+"/"+k)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

// paths enumerates all request paths of 1..max segments over the letters.
func paths(letters []string, max int) []string { return patterns(letters, max) }

// spelled are request paths that spell a pattern literally, in its registered and canonical spelling.
func spelled(pat string) []string {
	out := []string{pat, pat + "/"}
	if segs, ok := parsePattern(pat); ok {
		var t []string
		for _, s := range segs {
			t = append(t, s.Text)
		}
		if q := "/" + strings.Join(t, "/"); q != pat {
			out = append(out, q)
		}
	}
	return out
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func showMatch(r *MRoute, p map[string]string) string {
	if r == nil {
		return "no route"
	}
	return fmt.Sprintf("route %d %s {%s}", r.ID, r.Pattern, mapStr(p))
}

func showHit(h Hit, pats []string) string {
	if h.ID < 0 {
		return "no route"
	}
	return fmt.Sprintf("route %d %s {%s}", h.ID, pats[h.ID], mapStr(h.Params))
}
