// Package props holds, per property, the bodies that the explorer enumerates and the
// reference models they are compared with. Only the exported API of the repository is used.
package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// Scope is one bounded space of behaviours of a property.
type Scope struct {
	Name     string
	Desc     string // the alphabet and bounds
	Body     Body
	Split    int  // number of leading decisions used to divide the space among workers
	Thorough bool // only in the thorough tier
	Single   bool // run by one worker only (fixed ports, working directory, ...)
}

// Prop is a property's check.
type Prop struct {
	ID          string
	Scopes      []Scope
	Assumptions []string
	Race        bool // has a free-running pass under the race detector
}

// All is the registry.
var All = map[string]*Prop{}

func register(p *Prop) { All[p.ID] = p }

var errInjected = errors.New("injected fault")

// Init puts process-wide state into a known condition (called before every execution).
func Init() {
	water.Status = water.Dev
	water.LogClose = false
	water.LogHttpBody = true
	water.LogColor = true
	if binding.Validator != defaultValidator {
		binding.Validator = defaultValidator
	}
	if len(water.MethodAnyExclude) != 2 || water.MethodAnyExclude[0] != "HEAD" || water.MethodAnyExclude[1] != "OPTIONS" {
		water.MethodAnyExclude = []string{"HEAD", "OPTIONS"}
	}
}

var defaultValidator = binding.Validator

// Once prepares the process.
func Once() {
	logx.SetOutput(logx.NewLogger()) // no outputs
}

// Rec is a strict response writer: it snapshots status and headers when the response is
// committed, as a real server does, and records every call.
type Rec struct {
	H       http.Header
	Commits []int // every WriteHeader call received
	Status  int   // the committed status, 0 if none
	Implied bool  // committed by a body write
	Snap    http.Header
	Body    bytes.Buffer
	Writes  int

	FailAt  int   // fail body writes once this many bytes were accepted (-1: never)
	Short   bool  // accept what fits before failing
	Once    bool  // work again after one failure
	NoErr   bool  // accept less without an error
	Err     error // what a failing write returns (errInjected if nil)
	Faults  int
	OnEvent func(ev string)
}

// NewRec returns a writer without faults.
func NewRec() *Rec { return &Rec{H: http.Header{}, FailAt: -1} }

func (r *Rec) Header() http.Header { return r.H }

func (r *Rec) WriteHeader(code int) {
	r.Commits = append(r.Commits, code)
	if r.OnEvent != nil {
		r.OnEvent(fmt.Sprintf("header %d", code))
	}
	if r.Status == 0 {
		r.Status = code
		r.Snap = r.H.Clone()
	}
}

func (r *Rec) Write(b []byte) (int, error) {
	if r.Status == 0 {
		r.Implied = true
		r.Status = 200
		r.Snap = r.H.Clone()
	}
	r.Writes++
	if r.OnEvent != nil {
		r.OnEvent(fmt.Sprintf("body %d", len(b)))
	}
	if r.FailAt >= 0 && (r.Body.Len()+len(b) > r.FailAt || r.Faults > 0) && (r.Faults == 0 || !r.Once) {
		r.Faults++
		n := 0
		if r.NoErr {
			n = r.FailAt - r.Body.Len()
			r.Body.Write(b[:n])
			return n, nil
		}
		if r.Short && r.Faults == 1 {
			n = r.FailAt - r.Body.Len()
			r.Body.Write(b[:n])
		}
		if r.Err != nil {
			return n, r.Err
		}
		return n, errInjected
	}
	return r.Body.Write(b)
}

// Summary renders what the client would see.
func (r *Rec) Summary() string {
	return fmt.Sprintf("status=%d header={%s} body=%q", r.Status, hdr(r.Snap), clip(r.Body.String(), 300))
}

func clip(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s...(%d bytes, fnv %x)", s[:n], len(s), fnv64(s))
	}
	return s
}

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func hdr(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%q;", k, h[k])
	}
	return sb.String()
}

// Req builds a server-side request directly (no parsing in between).
func Req(method, path string) *http.Request {
	return &http.Request{
		Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "example.com", RequestURI: path, RemoteAddr: "192.0.2.1:1234", Body: http.NoBody,
	}
}

// ReqURL is Req with a raw query.
func ReqURL(method, path, query string) *http.Request {
	r := Req(method, path)
	r.URL.RawQuery = query
	if query != "" {
		r.RequestURI += "?" + query
	}
	return r
}

// ReqBody is a request with a body and content type.
func ReqBody(method, path, ct string, body []byte) *http.Request {
	r := Req(method, path)
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	r.Body = io.NopCloser(bytes.NewReader(body))
	r.ContentLength = int64(len(body))
	return r
}

// Serve runs one request and returns the recorder and an escaped panic, if any.
func Serve(h http.Handler, req *http.Request) (*Rec, interface{}) {
	rec := NewRec()
	v, st, p := Try(func() { h.ServeHTTP(rec, req) })
	if p {
		if v == nil {
			v = "nil panic"
		}
		lastStack = st
		return rec, v
	}
	return rec, nil
}

var lastStack string

// Build builds an engine and reports a refusal.
func Build(f func() *water.Engine) (e *water.Engine, refused interface{}) {
	v, _, p := Try(func() { e = f() })
	if p {
		if v == nil {
			v = "nil panic"
		}
		return nil, v
	}
	return e, nil
}

// chunkReader delivers data in the given chunk sizes and may fail.
type chunkReader struct {
	data   []byte
	chunk  int   // bytes per read (0: as much as asked)
	failAt int   // return err once this many bytes were delivered (-1: never)
	err    error // the error (sticky)
	with   bool  // deliver the error together with the last bytes
	off    int
	closed int
	reads  int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if r.failAt >= 0 && r.off >= r.failAt {
		return 0, r.err
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	if n > end-r.off {
		n = end - r.off
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.failAt >= 0 && r.off >= r.failAt && r.with && n > 0 {
		return n, r.err
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (r *chunkReader) Close() error { r.closed++; return nil }

// captureStdout returns what f prints on standard output.
func captureStdout(f func()) (string, interface{}) {
	tmp, err := os.CreateTemp("", "mcout")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	v, _, p := Try(f)
	os.Stdout = old
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		panic(err)
	}
	if !p {
		v = nil
	} else if v == nil {
		v = "nil panic"
	}
	return string(b), v
}

// scratch is a per-process scratch directory, removed by the supervisor.
func scratch() string {
	d := os.Getenv("MC_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

func mapStr(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%q ", k, m[k])
	}
	return strings.TrimSpace(sb.String())
}

// quiet runs f and tells whether it panicked.
func quiet(f func()) (p bool) {
	p = true
	defer func() { recover() }()
	f()
	return false
}
