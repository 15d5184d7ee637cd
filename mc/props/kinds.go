package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// The faults of the exhaustive spaces are of one or two kinds. What an implementation makes
// of a fault may depend on what it is: these spaces repeat a coarser choice of positions with
// every kind of error that connections, bodies and file systems come up with.

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type silentErr struct{}

func (*silentErr) Error() string { return "" }

type uncomparableErr []string

func (e uncomparableErr) Error() string { return fmt.Sprint([]string(e)) }

type faultKind struct {
	name string
	err  error
}

func netErr(op string, n syscall.Errno) error {
	return &net.OpError{Op: op, Net: "tcp", Source: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80}, Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4711}, Err: os.NewSyscallError(op, n)}
}

var faultKinds = []faultKind{
	{"plain", errInjected},
	{"EOF", io.EOF},
	{"wrapped EOF", fmt.Errorf("reading: %w", io.EOF)},
	{"unexpected EOF", io.ErrUnexpectedEOF},
	{"wrapped unexpected EOF", fmt.Errorf("reading: %w", io.ErrUnexpectedEOF)},
	{"closed pipe", io.ErrClosedPipe},
	{"short write", io.ErrShortWrite},
	{"no progress", io.ErrNoProgress},
	{"short buffer", io.ErrShortBuffer},
	{"EPIPE", syscall.EPIPE},
	{"broken pipe of a connection", netErr("write", syscall.EPIPE)},
	{"reset connection", netErr("read", syscall.ECONNRESET)},
	{"aborted connection", netErr("write", syscall.ECONNABORTED)},
	{"network timeout", &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}},
	{"deadline", os.ErrDeadlineExceeded},
	{"closed network connection", net.ErrClosed},
	{"canceled", context.Canceled},
	{"context deadline", context.DeadlineExceeded},
	{"EINTR", syscall.EINTR},
	{"EAGAIN", syscall.EAGAIN},
	{"no space", &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}},
	{"too many files", &os.PathError{Op: "open", Path: "x", Err: syscall.EMFILE}},
	{"not exist", &os.PathError{Op: "open", Path: "x", Err: fs.ErrNotExist}},
	{"permission", &os.PathError{Op: "open", Path: "x", Err: fs.ErrPermission}},
	{"not a directory", &os.PathError{Op: "open", Path: "x", Err: syscall.ENOTDIR}},
	{"invalid", fs.ErrInvalid},
	{"closed file", fs.ErrClosed},
	{"abort handler", http.ErrAbortHandler},
	{"handler timeout", http.ErrHandlerTimeout},
	{"body read after close", http.ErrBodyReadAfterClose},
	{"body not allowed", http.ErrBodyNotAllowed},
	{"content length", http.ErrContentLength},
	{"server closed", http.ErrServerClosed},
	{"body too large", &http.MaxBytesError{Limit: 10}},
	{"missing file", http.ErrMissingFile},
	{"no message", &silentErr{}},
	{"several", errors.Join(errInjected, io.EOF)},
	{"uncomparable", uncomparableErr{"a", "b"}},
}

// isErr is errors.Is for errors which cannot be compared as well.
func isErr(err, target error) bool {
	if _, ok := target.(uncomparableErr); ok {
		var u uncomparableErr
		return errors.As(err, &u)
	}
	return errors.Is(err, target)
}

func fewCuts(n int) (o []int) {
	seen := map[int]bool{}
	for _, x := range []int{0, 1, n / 2, n - 1, n} {
		if x >= 0 && !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	return
}

// panicking with every kind of error, and with errors around them
func kindVals() (o []pval) {
	for _, k := range faultKinds {
		err := k.err
		o = append(o, pval{k.name, func(*water.Context) { panic(err) }})
		o = append(o, pval{"wrapped " + k.name, func(*water.Context) { panic(fmt.Errorf("handler: %w", err)) }})
	}
	var nilPtr *net.OpError
	o = append(o,
		pval{"nil *net.OpError", func(*water.Context) { panic(nilPtr) }},
		pval{"nil func", func(*water.Context) { var f func(); panic(f) }},
		pval{"nil map", func(*water.Context) { panic(nilMap) }},
		pval{"nil slice", func(*water.Context) { panic(emptySl) }},
		pval{"panic(nil)", func(*water.Context) { panic(nil) }},
		pval{"divide", func(*water.Context) { z := len(emptySl); _ = 1 / z }},
		pval{"calling nil", func(*water.Context) { var f func(); f() }},
		pval{"closing nil", func(*water.Context) { var ch chan int; close(ch) }},
		pval{"closing twice", func(*water.Context) { ch := make(chan int); close(ch); close(ch) }},
		pval{"sending on closed", func(*water.Context) { ch := make(chan int, 1); close(ch); ch <- 1 }},
		pval{"uncomparable key", func(*water.Context) { m := map[interface{}]int{}; m[[]int{1}] = 1 }},
		pval{"typed string", func(*water.Context) { panic(template34("x")) }},
		pval{"time", func(*water.Context) { panic(time.Second) }},
		pval{"bytes", func(*water.Context) { panic([]byte("boom")) }},
		pval{"status number", func(*water.Context) { panic(404) }},
		pval{"context", func(ctx *water.Context) { panic(ctx) }},
		pval{"request", func(ctx *water.Context) { panic(ctx.Request.URL) }},
	)
	return
}

type template34 string

// readKinds: those a reader can fail with (io.EOF is no failure).
func readKinds() (o []error) {
	for _, k := range faultKinds {
		if k.err != io.EOF {
			o = append(o, k.err)
		}
	}
	return
}

func init() {
	addScopes("C13", Scope{Name: "kinds", Desc: "panics with each of 38 kinds of error, bare and wrapped, and 17 more values, in a chain of one handler x what was sent before x 5 mounts x modes", Body: c13Body(1, kindVals()), Split: 3})
	addScopes("C34",
		Scope{Name: "write-kinds", Desc: "18 ways of writing x 4 surroundings x 5 positions of a failure of each of 38 kinds x taking what fits x working again later", Body: c34Write(kinds34), Split: 3},
		Scope{Name: "stream-kinds", Desc: "Stream of 9 bytes: every position of a source failure of each of 37 kinds, alone or before a connection failure of each of 38", Body: c34StreamKinds, Split: 3},
		Scope{Name: "read-kinds", Desc: "15 ways of reading a body x its formats x 5 positions of a read failure of each of 37 kinds x with data or after it x known length", Body: c34Read(true), Split: 4},
	)
	addScopes("C16", Scope{Name: "kinds", Desc: "read errors of 37 kinds at 4 offsets of two bodies, with or without the last bytes, x ways of reading", Body: c16Kinds, Split: 3})
	addScopes("C18", Scope{Name: "kinds", Desc: "a file or directory whose opening or examination, or whose index's, fails with each of 38 kinds of error, x index setting x tags x GET/HEAD", Body: c18FaultsOf(allKinds()), Split: 3})
	addScopes("C36", Scope{Name: "kinds", Desc: "10 kinds of static request x 7 conditional or range headers x tags x index x Recovery x GET/HEAD, each operation on the file system failing with each of 38 kinds of error", Body: func(c *C) { c36StaticOf(c, true) }, Split: 3})
	addScopes("C29", Scope{Name: "kinds", Desc: "well-formed JSON and XML documents whose reading fails with each of 37 kinds of error at every position", Body: c29FaultsOf(readKinds(), true), Split: 3})
}

func allKinds() (o []error) {
	for _, k := range faultKinds {
		o = append(o, k.err)
	}
	return
}

// c16Kinds: the handler sees the body's error whatever it is.
func c16Kinds(c *C) {
	cs := &c16Case{method: "POST", ct: Pick(c, "application/json", "text/plain")}
	cs.err = PickS(c, readKinds())
	cs.body = []byte(Pick(c, `{"a":"b"}`, `{"a":"`+string(make([]byte, 3000))+`"}`))
	cs.failAt = PickS(c, []int{0, 1, len(cs.body) / 2, len(cs.body)})
	if cs.failAt > 0 {
		cs.with = c.Bool()
	}
	cs.read = c.Choose(len(c16Reads))
	run := func(with bool) (string, string) {
		note := new(strings.Builder)
		r := water.NewRouter()
		if with {
			r.Use(water.Logger())
		}
		r.POST("/log/me", c16Handler(cs, note))
		req := ReqBody("POST", "/log/me", cs.ct, nil)
		req.Body = &chunkReader{data: cs.body, failAt: cs.failAt, err: cs.err, with: cs.with}
		req.ContentLength = -1
		rec := NewRec()
		p := quiet(func() { r.Handler().ServeHTTP(rec, req) })
		return fmt.Sprint(rec.Summary(), p), note.String()
	}
	wantR, wantN := run(false)
	gotR, gotN := run(true)
	c.Step()
	desc := fmt.Sprintf("%s body of %d bytes failing at %d (with data %v, %v), %s", cs.ct, len(cs.body), cs.failAt, cs.with, cs.err, c16Reads[cs.read])
	if gotN != wantN || gotR != wantR {
		c.Failf("read", "%s: with the logger the handler sees\n %s\n and the client gets %s\nwithout\n %s\n and %s", desc, gotN, gotR, wantN, wantR)
	}
	c.State(desc)
}
