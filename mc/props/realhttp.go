package props

import (
	"bufio"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A real HTTP server (net/http) on in-memory connections.
type pipeListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80} }

type handlerBox struct{ h http.Handler }

type realServer struct {
	l   *pipeListener
	cur atomic.Value
	con net.Conn
	br  *bufio.Reader
}

var realSrv *realServer

type logSink struct{}

func (logSink) Write(b []byte) (int, error) { return len(b), nil }

func getReal() *realServer {
	if realSrv == nil {
		realSrv = &realServer{l: &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}}
		realSrv.cur.Store(handlerBox{http.NotFoundHandler()})
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			realSrv.cur.Load().(handlerBox).h.ServeHTTP(w, r)
		}), ErrorLog: log.New(logSink{}, "", 0)}
		go s.Serve(realSrv.l)
	}
	return realSrv
}

// RealResp is what a client of a real server received.
type RealResp struct {
	Status int
	Header http.Header
	Body   string
	Err    error
}

// ServeReal sends the raw request to h over a real HTTP connection.
func ServeReal(h http.Handler, method, raw string) RealResp {
	s := getReal()
	s.cur.Store(handlerBox{h})
	if s.con == nil {
		a, b := net.Pipe()
		s.l.ch <- b
		s.con, s.br = a, bufio.NewReader(a)
	}
	s.con.SetDeadline(time.Now().Add(20 * time.Second))
	werr := make(chan error, 1)
	con := s.con
	go func() { _, err := io.WriteString(con, raw); werr <- err }()
	resp, err := http.ReadResponse(s.br, &http.Request{Method: method})
	if err != nil {
		s.con.Close()
		s.con = nil
		<-werr
		return RealResp{Err: err}
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil || resp.Close {
		s.con.Close()
		s.con = nil
	}
	<-werr
	return RealResp{resp.StatusCode, resp.Header, string(b), err}
}

// RawReq renders a request.
func RawReq(method, target string, hdrs []string, body string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %s HTTP/1.1\r\nHost: example.com\r\n", method, target)
	for _, h := range hdrs {
		sb.WriteString(h + "\r\n")
	}
	if body != "" {
		fmt.Fprintf(&sb, "Content-Length: %d\r\n", len(body))
	}
	sb.WriteString("\r\n" + body)
	return sb.String()
}
