package props

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// C35: the entry points that listen. The servers are real (loopback sockets);
// they are stopped by shutting down the listening socket, which is found among
// the descriptors of this process.

type lsock struct {
	fd   int
	ip   net.IP
	port int
}

// listening lists the TCP sockets this process listens on.
func listening() (out []lsock) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range ents {
		fd, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		v, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_ACCEPTCONN)
		if err != nil || v == 0 {
			continue
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		switch a := sa.(type) {
		case *syscall.SockaddrInet4:
			out = append(out, lsock{fd, net.IP(append([]byte(nil), a.Addr[:]...)), a.Port})
		case *syscall.SockaddrInet6:
			out = append(out, lsock{fd, net.IP(append([]byte(nil), a.Addr[:]...)), a.Port})
		}
	}
	return out
}

func portSock(port int) *lsock {
	for _, s := range listening() {
		if s.port == port {
			return &s
		}
	}
	return nil
}

// freePort finds a port nobody listens on.
func freePort() int {
	for {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic(err)
		}
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		if p != 8080 {
			return p
		}
	}
}

var c35V6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
})

type c35Cert struct {
	cert, key string
	leaf      []byte
}

var c35Certs = sync.OnceValue(func() [2]c35Cert {
	var out [2]c35Cert
	dir := filepath.Join(scratch(), "tls")
	must(os.MkdirAll(dir, 0700))
	for i := range out {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprint("c", i)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"localhost"}}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		must(err)
		kb, err := x509.MarshalECPrivateKey(k)
		must(err)
		out[i] = c35Cert{filepath.Join(dir, fmt.Sprint("cert", i)), filepath.Join(dir, fmt.Sprint("key", i)), der}
		must(os.WriteFile(out[i].cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600))
		must(os.WriteFile(out[i].key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600))
	}
	must(os.WriteFile(filepath.Join(dir, "junk"), []byte("junk\n"), 0600))
	return out
})

// c35Engine answers with its own name.
func c35Engine(name string, served *int64, wait chan struct{}) *water.Engine {
	r := water.NewRouter()
	r.Before(func(ctx *water.Context) { atomic.AddInt64(served, 1) })
	r.Use(func(ctx *water.Context) { ctx.Header().Set("X-Mw", name); ctx.Next() })
	r.GET("/a", func(ctx *water.Context) { ctx.String(200, name+" a "+ctx.Query("q")) })
	r.GET("/p/<id>/*rest", func(ctx *water.Context) {
		ctx.String(203, name+" p "+ctx.Param("id")+" "+ctx.Param("rest"))
	})
	r.POST("/echo", func(ctx *water.Context) {
		b, err := io.ReadAll(ctx.Request.Body)
		if err != nil {
			ctx.Abort(400)
			return
		}
		ctx.Data(201, "text/x-echo", append([]byte(name+":"), b...))
	})
	r.GET("/wait", func(ctx *water.Context) { <-wait; ctx.String(200, name+" waited") })
	r.GET("/fail", func(ctx *water.Context) { panic(http.ErrAbortHandler) })
	return r.Handler()
}

type c35Running struct {
	done chan struct{}
	err  error
	pan  interface{}
}

func c35Start(f func() error) *c35Running {
	r := &c35Running{done: make(chan struct{})}
	go func() {
		defer close(r.done)
		defer func() { r.pan = recover() }()
		r.err = f()
	}()
	return r
}

func (r *c35Running) over() bool {
	select {
	case <-r.done:
		return true
	default:
		return false
	}
}

// c35Until waits for cond.
func c35Until(d time.Duration, cond func() bool) bool {
	for t := time.Now(); time.Since(t) < d; {
		if cond() {
			return true
		}
		time.Sleep(500 * time.Microsecond)
	}
	return cond()
}

func c35Stop(port int) {
	for _, s := range listening() {
		if s.port == port {
			syscall.Shutdown(s.fd, syscall.SHUT_RDWR)
		}
	}
}

type c35Ask struct{ method, target, body string }

var c35Asks = []c35Ask{
	{"GET", "/a?q=1", ""}, {"GET", "/p/7/x/y", ""}, {"POST", "/echo", "hello"}, {"GET", "/none", ""}, {"PUT", "/a", "x"}, {"HEAD", "/a", ""}, {"GET", "/a", ""},
	{"POST", "/echo", strings.Repeat("0123456789", 20000)}, {"TRACE", "/a", ""}, {"GET", "/a?q=" + strings.Repeat("q", 300000), ""}, {"GET", "/p/%41/", ""},
}

// c35Direct is the engine's own answer, by a server of our own.
func c35Direct(e *water.Engine, a c35Ask) RealResp {
	return ServeReal(e, a.method, RawReq(a.method, a.target, nil, a.body))
}

// c35Via sends the request over the connection.
func c35Via(con net.Conn, br *bufio.Reader, a c35Ask) RealResp {
	con.SetDeadline(time.Now().Add(20 * time.Second))
	werr := make(chan error, 1)
	go func() { _, err := io.WriteString(con, RawReq(a.method, a.target, nil, a.body)); werr <- err }()
	resp, err := http.ReadResponse(br, &http.Request{Method: a.method})
	if err != nil {
		con.Close()
		<-werr
		return RealResp{Err: err}
	}
	b, err := io.ReadAll(resp.Body)
	<-werr
	return RealResp{resp.StatusCode, resp.Header, string(b), err}
}

func c35Str(r RealResp) string {
	if r.Err != nil {
		return "error " + r.Err.Error()
	}
	h := r.Header.Clone()
	h.Del("Date")
	return fmt.Sprintf("%d %s %q", r.Status, hdr(h), clip(r.Body, 60)) + fmt.Sprint(len(r.Body))
}

var c35Entry = []string{"Run", "ListenAndServe", "RunTLS", "ListenAndServeTLS"}

func c35Call(e *water.Engine, entry int, addr, cert, key string) func() error {
	switch entry {
	case 0:
		return func() error { return e.Run(addr) }
	case 1:
		return func() error { return e.ListenAndServe(addr) }
	case 2:
		return func() error { return e.RunTLS(addr, cert, key) }
	}
	return func() error { return e.ListenAndServeTLS(addr, cert, key) }
}

type c35Addr struct {
	f    string // %d: the port
	dial string
	ips  []string // where it may be bound ("": every interface)
	bad  bool
}

var c35Addrs = []c35Addr{
	{":%d", "127.0.0.1", []string{""}, false},
	{"127.0.0.1:%d", "127.0.0.1", []string{"127.0.0.1"}, false},
	{"127.0.0.2:%d", "127.0.0.2", []string{"127.0.0.2"}, false},
	{"localhost:%d", "localhost", []string{"127.0.0.1", "::1"}, false},
	{"[::1]:%d", "::1", []string{"::1"}, false},
	{"0.0.0.0:%d", "127.0.0.1", []string{""}, false},
	{"%d", "", nil, true},
	{"127.0.0.1", "", nil, true},
	{"127.0.0.1:9%d9", "", nil, true},
	{"127.0.0.1:%d:1", "", nil, true},
	{"127.0.0.1:-%d", "", nil, true},
	{"203.0.113.7:%d", "", nil, true},
	{"http://127.0.0.1:%d", "", nil, true},
	{"[::1:%d", "", nil, true},
}

func c35BoundOK(a c35Addr, ip net.IP) bool {
	for _, w := range a.ips {
		if w == "" && ip.IsUnspecified() || w != "" && ip.Equal(net.ParseIP(w)) {
			return true
		}
	}
	return false
}

// c35Serve: one engine, one entry point, one address, one set of files.
func c35Serve(c *C) {
	entry := c.Choose(4)
	ai := c.Choose(len(c35Addrs))
	a := c35Addrs[ai]
	occupied := c.Bool()
	cs := c35Certs()
	cert, key, leaf := "", "", []byte(nil)
	fine := !a.bad && !occupied
	files := ""
	if entry >= 2 {
		dir := filepath.Dir(cs[0].cert)
		switch k := c.Choose(9); k {
		case 0, 1:
			cert, key, leaf = cs[k].cert, cs[k].key, cs[k].leaf
		case 2:
			cert, key = cs[0].cert, cs[1].key
		case 3:
			cert, key = cs[0].key, cs[0].cert
		case 4:
			cert, key = filepath.Join(dir, "missing"), cs[0].key
		case 5:
			cert, key = cs[0].cert, filepath.Join(dir, "missing")
		case 6:
			cert, key = filepath.Join(dir, "junk"), cs[0].key
		case 7:
			cert, key = cs[0].cert, filepath.Join(dir, "junk")
		case 8:
		}
		fine = fine && leaf != nil
		files = fmt.Sprintf(" (%q, %q)", filepath.Base(cert), filepath.Base(key))
	}
	if strings.Contains(a.f, "::1") && !c35V6() {
		return
	}
	if occupied && a.bad {
		return
	}
	var served int64
	wait := make(chan struct{})
	e := c35Engine("e", &served, wait)
	for try := 0; ; try++ {
		port := freePort()
		addr := a.f
		if strings.Contains(a.f, "%d") {
			addr = fmt.Sprintf(a.f, port)
		}
		desc := fmt.Sprintf("%s(%q)%s, port taken %v", c35Entry[entry], a.f, files, occupied)
		var other net.Listener
		if occupied {
			var err error
			if other, err = net.Listen("tcp", addr); err != nil {
				if try < 20 {
					continue
				}
				return
			}
		}
		before := len(listening())
		r := c35Start(c35Call(e, entry, addr, cert, key))
		c.Step()
		if !fine {
			// refused: an error, soon, and nothing left listening
			if !c35Until(20*time.Second, r.over) {
				c35Stop(port)
				c.Failf("refuse", "%s does not return an error", desc)
			} else if r.pan != nil || r.err == nil {
				c.Failf("refuse", "%s: panic %v, error %v, expected an error", desc, r.pan, r.err)
			}
			if n := len(listening()); n != before && !c.Failed() {
				c.Failf("refuse", "%s: %d sockets are listening, %d before", desc, n, before)
			}
			if other != nil {
				other.Close()
			}
			c.State(desc)
			return
		}
		up := c35Until(20*time.Second, func() bool { return r.over() || portSock(port) != nil })
		if r.over() || !up {
			if r.pan == nil && r.err != nil && try < 8 && strings.Contains(r.err.Error(), "in use") {
				continue // somebody else took the port
			}
			c.Failf("serve", "%s: over %v, panic %v, error %v, expected to serve", desc, r.over(), r.pan, r.err)
			return
		}
		func() {
			s := portSock(port)
			if !c35BoundOK(a, s.ip) {
				c.Failf("bound", "%s listens on %v", desc, s.ip)
				return
			}
			if n := len(listening()); n != before+1 {
				c.Failf("bound", "%s: %d sockets are listening, %d before", desc, n, before)
				return
			}
			dial := func() (net.Conn, error) {
				con, err := net.DialTimeout("tcp", net.JoinHostPort(a.dial, strconv.Itoa(port)), 20*time.Second)
				if err != nil || entry < 2 {
					return con, err
				}
				t := tls.Client(con, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}})
				t.SetDeadline(time.Now().Add(20 * time.Second))
				if err := t.Handshake(); err != nil {
					con.Close()
					return nil, err
				}
				if got := t.ConnectionState().PeerCertificates[0].Raw; !bytes.Equal(got, leaf) {
					con.Close()
					return nil, fmt.Errorf("another certificate is presented")
				}
				return t, nil
			}
			con, err := dial()
			if err != nil {
				c.Failf("serve", "%s: cannot connect: %v", desc, err)
				return
			}
			defer func() { con.Close() }()
			br := bufio.NewReader(con)
			// one connection, every request; the last one from a second connection while the first is held up
			for i, q := range c35Asks {
				want, got := c35Str(c35Direct(e, q)), c35Str(c35Via(con, br, q))
				c.Step()
				if got != want {
					c.Failf("answer", "%s: request %d (%s %s) is answered %s, by the engine itself %s", desc, i, q.method, q.target, got, want)
					return
				}
			}
			held := make(chan RealResp, 1)
			go func() { held <- c35Via(con, br, c35Ask{"GET", "/wait", ""}) }()
			con2, err := dial()
			if err != nil {
				close(wait)
				<-held
				c.Failf("serve", "%s: cannot connect a second time: %v", desc, err)
				return
			}
			q := c35Asks[0]
			want := c35Str(c35Direct(e, q))
			got := c35Str(c35Via(con2, bufio.NewReader(con2), q))
			con2.Close()
			close(wait)
			if h := <-held; got != want || h.Body != "e waited" {
				c.Failf("answer", "%s: while another request is being served: %s, expected %s; the other: %s", desc, got, want, c35Str(h))
				return
			}
			c.Steps(2)
			if entry >= 2 {
				// HTTP/2, and plain HTTP sent to the TLS port
				tr := &http.Transport{ForceAttemptHTTP2: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}
				for _, q := range c35Asks[:4] {
					want := c35Direct(e, q)
					rq, _ := http.NewRequest(q.method, fmt.Sprintf("https://%s%s", net.JoinHostPort(a.dial, strconv.Itoa(port)), q.target), strings.NewReader(q.body))
					resp, err := tr.RoundTrip(rq)
					c.Step()
					if err != nil {
						c.Failf("h2", "%s: %s %s over the Go client: %v", desc, q.method, q.target, err)
						break
					}
					b, _ := io.ReadAll(resp.Body)
					resp.Body.Close()
					if resp.StatusCode != want.Status || string(b) != want.Body || resp.Header.Get("X-Mw") != want.Header.Get("X-Mw") {
						c.Failf("h2", "%s: %s %s over the Go client (%s): %d %q, expected %d %q", desc, q.method, q.target, resp.Proto, resp.StatusCode, clip(string(b), 60), want.Status, clip(want.Body, 60))
						break
					}
				}
				tr.CloseIdleConnections()
				n := atomic.LoadInt64(&served)
				if con, err := net.DialTimeout("tcp", net.JoinHostPort(a.dial, strconv.Itoa(port)), 20*time.Second); err == nil {
					c35Via(con, bufio.NewReader(con), c35Asks[0])
					con.Close()
				}
				if atomic.LoadInt64(&served) != n {
					c.Failf("plain", "%s: a request without TLS reaches the handlers", desc)
				}
				c.Step()
			}
			if r.over() {
				c.Failf("serve", "%s returns (panic %v, error %v) while serving", desc, r.pan, r.err)
			}
		}()
		c35Stop(port)
		if !c35Until(20*time.Second, r.over) {
			c.Failf("end", "%s does not return when its socket is gone", desc)
		} else if !c.Failed() && (r.pan != nil || r.err == nil) {
			c.Failf("end", "%s: panic %v, error %v when its socket is gone, expected an error", desc, r.pan, r.err)
		}
		c.State(desc)
		return
	}
}

// c35Default: Run without an address, and with several.
func c35Default(c *C) {
	// nothing of this is documented to matter
	for _, k := range []string{"PORT", "HTTP_PORT", "SERVER_PORT", "WATER_PORT", "APP_PORT", "LISTEN_PORT"} {
		os.Setenv(k, strconv.Itoa(freePort()))
		defer os.Unsetenv(k)
	}
	for _, k := range []string{"ADDR", "ADDRESS", "LISTEN", "LISTEN_ADDR", "WATER_ADDR", "HTTP_ADDR", "BIND", "SERVER_ADDR"} {
		os.Setenv(k, "127.0.0.1:"+strconv.Itoa(freePort()))
		defer os.Unsetenv(k)
	}
	for _, k := range []string{"HOST", "WATER_HOST", "SERVER_HOST"} {
		os.Setenv(k, "127.0.0.1")
		defer os.Unsetenv(k)
	}
	var served int64
	e := c35Engine("e", &served, nil)
	n := c.Choose(5)
	if n >= 2 {
		// several addresses: refused, nothing listens
		var addrs []string
		for i := 0; i < n; i++ {
			addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", freePort()))
		}
		before := len(listening())
		r := c35Start(func() error { return e.Run(addrs...) })
		c.Step()
		if !c35Until(3*time.Second, r.over) {
			for _, s := range listening() {
				for _, a := range addrs {
					if strings.HasSuffix(a, ":"+strconv.Itoa(s.port)) {
						syscall.Shutdown(s.fd, syscall.SHUT_RDWR)
					}
				}
			}
			c.Failf("many", "Run with %d addresses serves", n)
		} else if r.pan == nil && r.err == nil {
			c.Failf("many", "Run with %d addresses neither panics nor fails", n)
		} else if len(listening()) != before {
			c.Failf("many", "Run with %d addresses leaves a socket listening", n)
		}
		c.State(fmt.Sprint(n))
		return
	}
	taken := n == 1 // the default port is taken
	l, err := net.Listen("tcp", ":8080")
	if err != nil {
		taken = true // by somebody else
	} else if !taken {
		l.Close()
	} else {
		defer l.Close()
	}
	r := c35Start(func() error { return e.Run() })
	c.Step()
	if taken {
		if !c35Until(20*time.Second, r.over) || r.pan != nil || r.err == nil {
			c35Stop(8080)
			c.Failf("default", "Run() with port 8080 taken: over %v, panic %v, error %v, expected an error", r.over(), r.pan, r.err)
		}
		c.State("taken")
		return
	}
	if !c35Until(20*time.Second, func() bool { return r.over() || portSock(8080) != nil }) || r.over() {
		if r.over() && r.pan == nil && r.err != nil && strings.Contains(r.err.Error(), "in use") {
			return // taken by somebody else in between
		}
		c.Failf("default", "Run(): over %v, panic %v, error %v, expected to serve on :8080", r.over(), r.pan, r.err)
		return
	}
	if s := portSock(8080); s != nil && !s.ip.IsUnspecified() {
		c.Failf("default", "Run() listens on %v only", s.ip)
	}
	con, err := net.DialTimeout("tcp", "127.0.0.1:8080", 20*time.Second)
	if err != nil {
		c.Failf("default", "Run(): cannot connect: %v", err)
	} else {
		got, want := c35Str(c35Via(con, bufio.NewReader(con), c35Asks[0])), c35Str(c35Direct(e, c35Asks[0]))
		con.Close()
		if got != want {
			c.Failf("default", "Run() answers %s, expected %s", got, want)
		}
	}
	c35Stop(8080)
	c35Until(20*time.Second, r.over)
	c.State("default")
}

// c35History: every sequence of n of {engine i listens on port j, the socket of port j goes away}.
func c35History(n int) Body {
	return func(c *C) {
		var served int64
		es := []*water.Engine{c35Engine("e0", &served, nil), c35Engine("e1", &served, nil)}
		ports := []int{freePort(), freePort()}
		cur := []int{-1, -1} // the engine serving each port
		run := make([]*c35Running, 2)
		ops := ""
		defer func() {
			for j, p := range ports {
				if run[j] != nil {
					c35Stop(p)
					c35Until(20*time.Second, run[j].over)
				}
			}
		}()
		for i := 0; i < n; i++ {
			k := c.Choose(6)
			if k < 4 {
				e, j := k/2, k%2
				ops += fmt.Sprintf("; engine %d on port %d", e, j)
				addr := fmt.Sprintf("127.0.0.1:%d", ports[j])
				r := c35Start(c35Call(es[e], e, addr, "", ""))
				if cur[j] >= 0 {
					if !c35Until(20*time.Second, r.over) || r.err == nil || r.pan != nil {
						c.Failf("history", "%s: over %v, panic %v, error %v, expected an error", ops, r.over(), r.pan, r.err)
						return
					}
				} else {
					if !c35Until(20*time.Second, func() bool { return r.over() || portSock(ports[j]) != nil }) || r.over() {
						if r.over() && r.pan == nil && r.err != nil && strings.Contains(r.err.Error(), "in use") {
							c.State("taken by somebody else")
							return
						}
						c.Failf("history", "%s: over %v, panic %v, error %v, expected to serve", ops, r.over(), r.pan, r.err)
						return
					}
					cur[j], run[j] = e, r
				}
			} else {
				j := k - 4
				if cur[j] < 0 {
					c.Prune()
				}
				ops += fmt.Sprintf("; port %d goes away", j)
				c35Stop(ports[j])
				if !c35Until(20*time.Second, run[j].over) || run[j].err == nil || run[j].pan != nil {
					c.Failf("history", "%s: over %v, panic %v, error %v, expected an error", ops, run[j].over(), run[j].pan, run[j].err)
					return
				}
				cur[j], run[j] = -1, nil
			}
			for j, p := range ports {
				con, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), 20*time.Second)
				c.Step()
				if cur[j] < 0 {
					if err == nil {
						con.Close()
						c.Failf("history", "%s: port %d accepts connections", ops, j)
						return
					}
					continue
				}
				if err != nil {
					c.Failf("history", "%s: port %d: %v", ops, j, err)
					return
				}
				got, want := c35Str(c35Via(con, bufio.NewReader(con), c35Asks[0])), c35Str(c35Direct(es[cur[j]], c35Asks[0]))
				con.Close()
				if got != want {
					c.Failf("history", "%s: port %d answers %s, expected %s", ops, j, got, want)
					return
				}
			}
			c.State(fmt.Sprint(cur))
		}
	}
}

func init() {
	register(&Prop{ID: "C35", Scopes: []Scope{
		{Name: "serve", Desc: "4 entry points x 14 addresses (6 servable, 8 not) x port free or taken x 9 pairs of certificate and key files; 11 requests on one connection, one beside a held-up one, HTTP/2, plain HTTP to a TLS port; the socket lost", Body: c35Serve, Single: true},
		{Name: "default", Desc: "Run without an address (default port free or taken) and with 2 to 4 addresses", Body: c35Default, Single: true},
		{Name: "history", Desc: "every sequence of 4 of {one of 2 engines listens on one of 2 ports, a port's socket goes away}; every port asked after each", Body: c35History(4), Single: true},
		{Name: "history-6", Desc: "every sequence of 6", Body: c35History(6), Single: true, Thorough: true},
	}, Assumptions: []string{"ports found free stay free, or the attempt is repeated with others; an occupied default port makes Run() an expected failure"}})
}
