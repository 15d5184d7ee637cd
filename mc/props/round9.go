package props

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// ---- Requests with what clients and proxies send along
//
// Apart from what a guarantee names, nothing a request carries decides anything: every kind of
// request is answered alike with and without every conventional header and trait.

type dress struct {
	header string // canonical, or a trait in lower case
	desc   string
	do     func(r *http.Request)
}

var dressHeaders = []string{
	"Accept=text/html", "Accept=text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", "Accept=application/json", "Accept=application/json, text/plain, */*", "Accept=application/xml", "Accept=text/plain", "Accept=text/event-stream", "Accept=image/webp", "Accept=*/*;q=0", "Accept=",
	"Accept-Encoding=gzip, deflate, br", "Accept-Encoding=identity;q=0", "Accept-Encoding=gzip", "Accept-Charset=iso-8859-1", "Accept-Language=de", "Accept-Language=zh-CN,zh;q=0.9", "Accept-Datetime=Thu, 31 May 2007 20:35:00 GMT", "A-Im=feed",
	"Authorization=Basic dTpw", "Authorization=Bearer x", "Proxy-Authorization=Basic dTpw", "Proxy-Connection=keep-alive",
	"X-Http-Method-Override=DELETE", "X-Http-Method-Override=GET", "X-Http-Method-Override=PUT", "X-Http-Method=PUT", "X-Http-Method=DELETE", "X-Method-Override=PATCH", "X-Method-Override=GET",
	"X-Original-Url=/admin", "X-Original-Uri=/admin", "X-Rewrite-Url=/a", "X-Original-Method=GET", "X-Forwarded-Uri=/a", "X-Forwarded-Method=POST", "X-Forwarded-Prefix=/p", "X-Forwarded-Path=/q", "X-Script-Name=/p", "X-Original-Host=h", "X-Host=h",
	"X-Forwarded-For=9.9.9.9", "X-Forwarded-For=127.0.0.1", "X-Forwarded-Host=evil.example", "X-Forwarded-Proto=https", "X-Forwarded-Port=443", "X-Forwarded-Ssl=on", "Front-End-Https=on", "X-Forwarded-Scheme=https", "Forwarded=for=9.9.9.9;proto=https;host=h", "Via=1.1 proxy", "X-Real-Ip=9.9.9.9", "X-Client-Ip=9.9.9.9", "True-Client-Ip=9.9.9.9", "Cf-Connecting-Ip=9.9.9.9", "Cf-Ipcountry=XX", "X-Cluster-Client-Ip=9.9.9.9", "Fastly-Client-Ip=9.9.9.9", "Max-Forwards=0", "Max-Forwards=10",
	"User-Agent=curl/8.0", "User-Agent=Mozilla/5.0 (compatible; MSIE 6.0)", "User-Agent=Googlebot/2.1", "User-Agent=kube-probe/1.20", "User-Agent=Go-http-client/1.1", "User-Agent=ELB-HealthChecker/2.0", "User-Agent=", "From=a@b.c",
	"Referer=http://example.com/", "Referer=http://other.example/", "Origin=http://other.example", "Origin=null", "Access-Control-Request-Method=PUT", "Access-Control-Request-Headers=X-A", "Access-Control-Request-Private-Network=true", "Sec-Fetch-Mode=cors", "Sec-Fetch-Site=cross-site", "Sec-Fetch-Dest=script", "Sec-Ch-Ua=x", "Sec-Purpose=prefetch", "Purpose=prefetch", "X-Moz=prefetch", "X-Purpose=preview", "Dnt=1", "Sec-Gpc=1", "Save-Data=on", "Downlink=1", "Dpr=2", "Upgrade-Insecure-Requests=1",
	"Cookie=session=1; a=b", "Cookie=$Version=1; a=b", "Cookie2=$Version=1",
	"Connection=close", "Connection=keep-alive", "Connection=Upgrade", "Keep-Alive=timeout=5", "Upgrade=websocket", "Upgrade=h2c", "Http2-Settings=AAMAAABkAAQAAP__", "Sec-Websocket-Key=dGhlIHNhbXBsZSBub25jZQ==", "Sec-Websocket-Version=13", "Te=trailers", "Trailer=X-T", "Transfer-Encoding=chunked", "Expect=100-continue", "Priority=u=1",
	"Cache-Control=no-cache", "Cache-Control=no-store", "Cache-Control=max-age=0", "Cache-Control=only-if-cached", "Pragma=no-cache",
	"Content-Type=text/plain", "Content-Type=application/json", "Content-Type=application/grpc", "Content-Encoding=gzip", "Content-Language=en", "Content-Length=0", "Content-Length=5", "Content-Location=/x", "Content-Md5=x", "Content-Disposition=inline", "Content-Transfer-Encoding=base64", "Content-Range=bytes 0-1/2", "Destination=/x", "Depth=1", "Overwrite=F", "Lock-Token=<x>", "Prefer=return=minimal", "Prefer=respond-async",
	"X-Requested-With=XMLHttpRequest", "X-Csrf-Token=x", "X-Xsrf-Token=x", "X-Request-Id=r1", "X-Correlation-Id=c1", "Trace-Id=t1", "X-Trace-Id=t2", "Traceparent=00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "X-B3-Traceid=80f198ee56343ba8", "Uber-Trace-Id=1:2:3:1", "X-Amzn-Trace-Id=Root=1", "X-Cloud-Trace-Context=1/2;o=1",
	"X-Api-Version=2", "Api-Version=2", "Accept-Version=2", "X-Version=1", "X-Tenant=t", "X-Api-Key=k", "X-Debug=1", "X-Debug-Token=1", "X-Test=1", "X-Internal=1", "X-Admin=1", "X-Health-Check=1", "X-Pjax=true", "Hx-Request=true", "X-Inertia=true", "X-Livewire=1", "Turbo-Frame=f", "X-Accel-Redirect=/x", "X-Sendfile=/etc/hosts", "X-Sendfile-Type=X-Accel-Redirect", "X-Frame-Options=DENY", "Idempotency-Key=k", "X-Idempotency-Key=k", "X-Att-Deviceid=x", "X-Wap-Profile=x", "X-Uidh=x", "Warning=199", "Digest=x", "Want-Digest=sha-256", "Signature=x", "Date=Thu, 31 May 2007 20:35:00 GMT", "Early-Data=1", "Host=inner.example", "Alt-Used=h", "Tk=N", "Timeout=5", "Grpc-Timeout=1S", "X-Timeout=1", "X-Forwarded-Client-Cert=x", "Ssl-Client-Verify=NONE", "X-Scheme=https", "X-Url-Scheme=https",
}

var dressTraits = []dress{
	{"host", "no host", func(r *http.Request) { r.Host = "" }},
	{"host", "another host", func(r *http.Request) { r.Host = "admin.example.org" }},
	{"host", "a host with port", func(r *http.Request) { r.Host = "localhost:8080" }},
	{"host", "a host in capitals", func(r *http.Request) { r.Host = "EXAMPLE.COM" }},
	{"host", "an address as host", func(r *http.Request) { r.Host = "[::1]:80" }},
	{"url-host", "an absolute form", func(r *http.Request) {
		r.URL.Scheme, r.URL.Host = "http", "example.com"
		r.RequestURI = "http://example.com" + r.RequestURI
	}},
	{"remote", "from this machine", func(r *http.Request) { r.RemoteAddr = "127.0.0.1:5" }},
	{"remote", "from IPv6", func(r *http.Request) { r.RemoteAddr = "[2001:db8::1]:5" }},
	{"remote", "from nowhere", func(r *http.Request) { r.RemoteAddr = "" }},
	{"remote", "from a socket", func(r *http.Request) { r.RemoteAddr = "@" }},
	{"tls", "over TLS", func(r *http.Request) {
		r.TLS = &tls.ConnectionState{HandshakeComplete: true, ServerName: "example.com"}
	}},
	{"proto", "HTTP/2", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0 }},
	{"proto", "HTTP/3", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/3.0", 3, 0 }},
	{"proto", "HTTP/1.2", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.2", 1, 2 }},
	{"close", "to be closed", func(r *http.Request) { r.Close = true }},
	{"user", "with userinfo", func(r *http.Request) { r.URL.User = url.UserPassword("u", "p") }},
	{"fragment", "with a fragment", func(r *http.Request) { r.URL.Fragment = "top" }},
	{"rawpath", "with an encoding of its own", func(r *http.Request) {
		s := ""
		for i := 0; i < len(r.URL.Path); i++ {
			if b := r.URL.Path[i]; b == '/' {
				s += "/"
			} else {
				s += fmt.Sprintf("%%%02X", b)
			}
		}
		r.URL.RawPath = s
	}},
	{"uri", "no request URI", func(r *http.Request) { r.RequestURI = "" }},
	{"forcequery", "a bare ?", func(r *http.Request) { r.URL.ForceQuery = true }},
	{"query", "a query", func(r *http.Request) {
		r.URL.RawQuery = strings.TrimPrefix(r.URL.RawQuery+"&_method=DELETE&debug=1&format=json&callback=f&v=2&pretty", "&")
	}},
	{"chunked", "chunked", func(r *http.Request) { r.TransferEncoding = []string{"chunked"}; r.ContentLength = -1 }},
	{"context", "a context of its own", func(r *http.Request) { *r = *r.WithContext(context.WithValue(context.Background(), "k", 1)) }},
	{"context", "canceled", func(r *http.Request) {
		x, f := context.WithCancel(context.Background())
		f()
		*r = *r.WithContext(x)
	}},
	{"trailer", "trailers", func(r *http.Request) { r.Trailer = http.Header{"X-T": nil} }},
	{"many", "200 headers", func(r *http.Request) {
		for i := 0; i < 200; i++ {
			r.Header.Add(fmt.Sprintf("X-Many-%d", i), strings.Repeat("v", i))
		}
	}},
	{"many", "a large header", func(r *http.Request) { r.Header.Add("X-Large", strings.Repeat("v", 100000)) }},
	{"lower", "keys not canonical", func(r *http.Request) {
		r.Header["x-lower"] = []string{"1"}
		r.Header["connection"] = []string{"upgrade"}
	}},
	{"novalue", "a header without values", func(r *http.Request) { r.Header["X-None"] = nil }},
}

// dresses leaves out the headers and traits that matter here.
func dresses(but ...string) (out []dress) {
	skip := map[string]bool{}
	for _, b := range but {
		skip[b] = true
	}
	for _, kv := range dressHeaders {
		k, v := kv[:strings.IndexByte(kv, '=')], kv[strings.IndexByte(kv, '=')+1:]
		if !skip[k] {
			out = append(out, dress{k, kv, func(r *http.Request) { r.Header.Set(k, v) }})
		}
	}
	for _, d := range dressTraits {
		if !skip[d.header] {
			out = append(out, d)
		}
	}
	return
}

// dressed: each of the requests, with each dress (and pairs of unrelated ones when two is
// set), is answered like the plain one.
func dressed(build func(c *C) (http.Handler, string), reqs func(i int) (*http.Request, string), n int, two bool, but ...string) Body {
	ds := dresses(but...)
	return func(c *C) {
		e, lay := build(c)
		i := c.Choose(n)
		a, desc := reqs(i)
		want := outcomeOf(e, a)
		for k, d := range ds {
			q, _ := reqs(i)
			d.do(q)
			what := d.desc
			if two {
				o := ds[(k*7+13)%len(ds)]
				if o.header == d.header {
					o = ds[(k+1)%len(ds)]
				}
				o.do(q)
				what += " and " + o.desc
			}
			got := outcomeOf(e, q)
			c.Step()
			if got != want {
				c.Failf("dressed", "%s: %s, with %s, is answered\n %s\nwithout\n %s", lay, desc, what, clip(got, 700), clip(want, 700))
				return
			}
		}
		c.State(fmt.Sprint(lay, i, two))
	}
}

// the routing layouts: every kind of segment, and what is said when nothing matches
func dressRouting(c *C) (http.Handler, string) {
	static, nf, before := c.Bool(), c.Choose(3), c.Bool()
	water.Status = water.Stable
	r := water.NewRouter()
	if before {
		r.Before(func(ctx *water.Context) { ctx.Header().Set("X-Before", ctx.FullPath()); ctx.Next() })
	}
	h := func(tag string) func(ctx *water.Context) {
		return func(ctx *water.Context) {
			ctx.String(200+len(tag), fmt.Sprint(tag, " ", ctx.Request.Method, " ", ctx.FullPath(), " ", mapStr(ctx.Params), " ", ctx.Written(), len(ctx.Environ)))
		}
	}
	for _, p := range []string{"/", "/a", "/a/b", "/<n ~ [0-9]+>", "/:x/c", "/g/*", "/g/*rest", "/a.html", "/admin", "/<k,v ~ ^([a-z]+)-([a-z]+)$>/d"} {
		quiet(func() { r.GET(p, h("g"+p)) })
	}
	r.POST("/a", h("p"))
	r.PUT("/a", h("u"), h("never"))
	r.PATCH("/:x", h("pp"))
	r.DELETE("/a", h("d"))
	r.HEAD("/a", h("h"))
	r.OPTIONS("/a", h("o"))
	g := r.Group("/grp")
	g.Use(func(ctx *water.Context) { ctx.Header().Add("X-Mw", "1"); ctx.Next(); ctx.Header().Add("X-Mw", "2") })
	g.GET("/:id", h("gg"))
	g.POST("/:id", func(ctx *water.Context) {})
	g.ANY("/any", h("any"))
	opts := []water.Option{water.WithStaticRouter(static)}
	switch nf {
	case 1:
		opts = append(opts, water.WithNoFoundHandlers(h("nf")))
	case 2:
		opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) { ctx.Next() }, func(ctx *water.Context) {}))
	}
	return r.Handler(opts...), fmt.Sprintf("static %v, nofound %d, before %v", static, nf, before)
}

var dressPaths = []string{"/", "/a", "/a/b", "/12", "/q/c", "/g/x/y", "/g", "/a.html", "/admin", "/k-v/d", "/none/at/all", "/a/", "/x", "/grp/7", "/grp/any", "/grp", "*"}
var dressMethods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "get", "PROPFIND", "CONNECT", ""}

func dressRoutingReq(i int) (*http.Request, string) {
	m, p := dressMethods[i%len(dressMethods)], dressPaths[i/len(dressMethods)]
	if p == "*" {
		q := Req(m, "*")
		q.URL.Path = "*"
		return q, m + " *"
	}
	return Req(m, p), m + " " + p
}

// the requests of a property's histories
func dressKinds(kinds []hk, mount func(r *water.Router)) (func(c *C) (http.Handler, string), func(i int) (*http.Request, string), int) {
	build := func(c *C) (http.Handler, string) {
		static := c.Bool()
		water.Status = water.Stable
		r := water.NewRouter()
		if mount != nil {
			mount(r)
		}
		for i, k := range kinds {
			k := k
			if k.path != "" {
				continue
			}
			m := k.method
			if m == "" {
				m = "GET"
			}
			regMethod(r, m, fmt.Sprintf("/h%d/:tag", i), func(ctx *water.Context) {
				s := k.do(ctx, ctx.Param("tag"))
				ctx.Header().Add("X-Saw", s)
				if !ctx.Written() {
					ctx.Write([]byte(s))
				}
			})
		}
		return r.Handler(water.WithStaticRouter(static)), fmt.Sprint("static ", static)
	}
	reqs := func(i int) (*http.Request, string) {
		k := kinds[i]
		m := k.method
		if m == "" {
			m = "GET"
		}
		req := Req(m, fmt.Sprintf("/h%d/%s", i, "tt"))
		if k.path != "" {
			req = Req(m, strings.ReplaceAll(k.path, "@", "tt"))
		}
		if k.req != nil {
			k.req(req, "tt")
		}
		return req, k.name
	}
	return build, reqs, len(kinds)
}

func init() {
	routing := func(id string, but ...string) {
		n := len(dressMethods) * len(dressPaths)
		addScopes(id, Scope{Name: "dressed", Desc: fmt.Sprintf("12 layouts (static on/off, not-found handlers, before) x %d methods x %d paths x %d conventional headers and traits of a request: answered as without", len(dressMethods), len(dressPaths), len(dresses(but...))), Body: dressed(dressRouting, dressRoutingReq, n, false, but...), Split: 4},
			Scope{Name: "dressed-two", Desc: "the same with two at a time", Body: dressed(dressRouting, dressRoutingReq, n, true, but...), Split: 4, Thorough: true})
	}
	// uri: "*" as the request URI is a case of its own
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14"} {
		routing(id, "url-host", "uri")
	}
	kinds := func(id string, ks []hk, mount func(r *water.Router), but ...string) {
		b, q, n := dressKinds(ks, mount)
		addScopes(id, Scope{Name: "dressed-kinds", Desc: fmt.Sprintf("%d kinds of requests of the histories x %d conventional headers and traits of a request, static on/off: answered as without", n, len(dresses(but...))), Body: dressed(b, q, n, false, but...), Split: 2},
			Scope{Name: "dressed-kinds-two", Desc: "the same with two at a time", Body: dressed(b, q, n, true, but...), Split: 2, Thorough: true})
	}
	body := []string{"Content-Type", "query", "uri"}
	kinds("C10", hk10, hkChains)
	kinds("C11", hk11, nil)
	kinds("C12", hk12, nil)
	kinds("C18", hkFiles, hkFilesMount)
	kinds("C19", hkFiles, hkFilesMount)
	kinds("C20", hk20, nil, body...)
	kinds("C21", hk21, nil, body...)
	kinds("C22", hk22, nil, "Content-Type", "X-Real-Ip", "X-Forwarded-For", "X-Forwarded-Proto", "User-Agent", "X-Requested-With", "Connection", "Upgrade", "remote", "tls", "lower")
	kinds("C23", hk23, nil, "Cookie")
	kinds("C25", hk25, nil, body...)
	kinds("C26", hk27, nil, body...)
	kinds("C27", hk27, nil, body...)
	kinds("C28", hk27, nil, body...)
	kinds("C29", hk27, nil, body...)
	kinds("C30", hk27, nil, body...)
	kinds("C31", hk31, nil, body...)
	kinds("C32", hk32, nil)
}
