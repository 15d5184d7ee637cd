package props

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

func c22Run(c *C, set func(req *http.Request), method string, check func(ctx *water.Context) string, desc string) {
	r := water.NewRouter()
	bad, ran := "", 0
	h := func(ctx *water.Context) {
		for i := 0; i < 2 && bad == ""; i++ {
			bad = check(ctx)
			ran++
		}
	}
	r.ANY("/p", h)
	req := Req(method, "/p")
	set(req)
	_, p := Serve(r.Handler(), req)
	c.Step()
	switch {
	case p != nil:
		c.Failf("panic", "%s: %v", desc, p)
	case ran == 0:
		c.Failf("none", "%s: the handler did not run", desc)
	case bad != "":
		c.Failf("value", "%s: %s", desc, bad)
	}
	c.State(desc)
}

func entries(lists []string) []string {
	var o []string
	for _, l := range lists {
		for _, e := range strings.Split(l, ",") {
			if e = strings.Trim(e, " \t"); e != "" {
				o = append(o, e)
			}
		}
	}
	return o
}

func noEmpty(l []string) []string {
	var o []string
	for _, e := range l {
		if e != "" {
			o = append(o, e)
		}
	}
	return o
}

// c22Addr: all lists built from entries and separators, with the other address sources.
func c22Addr(max int) Body {
	return func(c *C) {
		real := Pick(c, "", "203.0.113.7", "2001:db8::7", "host:80", "[2001:db8::8]:443", "203.0.113.7, 203.0.113.8", "unknown")
		remote := Pick(c, "192.0.2.1:1234", "[2001:db8::1]:80", "127.0.0.1:0", "10.0.0.1:65535", "[fe80::1%eth0]:123", "[::ffff:192.0.2.9]:5", "[::1]:8080")
		es := Seq(c, max, []string{"198.51.100.1", "2001:db8::2", "unknown", "10.1.1.1:4711"})
		list := ""
		for i, e := range es {
			if i > 0 {
				list += Pick(c, ", ", ",", " , ", ",  ", ",\t")
			}
			list += e
		}
		var lists []string
		if len(es) > 0 {
			lists = append(lists, list)
			if c.Bool() {
				lists = append(lists, Pick(c, "172.16.0.9", "172.16.0.9,172.16.0.8"))
			}
		}
		method := Pick(c, "GET", "POST")
		wantList := entries(lists)
		host := remote[:strings.LastIndex(remote, ":")]
		want := []string{host, strings.Trim(host, "[]")}
		if len(wantList) > 0 {
			want = wantList[:1]
		}
		if real != "" {
			want = []string{real}
		}
		desc := fmt.Sprintf("X-Real-IP %q, X-Forwarded-For %q, remote %s", real, lists, remote)
		c22Run(c, func(req *http.Request) {
			req.RemoteAddr = remote
			if real != "" {
				req.Header.Set("X-Real-IP", real)
			}
			for _, l := range lists {
				req.Header.Add("X-Forwarded-For", l)
			}
		}, method, func(ctx *water.Context) string {
			ip := ctx.RealIp()
			ok := false
			for _, w := range want {
				ok = ok || w == ip
			}
			if !ok {
				return fmt.Sprintf("RealIp is %q, expected %q", ip, want[0])
			}
			if got := ctx.Proxy(); !sameStrings(noEmpty(got), wantList) {
				return fmt.Sprintf("Proxy is %q, expected %q", got, wantList)
			}
			return ""
		}, desc)
		c.Outcome(fmt.Sprint(real != "", len(wantList)))
	}
}

func c22Meta(c *C) {
	xfp := Pick(c, "", "http", "https", "ftp", "wss", "httpss", "https,http")
	useTLS := c.Bool()
	ajax := Pick(c, "", "XMLHttpRequest", "XMLHttpRequests", "fetch", "1")
	conn := Pick(c, "", "Upgrade", "upgrade", "keep-alive, Upgrade", "UPGRADE,close", "keep-alive", "close", "keep-alive,Upgrade", "a, upgrade, b", "a,upgrade,b", "keep-alive ,\tUpgrade", " upgrade ", "close,UpGrade ", "no-upgrade", "upgraded, close", "keep-alive|Upgrade", "Upgrade|close", "close|x-upgrade")
	up := Pick(c, "", "websocket", "WebSocket", "WEBSOCKET", "h2c", "websockets", "web")
	method := Pick(c, "GET", "POST")
	proto := xfp
	if xfp != "http" && xfp != "https" {
		proto = "http"
		if useTLS {
			proto = "https"
		}
	}
	ws := hasToken(strings.ReplaceAll(conn, "|", ","), "upgrade") && strings.EqualFold(up, "websocket")
	desc := fmt.Sprintf("X-Forwarded-Proto %q tls %v X-Requested-With %q Connection %q Upgrade %q", xfp, useTLS, ajax, conn, up)
	c22Run(c, func(req *http.Request) {
		for k, v := range map[string]string{"X-Forwarded-Proto": xfp, "X-Requested-With": ajax, "Connection": conn, "Upgrade": up} {
			if v != "" {
				if a, b, ok := strings.Cut(v, "|"); ok { // two header lines
					req.Header[k] = []string{a, b}
					continue
				}
				req.Header.Set(k, v)
			}
		}
		if useTLS {
			req.TLS = &tls.ConnectionState{}
		}
	}, method, func(ctx *water.Context) string {
		if got := ctx.Protocol(); got != proto {
			return fmt.Sprintf("Protocol is %q, expected %q", got, proto)
		}
		if got := ctx.IsAjax(); got != (ajax == "XMLHttpRequest") {
			return fmt.Sprintf("IsAjax is %v", got)
		}
		if got := ctx.IsWebsocket(); got != ws {
			return fmt.Sprintf("IsWebsocket is %v, expected %v", got, ws)
		}
		return ""
	}, desc)
	c.Outcome(fmt.Sprint(proto, ws))
}

func c22Headers(c *C) {
	ua := Pick(c, "", "curl/8", "Mozilla/5.0 (X11; Linux) ;,", " x ", "é")
	media := Pick(c, "", "application/json", "text/xml", "multipart/form-data", "application/x-www-form-urlencoded", "Text/Plain", "application/vnd.api+json", "x")
	param := Pick(c, "", ";charset=utf-8", "; charset=utf-8", " ; charset=\"a;b c\"", ";", "; boundary=x; q=1")
	name := Pick(c, "X-Any", "x-any", "X-ANY", "Accept", "user-agent")
	val := Pick(c, "", "v", "a, b", "\u00e9;\"q\"", "  ")
	two := c.Bool()
	desc := fmt.Sprintf("User-Agent %q Content-Type %q %s %q twice %v", ua, media+param, name, val, two)
	canon := http.CanonicalHeaderKey(name)
	c22Run(c, func(req *http.Request) {
		if ua != "" {
			req.Header.Set("User-Agent", ua)
		}
		if media != "" {
			req.Header.Set("Content-Type", media+param)
		}
		if canon != "User-Agent" && val != "" {
			req.Header.Set(name, val)
			if two {
				req.Header.Add(name, "second")
			}
		}
	}, "POST", func(ctx *water.Context) string {
		if got := ctx.UserAgent(); got != ua {
			return fmt.Sprintf("UserAgent is %q", got)
		}
		if got := ctx.ContentType(); got != media {
			return fmt.Sprintf("ContentType is %q, expected %q", got, media)
		}
		want := val
		if canon == "User-Agent" {
			want = ua
		}
		if got := ctx.GetHeader(name); got != want {
			return fmt.Sprintf("GetHeader(%s) is %q, expected %q", name, got, want)
		}
		if got := ctx.GetHeader("X-Absent"); got != "" {
			return fmt.Sprintf("an absent header is %q", got)
		}
		return ""
	}, desc)
	c.Outcome(media)
}

// c22Real: the same facts on a real connection.
func c22Real(c *C) {
	xff := Pick(c, "", "198.51.100.1,198.51.100.2", "198.51.100.1 ,  198.51.100.2")
	real := Pick(c, "", "203.0.113.7")
	ct := Pick(c, "", "application/json;charset=utf-8", "text/plain")
	got := ""
	r := water.NewRouter()
	r.GET("/p", func(ctx *water.Context) {
		got = fmt.Sprintf("%s|%s|%s|%s|%v|%s", ctx.RealIp(), strings.Join(ctx.Proxy(), " "), ctx.Protocol(), ctx.ContentType(), ctx.IsWebsocket(), ctx.UserAgent())
		ctx.String(200, "ok")
	})
	hs := []string{"User-Agent: agent 7", "Connection: Upgrade", "Upgrade: websocket"}
	if xff != "" {
		hs = append(hs, "X-Forwarded-For: "+xff)
	}
	if real != "" {
		hs = append(hs, "X-Real-IP: "+real)
	}
	if ct != "" {
		hs = append(hs, "Content-Type: "+ct)
	}
	rr := ServeReal(r.Handler(), "GET", RawReq("GET", "/p", hs, ""))
	c.Step()
	ip, px := "pipe", ""
	if xff != "" {
		ip, px = "198.51.100.1", "198.51.100.1 198.51.100.2"
	}
	if real != "" {
		ip = real
	}
	want := fmt.Sprintf("%s|%s|http|%s|true|agent 7", ip, px, strings.Split(ct, ";")[0])
	if rr.Err != nil || rr.Status != 200 || got != want {
		c.Failf("real", "X-Forwarded-For %q X-Real-IP %q Content-Type %q: %q, expected %q (%v)", xff, real, ct, got, want, rr.Err)
	}
	c.State(want)
}

func init() {
	register(&Prop{ID: "C22", Scopes: []Scope{
		{Name: "addresses", Desc: "X-Real-IP (4) x remote address (7) x all X-Forwarded-For lists up to 3 of 4 entries with 5 kinds of separators, with or without a second header line", Body: c22Addr(3), Split: 3},
		{Name: "meta", Desc: "X-Forwarded-Proto (7) x TLS x X-Requested-With (5) x Connection (18) x Upgrade (7)", Body: c22Meta, Split: 3},
		{Name: "headers", Desc: "User-Agent (5) x media types (8) x parameters (6) x header names (5) and values (5)", Body: c22Headers, Split: 3},
		{Name: "real", Desc: "through a real HTTP server", Body: c22Real, Split: 2},
		{Name: "addresses-5", Desc: "lists of up to 4 entries", Body: c22Addr(4), Split: 4, Thorough: true},
	}})
}
