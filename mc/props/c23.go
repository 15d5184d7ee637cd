package props

import (
	"fmt"
	"html"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var c23Names = []string{"a", "sid", "X-1", "a!#$%&'*+-.^_`|~b", "a", "", "a b", "a=b", "a;b", "a\nb", "é", "\"a\""}

func c23Valid(n string) bool {
	if n == "" {
		return false
	}
	for i := 0; i < len(n); i++ {
		b := n[i]
		if b <= ' ' || b >= 0x7f || strings.IndexByte("()<>@,;:\\\"/[]?={}", b) >= 0 {
			return false
		}
	}
	return true
}

var c23Values = []string{"", "v", "a b", "x,y", "<b>&'", "a=b=c", "100%", "!#$&'()*+-./:<=>?@[]^_`{|}~"}

// c23Want is what the client must know about one cookie.
type c23Want struct {
	name, value, path, domain string
	age                       int // 0 none, -1 expired now
	secure, httpOnly          int // 0 false, 1 true, 2 undetermined
	same                      http.SameSite
}

func c23Show(w c23Want) string { return fmt.Sprintf("%+v", w) }

// c23Args chooses an argument list and says what it asks for.
func c23Args(c *C, w *c23Want, full bool) []interface{} {
	n := c.Choose(7)
	var a []interface{}
	w.path = "/"
	lim := func(k int) int {
		if full {
			return k
		}
		return 2
	}
	if n > 0 {
		i := c.Choose(lim(15))
		a = append(a, []interface{}{3600, -1, int32(5), int64(7), 0, nil, "60", int64(-9), int64(1)<<32 + 7, 1 << 40, int32(1<<31 - 1), int32(-1 << 31), 1, int32(0), int64(0)}[i])
		w.age = []int{3600, -1, 5, 7, 0, 0, 0, -1, 1<<32 + 7, 1 << 40, 1<<31 - 1, -1, 1, 0, 0}[i]
	}
	if n > 1 {
		i := c.Choose(lim(9))
		a = append(a, []interface{}{"/p", "", "/a b/%C3%A9?=,", nil, 5, "/p/", "rel", "x", "/"}[i])
		w.path = []string{"/p", "/", "/a b/%C3%A9?=,", "/", "/", "/p/", "rel", "x", "/"}[i]
	}
	if n > 2 {
		i := c.Choose(lim(8))
		a = append(a, []interface{}{"example.com", "", "sub.example.com", nil, "127.0.0.1", "Example.COM", "x", "localhost"}[i])
		w.domain = []string{"example.com", "", "sub.example.com", "", "127.0.0.1", "Example.COM", "x", "localhost"}[i]
	}
	if n > 3 {
		i := c.Choose(lim(4))
		a = append(a, []interface{}{true, false, nil, "yes"}[i])
		w.secure = []int{1, 0, 0, 1}[i] // anything but a bool or nil asks for it
	}
	if n > 4 {
		i := c.Choose(lim(4))
		a = append(a, []interface{}{true, false, nil, 1}[i])
		w.httpOnly = []int{1, 0, 0, 2}[i]
	}
	if n > 5 {
		i := c.Choose(lim(6))
		a = append(a, []interface{}{http.SameSiteStrictMode, http.SameSiteLaxMode, http.SameSiteNoneMode, http.SameSiteDefaultMode, nil, "Lax"}[i])
		w.same = []http.SameSite{http.SameSiteStrictMode, http.SameSiteLaxMode, http.SameSiteNoneMode, 0, 0, -1}[i]
	}
	return a
}

func c23Same(g *http.Cookie, w c23Want) string {
	flag := func(n string, got bool, want int) string {
		if want == 2 || got == (want == 1) {
			return ""
		}
		return fmt.Sprintf("%s is %v", n, got)
	}
	switch {
	case g.Name != w.name || g.Value != w.value:
		return fmt.Sprintf("it is %q=%q", g.Name, g.Value)
	case g.Path != w.path:
		return fmt.Sprintf("path %q", g.Path)
	case g.Domain != w.domain:
		return fmt.Sprintf("domain %q", g.Domain)
	case g.MaxAge != w.age:
		return fmt.Sprintf("max-age %d", g.MaxAge)
	case !g.Expires.IsZero() || len(g.Unparsed) > 0 || g.Partitioned:
		return fmt.Sprintf("more attributes: %q", g.Raw)
	case w.same != -1 && g.SameSite != w.same:
		return fmt.Sprintf("same-site %d", g.SameSite)
	}
	if s := flag("secure", g.Secure, w.secure); s != "" {
		return s
	}
	return flag("http-only", g.HttpOnly, w.httpOnly)
}

func c23Body(n int, names, values []string, full, real bool) Body {
	return func(c *C) {
		var want []c23Want
		type call struct {
			name, value string
			args        []interface{}
		}
		var calls []call
		pre := c.Choose(2)
		if pre == 1 {
			want = append(want, c23Want{name: "before", value: "1"})
		}
		for i := 0; i < n; i++ {
			w := c23Want{name: PickS(c, names), value: PickS(c, values)}
			a := c23Args(c, &w, full)
			calls = append(calls, call{w.name, w.value, a})
			if c23Valid(w.name) {
				want = append(want, w)
			}
		}
		desc := fmt.Sprintf("%d set before, calls %q", pre, fmt.Sprint(calls))
		r := water.NewRouter()
		r.GET("/set", func(ctx *water.Context) {
			ctx.SetHeader("X-Other", "o")
			if pre == 1 {
				ctx.Header().Add("Set-Cookie", "before=1")
			}
			for _, k := range calls {
				ctx.SetCookie(k.name, k.value, k.args...)
			}
			ctx.Abort(204)
		})
		back := map[string]string{}
		sent := map[string]string{}
		bad := ""
		r.GET("/get", func(ctx *water.Context) {
			for _, nm := range append([]string{"absent", "before"}, names...) {
				v, ok := sent[nm]
				if !ok {
					v = ""
				}
				back[nm] = v
				if got := ctx.Cookie(nm); got != v && bad == "" {
					bad = fmt.Sprintf("Cookie(%q) is %q, sent %q", nm, got, v)
				}
				if got := ctx.CookieEscape(nm); got != html.EscapeString(v) && bad == "" {
					bad = fmt.Sprintf("CookieEscape(%q) is %q, expected %q", nm, got, html.EscapeString(v))
				}
				c.Steps(2)
			}
			ctx.Abort(204)
		})
		e := r.Handler()
		got, p := deliver(real, e, "GET", "/set")
		c.Step()
		if p != nil {
			c.Failf("panic", "%s: %v", desc, p)
			return
		}
		if lines := got.h["Set-Cookie"]; len(lines) != len(want) {
			c.Failf("headers", "%s: Set-Cookie headers %q, expected %d", desc, lines, len(want))
			return
		}
		if got.h.Get("X-Other") != "o" {
			c.Failf("headers", "%s: another header is lost", desc)
		}
		cl := http.Response{Header: got.h}
		cs := cl.Cookies()
		if len(cs) != len(want) {
			c.Failf("parse", "%s: the client understands %d of %q", desc, len(cs), got.h["Set-Cookie"])
			return
		}
		for i := range cs {
			if pre == 1 && i == 0 {
				if cs[0].Name != "before" || cs[0].Value != "1" {
					c.Failf("before", "%s: the cookie set before became %q", desc, got.h["Set-Cookie"][0])
				}
				continue
			}
			if s := c23Same(cs[i], want[i]); s != "" {
				c.Failf("attributes", "%s: cookie %d: %s, expected %s, header %q", desc, i, s, c23Show(want[i]), got.h["Set-Cookie"][i])
			}
		}
		// the client sends them back
		req := Req("GET", "/get")
		for _, k := range cs {
			if _, dup := sent[k.Name]; dup || k.MaxAge < 0 {
				continue
			}
			sent[k.Name] = k.Value
			req.AddCookie(&http.Cookie{Name: k.Name, Value: k.Value, Quoted: k.Quoted})
		}
		var hs []string
		for k, v := range req.Header {
			hs = append(hs, k+": "+v[0])
		}
		_, p = deliver(real, e, "GET", "/get", hs...)
		if p != nil {
			c.Failf("panic", "%s: reading: %v", desc, p)
		} else if bad != "" {
			c.Failf("back", "%s: %s", desc, bad)
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(len(want)))
	}
}

func init() {
	register(&Prop{ID: "C23", Scopes: []Scope{
		{Name: "names", Desc: "12 names (valid and invalid) x 8 values x short argument lists", Body: c23Body(1, c23Names, c23Values, false, false), Split: 3},
		{Name: "attributes", Desc: "all argument lists of length 0 to 6 over 4 to 13 values per position (wrong types included)", Body: c23Body(1, []string{"sid", "a b"}, []string{"v", "a b"}, true, false), Split: 4},
		{Name: "two", Desc: "two cookies: 4 names x 3 values x short argument lists each", Body: c23Body(2, []string{"a", "b", "a b", ""}, []string{"", "v", "x,y"}, false, false), Split: 4, Thorough: true},
		{Name: "two-small", Desc: "two cookies: 3 names x 2 values x short argument lists each", Body: c23Body(2, []string{"a", "b", "a b"}, []string{"v"}, false, false), Split: 4},
		{Name: "real", Desc: "through a real HTTP server", Body: c23Body(1, c23Names[:8:8], c23Values, false, true), Split: 3},
	}})
}
