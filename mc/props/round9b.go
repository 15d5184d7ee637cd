package props

import (
	"context"
	"bytes"
	"encoding/xml"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// ---- routing: every way of registering, every method of a request

var regKinds = append(append([]string{}, stdMethods...), "ANY")

func regHas(kind, method string) bool {
	return kind == method || kind == "ANY" && method != "HEAD" && method != "OPTIONS"
}

// methodsBody: one or two routes registered by each of the 8 ways in groups with middleware,
// asked by every method: which chain runs, and what it sees.
func methodsBody(two bool) Body {
	pats := []string{"/a", "/:x", "/a/b", "/*rest", "/<n ~ ^([a-z])$>/b", ""}
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		depth := c.Choose(3)
		mws := c.Choose(4) // on root, on the groups, on both, on none
		before, static, nf := c.Bool(), c.Bool(), c.Bool()
		type rt struct{ kind, pat string }
		var rts []rt
		n := 1
		if two {
			n = 2
		}
		for i := 0; i < n; i++ {
			rts = append(rts, rt{PickS(c, regKinds), PickS(c, pats)})
			if depth == 0 && rts[i].pat == "" { // no pattern at all
				c.Prune()
			}
		}
		var ran []string
		mw := func(tag string) func(ctx *water.Context) {
			return func(ctx *water.Context) { ran = append(ran, tag); ctx.Next(); ran = append(ran, "-"+tag) }
		}
		r := water.NewRouter()
		var open, closing []string
		use := func(g *water.Router, tag string) {
			g.Use(mw(tag))
			open = append(open, tag)
			closing = append([]string{"-" + tag}, closing...)
		}
		if before {
			r.Before(mw("before"))
			open, closing = append(open, "before"), append([]string{"-before"}, closing...)
		}
		if mws%2 == 0 && mws != 3 {
			use(r, "root")
		}
		g, prefix := r, ""
		for i := 0; i < depth; i++ {
			g = g.Group(fmt.Sprintf("/g%d", i))
			prefix += fmt.Sprintf("/g%d", i)
			if mws == 1 || mws == 2 {
				use(g, fmt.Sprint("group", i))
			}
		}
		m := newModel()
		var e *water.Engine
		refused := quiet(func() {
			for i, x := range rts {
				i, x := i, x
				regMethod(g, x.kind, x.pat, func(ctx *water.Context) {
					ran = append(ran, fmt.Sprintf("h%d %s %s", i, ctx.FullPath(), mapStr(ctx.Params)))
				})
			}
			opts := []water.Option{water.WithStaticRouter(static)}
			if nf {
				opts = append(opts, water.WithNoFoundHandlers(func(ctx *water.Context) {
					ran = append(ran, "nf "+ctx.FullPath()+mapStr(ctx.Params))
					ctx.WriteHeader(410)
				}))
			}
			e = r.Handler(opts...)
		})
		why := ""
		ids := map[*MRoute]string{}
		for i, x := range rts {
			full := prefix + x.pat
			for _, meth := range stdMethods {
				if regHas(x.kind, meth) && why == "" {
					var mr *MRoute
					mr, why = m.add(meth, full)
					if mr != nil {
						ids[mr] = fmt.Sprintf("h%d %s", i, full)
					}
				}
			}
		}
		desc := fmt.Sprintf("%v in %d groups, middleware %d, before %v, static %v, nofound %v", rts, depth, mws, before, static, nf)
		if refused != (why != "") {
			c.Failf("refused", "%s: refused %v, expected %q", desc, refused, why)
			return
		}
		if refused {
			c.Prune()
		}
		for _, meth := range append(append([]string{}, stdMethods...), "TRACE") {
			for _, p := range []string{prefix + "/a", prefix + "/q", prefix + "/a/b", prefix + "/z/b", prefix + "/z/z/z", prefix, "/a"} {
				if p == "" {
					p = "/"
				}
				ran = nil
				rec, pn := Serve(e, Req(meth, p))
				c.Step()
				want, status := "", 0
				var mr *MRoute
				var params map[string]string
				if meth == "TRACE" {
					status = 405
				} else if mr, params = m.match(meth, p); mr != nil {
					want = strings.Join(append(append(append([]string{}, open...), ids[mr]+" "+mapStr(params)), closing...), ",")
					status = 0
				} else if nf {
					want, status = "nf ", 410
				} else {
					status = 404
				}
				got := strings.Join(ran, ",")
				if mr == nil && before && nf && meth != "TRACE" { // Before belongs to routes
					got = strings.TrimPrefix(got, "before,")
					got = strings.TrimSuffix(got, ",-before")
				}
				if pn != nil || got != want || status != 0 && rec.Status != status {
					c.Failf("methods", "%s: %s %s runs %q with status %d (panic %v), expected %q, status %d", desc, meth, p, got, rec.Status, pn, want, status)
					return
				}
			}
		}
		c.State(desc)
	}
}

// ---- C12: where redirects point

func c12Redirects(c *C) {
	prefix := PickS(c, []string{"", "/", "//", "http://h", "https://h:1/", "ftp://h/", "?", "#", "./", "../", "mailto:", "javascript:", "\\", "/\\", "//h", "HTTP://H", " /", "x"})
	path := PickS(c, []string{"", "a", "a/b", "./a", "a/./b", "a/../b", "../../b", "a//b", "a/", "a/.", "a/..", "é", "a b", "a%20b", "%2e%2e/x", "a\r\nX: y", "a\x00b", "a;b", "a\\b", "a:b", "A", "{x}", "%zz", "\"<>'", "~a"})
	tail := PickS(c, []string{"", "?", "?q=/./x", "?q=a/../b//c", "?a=1&b=é", "#f", "#/../x", "?u=http://h/./", "?q=a b"})
	from := PickS(c, []string{"/", "/p", "/p/q", "/p/q/", "/p/./q"})
	perm := c.Bool()
	meth := Pick(c, "GET", "HEAD", "POST")
	ct := c.Bool()
	uri := prefix + path + tail
	h := func(w http.ResponseWriter, r *http.Request) {
		if ct {
			w.Header().Set("Content-Type", "text/x")
		}
		if perm {
			http.Redirect(w, r, uri, 301)
		} else {
			http.Redirect(w, r, uri, 302)
		}
	}
	want := NewRec()
	h(want, Req(meth, from))
	r := water.NewRouter()
	g := func(ctx *water.Context) {
		if ct {
			ctx.SetHeader("Content-Type", "text/x")
		}
		if perm {
			ctx.MovedPermanently(uri)
		} else {
			ctx.Found(uri)
		}
	}
	for _, p := range []string{"/", "/*"} {
		regMethod(r, meth, p, g)
	}
	got, p := Serve(r.Handler(), Req(meth, from))
	c.Step()
	if p != nil || got.Summary() != want.Summary() || len(got.Commits) != 1 {
		c.Failf("redirect", "%s %s to %q (permanent %v): %s, panic %v, expected %s", meth, from, uri, perm, got.Summary(), p, want.Summary())
	}
	c.State(fmt.Sprint(uri, from, perm, meth, ct))
}

// ---- C19: long names that differ in one place

func c19LongNames(c *C) {
	n := 1 + c.Choose(70)
	if n > 64 {
		n = []int{100, 127, 128, 200, 254, 255}[n-65]
	}
	alphabet := c.Choose(3)
	a := make([]byte, n)
	for i := range a {
		switch alphabet {
		case 0:
			a[i] = 'x'
		case 1:
			a[i] = byte('a' + i%26)
		case 2:
			a[i] = byte('0' + i%10)
		}
	}
	mod := time.Unix(1600000000, 0)
	tags := map[string]string{}
	add := func(name string) {
		t := water.GenerateETag2(mod, 77, name)
		c.Step()
		if o, ok := tags[t]; ok && o != name {
			c.Failf("names", "files %q and %q have the tag %q", o, name, t)
		}
		tags[t] = name
	}
	add(string(a))
	add(string(a) + "y")
	add(string(a[:n-1]))
	for i := range a {
		b := append([]byte(nil), a...)
		b[i] = 'Y'
		add(string(b))
		if c.Failed() {
			return
		}
		if i%7 != 0 && i < n-3 {
			continue
		}
		f, g := c19File{string(a), mod, "body"}, c19File{string(b), mod, "body"}
		ra, pa := c19Get(2, f, "\x00", "GET")
		ta, _ := one(ra.h, "Etag")
		rb, pb := c19Get(2, g, ta, "GET")
		c.Steps(2)
		if pa != nil || pb != nil || ra.status != 200 || ta == "" || rb.status != 200 || rb.body != g.body {
			c.Failf("names", "the tag %q of %q presented for %q: %d %d %v %v", ta, f.name, g.name, ra.status, rb.status, pa, pb)
			return
		}
	}
	c.State(fmt.Sprint(n, alphabet))
}

// ---- C20: any byte at any place of a value or a name

var c20Marks = func() (o []string) {
	for b := 0; b < 256; b++ {
		o = append(o, string([]byte{byte(b)}))
	}
	return append(o, "\r\n", ",,", ", ", "..", "--", "%20", "%2C", "[]", "[k]", "=", "é", "\u00a0", "\u200b", "\ufeff", "\u3000", "&amp;", "<b>", "a,b;c|d", "\"q\"", "'", "null", "undefined", "nil", "true", "0", "-1", "{}", "[1,2]")
}()

func c20Mark(c *C) {
	mark := PickS(c, c20Marks)
	place := c.Choose(5)
	inName := c.Bool()
	way := c.Choose(3) // URL, form, both
	val := []string{mark, mark + "v", "v" + mark + "w", "v" + mark, mark + "v" + mark}[place]
	form := url.Values{}
	if inName {
		form["n"+val] = []string{"v", "w"}
		form["m["+val+"]"] = []string{"v", "w"}
		form[val] = []string{"x"}
	} else {
		form["a"] = []string{val}
		form["b"] = []string{val, "x", val}
		form["m[k]"] = []string{val, "x"}
		form["m[j]"] = []string{"x", val}
	}
	req := ReqURL("GET", "/p", form.Encode())
	seen := map[string][]string(form)
	switch way {
	case 1:
		req = ReqBody("POST", "/p", "application/x-www-form-urlencoded", []byte(form.Encode()))
	case 2:
		req = ReqBody("POST", "/p", "application/x-www-form-urlencoded", []byte(form.Encode()))
		req.URL.RawQuery = form.Encode()
		seen = map[string][]string{}
		for k, v := range form {
			seen[k] = append(append([]string{}, v...), v...)
		}
	}
	names := []string{"a", "b", "m", "zz", "n" + val, "n", val}
	bad := "the handler did not run"
	r := water.NewRouter()
	r.ANY("/p", func(ctx *water.Context) {
		bad = ""
		for acc := 0; acc < 6 && bad == ""; acc++ {
			for _, n := range names {
				if n == "" {
					continue
				}
				c.Step()
				if bad == "" {
					bad = c20Ask(ctx, seen, acc, n)
				}
			}
		}
	})
	_, p := Serve(r.Handler(), req)
	if bad != "" || p != nil {
		c.Failf("mark", "%q by way %d: %s, panic %v", map[string][]string(form), way, bad, p)
	}
	c.State(fmt.Sprint(mark, place, inName, way))
}

// ---- C22: addresses that mean something elsewhere

var c22Specials = []string{"unknown", "Unknown", "_hidden", "-", "localhost", "none", "null", "(null)", "undefined", "0", "0.0.0.0", "::", "::1", "127.0.0.1", "10.0.0.1", "192.168.1.1", "172.16.0.1", "169.254.0.1", "100.64.0.1", "fe80::1", "fc00::1", "224.0.0.1", "255.255.255.255", "999.1.1.1", "1.2.3", "1.2.3.4:80", "[::1]:80", "[::1]", "example.com", "*", "\"1.2.3.4\"", "for=1.2.3.4", "1.2.3.4;x", "x", "unix:", "@", "1.2.3.4/8", "::ffff:1.2.3.4", "198.51.100.1"}

func c22Special(c *C) {
	real := Pick(c, append([]string{""}, c22Specials...)...)
	first := Pick(c, append([]string{""}, c22Specials...)...)
	more := c.Choose(4)
	remote := Pick(c, "192.0.2.1:1234", "127.0.0.1:80", "10.0.0.9:80")
	list := first
	if first != "" {
		list += []string{"", ", 8.8.8.8", ", 10.0.0.1", ", " + first}[more]
	} else if more > 0 {
		c.Prune()
	}
	want := remote[:strings.LastIndex(remote, ":")]
	if first != "" {
		want = first
	}
	if real != "" {
		want = real
	}
	c22Run(c, func(req *http.Request) {
		req.RemoteAddr = remote
		if real != "" {
			req.Header.Set("X-Real-IP", real)
		}
		if list != "" {
			req.Header.Set("X-Forwarded-For", list)
		}
	}, "GET", func(ctx *water.Context) string {
		if got := ctx.RealIp(); got != want {
			return fmt.Sprintf("RealIp is %q, expected %q", got, want)
		}
		if got := ctx.Proxy(); !sameStrings(noEmpty(got), entries([]string{list})) {
			return fmt.Sprintf("Proxy is %q for %q", got, list)
		}
		return ""
	}, fmt.Sprintf("X-Real-IP %q, X-Forwarded-For %q, remote %s", real, list, remote))
}

// ---- C26: everything else is a form

var c26Else = []string{"application/xhtml+xml", "application/soap+xml", "application/atom+xml", "application/rss+xml", "image/svg+xml", "application/xml-dtd", "application/xml-external-parsed-entity", "text/xml-external-parsed-entity", "application/mathml+xml", "application/ld+json", "application/hal+json", "application/problem+json", "application/json-patch+json", "application/merge-patch+json", "application/json-seq", "application/x-json", "application/jsonp", "application/javascript", "application/jsonl", "application/x-ndjson", "application/ndjson", "text/x-json", "text/javascript", "application/csp-report", "application/reports+json", "application/graphql", "application/graphql+json", "application/x-xml", "text/x-xml", "application/yaml", "application/x-yaml", "text/yaml", "application/msgpack", "application/x-msgpack", "application/protobuf", "application/x-protobuf", "application/cbor", "application/toml", "application/octet-stream", "application/grpc", "text/html", "text/csv", "text", "json", "xml", "*/*", "application/*", "application", "application/", "/json", "multipart/related; boundary=xxBOUNDxx", "multipart/alternative; boundary=xxBOUNDxx", "multipart/x-mixed-replace", "x-www-form-urlencoded", "application/form", "application/x-www-form-urlencoded;charset=utf-8;x", "application/json,text/xml", "text/xml,application/json", "application/jso", "text/xm", "form", "text/plain;charset=utf-8"}

// ---- C28: what the destination held, what the defaults say

type slots28 struct {
	A []string  `form:"a" header:"a" uri:"a"`
	B []int     `form:"b" header:"b" uri:"b"`
	C []float64 `form:"c" header:"c" uri:"c"`
	D struct {
		E []string `form:"a" header:"a" uri:"a"`
		F []bool   `form:"f" header:"f" uri:"f"`
	} `form:"dd" header:"dd" uri:"dd"`
	P *struct {
		G []uint8 `form:"b" header:"b" uri:"b"`
	} `form:"pp" header:"pp" uri:"pp"`
}

func prefilled[T any](n, spare int, v T) []T {
	if n < 0 {
		return nil
	}
	s := make([]T, n+spare)
	for i := range s {
		s[i] = v
	}
	return s[:n]
}

func c28Held(c *C) {
	src := Pick(c, srcQuery, srcForm, srcMulti, srcHeader, srcUri, srcMap)
	second := src != srcMap && c.Bool()
	n, spare := c.Choose(4)-1, c.Choose(4)
	if n < 0 && spare > 0 {
		c.Prune()
	}
	na, nb := c.Choose(6), c.Choose(4)
	times := 1 + c.Choose(2)
	var o, want slots28
	for _, x := range []*slots28{&o, &want} {
		x.A, x.B, x.C = prefilled(n, spare, "old"), prefilled(n, spare, 7), prefilled(n, spare, 7.5)
		x.D.E, x.D.F = prefilled(n, spare, "old2"), prefilled(n, spare, true)
		if n > 0 {
			x.P = &struct {
				G []uint8 `form:"b" header:"b" uri:"b"`
			}{prefilled(n, spare, uint8(9))}
		}
	}
	data := map[string][]string{}
	if na > 0 {
		want.A, want.D.E = nil, nil
		for i := 0; i < na; i++ {
			data["a"] = append(data["a"], fmt.Sprint("v", i))
		}
		want.A, want.D.E = data["a"], data["a"]
	}
	if nb > 0 {
		want.B = nil
		if want.P == nil {
			want.P = &struct {
				G []uint8 `form:"b" header:"b" uri:"b"`
			}{}
		}
		want.P.G = nil
		for i := 0; i < nb; i++ {
			data["b"] = append(data["b"], fmt.Sprint(i))
			want.B = append(want.B, i)
			want.P.G = append(want.P.G, uint8(i))
		}
	}
	for i := 0; i < times; i++ {
		var err error
		p := quiet(func() { err = bindFrom(src, second, data, &o) })
		c.Step()
		if p || err != nil || !reflect.DeepEqual(o, want) {
			c.Failf("held", "slices of %d with room for %d more, from %s (Bind2: %v), %q, time %d: panic %v, error %v, now %+v, expected %+v", n, spare, srcNames[src], second, data, i, p, err, o, want)
			return
		}
	}
	c.State(fmt.Sprint(src, second, n, spare, na, nb, times))
}

var c28Texts = func() (o []string) {
	for b := 1; b < 127; b++ {
		if b != ',' {
			o = append(o, string([]byte{byte(b)}), "x"+string([]byte{byte(b)})+"y", "x"+string([]byte{byte(b)}))
		}
	}
	return append(o, "a=b=c", "default=x", "==", "=x", "x=", "é", "a b  c", " x ", "http://h/?a=1&b=2", "-", "0", "null", "\"\"", strings.Repeat("d", 1000))
}()

func c28Defaults(c *C) {
	text := PickS(c, c28Texts)
	extra := c.Choose(7) // options around it
	src := Pick(c, srcQuery, srcForm, srcHeader, srcUri, srcMap)
	second := src != srcMap && c.Bool()
	has := c.Choose(3) // absent, present, another one present
	kind := c.Choose(3)
	opt := "default=" + text
	switch extra {
	case 1:
		opt += ",omitempty"
	case 2:
		opt = "omitempty," + opt
	case 3:
		opt = "default=first," + opt
	case 4:
		opt += ",default1=zz,xdefault=zz"
	case 5:
		opt = ",," + opt + ",,"
	case 6:
		opt = "Default=zz,DEFAULT=zz, default=zz," + opt
	}
	tag := reflect.StructTag(fmt.Sprintf("form:%s header:%s uri:%s", strconv.Quote("name,"+opt), strconv.Quote("name,"+opt), strconv.Quote("name,"+opt)))
	ft := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]string{}), reflect.TypeOf((*string)(nil))}[kind]
	t := reflect.StructOf([]reflect.StructField{{Name: "F", Type: ft, Tag: tag}, {Name: "G", Type: reflect.TypeOf(""), Tag: `form:"other" header:"other" uri:"other"`}})
	o := reflect.New(t)
	data := map[string][]string{}
	want := text
	switch has {
	case 1:
		data["name"] = []string{"given"}
		want = "given"
	case 2:
		data["other"] = []string{"o"}
	}
	var err error
	p := quiet(func() { err = bindFrom(src, second, data, o.Interface()) })
	c.Step()
	got := ""
	switch f := o.Elem().Field(0); kind {
	case 0:
		got = f.String()
	case 1:
		if f.Len() == 1 {
			got = f.Index(0).String()
		} else {
			got = fmt.Sprint(f.Len(), " values")
		}
	case 2:
		if f.IsNil() {
			got = "nil"
		} else {
			got = f.Elem().String()
		}
	}
	if p || err != nil || got != want || (o.Elem().Field(1).String() == "o") != (has == 2) {
		c.Failf("default", "a %v tagged %s, from %s (Bind2: %v), %q: panic %v, error %v, now %q, expected %q", ft, tag, srcNames[src], second, data, p, err, got, want)
	}
	c.State(fmt.Sprint(tag, src, second, has, kind))
}

// ---- C29: what XML allows besides elements

func c29Odd() (docs []string) {
	var ents []string
	for k := range xml.HTMLEntity {
		ents = append(ents, "&"+k+";")
	}
	sort.Strings(ents)
	ents = append(ents, "&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&LT;", "&unknown;", "&x", "&", "& ", "&;", "&#65;", "&#x41;", "&#X41;", "&#0;", "&#x110000;", "&#xD800;", "&#;", "&#x;", "&#65", "&#-1;", "&a.b;", "&é;", "]]>", "<![CDATA[x]]>", "<![CDATA[<b>&lt;]]>", "<!-- c -->", "<!-- a--b -->", "<!-->", "<?pi x?>", "<?pi", "<!DOCTYPE r>", "<br>", "<br/>", "<BR></br>", "<p>", "<img src=x>", "\r\n", "\r", "\t", "\u00a0", "\ufffe", "\x01", "\x7f", "\u0085", "\ufeff")
	for _, e := range ents {
		docs = append(docs, "<r><a>1</a><b>x"+e+"y</b></r>", "<r><b>"+e+"</b></r>", `<r q="`+e+`"><b>z</b></r>`, "<r>"+e+"<b>z</b></r>", e+"<r><b>z</b></r>", "<r><b>z</b></r>"+e)
	}
	heads := []string{`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0" encoding="utf-8"?>`, `<?xml version="1.0" encoding="utf8"?>`, `<?xml version="1.0" encoding="ISO-8859-1"?>`, `<?xml version="1.0" encoding="us-ascii"?>`, `<?xml version="1.0" encoding="UTF-16"?>`, `<?xml version="1.0" encoding="GBK"?>`, `<?xml version="1.0" encoding=""?>`, `<?xml version="1.1"?>`, `<?xml version='1.0' standalone='yes'?>`, `<?XML version="1.0"?>`, ` <?xml version="1.0"?>`, "\ufeff", "\ufeff<?xml version=\"1.0\"?>", `<!DOCTYPE r [<!ENTITY e "v">]>`, `<!DOCTYPE r SYSTEM "x">`, `<!DOCTYPE html>`, "<!-- c -->", "<?xml-stylesheet href='x'?>", "text", "\n\n"}
	bodies := []string{"<r><a>1</a><b>x</b></r>", "<r><b>&e;</b></r>", "<r><b>\xe9</b></r>", "<r><b>é</b></r>", `<n:r xmlns:n="u"><n:a>1</n:a><n:b>x</n:b></n:r>`, `<r xmlns="u"><a>1</a><b>x</b></r>`, `<n:r><n:b>x</n:b></n:r>`, `<r a="1" a="2"><b>x</b></r>`, `<r a=1><b>x</b></r>`, `<r a><b>x</b></r>`, `<r a='1'b='2'><b>x</b></r>`, "<r><b>x</B></r>", "<R><B>x</B></R>", "<r><b>x</r></b>", "<r><b>x</b>", "<r><b>x", "<r><b>x</b></r", "<r ><b >x</b ></r >", "< r><b>x</b></r>", "<r/><r><b>x</b></r>", "<r><b>x</b></r><r><b>y</b></r>", "<r><b>x</b></r>trailing", "<r:><b>x</b></r:>", "<:r><b>x</b></:r>", "<a:b:c><b>x</b></a:b:c>", "<1><b>x</b></1>", "<é><b>x</b></é>", "</r>", "<>", "<r></><b>x</b></r>", "<r><b>1<c>2</c>3</b></r>"}
	for _, h := range heads {
		for _, b := range bodies {
			docs = append(docs, h+b)
		}
	}
	return
}

// ---- C33: what an engine keeps in memory of uploads

func c33Memory(n int) Body {
	limits := []int64{-1, 1, 10000, 1 << 20} // -1: none given
	sizes := []int{100, 50000}
	return func(c *C) {
		same := c.Bool()
		mk := func() *water.Router {
			r := water.NewRouter()
			r.POST("/u", func(ctx *water.Context) {
				if ctx.GetHeader("X-Query") != "" {
					ctx.Query("q")
				}
				f, h, err := ctx.FormFile("f")
				if err != nil {
					ctx.String(500, err.Error())
					return
				}
				_, disk := f.(*os.File)
				f.Close()
				ctx.String(200, fmt.Sprint(h.Size, disk))
			})
			return r
		}
		r := mk()
		var es []*water.Engine
		var ls []int64
		for i := 0; i < n; i++ {
			l := PickS(c, limits)
			if !same {
				r = mk()
			}
			var opts []water.Option
			if l >= 0 {
				opts = append(opts, water.WithMaxMultipartMemory(l))
			}
			if c.Bool() {
				opts = append(opts, water.WithStaticRouter(true))
			}
			es, ls = append(es, r.Handler(opts...)), append(ls, l)
			for k, e := range es {
				for _, size := range sizes {
					for _, q := range []string{"", "1"} {
						var b bytes.Buffer
						w := multipart.NewWriter(&b)
						w.SetBoundary("BB")
						f, _ := w.CreateFormFile("f", "x.bin")
						f.Write(bytes.Repeat([]byte("u"), size))
						w.Close()
						req := ReqBody("POST", "/u", w.FormDataContentType(), b.Bytes())
						if q != "" {
							req.Header.Set("X-Query", q)
						}
						rec, p := Serve(e, req)
						if req.MultipartForm != nil {
							req.MultipartForm.RemoveAll()
						}
						c.Step()
						disk := ls[k] >= 0 && int64(size) > ls[k]
						if want := fmt.Sprint(size, disk); p != nil || rec.Body.String() != want {
							c.Failf("memory", "engines with the limits %v (same router %v): the one with %d answers an upload of %d bytes (queried first: %q) with size and whether on disk %q, panic %v, expected %q", ls, same, ls[k], size, q, rec.Body.String(), p, want)
							return
						}
					}
				}
			}
		}
		c.State(fmt.Sprint(same, ls))
	}
}

// ---- C34: destinations that take only part of an upload

func c34Partial(c *C) {
	size := Pick(c, 1, 100, 4096, 40000, 100000, 300000)
	limit := Pick(c, 0, 1, 50, 99, 4096, 32768, 39999, 65536, 100000, 299999)
	mem := Pick(c, int64(1), int64(32<<20))
	two := c.Bool()
	if limit == size { // copying may ask for more than there is
		c.Prune()
	}
	dir := filepath.Join(scratch(), fmt.Sprintf("c34-%d-part", os.Getpid()))
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	data := bytes.Repeat([]byte("0123456789abcdef"), size/16+1)[:size]
	body := "--bnd\r\nContent-Disposition: form-data; name=\"f\"; filename=\"f.txt\"\r\n\r\n" + string(data) + "\r\n--bnd--\r\n"
	req := ReqBody("POST", "/p", "multipart/form-data; boundary=bnd", []byte(body))
	var err error
	ran := false
	r := water.NewRouter()
	r.POST("/p", func(ctx *water.Context) {
		_, fh, e := ctx.FormFile("f")
		if e != nil {
			err = e
			return
		}
		for i := 0; i < 2; i++ {
			if i == 0 && !two {
				continue
			}
			ran = true
			signal.Ignore(syscall.SIGXFSZ)
			var old syscall.Rlimit
			must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max}))
			e := ctx.SaveUploadedFile(fh, filepath.Join(dir, fmt.Sprint("dst", i)))
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
			if err == nil {
				err = e
			}
			if (e != nil) != (limit < size) {
				c.Failf("partial", "SaveUploadedFile of %d bytes (memory %d) where only %d fit: %v (time %d)", size, mem, limit, e, i)
			}
		}
	})
	p := quiet(func() { r.Handler(water.WithMaxMultipartMemory(mem)).ServeHTTP(NewRec(), req) })
	c.Step()
	if req.MultipartForm != nil {
		req.MultipartForm.RemoveAll()
	}
	if p || !ran {
		c.Failf("partial", "SaveUploadedFile of %d bytes (memory %d) where only %d fit: panic %v, ran %v, %v", size, mem, limit, p, ran, err)
	}
	if err == nil {
		if b, _ := os.ReadFile(filepath.Join(dir, "dst1")); !bytes.Equal(b, data) {
			c.Failf("partial", "SaveUploadedFile of %d bytes (memory %d) where %d fit: saved %d", size, mem, limit, len(b))
		}
	}
	c.State(fmt.Sprint(size, limit, mem, two))
}

func c17Dressed() (func(c *C) (http.Handler, string), func(i int) (*http.Request, string), int) {
	build := func(c *C) (http.Handler, string) {
		cfg := water.CORSConfig{AllowOrigins: Pick(c, nil, []string{"*"}, []string{"http://a.example", "http://b.example"}), AllowCredentials: c.Bool(), MaxAge: Pick(c, 0, 60), ExposeHeaders: Pick(c, nil, []string{"X-E"})}
		r := water.NewRouter()
		in := r
		if c.Bool() {
			in = r.Group("/")
		}
		in.Use(water.CORS(cfg))
		in.ANY("/p", func(ctx *water.Context) { ctx.String(201, "ok") })
		in.OPTIONS("/p", func(ctx *water.Context) { ctx.String(202, "options") })
		return r.Handler(), fmt.Sprintf("%+v", cfg)
	}
	reqs := func(i int) (*http.Request, string) {
		m := []string{"GET", "POST", "OPTIONS", "DELETE"}[i%4]
		o := []string{"", "http://a.example", "http://evil.example", "null"}[i/4%4]
		q := Req(m, "/p")
		if o != "" {
			q.Header.Set("Origin", o)
		}
		pre := []string{"", "PUT"}[i/16]
		if pre != "" {
			q.Header.Set("Access-Control-Request-Method", pre)
		}
		return q, fmt.Sprint(m, " from ", o, " for ", pre)
	}
	return build, reqs, 32
}

func init() {
	_ = httptest.NewRecorder
	_ = binding.JSON
	for _, id := range []string{"C05", "C06", "C07", "C09", "C10"} {
		addScopes(id, Scope{Name: "methods", Desc: "one route registered by each of 8 ways x 6 patterns x 3 group depths x 4 placements of middleware x before x static x not-found handler, asked 7 paths by 8 methods: the chain, full path and parameters", Body: methodsBody(false), Split: 4})
	}
	for _, id := range []string{"C04", "C07"} {
		addScopes(id, Scope{Name: "methods-two", Desc: "the same with two routes", Body: methodsBody(true), Split: 4})
	}
	addScopes("C12", Scope{Name: "redirects", Desc: "18 beginnings x 25 paths x 9 ends of locations from 5 paths, both kinds, 3 methods, content type set or not: as net/http redirects", Body: c12Redirects, Split: 3})
	addScopes("C19", Scope{Name: "names", Desc: "names of 70 lengths up to 255 of 3 kinds, varied at every place: different tags, none accepted for the other", Body: c19LongNames, Split: 1})
	addScopes("C20", Scope{Name: "marks", Desc: "every byte and 28 marks at 5 places of values or names x URL, form, both: every accessor", Body: c20Mark, Split: 2})
	addScopes("C22", Scope{Name: "specials", Desc: "X-Real-IP and first X-Forwarded-For entry of 40 special values x 4 further lists x 3 remote addresses", Body: c22Special, Split: 2})
	pre := []string{"__Host-a", "__Secure-a", "__host-a", "__HOST-a", "__Secure-", "__Host-", "__Http-a", "__Host-Http-a", "$Version", "$Path", "Path", "expires", "domain", "secure", "JSESSIONID", "csrftoken", "_csrf", "XSRF-TOKEN", "session", "sid", "token", "_ga", "lang"}
	addScopes("C23", Scope{Name: "prefixes", Desc: fmt.Sprintf("%d names with a meaning elsewhere x 2 values x all attribute lists", len(pre)), Body: c23Body(1, pre, []string{"v", "a b"}, false, false), Split: 3})
	addScopes("C26", Scope{Name: "others", Desc: fmt.Sprintf("%d further media types x 7 methods x 10 bodies x 3 queries x automatic and 7 explicit decoders", len(c26Else)), Body: c26BodyOf(c26Methods, c26Else, 1), Split: 3})
	addScopes("C28", Scope{Name: "held", Desc: "slices of 4 lengths with 4 spare capacities at 4 places x 6 x 4 numbers of values x 6 sources x 2 implementations, bound once or twice", Body: c28Held, Split: 4},
		Scope{Name: "defaults", Desc: fmt.Sprintf("%d default texts (every ASCII byte at 3 places) x 7 surroundings x 5 sources x 2 implementations x 3 kinds of field x absent, present", len(c28Texts)), Body: c28Defaults, Split: 2})
	odd := c29Odd()
	addScopes("C29", Scope{Name: "odd", Desc: fmt.Sprintf("%d XML documents with every named entity, character references, declarations, encodings, directives, namespaces, unclosed and unquoted parts x 15 targets x 3 chunk sizes x 3 ways", len(odd)), Split: 2, Body: func(c *C) {
		d := PickS(c, odd)
		t := PickS(c, []int{0, 1, 2, 3, 4, 6, 7, 10, 11})
		chunk := Pick(c, 0, 1, 7)
		if why := c29One(true, t, d, chunk, 3); why != "" {
			c.Failf("odd", "%q into target %d, chunks of %d: %s", d, t, chunk, why)
		}
		c.Steps(3)
		c.State(fmt.Sprint(d, t, chunk))
	}})
	addScopes("C33", Scope{Name: "memory", Desc: "3 engines of the same or different routers with 4 memory limits, static or not, each asked after each was built with 2 sizes of upload: in memory or on disk as its own limit says", Body: c33Memory(3), Split: 3})
	addScopes("C34", Scope{Name: "partial", Desc: "uploads of 6 sizes in memory or on disk saved where 10 sizes fit, once or twice", Body: c34Partial, Split: 2})
	b, q, n := c17Dressed()
	addScopes("C17", Scope{Name: "dressed", Desc: "48 configurations and mounts x 32 requests x conventional headers and traits of a request: answered as without", Body: dressed(b, q, n, false, "Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers", "Access-Control-Request-Private-Network"), Split: 4})
}

// c36Logged: nothing is left running by the middlewares and helpers, whatever the answer.
func c36Logged(c *C) {
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	status := PickS(c, []int{0, 200, 204, 301, 304, 400, 401, 404, 418, 499, 500, 502, 503, 599})
	helper := c.Choose(8)
	mws := c.Choose(6)
	body := c.Choose(3)
	water.LogClose = c.Bool()
	defer func() { water.LogClose = false }()
	r := water.NewRouter()
	switch mws {
	case 0:
		r.Use(water.Logger())
	case 1:
		r.Use(water.Logger(), water.Recovery())
	case 2:
		r.Before(water.Logger())
	case 3:
		r.Use(water.Recovery(), water.CORS(water.CORSConfig{}))
	case 4:
		r.Use(water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a"}}), water.Logger())
	}
	h := func(ctx *water.Context) {
		switch helper {
		case 0:
			if status > 0 {
				ctx.Abort(status)
			}
		case 1:
			ctx.String(status+200*b2i(status == 0), "x")
		case 2:
			ctx.JSON(200, map[string]int(nil))
		case 3:
			ctx.Stream("text/plain", strings.NewReader("x"))
		case 4:
			var v struct {
				A string `json:"a" form:"a" binding:"required"`
			}
			ctx.Bind(&v)
			ctx.Query("a")
		case 5:
			ctx.BodyBytes()
			ctx.SetCookie("a", "b")
			ctx.Found("/")
		case 6:
			ctx.Download(filepath.Join(fixtureDir(), "f.txt"))
		case 7:
			panic("x")
		}
	}
	for _, m := range []string{"GET", "POST"} {
		regMethod(r, m, "/p", h)
	}
	e := r.Handler()
	var req *http.Request
	switch body {
	case 0:
		req = Req("GET", "/p")
	case 1:
		req = ReqBody("POST", "/p", "application/json", []byte(`{"a":"b"}`))
	case 2:
		req = ReqBody("POST", "/p", "multipart/form-data; boundary=B", []byte("--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nb\r\n--B--\r\n"))
	}
	req.Header.Set("Origin", "http://a")
	cx, cancel := context.WithCancel(context.Background()) // as a server's, but it ends after the count
	defer cancel()
	req = req.WithContext(cx)
	before := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		quiet(func() { e.ServeHTTP(NewRec(), req) })
	}
	c.Step()
	if !c35Until(400*time.Millisecond, func() bool { return runtime.NumGoroutine() <= before }) {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		if strings.Contains(string(buf), "meilihao/water") {
			c.Failf("goroutine", "status %d by helper %d, middlewares %d, body %d: %d goroutines, %d before:\n%s", status, helper, mws, body, runtime.NumGoroutine(), before, clip(string(buf), 1500))
		}
	}
	c.State(fmt.Sprint(status, helper, mws, body, water.LogClose))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	addScopes("C36", Scope{Name: "answers", Desc: "14 statuses x 8 helpers x 6 sets of middlewares x 3 bodies x logging on or off: goroutines before and after", Body: c36Logged, Split: 3})
}
