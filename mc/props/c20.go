package props

import (
	"bytes"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/url"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

type kv struct{ k, v string }

var c20Pairs = []kv{{"a", "1"}, {"a", " x "}, {"a", ""}, {"b", "y"}, {"m[k]", "v"}, {"m[k]", "\tw\n"}, {"m[j]", ""}, {"m[", "z"}, {"A", "q"}, {"a", "a+b&=%é"}, {"mm[k]", "n"}, {"m", "plain"}, {"[k]", "bare"}, {"m]", "r"}, {"m[two words]", "2"}, {"a", " "}, {"b", "\t \n"}, {"m[k]x", "tail"}, {"m[k][j]", "deep"}, {"m[]", "none"}, {"m[k", "open"}, {"m[ k]", "blank"}, {"m[K]", "upper"}}

type c20Way struct {
	name, method, ct string
	body             string // form, multi, none
}

var c20Ways = []c20Way{
	{"GET", "GET", "", "none"},
	{"POST form", "POST", "application/x-www-form-urlencoded", "form"},
	{"PUT form with charset", "PUT", "application/x-www-form-urlencoded; charset=utf-8", "form"},
	{"PATCH multipart", "PATCH", "multi", "multi"},
	{"POST multipart", "POST", "multi", "multi"},
	{"DELETE form", "DELETE", "application/x-www-form-urlencoded", "ignored"},
	{"POST text", "POST", "text/plain", "ignored"},
	{"PATCH form", "PATCH", "application/x-www-form-urlencoded", "form"},
}

// encodePairs writes a form, style 0 as usual, 1 with every byte escaped, 2 mixed.
func encodePairs(ps []kv, style int) string {
	var sb strings.Builder
	esc := func(s string, i int) string {
		if style == 1 || style == 2 && i%2 == 1 {
			var o strings.Builder
			for j := 0; j < len(s); j++ {
				fmt.Fprintf(&o, "%%%02x", s[j])
			}
			return o.String()
		}
		return url.QueryEscape(s)
	}
	for i, p := range ps {
		if i > 0 {
			sb.WriteByte('&')
		}
		sb.WriteString(esc(p.k, i))
		if p.v != "" || style != 2 {
			sb.WriteString("=" + esc(p.v, i+1))
		}
	}
	return sb.String()
}

func encodeMulti(ps []kv) (string, []byte) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	w.SetBoundary("xxBOUNDxx")
	for _, p := range ps {
		f, _ := w.CreateFormField(p.k)
		f.Write([]byte(p.v))
	}
	w.Close()
	return w.FormDataContentType(), b.Bytes()
}

// wayReq builds the request and what its merged form is.
func wayReq(w c20Way, u, b []kv, style int) (*http.Request, map[string][]string) {
	query := encodePairs(u, style)
	var body []byte
	ct := w.ct
	switch w.body {
	case "form", "ignored":
		body = []byte(encodePairs(b, style))
	case "multi":
		ct, body = encodeMulti(b)
	}
	req := ReqBody(w.method, "/q", ct, body)
	req.URL.RawQuery = query
	var order []kv
	switch w.body {
	case "form":
		order = append(append(order, b...), u...)
	case "multi":
		order = append(append(order, u...), b...)
	default:
		order = u
	}
	form := map[string][]string{}
	for _, p := range order {
		form[p.k] = append(form[p.k], p.v)
	}
	return req, form
}

func trims(vs []string) []string {
	var o []string
	for _, v := range vs {
		o = append(o, strings.TrimSpace(v))
	}
	return o
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func formMap(form map[string][]string, name string) map[string]string {
	o := map[string]string{}
	for k, vs := range form {
		if rest := strings.TrimPrefix(k, name+"["); rest != k && strings.HasSuffix(rest, "]") && strings.IndexByte(rest, ']') == len(rest)-1 && len(rest) > 1 && name != "" && !strings.Contains(name, "[") {
			o[rest[:len(rest)-1]] = strings.TrimSpace(vs[0])
		}
	}
	return o
}

// c20Ask calls one accessor and compares.
func c20Ask(ctx *water.Context, form map[string][]string, acc int, n string) string {
	vs, has := form[n]
	switch acc {
	case 0:
		want := ""
		if has {
			want = strings.TrimSpace(vs[0])
		}
		if got := ctx.Query(n); got != want {
			return fmt.Sprintf("Query(%q) is %q, expected %q", n, got, want)
		}
	case 1:
		got := ctx.QueryArray(n)
		if !sameStrings(got, trims(vs)) {
			return fmt.Sprintf("QueryArray(%q) is %q, expected %q", n, got, trims(vs))
		}
		for i := range got {
			got[i] = "OVERWRITTEN"
		}
	case 2:
		got := ctx.QueryMap(n)
		want := formMap(form, n)
		if !sameMap(got, want) {
			return fmt.Sprintf("QueryMap(%q) is %q, expected %q", n, mapStr(got), mapStr(want))
		}
		for k := range got {
			got[k] = "OVERWRITTEN"
		}
	case 3:
		want := "DEFAULT"
		if has {
			want = strings.TrimSpace(vs[0])
		}
		if got := ctx.DefaultQuery(n, "DEFAULT"); got != want {
			return fmt.Sprintf("DefaultQuery(%q) is %q, expected %q", n, got, want)
		}
	case 4:
		want := []string{"D1", " D2"}
		if has {
			want = trims(vs)
		}
		got := ctx.DefaultQueryArray(n, []string{"D1", " D2"})
		if !sameStrings(got, want) {
			return fmt.Sprintf("DefaultQueryArray(%q) is %q, expected %q", n, got, want)
		}
		for i := range got {
			got[i] = "OVERWRITTEN"
		}
	case 5:
		want := formMap(form, n)
		if len(want) == 0 {
			want = map[string]string{"d": "D"}
		}
		got := ctx.DefaultQueryMap(n, map[string]string{"d": "D"})
		if !sameMap(got, want) {
			return fmt.Sprintf("DefaultQueryMap(%q) is %q, expected %q", n, mapStr(got), mapStr(want))
		}
		for k := range got {
			got[k] = "OVERWRITTEN"
		}
	}
	return ""
}

var c20Names = []string{"a", "b", "m", "mm", "A", "zz", "m[k]", "m["}

func c20Body(pairs []kv, ways []c20Way, nu, nb int, pre int) Body {
	return func(c *C) {
		way := PickS(c, ways)
		u := Seq(c, nu, pairs)
		var b []kv
		if way.body != "none" {
			b = Seq(c, nb, pairs)
		}
		style := c.Choose(3)
		if style == 2 {
			for _, p := range append(append([]kv(nil), u...), b...) { // the bare spelling of an empty value
				_ = p
			}
		}
		first := 0
		if pre > 0 {
			first = c.Choose(pre)
		} else {
			first = len(u) + len(b)
		}
		req, form := wayReq(way, u, b, style)
		desc := fmt.Sprintf("%s, url %q, body %q, encoding %d, first %d", way.name, u, b, style, first)
		ran := false
		var bad string
		r := water.NewRouter()
		h := func(ctx *water.Context) {
			ran = true
			switch first {
			case 6:
				ctx.ParseFormOrMultipartForm()
			case 7:
				var x struct {
					A string `form:"a"`
				}
				ctx.Bind(&x)
			case 8:
				if way.body == "multi" {
					ctx.FormFile("none")
				}
			}
			for round := 0; round < 2 && bad == ""; round++ {
				for i := 0; i < 6 && bad == ""; i++ {
					for _, n := range c20Names {
						if bad = c20Ask(ctx, form, (i+first)%6, n); bad != "" {
							bad += fmt.Sprintf(" (round %d)", round)
							break
						}
						c.Step()
					}
				}
			}
		}
		for _, m := range []string{"GET", "POST", "PUT", "PATCH", "DELETE"} {
			regMethod(r, m, "/q", h)
		}
		_, p := Serve(r.Handler(), req)
		if p != nil {
			c.Failf("panic", "%s: %v", desc, p)
		} else if !ran {
			c.Failf("none", "%s: the handler did not run", desc)
		} else if bad != "" {
			c.Failf("value", "%s: %s", desc, bad)
		}
		c.State(fmt.Sprint(way.name, form))
		c.Outcome(fmt.Sprint(way.body, len(form)))
	}
}

func init() {
	register(&Prop{ID: "C20", Scopes: []Scope{
		{Name: "orders", Desc: "one URL and one body pair out of 23 x 8 ways to send them x 3 encodings x 9 first calls, then every accessor for 8 names twice, overwriting what it returned", Body: c20Body(c20Pairs, c20Ways, 1, 1, 9), Split: 3},
		{Name: "pairs", Desc: "up to 2 URL pairs and up to 2 body pairs out of 9 x 8 ways x 3 encodings", Body: c20Body([]kv{c20Pairs[0], c20Pairs[1], c20Pairs[2], c20Pairs[3], c20Pairs[4], c20Pairs[5], c20Pairs[9], c20Pairs[17], c20Pairs[18]}, c20Ways, 2, 2, 0), Split: 4},
		{Name: "pairs-3", Desc: "up to 3 URL pairs and up to 2 body pairs out of 10", Body: c20Body(c20Pairs[:10:10], c20Ways, 3, 2, 0), Split: 4, Thorough: true},
		{Name: "pairs-all", Desc: "up to 2 URL pairs and up to 2 body pairs out of 23", Body: c20Body(c20Pairs, c20Ways, 2, 2, 0), Split: 4, Thorough: true},
	}})
}
