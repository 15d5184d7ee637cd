package props

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// Histories per guarantee: every sequence of a few requests, of kinds that concern it, to one
// engine. Whatever came before, each is answered as a fresh engine answers it, and, where the
// kind states it, as it has to be.

type hk struct {
	name   string
	method string
	req    func(r *http.Request, t string)
	do     func(ctx *water.Context, t string) string // what the handler saw
	exp    func(t string) string                     // what it has to see
	path   string                                    // asked instead of the own route
}

func hkBody(ct, body string) func(r *http.Request, t string) {
	return func(r *http.Request, t string) {
		x := ReqBody(r.Method, "/", strings.ReplaceAll(ct, "@", t), []byte(strings.ReplaceAll(body, "@", t)))
		r.Header.Set("Content-Type", x.Header.Get("Content-Type"))
		r.Body, r.ContentLength = x.Body, x.ContentLength
	}
}

func hkQuery(q string) func(r *http.Request, t string) {
	return func(r *http.Request, t string) { r.URL.RawQuery = strings.ReplaceAll(q, "@", t) }
}

func hkHeader(kvs ...string) func(r *http.Request, t string) {
	return func(r *http.Request, t string) {
		for i := 0; i < len(kvs); i += 2 {
			r.Header.Add(kvs[i], strings.ReplaceAll(kvs[i+1], "@", t))
		}
	}
}

func hkSays(s string) func(t string) string {
	return func(t string) string { return strings.ReplaceAll(s, "@", t) }
}

// histBody: sequences of n requests of the kinds; mount may add to the router first.
func histBody(n int, kinds []hk, mount func(r *water.Router)) Body {
	memo := map[string]string{}
	return func(c *C) {
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		static := c.Bool()
		same := c.Bool()
		var notes []string
		build := func() *water.Engine {
			r := water.NewRouter()
			if mount != nil {
				mount(r)
			}
			for i, k := range kinds {
				k := k
				if k.path != "" {
					continue
				}
				m := k.method
				if m == "" {
					m = "GET"
				}
				regMethod(r, m, fmt.Sprintf("/h%d/:tag", i), func(ctx *water.Context) {
					notes = append(notes, k.do(ctx, ctx.Param("tag")))
				})
			}
			return r.Handler(water.WithStaticRouter(static))
		}
		ask := func(e *water.Engine, i int, t string) string {
			k := kinds[i]
			m := k.method
			if m == "" {
				m = "GET"
			}
			req := Req(m, fmt.Sprintf("/h%d/%s", i, t))
			if k.path != "" {
				req = Req(m, strings.ReplaceAll(k.path, "@", t))
			}
			if k.req != nil {
				k.req(req, t)
			}
			notes = nil
			out := outcomeOf(e, req)
			return out + " saw " + strings.Join(notes, "; ")
		}
		e := build()
		var names []string
		for i := 0; i < n; i++ {
			k := c.Choose(len(kinds))
			tag := string(rune('a'+i)) + strings.Repeat("t", i)
			if same {
				tag = "at"
			}
			got := ask(e, k, tag)
			gotNotes := strings.Join(notes, "; ")
			c.Step()
			mk := fmt.Sprint(static, k, tag)
			want, ok := memo[mk]
			if !ok {
				want = ask(build(), k, tag)
				memo[mk] = want
			}
			if got != want {
				c.Failf("history", "static=%v: after %v the request %q is answered\n %s\nby a fresh engine\n %s", static, names, kinds[k].name, clip(got, 900), clip(want, 900))
				return
			}
			if kinds[k].exp != nil && gotNotes != kinds[k].exp(tag) {
				c.Failf("history", "static=%v: after %v the handler of %q sees\n %s\nexpected\n %s", static, names, kinds[k].name, clip(gotNotes, 900), kinds[k].exp(tag))
				return
			}
			names = append(names, kinds[k].name)
			c.Outcome(kinds[k].name)
		}
		c.State(fmt.Sprint(static, same, names))
	}
}

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

func hkStatus(do func(ctx *water.Context, t string)) func(ctx *water.Context, t string) string {
	return func(ctx *water.Context, t string) string {
		a := sprintf("%v %d", ctx.Written(), ctx.Status())
		do(ctx, t)
		return a + sprintf(" then %v %d", ctx.Written(), ctx.Status())
	}
}

var hk11 = []hk{
	{name: "nothing", do: hkStatus(func(ctx *water.Context, t string) {}), exp: hkSays("false 0 then false 0")},
	{name: "204", do: hkStatus(func(ctx *water.Context, t string) { ctx.WriteHeader(204) }), exp: hkSays("false 0 then true 204")},
	{name: "twice", do: hkStatus(func(ctx *water.Context, t string) { ctx.WriteHeader(201); ctx.WriteHeader(500) }), exp: hkSays("false 0 then true 201")},
	{name: "body", do: hkStatus(func(ctx *water.Context, t string) { io.WriteString(ctx, t) }), exp: hkSays("false 0 then true 200")},
	{name: "empty body", do: hkStatus(func(ctx *water.Context, t string) { ctx.Write(nil) }), exp: hkSays("false 0 then true 200")},
	{name: "status and body", do: hkStatus(func(ctx *water.Context, t string) { ctx.WriteHeader(404); io.WriteString(ctx, t) }), exp: hkSays("false 0 then true 404")},
	{name: "304", do: hkStatus(func(ctx *water.Context, t string) { ctx.NotModified() }), exp: hkSays("false 0 then true 304")},
	{name: "string", do: hkStatus(func(ctx *water.Context, t string) { ctx.String(202, t) }), exp: hkSays("false 0 then true 202")},
	{name: "redirect", do: hkStatus(func(ctx *water.Context, t string) { ctx.Found("/" + t) }), exp: hkSays("false 0 then true 302")},
	{name: "head", method: "HEAD", do: hkStatus(func(ctx *water.Context, t string) { ctx.String(203, t) }), exp: hkSays("false 0 then true 203")},
	{name: "std", do: hkStatus(func(ctx *water.Context, t string) { http.Error(ctx, t, 418) }), exp: hkSays("false 0 then true 418")},
	{name: "panic", do: func(ctx *water.Context, t string) string { ctx.WriteHeader(206); panic(t) }},
}

type hk12J struct {
	A string
	B []int
}

func hkDo(do func(ctx *water.Context, t string)) func(ctx *water.Context, t string) string {
	return func(ctx *water.Context, t string) string { do(ctx, t); return "" }
}

var hk12 = []hk{
	{name: "string", do: hkDo(func(ctx *water.Context, t string) { ctx.String(200, t+"é") })},
	{name: "json", do: func(ctx *water.Context, t string) string { return sprintf("%v", ctx.JSON(201, hk12J{t + "<&>", []int{len(t)}})) }, exp: hkSays("<nil>")},
	{name: "json big", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.JSON(200, hk12J{strings.Repeat(t, 5000), nil}))
	}, exp: hkSays("<nil>")},
	{name: "json bad", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.JSON(200, []interface{}{t, make(chan int)}) != nil)
	}, exp: hkSays("true")},
	{name: "json nil", do: func(ctx *water.Context, t string) string { return sprintf("%v", ctx.JSON(200, nil)) }},
	{name: "xml", do: func(ctx *water.Context, t string) string { return sprintf("%v", ctx.XML(202, hk12J{t + "<&>", []int{len(t)}})) }, exp: hkSays("<nil>")},
	{name: "xml bad", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.XML(200, []interface{}{t, make(chan int)}) != nil)
	}, exp: hkSays("true")},
	{name: "html", do: hkDo(func(ctx *water.Context, t string) { ctx.HTMLRaw(203, "<p>"+t) })},
	{name: "data", do: hkDo(func(ctx *water.Context, t string) { ctx.Data(206, "image/"+t, []byte("\x00"+t)) })},
	{name: "stream", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.Stream("text/"+t, strings.NewReader(strings.Repeat(t, 20000))))
	}, exp: hkSays("<nil>")},
	{name: "abort", do: hkDo(func(ctx *water.Context, t string) { ctx.Abort(400 + len(t)) })},
	{name: "nocache", do: hkDo(func(ctx *water.Context, t string) { ctx.NoCache(); ctx.SetHeader("X-"+t, t); ctx.MovedPermanently("/" + t) })},
}

func hk20See(ctx *water.Context, t string) string {
	return sprintf("a=%q as=%q m=%s b=%q n=%d", ctx.Query("a"), ctx.QueryArray("a"), mapStr(ctx.QueryMap("m")), ctx.Query("b"), len(ctx.Request.Form))
}

var hk20 = []hk{
	{name: "url", req: hkQuery("a=1@&a=2@&m[x]=@"), do: hk20See, exp: hkSays(`a="1@" as=["1@" "2@"] m=x="@" b="" n=2`)},
	{name: "none", do: hk20See, exp: hkSays(`a="" as=[] m= b="" n=0`)},
	{name: "post", method: "POST", req: hkBody("application/x-www-form-urlencoded", "a=p@&m[y]=@&m[z]=1"), do: hk20See, exp: hkSays(`a="p@" as=["p@"] m=y="@" z="1" b="" n=3`)},
	{name: "both", method: "PUT", req: func(r *http.Request, t string) {
		hkBody("application/x-www-form-urlencoded", "a=p@")(r, t)
		hkQuery("a=u@&b=@")(r, t)
	}, do: hk20See, exp: hkSays(`a="p@" as=["p@" "u@"] m= b="@" n=2`)},
	{name: "multipart", method: "POST", req: hkBody("multipart/form-data; boundary=BB", "--BB\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nm@\r\n--BB--\r\n"), do: hk20See, exp: hkSays(`a="m@" as=["m@"] m= b="" n=1`)},
	{name: "json body", method: "POST", req: hkBody("application/json", `{"a":"@"}`), do: hk20See, exp: hkSays(`a="" as=[] m= b="" n=0`)},
	{name: "broken", req: hkQuery("a=%zz&b=@"), do: hk20See},
	{name: "cut multipart", method: "POST", req: hkBody("multipart/form-data; boundary=BB", "--BB\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nm@"), do: hk20See},
	{name: "empty", req: hkQuery("a=&a=@&b"), do: hk20See, exp: hkSays(`a="" as=["" "@"] m= b="" n=2`)},
}

func hk21See(ctx *water.Context, t string) string {
	p := ctx.Params
	u := strings.TrimLeft(t, "abc")
	_ = u
	x, ex := water.Params{"n": ctx.Query("n")}.Int("n")
	y, ey := water.Params{"n": ctx.Query("n")}.Uint64("n")
	return sprintf("%d %v %d %v|%d %d %v %d", x, ex != nil, y, ey != nil, ctx.QueryInt("n"), ctx.QueryInt64("n"), ctx.QueryFloat64("n"), len(p))
}

var hk21 = []hk{
	{name: "good", req: hkQuery("n=17"), do: hk21See, exp: hkSays("17 false 17 false|17 17 17 1")},
	{name: "another", req: hkQuery("n=18"), do: hk21See, exp: hkSays("18 false 18 false|18 18 18 1")},
	{name: "negative", req: hkQuery("n=-5"), do: hk21See},
	{name: "bad", req: hkQuery("n=x"), do: hk21See},
	{name: "none", do: hk21See},
	{name: "huge", req: hkQuery("n=99999999999999999999"), do: hk21See},
	{name: "float", req: hkQuery("n=1.5"), do: hk21See},
	{name: "zero", req: hkQuery("n=0"), do: hk21See, exp: hkSays("0 false 0 false|0 0 0 1")},
}

func hk22See(ctx *water.Context, t string) string {
	return sprintf("ip %s proxy %q proto %s ajax %v ws %v ct %q ua %q h %q", ctx.RealIp(), ctx.Proxy(), ctx.Protocol(), ctx.IsAjax(), ctx.IsWebsocket(), ctx.ContentType(), ctx.UserAgent(), ctx.GetHeader("X-H"))
}

var hk22 = []hk{
	{name: "bare", do: hk22See},
	{name: "forwarded", req: hkHeader("X-Forwarded-For", "9.8.7.6, 5.5.5.5", "X-H", "@"), do: hk22See},
	{name: "real", req: hkHeader("X-Real-IP", "4.4.4.4"), do: hk22See},
	{name: "both", req: hkHeader("X-Real-IP", "4.4.4.5", "X-Forwarded-For", "9.8.7.5"), do: hk22See},
	{name: "other peer", req: func(r *http.Request, t string) { r.RemoteAddr = "[2001:db8::" + fmt.Sprint(len(t)) + "]:80" }, do: hk22See},
	{name: "https", req: hkHeader("X-Forwarded-Proto", "https", "User-Agent", "ua @"), do: hk22See},
	{name: "ajax", req: hkHeader("X-Requested-With", "XMLHttpRequest", "Content-Type", "text/@; charset=x"), do: hk22See},
	{name: "ws", req: hkHeader("Connection", "Upgrade", "Upgrade", "websocket"), do: hk22See},
	{name: "no address", req: func(r *http.Request, t string) { r.RemoteAddr = "" }, do: hk22See},
}

func hk23See(ctx *water.Context, t string) string {
	return sprintf("%q %q", ctx.Cookie("c"), ctx.Cookie("d"))
}

var hk23 = []hk{
	{name: "reads", req: hkHeader("Cookie", "c=@; d=2@"), do: hk23See, exp: hkSays(`"@" "2@"`)},
	{name: "reads one", req: hkHeader("Cookie", "d=x@"), do: hk23See, exp: hkSays(`"" "x@"`)},
	{name: "none", do: hk23See, exp: hkSays(`"" ""`)},
	{name: "sets", do: hkDo(func(ctx *water.Context, t string) { ctx.SetCookie("c", t) })},
	{name: "sets all", do: hkDo(func(ctx *water.Context, t string) { ctx.SetCookie("d", t, 60, "/"+t, "h."+t, true, true) })},
	{name: "sets some", do: hkDo(func(ctx *water.Context, t string) { ctx.SetCookie("d", t, 61); ctx.SetCookie("e", "v", 0, "/p") })},
	{name: "deletes", do: hkDo(func(ctx *water.Context, t string) { ctx.SetCookie("c", "", -1) })},
	{name: "escapes", req: hkHeader("Cookie", "c=%20@%3B"), do: hk23See},
}

func hkUpload(size int, boundary string, extra bool) func(r *http.Request, t string) {
	return func(r *http.Request, t string) {
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		w.SetBoundary(boundary)
		w.WriteField("v", "v"+t)
		f, _ := w.CreateFormFile("f", t+".bin")
		io.WriteString(f, t+strings.Repeat("x", size))
		if extra {
			f, _ := w.CreateFormFile("g", "g"+t)
			io.WriteString(f, "g"+t)
		}
		w.Close()
		r.Header.Set("Content-Type", w.FormDataContentType())
		r.Body, r.ContentLength = io.NopCloser(bytes.NewReader(b.Bytes())), int64(b.Len())
	}
}

func hk25See(ctx *water.Context, t string) string {
	s := ""
	for _, n := range []string{"f", "g"} {
		f, h, err := ctx.FormFile(n)
		if err != nil {
			s += "no " + n + " "
			continue
		}
		b, _ := io.ReadAll(f)
		f.Close()
		s += sprintf("%s %s %d %s ", n, h.Filename, h.Size, clip(string(b), 10))
		dst := filepath.Join(scratch(), "hk25")
		e := ctx.SaveUploadedFile(h, dst)
		d, _ := os.ReadFile(dst)
		s += sprintf("saved %v %v ", e == nil, bytes.Equal(b, d))
	}
	s += sprintf("v=%q", ctx.Query("v"))
	if ctx.Request.MultipartForm != nil {
		ctx.Request.MultipartForm.RemoveAll()
	}
	return s
}

func hk25Bind(ctx *water.Context, t string) string {
	var o struct {
		F  *multipart.FileHeader   `form:"f"`
		FS []*multipart.FileHeader `form:"f"`
		V  string                  `form:"v"`
	}
	err := ctx.Bind(&o)
	s := sprintf("%v %v %d %q", err != nil, o.F != nil, len(o.FS), o.V)
	if o.F != nil {
		s += o.F.Filename + fmt.Sprint(o.F.Size)
	}
	return s
}

var hk25 = []hk{
	{name: "small", method: "POST", req: hkUpload(10, "B1", false), do: hk25See},
	{name: "two", method: "POST", req: hkUpload(3, "B1", true), do: hk25See},
	{name: "large", method: "POST", req: hkUpload(40000, "B2", true), do: hk25See},
	{name: "bound", method: "PUT", req: hkUpload(20, "B1", true), do: hk25Bind},
	{name: "form", method: "POST", req: hkBody("application/x-www-form-urlencoded", "v=@&f=1"), do: hk25See, exp: hkSays(`no f no g v="@"`)},
	{name: "bound form", method: "POST", req: hkBody("multipart/form-data; boundary=B1", "--B1\r\nContent-Disposition: form-data; name=\"v\"\r\n\r\nm@\r\n--B1--\r\n"), do: hk25Bind, exp: hkSays(`false false 0 "m@"`)},
	{name: "none", do: hk25See, exp: hkSays(`no f no g v=""`)},
	{name: "cut", method: "POST", req: hkBody("multipart/form-data; boundary=B1", "--B1\r\nContent-Disposition: form-data; name=\"f\"; filename=\"x\"\r\n\r\nm@"), do: hk25See},
}

// targets with equal names and different rules

func hkBindA(ctx *water.Context, t string) string {
	type T struct {
		A string   `form:"a" json:"a" xml:"a" binding:"required"`
		L []string `form:"l" json:"l" xml:"l"`
		P *int     `form:"p" json:"p" xml:"p"`
		D string   `form:"d,default=da" json:"d" xml:"d"`
	}
	var v T
	err := ctx.Bind(&v)
	return sprintf("A %q %q %v %q %v", v.A, v.L, v.P != nil, v.D, err != nil)
}

func hkBindB(ctx *water.Context, t string) string {
	type T struct {
		A string   `form:"b" json:"b" xml:"b"`
		L []string `form:"a" json:"l" xml:"l"`
		P *int     `form:"q" json:"p" xml:"p"`
		D string   `form:"d,default=db" json:"d" xml:"d"`
	}
	var v T
	err := ctx.Bind(&v)
	return sprintf("B %q %q %v %q %v", v.A, v.L, v.P != nil, v.D, err != nil)
}

func hkBindC(ctx *water.Context, t string) string {
	var v struct {
		A string   `form:"-" json:"-" xml:"-"`
		L []string `form:"l" json:"l" xml:"l" binding:"max=1"`
		P *int     `form:"p" json:"p" xml:"p" binding:"omitempty,gte=5"`
		D string   `form:"d" json:"d" xml:"d"`
	}
	v.D = "kept"
	err := ctx.BindWith(&v, binding.Form)
	return sprintf("C %q %q %v %q %v", v.A, v.L, v.P != nil, v.D, err != nil)
}

func hkBind2(ctx *water.Context, t string) string {
	type T struct {
		A string   `form:"a"`
		L []string `form:"l"`
		P *int     `form:"p"`
		D string   `form:"d,default=d2"`
	}
	v := T{D: "before"}
	err := binding.Query.Bind2(ctx.Request, &v)
	return sprintf("2 %q %q %v %q %v", v.A, v.L, v.P != nil, v.D, err != nil)
}

func hkTime(layout string) func(ctx *water.Context, t string) string {
	return func(ctx *water.Context, t string) string {
		var v1 struct {
			T time.Time `form:"t" time_format:"2006-01-02" time_utc:"1"`
		}
		var v2 struct {
			T time.Time `form:"t" time_format:"02.01.2006" time_location:"Asia/Tokyo"`
		}
		var v3 struct {
			T time.Time `form:"t" time_format:"unix"`
		}
		var v4 struct {
			T time.Time `form:"t"`
		}
		var v5 struct {
			T time.Time `form:"t" time_format:"2006-01-02" time_location:"America/New_York"`
		}
		var v6 struct {
			T time.Duration `form:"t"`
		}
		var o interface{}
		switch layout {
		case "utc":
			o = &v1
		case "tokyo":
			o = &v2
		case "unix":
			o = &v3
		case "default":
			o = &v4
		case "ny":
			o = &v5
		default:
			o = &v6
		}
		var err error
		if o == interface{}(&v6) { // texts with units: the second way of binding
			err = binding.Query.Bind2(ctx.Request, o)
		} else {
			err = ctx.Bind(o)
		}
		d := []time.Time{v1.T, v2.T, v3.T, v4.T, v5.T}
		var u []int64
		for _, x := range d {
			if !x.IsZero() {
				u = append(u, x.Unix())
			}
		}
		return sprintf("%s %v %v %v", layout, u, v6.T, err != nil)
	}
}

var hk27 = []hk{
	{name: "A", req: hkQuery("a=@&l=1@&l=2@&p=7"), do: hkBindA, exp: hkSays(`A "@" ["1@" "2@"] true "da" false`)},
	{name: "A without", req: hkQuery("l=1@&d=x"), do: hkBindA, exp: hkSays(`A "" ["1@"] false "x" true`)},
	{name: "B", req: hkQuery("a=@&b=1@&q=x"), do: hkBindB},
	{name: "B of A", req: hkQuery("a=@&l=1@&l=2@&p=7"), do: hkBindB, exp: hkSays(`B "" ["@"] false "db" false`)},
	{name: "C", req: hkQuery("a=@&l=1@&p=7"), do: hkBindC, exp: hkSays(`C "" ["1@"] true "kept" false`)},
	{name: "C too many", req: hkQuery("l=1@&l=2@&p=4&d="), do: hkBindC, exp: hkSays(`C "" ["1@" "2@"] true "" true`)},
	{name: "2", req: hkQuery("a=@&p=3"), do: hkBind2, exp: hkSays(`2 "@" [] true "d2" false`)},
	{name: "json", method: "POST", req: hkBody("application/json", `{"a":"@","l":["@"],"p":1}`), do: hkBindA, exp: hkSays(`A "@" ["@"] true "" false`)},
	{name: "json B", method: "POST", req: hkBody("application/json", `{"a":"@","b":"b@"}`), do: hkBindB, exp: hkSays(`B "b@" [] false "" false`)},
	{name: "json bad", method: "POST", req: hkBody("application/json", `{"a":"@","p":"x"`), do: hkBindA},
	{name: "xml", method: "POST", req: hkBody("text/xml", `<r><a>@</a><l>1@</l></r>`), do: hkBindA, exp: hkSays(`A "@" ["1@"] false "" false`)},
	{name: "form", method: "PATCH", req: hkBody("application/x-www-form-urlencoded", "a=@&p=9&d=@"), do: hkBindA, exp: hkSays(`A "@" [] true "@" false`)},
	{name: "empty", method: "POST", req: hkBody("application/json", ""), do: hkBindB},
}

var hk31 = []hk{
	{name: "utc", req: hkQuery("t=2020-03-04"), do: hkTime("utc"), exp: hkSays("utc [1583280000] 0s false")},
	{name: "ny", req: hkQuery("t=2020-03-04"), do: hkTime("ny"), exp: hkSays("ny [1583298000] 0s false")},
	{name: "tokyo", req: hkQuery("t=04.03.2020"), do: hkTime("tokyo"), exp: hkSays("tokyo [1583247600] 0s false")},
	{name: "tokyo wrong", req: hkQuery("t=2020-03-04"), do: hkTime("tokyo"), exp: hkSays("tokyo [] 0s true")},
	{name: "unix", req: hkQuery("t=1583280001"), do: hkTime("unix"), exp: hkSays("unix [1583280001] 0s false")},
	{name: "default", req: hkQuery("t=2020-03-04T00:00:02Z"), do: hkTime("default"), exp: hkSays("default [1583280002] 0s false")},
	{name: "default wrong", req: hkQuery("t=2020-03-04"), do: hkTime("default"), exp: hkSays("default [] 0s true")},
	{name: "duration", req: hkQuery("t=90s"), do: hkTime("duration"), exp: hkSays("duration [] 1m30s false")},
	{name: "none", do: hkTime("utc"), exp: hkSays("utc [] 0s false")},
	{name: "other day", req: hkQuery("t=2020-07-04"), do: hkTime("ny"), exp: hkSays("ny [1593835200] 0s false")},
}

var hkFiles = []hk{
	{name: "file", path: "/static/f.txt"},
	{name: "file of the other", path: "/other/f.txt"},
	{name: "missing", path: "/static/@.txt"},
	{name: "index", path: "/static/idx/"},
	{name: "index slash", path: "/static/idx"},
	{name: "directory", path: "/static/dir/"},
	{name: "above", path: "/static/../secret@"},
	{name: "head", path: "/static/big.bin", method: "HEAD"},
	{name: "range", path: "/static/big.bin", req: func(r *http.Request, t string) { r.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", len(t), 9*len(t))) }},
	{name: "tag", path: "/static/f.txt", req: func(r *http.Request, t string) {
		r.Header.Set("If-None-Match", water.GenerateETag2(time.Unix(1600000000, 0), 12, "f.txt"))
	}},
	{name: "since", path: "/other/f.txt", req: hkHeader("If-Modified-Since", time.Unix(1600000000, 0).UTC().Format(http.TimeFormat))},
	{name: "empty", path: "/other/empty.txt"},
	{name: "single", path: "/one"},
	{name: "post", path: "/static/f.txt", method: "POST"},
}

func hkFilesMount(r *water.Router) {
	dir := fixtureDir()
	r.StaticAdvance(&water.StaticOptions{Prefix: "/static", FileSystem: http.Dir(dir), ETag: water.ETagType2, Expires: func() string { return "never" }})
	r.StaticAdvance(&water.StaticOptions{Prefix: "/other", FileSystem: http.Dir(dir), ETag: water.ETagType1, IndexFile: "f.txt"})
	r.StaticFile("/one", filepath.Join(dir, "f.txt"))
}

var hk32 = []hk{
	{name: "download", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.Download(filepath.Join(fixtureDir(), "f.txt")))
	}, exp: hkSays("<nil>")},
	{name: "inline", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.Download(filepath.Join(fixtureDir(), "idx", "index.html"), true))
	}, exp: hkSays("<nil>")},
	{name: "missing", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.Download(filepath.Join(fixtureDir(), "no"+t)) != nil)
	}, exp: hkSays("true")},
	{name: "directory", do: func(ctx *water.Context, t string) string {
		return sprintf("%v", ctx.Download(filepath.Join(fixtureDir(), "dir")) != nil)
	}},
	{name: "attachment", do: hkDo(func(ctx *water.Context, t string) {
		ctx.Attachment("né "+t+".txt", time.Unix(1600000000, 0), strings.NewReader("att "+t))
	})},
	{name: "attachment inline", do: hkDo(func(ctx *water.Context, t string) {
		ctx.Attachment(t+".bin", time.Time{}, strings.NewReader(strings.Repeat(t, 3000)), true)
	})},
	{name: "range", req: hkHeader("Range", "bytes=2-4"), do: hkDo(func(ctx *water.Context, t string) { ctx.Download(filepath.Join(fixtureDir(), "f.txt")) })},
	{name: "file", do: hkDo(func(ctx *water.Context, t string) { ctx.File(filepath.Join(fixtureDir(), "dir", "x.bin")) })},
	{name: "string", do: hkDo(func(ctx *water.Context, t string) { ctx.String(200, t) })},
}

func hk09See(ctx *water.Context, t string) string {
	return sprintf("%s %v", ctx.FullPath(), strings.HasPrefix(ctx.HandlerName(), "verif/mc/props."))
}

// hkChains for the onion: chains of several lengths on one engine.
func hkChains(r *water.Router) {
	log := func(ctx *water.Context, s string) { ctx.Header().Add("X-Log", s) }
	mw := func(name string, next bool) func(ctx *water.Context) {
		return func(ctx *water.Context) {
			log(ctx, name)
			if next {
				ctx.Next()
				log(ctx, name+"'")
			}
		}
	}
	end := func(code int) func(ctx *water.Context) {
		return func(ctx *water.Context) {
			log(ctx, "end")
			if code > 0 {
				ctx.WriteHeader(code)
			}
		}
	}
	boom := func(ctx *water.Context) { log(ctx, "boom"); panic("x") }
	r.GET("/c1/:t", end(201))
	r.GET("/c1n/:t", end(0))
	r.GET("/c2/:t", mw("a", true), end(202))
	r.GET("/c3/:t", mw("a", false), end(0), end(203))
	r.GET("/c3n/:t", mw("a", true), mw("b", true), mw("c", true))
	r.GET("/c4/:t", end(204), mw("a", true), end(200), end(200))
	r.GET("/c5/:t", mw("a", true), mw("b", false), mw("c", true), end(0), end(205))
	r.GET("/cb/:t", mw("a", true), boom, end(200))
	g := r.Group("/g")
	g.Use(mw("g1", true), mw("g2", false))
	g.GET("/:t", end(206))
	g.GET("/:t/x", end(0))
	r.GET("/cr/:t", water.Recovery(), mw("a", true), boom)
}

var hk10 = []hk{{name: "1", path: "/c1/@"}, {name: "1 silent", path: "/c1n/@"}, {name: "2", path: "/c2/@"}, {name: "3", path: "/c3/@"}, {name: "3 next", path: "/c3n/@"}, {name: "4 stopped", path: "/c4/@"},
	{name: "5", path: "/c5/@"}, {name: "panic", path: "/cb/@"}, {name: "group", path: "/g/@"}, {name: "group silent", path: "/g/@/x"}, {name: "recovered", path: "/cr/@"}, {name: "none", path: "/none/@"}}

// failing response writers


// c34Histories: a failing client does not change what the next one gets or how it is reported.
func c34Histories(c *C) {
	water.Status = water.Stable
	defer func() { water.Status = water.Dev }()
	dir := fixtureDir()
	big := strings.Repeat("0123456789", 8000)
	acts := []struct {
		name string
		do   func(ctx *water.Context) error
		body string
	}{
		{"json", func(ctx *water.Context) error { return ctx.JSON(200, big) }, `"` + big + `"`},
		{"xml", func(ctx *water.Context) error { return ctx.XML(200, big) }, "<string>" + big + "</string>"},
		{"stream", func(ctx *water.Context) error { return ctx.Stream("text/plain", strings.NewReader(big)) }, big},
		{"download", func(ctx *water.Context) error { return ctx.Download(filepath.Join(dir, "big.bin")) }, strings.Repeat("0123456789abcdef", 5000)},
		{"write", func(ctx *water.Context) error { _, err := ctx.Write([]byte(big)); return err }, big},
		{"body", func(ctx *water.Context) error {
			b, err := ctx.BodyBytes()
			if err == nil {
				_, err = ctx.Write(b)
			}
			return err
		}, big},
	}
	r := water.NewRouter()
	if c.Bool() {
		r.Use(water.Logger(), water.Recovery())
	}
	var got error
	for i := range acts {
		a := acts[i]
		r.POST(fmt.Sprintf("/a%d", i), func(ctx *water.Context) { got = a.do(ctx) })
	}
	e := r.Handler()
	desc := ""
	for n := 0; n < 3; n++ {
		k := c.Choose(len(acts))
		fault := c.Choose(3) // none, at once, after some
		rec := NewRec()
		req := ReqBody("POST", fmt.Sprintf("/a%d", k), "text/plain", []byte(big))
		switch fault {
		case 1:
			rec.FailAt = 0
		case 2:
			rec.FailAt, rec.Short = 5000, true
		}
		desc += fmt.Sprintf("%s with fault %d; ", acts[k].name, fault)
		got = nil
		_, _, p := Try(func() { e.ServeHTTP(rec, req) })
		c.Step()
		switch {
		case p:
			c.Failf("history", "%s panics", desc)
		case fault == 0 && (got != nil || rec.Body.String() != acts[k].body && !strings.HasSuffix(strings.TrimSpace(rec.Body.String()), acts[k].body)):
			c.Failf("history", "%s reports %v, delivers %d bytes %q", desc, got, rec.Body.Len(), clip(rec.Body.String(), 60))
		case fault > 0 && got == nil:
			c.Failf("history", "%s reports success after %d bytes", desc, rec.Body.Len())
		}
	}
	c.State(desc)
}

// c16Histories: what is logged of one request does not depend on others.
func c16Histories(n int) Body {
	return func(c *C) {
		mount := c.Choose(3)
		h := func(ctx *water.Context) {
			b, err := ctx.BodyString()
			ctx.String(200, fmt.Sprint(b, err == nil))
		}
		r := water.NewRouter()
		in := r
		switch mount {
		case 0:
			r.Use(water.Logger())
		case 1:
			r.Before(water.Logger())
		case 2:
			lg := water.Logger()
			g := r.Group("/")
			g.Use(lg)
			in = g
		}
		for _, m := range []string{"GET", "POST", "PUT"} {
			regMethod(in, m, "/log/:k", h)
		}
		in.GET("/quiet/:k", func(ctx *water.Context) {})
		in.GET("/boom/:k", water.Recovery(), func(ctx *water.Context) { panic("x") })
		e := r.Handler()
		water.Status = water.Stable
		defer func() { water.Status = water.Dev }()
		desc := fmt.Sprint("mount ", mount, ": ")
		for i := 0; i < n; i++ {
			mark := fmt.Sprintf("Mark%dk", i)
			body := `{"a":"` + mark + `"}`
			k := c.Choose(10)
			req := ReqBody("POST", "/log/u"+mark, "application/json", []byte(body))
			logged, status, answer := true, 200, body+"true"
			switch k {
			case 1:
				req = ReqBody("PUT", "/log/u"+mark, "text/plain", []byte(body))
				logged = false
			case 2:
				req = Req("GET", "/log/u"+mark)
				logged, answer = false, "true"
			case 3:
				req = ReqBody("POST", "/log/u"+mark, "application/json", nil)
				logged, answer = false, "true"
			case 4:
				water.LogHttpBody = false
				logged = false
			case 5:
				req = ReqBody("GET", "/boom/u"+mark, "application/json", []byte(body))
				answer, status = "", 500
			case 6:
				req = ReqBody("GET", "/quiet/u"+mark, "application/json; charset=utf-8", []byte(body))
				answer = ""
			case 7:
				body = `{"a":"` + mark + strings.Repeat(mark[4:], 3000) + `"}`
				req = ReqBody("POST", "/log/u"+mark, "application/json", []byte(body))
				answer = body + "true"
			case 8:
				req.Body = &chunkReader{data: []byte(body), chunk: 3, failAt: 8, err: errInjected}
				answer = body[:8] + "false"
				logged = false
			case 9:
				req.URL.RawQuery = "q=" + mark
				req.Header.Set("Trace-ID", "trace"+mark)
			}
			desc += fmt.Sprintf("%d ", k)
			lg := getLog()
			rec := NewRec()
			_, _, p := Try(func() { e.ServeHTTP(rec, req) })
			water.LogHttpBody = true
			text := lg.text()
			c.Step()
			if p {
				c.Failf("history", "%s: panics", desc)
				return
			}
			if got := rec.Body.String(); got != answer && !(answer == "" || k == 8 && strings.HasSuffix(got, "false")) {
				c.Failf("history", "%s: answered %q, expected %q", desc, clip(got, 200), clip(answer, 200))
				return
			}
			var line string
			for _, l := range strings.Split(text, "\n") {
				if strings.Contains(l, "/u"+mark) {
					line = l
				}
			}
			if line == "" || !strings.Contains(line, fmt.Sprintf(" %d ", status)) && k != 6 {
				c.Failf("history", "%s: logged %q", desc, clip(text, 400))
				return
			}
			if strings.Contains(text, body) != logged {
				c.Failf("history", "%s: body logged: %v, in %q", desc, !logged, clip(text, 400))
				return
			}
			for j := 0; j < n; j++ {
				if o := fmt.Sprintf("Mark%dk", j); j != i && strings.Contains(text, o) {
					c.Failf("history", "%s: the line of request %d tells of request %d: %q", desc, i, j, clip(text, 400))
					return
				}
			}
		}
		c.State(desc)
	}
}

func init() {
	add := func(id string, n int, kinds []hk, mount func(r *water.Router), what string) {
		addScopes(id, Scope{Name: "histories", Desc: fmt.Sprintf("every history of %d requests of %d kinds (%s) to one engine, with equal or different contents: each answered as by a fresh engine", n, len(kinds), what), Body: histBody(n, kinds, mount), Split: 3},
			Scope{Name: "histories-4", Desc: fmt.Sprintf("every history of %d requests of these kinds", n+1), Body: histBody(n+1, kinds, mount), Split: 4, Thorough: true})
	}
	add("C10", 3, hk10, hkChains, "chains of 1 to 5 handlers with and without Next and writes, panics, groups")
	add("C11", 3, hk11, nil, "silent, status, body, both, twice, redirect, HEAD, panic")
	add("C12", 3, hk12, nil, "every helper, with and without failure, small and large")
	add("C18", 3, hkFiles, hkFilesMount, "files of two roots, indexes, directories, missing, HEAD, ranges, validators")
	add("C20", 3, hk20, nil, "values in the URL, the body, both, multipart, none, broken")
	add("C21", 3, hk21, nil, "good, bad, missing and extreme numbers")
	add("C22", 3, hk22, nil, "requests with and without each header")
	add("C23", 3, hk23, nil, "requests that carry cookies or set them with various attributes")
	add("C25", 3, hk25, nil, "small and large uploads, forms, cut forms, read, saved and bound")
	add("C26", 3, hk27, nil, "JSON, XML, form and query into targets of equal name and different fields")
	add("C27", 3, append(append([]hk{}, hk27[:7]...), hk31[4], hk31[7]), nil, "targets of equal name and different fields, numbers and durations")
	add("C28", 3, hk27, nil, "JSON, XML, form and query into targets of equal name and different fields")
	add("C29", 3, hk27, nil, "good and broken bodies")
	add("C30", 3, hk27, nil, "targets of equal name and different rules, kept and broken")
	add("C31", 3, hk31, nil, "dates of 5 layouts and locations, durations, misfits")
	add("C32", 3, hk32, nil, "downloads, attachments, inline, missing, ranges")
	add("C36", 2, hkFiles, hkFilesMount, "files, missing, directories")
	addScopes("C34", Scope{Name: "histories", Desc: "every history of 3 of 6 ways of answering or reading x no fault, at once, after some bytes; with or without logger and recovery", Body: c34Histories, Split: 3})
	addScopes("C16", Scope{Name: "histories", Desc: "every history of 3 requests of 10 kinds (JSON, text, none, empty, logging off, panic, large, failing body, trace) x 3 mounts: the line of each tells of it alone", Body: c16Histories(3), Split: 3},
		Scope{Name: "histories-4", Desc: "every history of 4 of these", Body: c16Histories(4), Split: 3, Thorough: true})
}
