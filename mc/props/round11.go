package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// ---- C13: requests that are over, carry broken bodies, or come in unusual shapes

type failBody struct{ err error }

func (b failBody) Read([]byte) (int, error) { return 0, b.err }
func (b failBody) Close() error             { return b.err }

func c13Requests(c *C) {
	water.Status = Pick(c, water.Stable, water.Dev)
	defer func() { water.Status = water.Dev }()
	shape := c.Choose(14)
	wrote := c.Choose(4)
	before := c.Bool()
	val := c.Choose(5)
	req := Req(Pick(c, "GET", "POST"), "/p")
	ctx0 := context.Background()
	var cancel context.CancelFunc = func() {}
	switch shape {
	case 1:
		ctx0, cancel = context.WithCancel(ctx0)
		cancel()
	case 2:
		ctx0, cancel = context.WithDeadline(ctx0, time.Unix(1, 0))
	case 3, 4: // cancelled by the handler
		ctx0, cancel = context.WithCancel(ctx0)
	case 5:
		req.Body = failBody{errors.New("reset")}
	case 6:
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
	case 7:
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
	case 8:
		req.Header.Set("Connection", "close")
		req.Close = true
	case 9:
		req.Header.Set("Connection", "Upgrade")
		req.Header.Set("Upgrade", "websocket")
	case 10:
		req.Header.Set("Accept", "application/json")
		req.Header.Set("X-Requested-With", "XMLHttpRequest")
	case 11:
		req.Header.Set("Expect", "100-continue")
	case 12:
		req.Header.Set("User-Agent", "curl/8")
		req.Header.Set("Range", "bytes=0-1")
	case 13:
		req.RemoteAddr, req.Host = "", ""
	}
	defer cancel()
	req = req.WithContext(ctx0)
	h := func(ctx *water.Context) {
		switch wrote {
		case 1:
			ctx.WriteHeader(202)
		case 2:
			ctx.Write([]byte("part"))
		case 3:
			ctx.SetHeader("X-A", "1")
		}
		if shape == 3 {
			cancel()
		}
		switch val {
		case 0:
			panic("v")
		case 1:
			panic(errors.New("e"))
		case 2:
			panic(context.Canceled)
		case 3:
			panic(ctx.Request.Context().Err() == nil)
		case 4:
			defer cancel()
			var m map[string]int
			m["x"] = 1
		}
	}
	r := water.NewRouter()
	later := 0
	last := func(ctx *water.Context) { later++ }
	if before {
		r.Before(water.Recovery())
	} else {
		r.Use(water.Recovery())
	}
	r.GET("/p", h, last)
	r.POST("/p", h, last)
	r.GET("/ok", func(ctx *water.Context) { ctx.String(200, "fine") })
	e := r.Handler()
	rec, p := Serve(e, req)
	c.Step()
	want := []int{500, 202, 200, 500}[wrote]
	if p != nil || rec.Status != want || later > 0 {
		c.Failf("requests", "request %d, value %d, sent before %d, in Before %v: escapes %v, status %d instead of %d, later handlers %d", shape, val, wrote, before, p != nil, rec.Status, want, later)
	}
	rec, p = Serve(e, Req("GET", "/ok"))
	c.Step()
	if p != nil || rec.Status != 200 || rec.Body.String() != "fine" {
		c.Failf("after", "request %d, value %d, sent before %d, in Before %v: the next request gets %d %q, panic %v", shape, val, wrote, before, rec.Status, rec.Body.String(), p)
	}
	c.State(fmt.Sprint(shape, wrote, before, val, water.Status, req.Method))
}

// ---- C17: every origin that is nearly the configured one

func c17Near(c *C) {
	conf := Pick(c, "http://a.example", "https://a.example:8443", "http://[::1]:80", "null", "app://x", "http://localhost")
	others := c.Choose(3)
	list := []string{conf}
	switch others {
	case 1:
		list = []string{"http://zz.example", conf}
	case 2:
		list = []string{conf, conf + "x.net"}
	}
	var asked []string
	for _, tail := range []string{"", ":80", ":443", ":8080", ":0", ":", "/", "/p", "?", "?q", "#", ".", ".evil.net", ":443.evil.net", "@evil.net", ",", ", " + conf, " " + conf, ";", "|", "%00", "\u00a0", "%2f", "*", "\\", ":443/", ":80/", ":443:80", "null"} {
		asked = append(asked, conf+tail)
	}
	for _, head := range []string{"http://", "https://", "//", "x", "evil.net/", "http://evil.net?", "http://evil.net#", "http://u@", "www.", "http://www.", ",", "null,", "*", ".", "w", "http://a", "view-source:", "HTTP://"} {
		asked = append(asked, head+conf)
	}
	for i := 0; i < len(conf); i++ {
		asked = append(asked, conf[:i]+conf[i+1:], conf[:i], conf[i:], conf[:i]+"*"+conf[i+1:], conf[:i]+"."+conf[i:], conf[:i]+strings.ToUpper(conf[i:i+1])+conf[i+1:], conf[:i]+"*", conf[:i]+string(conf[i])+conf[i:])
	}
	asked = append(asked, strings.ToUpper(conf), strings.ToLower(conf), strings.Replace(conf, "http:", "https:", 1), strings.Replace(conf, "https:", "http:", 1), strings.Replace(conf, "a.", "b.", 1),
		strings.Replace(conf, "a.", "sub.a.", 1), strings.Replace(conf, ":8443", "", 1), strings.Replace(conf, ":80", "", 1), strings.Replace(conf, "localhost", "127.0.0.1", 1), strings.Replace(conf, "://", "://*.", 1), strings.Replace(conf, "[::1]", "[0:0:0:0:0:0:0:1]", 1))
	origin := PickS(c, asked)
	meth := Pick(c, "GET", "OPTIONS")
	if origin == "" {
		c.Prune()
		return
	}
	exact := false
	for _, o := range list {
		exact = exact || o == origin
	}
	r := water.NewRouter()
	r.Use(water.CORS(water.CORSConfig{AllowOrigins: list, AllowCredentials: true}))
	r.ANY("/p", func(ctx *water.Context) { ctx.String(200, "x") })
	r.OPTIONS("/p", func(ctx *water.Context) { ctx.String(200, "x") })
	req := Req(meth, "/p")
	req.Header["Origin"] = []string{origin}
	if meth == "OPTIONS" {
		req.Header.Set("Access-Control-Request-Method", "PUT")
		req.Header.Set("Access-Control-Request-Private-Network", "true")
	}
	rec, p := Serve(r.Handler(), req)
	c.Step()
	got := strings.Join(rec.Snap["Access-Control-Allow-Origin"], "|")
	want := ""
	if exact {
		want = origin
	}
	if p != nil || got != want {
		c.Failf("near", "origins %q, %s with Origin %q: allowed origin %q, panic %v", list, meth, origin, got, p)
	}
	for k := range rec.Snap {
		switch k {
		case "Access-Control-Allow-Origin", "Access-Control-Allow-Credentials", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers":
		default:
			if strings.HasPrefix(k, "Access-Control-") {
				c.Failf("near", "origins %q, %s with Origin %q: %s is sent and was not configured", list, meth, origin, k)
			}
		}
	}
	c.State(fmt.Sprint(list, meth, origin))
}

// ---- C29: long documents of every shape

func c29Vast(c *C) {
	n := Pick(c, 511, 1023, 4095, 8190, 16384, 32768, 40000, 65535, 65536, 131072, 300000)
	shape := c.Choose(6)
	flaw := c.Choose(5)
	chunk := Pick(c, 0, 4096, 1000)
	second := c.Bool()
	var doc string
	var obj, want interface{}
	switch shape {
	case 0:
		doc, obj, want = "["+strings.Repeat("1,", n-1)+"1]", new([]int), new([]int)
	case 1:
		doc, obj, want = `"`+strings.Repeat("s", n)+`"`, new(string), new(string)
	case 2:
		doc, obj, want = `{"a":"`+strings.Repeat("é", n/2)+`","b":[`+strings.Repeat("0,", n/4)+`0]}`, new(struct {
			A string `json:"a"`
			B []int  `json:"b"`
		}), new(struct {
			A string `json:"a"`
			B []int  `json:"b"`
		})
	case 3:
		doc, obj, want = "[1"+strings.Repeat(" ", n)+",2]", new([]int), new([]int)
	case 4:
		doc, obj, want = strings.Repeat(" ", n)+`["x"]`+strings.Repeat("\n", n), new([]string), new([]string)
	case 5:
		var sb strings.Builder
		sb.WriteString("{")
		for i := 0; i < n/16; i++ {
			fmt.Fprintf(&sb, `"k%d":%d,`, i, i)
		}
		sb.WriteString(`"z":0}`)
		doc, obj, want = sb.String(), new(map[string]int), new(map[string]int)
	}
	switch flaw {
	case 1:
		doc = strings.TrimSpace(doc)
		doc = doc[:len(doc)-1]
	case 2:
		doc = doc[:len(doc)/2]
	case 3:
		doc += "]"
	case 4:
		doc += " {}"
	}
	werr := json.Unmarshal([]byte(doc), want)
	req := ReqBody("POST", "/b", "application/json", []byte(doc))
	if chunk > 0 {
		req.Body = &chunkReader{data: []byte(doc), chunk: chunk, failAt: -1}
		req.ContentLength = -1
	}
	var err error
	p := quiet(func() {
		if second {
			c29Eng(func(ctx *water.Context) { err = ctx.BindWith(obj, binding.JSON) }).ServeHTTP(&nullW{}, req)
		} else {
			err = binding.JSON.Bind(req, obj)
		}
	})
	c.Step()
	if p || (err != nil) != (werr != nil) || err == nil && !reflect.DeepEqual(obj, want) {
		c.Failf("vast", "a JSON document of shape %d and size %d (%d bytes) with flaw %d, in chunks of %d, context %v: panic %v, error %v instead of %v, right value %v", shape, n, len(doc), flaw, chunk, second, p, err != nil, werr != nil, reflect.DeepEqual(obj, want))
	}
	c.State(fmt.Sprint(n, shape, flaw, chunk, second))
}

// ---- C30: arrays of every small length

type c30El struct {
	A string `json:"a" form:"a" binding:"required"`
}

func c30Arrays(c *C) {
	n := c.Choose(6)
	bad := c.Choose(n + 1) // n: none
	inner := c.Choose(5)
	way := c.Choose(4)
	wrap := c.Choose(4)
	el := reflect.TypeOf(c30El{})
	one := func(ok bool) string {
		s := `{}`
		if ok {
			s = `{"a":"x"}`
		}
		switch inner {
		case 2:
			return "[" + s + "]"
		case 3:
			return `[{"a":"y"},` + s + "]"
		case 4:
			return "[" + s + "]"
		}
		return s
	}
	switch inner {
	case 1:
		el = reflect.PtrTo(el)
	case 2:
		el = reflect.ArrayOf(1, el)
	case 3:
		el = reflect.ArrayOf(2, el)
	case 4:
		el = reflect.SliceOf(el)
	}
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, one(i != bad))
	}
	doc := "[" + strings.Join(parts, ",") + "]"
	t := reflect.ArrayOf(n, el)
	switch wrap {
	case 1: // behind a pointer
		t = reflect.PtrTo(t)
	case 2: // in a list
		t = reflect.SliceOf(t)
		doc = "[" + doc + "]"
	case 3: // in an array
		t = reflect.ArrayOf(1, t)
		doc = "[" + doc + "]"
	}
	obj := reflect.New(t).Interface()
	var err error
	var p bool
	withValidator(valDefault, func() {
		p = quiet(func() {
			req := ReqBody("POST", "/b", "application/json", []byte(doc))
			switch way {
			case 0:
				err = binding.JSON.Bind(req, obj)
			case 1:
				c30Serve(req, func(ctx *water.Context) { err = ctx.Bind(obj) })
			case 2:
				c30Serve(req, func(ctx *water.Context) { err = ctx.BindWith(obj, binding.JSON) })
			case 3:
				if e := json.Unmarshal([]byte(doc), obj); e != nil {
					panic(e)
				}
				err = binding.Validator.ValidateStruct(obj)
			}
		})
	})
	c.Step()
	if p || (err != nil) != (bad < n) {
		c.Failf("arrays", "%s into %v, way %d: panic %v, error %v", doc, t, way, p, err)
	}
	c.State(fmt.Sprint(n, bad, inner, way, wrap))
}

// ---- C28: names that are nearly the field's

type c28NearT struct {
	Name string   `form:"name" header:"name" uri:"name"`
	ID   int      `form:"user_id" header:"user_id" uri:"user_id"`
	Tags []string `form:"tags" header:"tags" uri:"tags"`
	P    *string  `form:"k-s" header:"k-s" uri:"k-s"`
	D    string   `form:"d.e,default=dv" header:"d.e,default=dv" uri:"d.e,default=dv"`
	Sub  struct {
		X string `form:"x[y]" header:"x[y]" uri:"x[y]"`
	}
}

func c28Near(c *C) {
	src := c.Choose(5)
	second := c.Bool()
	names := []string{"name", "user_id", "tags", "k-s", "d.e", "x[y]"}
	fields := []string{"Name", "ID", "Tags", "P", "D", "X"}
	at := c.Choose(len(names))
	n := names[at]
	up := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	near := []string{strings.ToUpper(n), up(n), fields[at], strings.ToLower(fields[at]), n + "[]", n + "[0]", n + ".", "." + n, n + " ", " " + n, n + ":", n + "=", n + "&", n + ";", n + ",", n + ",default=x", n + "\x00", "\x00" + n, n + "1", n + "_",
		"_" + n, "-" + n, "Sub." + n, "sub." + n, "Sub[" + n + "]", "c28NearT." + n, "form:" + n, n + n, n + "." + n, n + "[" + n + "]", n[:len(n)-1], n[1:], "", " ", "*", "-", strings.NewReplacer("_", "-", "-", "_", ".", "_", "[", ".", "]", "").Replace(n),
		strings.NewReplacer("_", "", "-", "", ".", "", "[", "", "]", "").Replace(n), strings.NewReplacer("s", "\u017f", "k", "\u212a", "e", "\u0435").Replace(n), n + "\u200b", "\ufeff" + n, n + "\r", n + "\n", "\t" + n, n + "%20", n + "+", "a" + n[1:], n[:1] + n}
	key := PickS(c, near)
	for _, x := range names {
		if key == x || src == srcHeader && http.CanonicalHeaderKey(key) == http.CanonicalHeaderKey(x) {
			c.Prune()
			return
		}
	}
	if src == srcMulti && strings.ContainsAny(key, "\r\n\x00\"") {
		c.Prune()
		return
	}
	beside := c.Choose(3)
	prior := c.Bool()
	data := map[string][]string{key: {"5", "6"}}
	switch beside {
	case 1:
		data["zz"] = []string{"9"}
	case 2:
		for i, x := range names {
			if i != at {
				data[x] = []string{"7"}
			}
		}
	}
	var got, want c28NearT
	if prior {
		s := "was"
		got = c28NearT{Name: "was", ID: 3, Tags: []string{"was"}, P: &s, D: "was"}
		got.Sub.X = "was"
	}
	want = got
	want.Tags = append([]string(nil), got.Tags...)
	if beside == 2 {
		seven := "7"
		set := []func(){func() { want.Name = "7" }, func() { want.ID = 7 }, func() { want.Tags = []string{"7"} }, func() { want.P = &seven }, func() { want.D = "7" }, func() { want.Sub.X = "7" }}
		for i, f := range set {
			if i != at {
				f()
			}
		}
	}
	if _, ok := data["d.e"]; !ok {
		want.D = "dv"
	}
	text := func(v c28NearT) string {
		p := "nil"
		if v.P != nil {
			p = *v.P
		}
		return fmt.Sprintf("%q %d %q %s %q %q", v.Name, v.ID, v.Tags, p, v.D, v.Sub.X)
	}
	var err error
	p := quiet(func() { err = bindFrom(src, second, data, &got) })
	c.Step()
	if p || err != nil || text(got) != text(want) {
		c.Failf("near", "%s (Bind2 %v) of %q, held values %v: panic %v, error %v, binds %s instead of %s", srcNames[src], second, data, prior, p, err, text(got), text(want))
	}
	c.State(fmt.Sprint(src, second, key, at, beside, prior))
}

// ---- C20, C22: accessors leave the request as it is

func sortedPairs(m map[string][]string) string {
	var sb strings.Builder
	for _, k := range sortedNames(m) {
		fmt.Fprintf(&sb, "%q=%q;", k, m[k])
	}
	return sb.String()
}

func withQuery(r *http.Request, q string) *http.Request {
	r.URL.RawQuery = strings.TrimPrefix(q, "?")
	return r
}

func inertQuery(c *C) {
	req := func() *http.Request { return nil }
	q := Pick(c, "", "?a=%20x%20&a=y&b=1", "?a[k]=%20v%20&a[j]=w&a=%20", "?b=&B=2&a=%20%20")
	body := Pick(c, "", "a=%20bx&a[k]=%20bv&c=3", "b=%20true%20&b=7")
	how := c.Choose(4) // GET, POST form, PUT form, POST multipart
	if how == 0 && body != "" {
		c.Prune()
		return
	}
	req = func() *http.Request {
		switch how {
		case 0:
			return withQuery(Req("GET", "/p"), q)
		case 1:
			return withQuery(ReqBody("POST", "/p", "application/x-www-form-urlencoded", []byte(body)), q)
		case 2:
			return withQuery(ReqBody("PUT", "/p", "application/x-www-form-urlencoded; charset=utf-8", []byte(body)), q)
		}
		vs, _ := url.ParseQuery(body)
		var ps []kv
		for _, k := range sortedNames(vs) {
			for _, v := range vs[k] {
				ps = append(ps, kv{k, v})
			}
		}
		ct, b := encodeMulti(ps)
		return withQuery(ReqBody("POST", "/p", ct, b), q)
	}
	def, defM := []string{" d "}, map[string]string{"k": " d "}
	acc := []func(ctx *water.Context, n string){
		func(ctx *water.Context, n string) { ctx.Query(n) },
		func(ctx *water.Context, n string) { ctx.DefaultQuery(n, " d ") },
		func(ctx *water.Context, n string) {
			for i, l := 0, ctx.QueryArray(n); i < len(l); i++ {
				l[i] = "changed"
			}
		},
		func(ctx *water.Context, n string) {
			l := ctx.DefaultQueryArray(n, def)
			if len(l) > 0 && &l[0] != &def[0] {
				l[0] = "changed"
			}
		},
		func(ctx *water.Context, n string) { ctx.QueryMap(n)["k"] = "changed" },
		func(ctx *water.Context, n string) {
			m := ctx.DefaultQueryMap(n, defM)
			if reflect.ValueOf(m).Pointer() != reflect.ValueOf(defM).Pointer() {
				m["k"] = "changed"
			}
		},
		func(ctx *water.Context, n string) { ctx.QueryBool(n); ctx.QueryInt(n); ctx.QueryUint(n) },
		func(ctx *water.Context, n string) { ctx.QueryInt64(n); ctx.QueryUint64(n); ctx.QueryFloat64(n) },
		func(ctx *water.Context, n string) { ctx.DefaultQueryBool(n, "x"); ctx.DefaultQueryInt(n, "1") },
	}
	a1, a2 := c.Choose(len(acc)), c.Choose(len(acc))
	n1, n2 := Pick(c, "a", "b", "zz"), Pick(c, "a", "b")
	plain := req()
	if how == 3 {
		plain.ParseMultipartForm(1 << 20)
	} else {
		plain.ParseForm()
	}
	want := sortedPairs(plain.Form) + "|" + sortedPairs(plain.PostForm)
	got, hdr, wantHdr := "", "", sortedPairs(req().Header)
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		acc[a1](ctx, n1)
		acc[a2](ctx, n2)
		got = sortedPairs(ctx.Request.Form) + "|" + sortedPairs(ctx.Request.PostForm)
		hdr = sortedPairs(ctx.Request.Header)
		ctx.String(200, "x")
	}
	r.GET("/p", h)
	r.POST("/p", h)
	r.PUT("/p", h)
	use := req()
	if how == 3 { // the boundary is the request's own
		wantHdr = sortedPairs(use.Header)
	}
	_, p := Serve(r.Handler(), use)
	c.Step()
	if p != nil || got != want || hdr != wantHdr || def[0] != " d " || defM["k"] != " d " {
		c.Failf("inert", "%s %q, way %d, accessor %d of %q then %d of %q: panic %v, form %s instead of %s, headers %s instead of %s, defaults %q %q", q, body, how, a1, n1, a2, n2, p, got, want, hdr, wantHdr, def, defM["k"])
	}
	c.State(fmt.Sprint(q, body, how, a1, n1, a2, n2))
}

func inertMeta(c *C) {
	req := Req("GET", "/p")
	sets := map[string][][]string{
		"X-Forwarded-For":   {nil, {" 1.1.1.1 , 2.2.2.2"}, {"1.1.1.1", " 2.2.2.2 "}, {"", "unknown"}},
		"X-Real-Ip":         {nil, {" 3.3.3.3 "}},
		"Connection":        {nil, {"Keep-Alive, Upgrade"}, {"keep-alive", "UPGRADE"}},
		"Upgrade":           {nil, {"WebSocket"}},
		"X-Forwarded-Proto": {nil, {"HTTPS"}},
		"Content-Type":      {nil, {"application/json ; charset=x"}},
	}
	for _, k := range sortedSets(sets) {
		if v := sets[k][c.Choose(len(sets[k]))]; v != nil {
			req.Header[k] = append([]string(nil), v...)
		}
	}
	acc := []func(ctx *water.Context){
		func(ctx *water.Context) { ctx.RealIp() },
		func(ctx *water.Context) {
			for i, l := 0, ctx.Proxy(); i < len(l); i++ {
				l[i] = "changed"
			}
		},
		func(ctx *water.Context) { ctx.Protocol() },
		func(ctx *water.Context) { ctx.IsWebsocket(); ctx.IsAjax() },
		func(ctx *water.Context) { ctx.ContentType(); ctx.UserAgent(); ctx.GetHeader("x-forwarded-for") },
		func(ctx *water.Context) { ctx.Cookie("a"); ctx.CookieEscape("a") },
	}
	a1, a2 := c.Choose(len(acc)), c.Choose(len(acc))
	want := sortedPairs(req.Header) + req.RemoteAddr + req.URL.String()
	got := ""
	r := water.NewRouter()
	r.GET("/p", func(ctx *water.Context) {
		acc[a1](ctx)
		acc[a2](ctx)
		got = sortedPairs(ctx.Request.Header) + ctx.Request.RemoteAddr + ctx.Request.URL.String()
	})
	_, p := Serve(r.Handler(), req)
	c.Step()
	if p != nil || got != want {
		c.Failf("inert", "accessors %d and %d: panic %v, the request is %s instead of %s", a1, a2, p, got, want)
	}
	c.State(fmt.Sprint(want, a1, a2))
}

func sortedSets(m map[string][][]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	addScopes("C20", Scope{Name: "inert", Desc: "9 groups of accessors, two after each other, x 4 queries x 3 bodies x 4 ways: the form, the headers and the defaults given stay as they were, even when what was returned is changed", Body: inertQuery, Split: 3})
	addScopes("C22", Scope{Name: "inert", Desc: "6 groups of accessors, two after each other, x combinations of 6 headers: the request stays as it was, even when what was returned is changed", Body: inertMeta, Split: 3})
	addScopes("C28", Scope{Name: "near", Desc: "every name that is nearly a field's (49 edits of 6 names: case, brackets, blanks, separators, look-alikes, Go names) alone, beside another or beside all other fields; 5 sources, Bind and Bind2, with and without values held", Body: c28Near, Split: 3})
	addScopes("C13", Scope{Name: "requests", Desc: "14 requests (over, cancelled midway, broken body, other protocols, upgrades) x 5 values x 4 things sent before x Before or Use x modes, each followed by a normal request", Body: c13Requests, Split: 3})
	addScopes("C17", Scope{Name: "near", Desc: "6 configured origins alone or beside another x every origin that is nearly the same (suffixes, prefixes, every byte dropped, doubled, upper-cased or starred) x GET and preflight", Body: c17Near, Split: 2})
	addScopes("C29", Scope{Name: "vast", Desc: "JSON documents of 11 sizes up to 600 kB x 6 shapes x 4 flaws or none x 3 ways of arriving", Body: c29Vast, Split: 2})
	addScopes("C30", Scope{Name: "arrays", Desc: "arrays of 0 to 5 elements (structs, pointers, arrays of 1 and 2, lists) with the invalid one at each place or nowhere, plain, behind a pointer, in a list, in an array; 4 ways", Body: c30Arrays, Split: 3})
	_ = http.MethodGet
}
