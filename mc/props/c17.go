package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var c17Origins = [][]string{nil, {"*"}, {"http://a.example"}, {"http://a.example", "http://b.example"}, {"http://b.example", "*"}, {"*", "http://a.example"}, {"HTTP://A.example"}, {""}, {"http://a.example/"}, {"null"}, {"http://a.*"}, {"*.example"}, {}, {"http://a.example:8080", "https://b.example"}}
var c17Reqs = []string{"", "http://a.example", "http://b.example", "http://evil.example", "http://a.example.evil", "null", "HTTP://a.example", "http://a.exampl", "*", "http://a.example, http://b.example", "http://sub.a.example", "http://a.example:8080", "http://a.example:80", "https://a.example", "https://b.example", "http://a.example/", "http://A.EXAMPLE", " http://a.example", "a.example", "http://b.example:8080"}

// c17Body: full walks over every combination of configuration and request.
func c17Body(two bool) Body {
	return func(c *C) {
		cfg := water.CORSConfig{
			AllowOrigins:     PickS(c, c17Origins),
			AllowMethods:     Pick(c, nil, []string{"GET"}, []string{"GET", "PURGE", "x"}),
			AllowHeaders:     Pick(c, nil, []string{"X-A"}, []string{"X-A", "x-b"}),
			AllowCredentials: c.Bool(),
			ExposeHeaders:    Pick(c, nil, []string{"X-E"}, []string{"X-E", "X-F"}),
			MaxAge:           Pick(c, 0, 1, 604800, -1),
		}
		method := Pick(c, "GET", "POST", "OPTIONS", "HEAD", "DELETE")
		origin := PickS(c, c17Reqs)
		reqM := Pick(c, "", "PUT")
		reqH := Pick(c, "", "X-Req, X-Other")
		preset := false
		mount := 0
		if two {
			preset, mount = c.Bool(), c.Choose(6)
		} else {
			mount = (len(origin) + cfg.MaxAge + len(cfg.ExposeHeaders)) % 3
			if mount < 0 {
				mount = 0
			}
			preset = len(cfg.AllowMethods) == 1
			if len(reqM) > 0 != (method == "GET") {
				mount += 3
			}
		}
		c17Check(c, cfg, method, origin, reqM, reqH, preset, mount)
	}
}

// c17Check: what must be answered, from the configuration as it was given.
func c17Check(c *C, cfg water.CORSConfig, method, origin, reqM, reqH string, preset bool, mount int) {
	q := c17Req{method, origin, reqM, reqH}
	c17Requests(c, cfg, []c17Req{q, q}, preset, mount) // the second request must be answered like the first
}

type c17Req struct{ method, origin, reqM, reqH string }

// c17Requests: several requests to one engine, each answered by the configuration alone.
func c17Requests(c *C, cfg water.CORSConfig, reqs []c17Req, preset bool, mount int) {
	{
		ao := cfg.AllowOrigins
		if len(ao) == 0 {
			ao = []string{"*"}
		}
		am := cfg.AllowMethods
		if len(am) == 0 {
			am = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}
		}
		cfgIn := cfg
		cfgIn.AllowOrigins = append([]string(nil), cfg.AllowOrigins...)
		cors := water.CORS(cfgIn)
		ran, before := 0, 0
		silent := mount >= 3 // the rest of the chain answers nothing
		mount %= 3
		h := func(ctx *water.Context) {
			ran++
			ctx.SetHeader("X-Chain", "1")
			if !silent {
				ctx.String(201, "ok")
			}
		}
		after := ""
		outer := func(ctx *water.Context) {
			before++
			if preset {
				ctx.Header().Add("Vary", "Accept")
			}
			ctx.Next()
			after = fmt.Sprint(ctx.Written(), ctx.Status())
			if silent && !ctx.Written() {
				ctx.String(201, "ok")
			}
		}
		r := water.NewRouter()
		r.Use(outer)
		switch mount {
		case 0:
			r.Use(cors)
			r.ANY("/p", h)
			r.OPTIONS("/p", h)
			r.HEAD("/p", h)
		case 1:
			g := r.Group("/g")
			g.Use(cors)
			g.ANY("/p", h)
			g.OPTIONS("/p", h)
			g.HEAD("/p", h)
		case 2:
			r.ANY("/p", cors, h)
			r.OPTIONS("/p", cors, h)
			r.HEAD("/p", cors, h)
		}
		e := r.Handler()
		path := "/p"
		if mount == 1 {
			path = "/g/p"
		}
		for round, q := range reqs {
			method, origin, reqM, reqH := q.method, q.origin, q.reqM, q.reqH
			exact, star := false, false
			for _, o := range ao {
				if o == "*" {
					star = true
				}
				if o == origin && origin != "" {
					exact = true
				}
			}
			allowed := map[string]bool{}
			switch {
			case star && exact:
				allowed["*"], allowed[origin] = true, true
			case star:
				allowed["*"] = true
			case exact:
				allowed[origin] = true
			default:
				allowed[""] = true
			}
			ran, before = 0, 0
			req := Req(method, path)
			set := func(k, v string) {
				if v != "" {
					req.Header.Set(k, v)
				}
			}
			set("Origin", origin)
			set("Access-Control-Request-Method", reqM)
			set("Access-Control-Request-Headers", reqH)
			rec, p := Serve(e, req)
			c.Step()
			desc := fmt.Sprintf("config %s, %s Origin=%q Request-Headers=%q mount %d, request %d of %v", clip(fmt.Sprintf("%+v", cfg), 600), method, origin, reqH, mount, round, reqs)
			if p != nil {
				c.Failf("panic", "%s: %v", desc, p)
				return
			}
			h := rec.Snap
			if h == nil {
				c.Failf("none", "%s: no response", desc)
				return
			}
			one := func(k, want string, present bool) {
				got := h[http.CanonicalHeaderKey(k)]
				if !present && len(got) > 0 || present && (len(got) != 1 || !sameList(got[0], want)) {
					c.Failf(k, "%s: %s is %q, expected %q (present %v)", desc, k, got, want, present)
				}
			}
			got := strings.Join(h["Access-Control-Allow-Origin"], "|")
			if !allowed[got] || len(h["Access-Control-Allow-Origin"]) > 1 {
				c.Failf("origin", "%s: Access-Control-Allow-Origin is %q", desc, h["Access-Control-Allow-Origin"])
			}
			vary := strings.Join(h["Vary"], ",")
			if !hasToken(vary, "Origin") {
				c.Failf("vary", "%s: Vary is %q", desc, h["Vary"])
			}
			if preset && !hasToken(vary, "Accept") {
				c.Failf("vary", "%s: an earlier Vary is lost: %q", desc, h["Vary"])
			}
			one("Access-Control-Allow-Credentials", "true", cfg.AllowCredentials)
			if method == "OPTIONS" {
				if rec.Status != 204 || rec.Body.Len() != 0 || ran != 0 {
					c.Failf("preflight", "%s: status %d, body %q, later handlers ran %d times", desc, rec.Status, rec.Body.String(), ran)
				}
				one("Access-Control-Allow-Methods", strings.Join(am, ","), true)
				if len(cfg.AllowHeaders) > 0 {
					one("Access-Control-Allow-Headers", strings.Join(cfg.AllowHeaders, ","), true)
				} else {
					one("Access-Control-Allow-Headers", reqH, reqH != "")
					if v := h["Access-Control-Allow-Headers"]; len(v) == 1 && v[0] != reqH {
						c.Failf("echo", "%s: the requested headers %q are echoed as %q", desc, reqH, v[0])
					}
				}
				one("Access-Control-Max-Age", fmt.Sprint(cfg.MaxAge), cfg.MaxAge > 0)
			} else {
				if rec.Status != 201 || rec.Body.String() != "ok" || ran != 1 || before != 1 {
					c.Failf("simple", "%s: status %d, body %q, the handler ran %d times", desc, rec.Status, rec.Body.String(), ran)
				}
				if want := map[bool]string{false: "true201", true: "false0"}[silent]; strings.ReplaceAll(after, " ", "") != want {
					c.Failf("after", "%s: after the chain the response is reported as %s, expected %s", desc, after, want)
				}
				one("Access-Control-Expose-Headers", strings.Join(cfg.ExposeHeaders, ","), len(cfg.ExposeHeaders) > 0)
				one("Access-Control-Max-Age", "", false)
				one("Access-Control-Allow-Methods", "", false)
				one("Access-Control-Allow-Headers", "", false)
			}
			c.Outcome(fmt.Sprint(method == "OPTIONS", exact, star))
		}
		c.State(fmt.Sprint(cfg, reqs))
	}
}

// c17Histories: what one request is answered does not depend on the ones before it.
func c17Histories(n int) Body {
	return func(c *C) {
		cfg := water.CORSConfig{
			AllowOrigins: Pick(c, nil, []string{"http://a.example"}, []string{"http://a.example", "http://b.example"}, []string{"http://b.example", "*"}),
		}
		if c.Bool() {
			cfg.AllowHeaders, cfg.AllowCredentials, cfg.MaxAge, cfg.ExposeHeaders, cfg.AllowMethods = []string{"X-A"}, true, 600, []string{"X-E"}, []string{"GET"}
		}
		reqs := make([]c17Req, n)
		for i := range reqs {
			reqs[i] = c17Req{Pick(c, "GET", "OPTIONS"), Pick(c, "", "http://a.example", "http://b.example", "http://evil.example"), "", ""}
			if reqs[i].method == "OPTIONS" && c.Bool() {
				reqs[i].reqM, reqs[i].reqH = "PUT", fmt.Sprintf("X-Req%d", i)
			}
		}
		c17Requests(c, cfg, reqs, false, c.Choose(3))
	}
}

func sameList(a, b string) bool {
	if a == b {
		return true
	}
	x, y := strings.Split(a, ","), strings.Split(b, ",")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if strings.TrimSpace(x[i]) != strings.TrimSpace(y[i]) {
			return false
		}
	}
	return true
}

func hasToken(list, tok string) bool {
	for _, t := range strings.Split(list, ",") {
		if strings.EqualFold(strings.TrimSpace(t), tok) {
			return true
		}
	}
	return false
}

// c17Defaults: middleware instances do not influence each other or the default configuration.
func c17Two(c *C) {
	cfgs := []water.CORSConfig{{}, {AllowOrigins: []string{"http://a.example"}, AllowMethods: []string{"GET"}}, {AllowOrigins: []string{"http://b.example"}, AllowCredentials: true, MaxAge: 5, ExposeHeaders: []string{"X"}, AllowHeaders: []string{"Y"}}, water.DefaultCORSConfig}
	i, j := c.Choose(len(cfgs)), c.Choose(len(cfgs))
	mk := func(cf water.CORSConfig) http.Handler {
		r := water.NewRouter()
		r.Use(water.CORS(cf))
		r.GET("/p", func(ctx *water.Context) { ctx.String(200, "x") })
		r.OPTIONS("/p", func(ctx *water.Context) {})
		return r.Handler()
	}
	req := func() *http.Request {
		r := Req(Pick(c, "GET", "OPTIONS"), "/p")
		r.Header.Set("Origin", Pick(c, "http://a.example", "http://b.example"))
		return r
	}
	x := req()
	alone := outcomeOf(mk(cfgs[i]), x)
	e1 := mk(cfgs[i])
	e2 := mk(cfgs[j])
	for n := 0; n < 2; n++ {
		outcomeOf(e2, req())
		if got := outcomeOf(e1, x); got != alone {
			c.Failf("mixed", "configuration %d next to %d answers %s, alone %s", i, j, got, alone)
		}
		c.Step()
	}
	c.State(fmt.Sprint(i, j))
}

func init() {
	register(&Prop{ID: "C17", Scopes: []Scope{
		{Name: "configs", Desc: "14 origin lists x methods x headers x credentials x exposed x max-age, x 5 methods x 20 origins x requested method and headers (two requests each)", Body: c17Body(false), Split: 4},
		{Name: "instances", Desc: "pairs of middleware instances with 4 configurations, interleaved requests", Body: c17Two, Split: 2},
		{Name: "histories", Desc: "every sequence of 3 requests (methods x origins x requested headers) to one engine, 8 configurations x 3 mounts: each answered by the configuration alone", Body: c17Histories(3), Split: 3},
		{Name: "histories-4", Desc: "every sequence of 4 requests", Body: c17Histories(4), Split: 4, Thorough: true},
		{Name: "configs-all", Desc: "the same with every mount and preset headers", Body: c17Body(true), Split: 4, Thorough: true},
	}})
}
