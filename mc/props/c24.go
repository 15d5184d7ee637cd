package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

type c24Ptr struct{ n int }

var c24P = &c24Ptr{1}

var c24Values = []interface{}{7, "text", nil, true, int64(-5), uint(9), uint64(1 << 63), 2.5, c24P, "", 0, false}

// c24Sweep reads everything through every accessor and compares with the model.
func c24Sweep(ctx *water.Context, model map[string]interface{}, names []string) string {
	type rd struct {
		name string
		f    func(n string) interface{}
		is   func(v interface{}) bool
	}
	env := ctx.Environ
	always := func(interface{}) bool { return true }
	reads := []rd{
		{"Get", func(n string) interface{} { return ctx.Get(n) }, always},
		{"Environ.Get", func(n string) interface{} { return env.Get(n) }, always},
		{"GetBool", func(n string) interface{} { return env.GetBool(n) }, func(v interface{}) bool { _, ok := v.(bool); return ok }},
		{"GetInt", func(n string) interface{} { return env.GetInt(n) }, func(v interface{}) bool { _, ok := v.(int); return ok }},
		{"GetInt64", func(n string) interface{} { return env.GetInt64(n) }, func(v interface{}) bool { _, ok := v.(int64); return ok }},
		{"GetUint", func(n string) interface{} { return env.GetUint(n) }, func(v interface{}) bool { _, ok := v.(uint); return ok }},
		{"GetUint64", func(n string) interface{} { return env.GetUint64(n) }, func(v interface{}) bool { _, ok := v.(uint64); return ok }},
		{"GetFloat64", func(n string) interface{} { return env.GetFloat64(n) }, func(v interface{}) bool { _, ok := v.(float64); return ok }},
		{"GetString", func(n string) interface{} { return env.GetString(n) }, func(v interface{}) bool { _, ok := v.(string); return ok }},
	}
	for _, n := range names {
		want, has := model[n]
		if env.Has(n) != has {
			return fmt.Sprintf("Has(%s) is %v", n, !has)
		}
		v, ok := ctx.GetMaybe(n)
		if ok != has || v != want {
			return fmt.Sprintf("GetMaybe(%s) is %v,%v, expected %v,%v", n, v, ok, want, has)
		}
		for _, r := range reads {
			var got interface{}
			p := quiet(func() { got = r.f(n) })
			if !has {
				if !p {
					return fmt.Sprintf("%s(%s) of a missing name gives %v", r.name, n, got)
				}
				continue
			}
			if r.is(want) {
				if p || got != want {
					return fmt.Sprintf("%s(%s) is %T %v (panic %v), expected %T %v", r.name, n, got, got, p, want, want)
				}
			} else if !p {
				return fmt.Sprintf("%s(%s) gives %v though a %T is stored", r.name, n, got, want)
			}
		}
		if env.Has(n) != has {
			return fmt.Sprintf("after reading, Has(%s) is %v", n, !has)
		}
	}
	if len(env) != len(model) {
		return fmt.Sprintf("%d values are stored, expected %d", len(env), len(model))
	}
	return ""
}

type c24Op struct {
	pos  int // 0 middleware before, 1 handler, 2 middleware after
	name string
	val  int
	env  bool
}

func c24Body(ops, reqs int, nvals int) Body {
	names := []string{"x", "y", "absent"}
	return func(c *C) {
		var cur []c24Op
		var model map[string]interface{}
		bad := ""
		desc := ""
		doPos := func(ctx *water.Context, pos int) {
			check := func(when string) {
				if bad == "" {
					if s := c24Sweep(ctx, model, names); s != "" {
						bad = when + ": " + s
					}
					c.Steps(len(names) * 11)
				}
			}
			check(fmt.Sprintf("at the start of part %d", pos))
			for _, o := range cur {
				if o.pos != pos || bad != "" {
					continue
				}
				v := c24Values[o.val]
				_, exists := model[o.name]
				p := quiet(func() {
					if o.env {
						ctx.Environ.Set(o.name, v)
					} else {
						ctx.Set(o.name, v)
					}
				})
				if p != exists {
					bad = fmt.Sprintf("storing %s (stored before: %v) panics: %v", o.name, exists, p)
					return
				}
				if !exists {
					model[o.name] = v
				}
				check(fmt.Sprintf("after %+v", o))
			}
		}
		mw := func(ctx *water.Context) {
			doPos(ctx, 0)
			ctx.Next()
			doPos(ctx, 2)
		}
		var boom bool
		h := func(ctx *water.Context) {
			doPos(ctx, 1)
			if boom {
				panic("boom")
			}
		}
		r := water.NewRouter()
		r.Use(mw)
		r.GET("/p", h)
		r.GET("/p/<id>", h)
		nf := c.Bool()
		var opts []water.Option
		if nf {
			opts = append(opts, water.WithNoFoundHandlers(mw, h))
		}
		e := r.Handler(opts...)
		for q := 0; q < reqs; q++ {
			kinds := []string{"/p", "/p/7", "boom"}
			if nf {
				kinds = append(kinds, "/none")
			}
			k := PickS(c, kinds)
			boom = k == "boom"
			path := k
			if boom {
				path = "/p"
			}
			n := c.Choose(ops + 1)
			if q > 0 && n > 1 {
				n = 1
			}
			cur = nil
			pos := 0
			for i := 0; i < n; i++ {
				pos += c.Choose(3 - pos)
				if q > 0 {
					cur = append(cur, c24Op{pos, Pick(c, "x", "y"), 5, pos == 1})
					break
				}
				cur = append(cur, c24Op{pos, Pick(c, "x", "y"), c.Choose(nvals), c.Bool()})
			}
			model = map[string]interface{}{}
			desc += fmt.Sprintf("request %s %+v; ", k, cur)
			quiet(func() { e.ServeHTTP(&nullW{}, Req(http.MethodGet, path)) })
			if bad != "" {
				c.Failf("value", "%s %s", desc, bad)
				return
			}
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(len(model)))
	}
}

// c24Names: which texts are names of their own.
var c24NameList = []string{"x", "X", " x", "x ", "", "x.y", "x-y", "x_y", "X-Y", "é", "e\u0301", "x\x00", "xx", "param", "*0", "mw", "\xff", "long" + longName, "long" + longName + "x"}

var longName = strings.Repeat("n", 300)

func c24Names(c *C) {
	a, b := c.Choose(len(c24NameList)), c.Choose(len(c24NameList))
	va, vb := c.Choose(len(c24Values)), c.Choose(2)
	env, nf := c.Bool(), c.Bool()
	bad := ""
	h := func(ctx *water.Context) {
		model := map[string]interface{}{}
		for i, n := range []int{a, b} {
			name, v := c24NameList[n], c24Values[[]int{va, vb}[i]]
			_, exists := model[name]
			p := quiet(func() {
				if env {
					ctx.Environ.Set(name, v)
				} else {
					ctx.Set(name, v)
				}
			})
			if p != exists && bad == "" {
				bad = fmt.Sprintf("storing %q (stored before: %v) panics: %v", name, exists, p)
			}
			if !exists {
				model[name] = v
			}
		}
		if bad == "" {
			bad = c24Sweep(ctx, model, c24NameList)
		}
		ctx.WriteHeader(200)
	}
	path := "/v/w"
	if nf {
		path = "/none"
	}
	r := water.NewRouter()
	r.GET("/<param>/*", h)
	_, p := Serve(r.Handler(water.WithNoFoundHandlers(h)), Req("GET", path))
	c.Steps(2 * len(c24NameList))
	if p != nil || bad != "" {
		c.Failf("name", "names %q and %q: %s %v", c24NameList[a], c24NameList[b], bad, p)
	}
	c.State(fmt.Sprint(a, b, va, vb, env, nf))
}

func init() {
	register(&Prop{ID: "C24", Scopes: []Scope{
		{Name: "values", Desc: "up to 2 stores of 12 values under 2 names, directly or through the store, in middleware before, handler, middleware after; every accessor for 3 names read after each; 1 request of 4 kinds", Body: c24Body(2, 1, len(c24Values)), Split: 4},
		{Name: "names", Desc: "every ordered pair of 19 names (alike but for case, blanks, encoding or the 304th byte) stored with 12 and 2 values, directly or through the store, in a route and in not-found handling: every name read through every accessor", Body: c24Names, Split: 2},
		{Name: "sequences", Desc: "up to 2 stores of 2 values, then a second request", Body: c24Body(2, 2, 2), Split: 5},
		{Name: "sequences-3", Desc: "up to 3 stores of 2 values, then a second request", Body: c24Body(3, 2, 2), Split: 5, Thorough: true},
		{Name: "values-3", Desc: "up to 3 stores of 7 values", Body: c24Body(3, 1, 7), Split: 4, Thorough: true},
	}})
}
