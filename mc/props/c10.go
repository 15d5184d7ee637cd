package props

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

type act int

const (
	actNext act = iota
	actWrite
	actWriteBody
	actPanicRecovered // panics and recovers inside the handler
)

func (a act) String() string { return [...]string{"N", "W", "B", "P"}[a] }

// chainModel is the documented meaning of a chain: handlers run in order, Next runs the rest,
// a chain stops once a handler has returned with the response written. It returns the trace of
// starts ("i") and of resumptions after Next ("i'").
func chainModel(prog [][]act) []string {
	t, _ := chainModel2(prog)
	return t
}

// chainModel2 also tells whether the trace is fully determined by the documentation: it is not
// once Next is called again after a nested chain stopped because of a written response.
func chainModel2(prog [][]act) (trace []string, determined bool) {
	idx, written := 0, false
	determined = true
	stopped := false
	var run func()
	run = func() {
		for idx < len(prog) {
			me := idx
			trace = append(trace, fmt.Sprint(me))
			for _, a := range prog[me] {
				switch a {
				case actNext:
					if stopped {
						determined = false
					}
					idx++
					run()
					trace = append(trace, fmt.Sprintf("%d'", me))
				case actWrite, actWriteBody:
					written = true
				}
			}
			idx++
			if written {
				stopped = true
				return
			}
		}
	}
	run()
	return
}

func actSeqs(max int, acts []act) [][]act {
	out := [][]act{nil}
	cur := [][]act{nil}
	for i := 0; i < max; i++ {
		var next [][]act
		for _, p := range cur {
			for _, a := range acts {
				next = append(next, append(append([]act{}, p...), a))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

type hObj struct{ f func(*water.Context) }

type httpObj struct{ f func(http.ResponseWriter) }

func (h httpObj) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(w) }

func (h hObj) ServeHTTP(ctx *water.Context) { h.f(ctx) }

// c10Body runs every program of n handlers.
func c10Body(n int, seqs [][]act, forms bool) Body {
	return func(c *C) {
		prog := make([][]act, n)
		for i := range prog {
			prog[i] = PickS(c, seqs)
		}
		where := 0
		form := 0
		if forms {
			where = c.Choose(5) // how the handlers are distributed over Before, Use, groups and the route (4: over Before and the not-found handlers)
			form = c.Choose(3)
		} else {
			for _, p := range prog {
				where += len(p)
			}
			where %= 5
		}
		var ran []string
		starts := make([]int, n)
		depth, maxDepth := 0, 0
		var statuses []string
		mk := func(i int) interface{} {
			f := func(ctx *water.Context) {
				ran = append(ran, fmt.Sprint(i))
				starts[i]++
				depth++
				if depth > maxDepth {
					maxDepth = depth
				}
				for _, a := range prog[i] {
					switch a {
					case actNext:
						ctx.Next()
						ran = append(ran, fmt.Sprintf("%d'", i))
					case actWrite:
						if !ctx.Written() {
							ctx.WriteHeader(200 + i)
						}
					case actWriteBody:
						ctx.Write([]byte{byte('0' + i)})
					}
				}
				depth--
				statuses = append(statuses, fmt.Sprint(ctx.Written()))
			}
			switch form {
			case 1:
				return water.HandlerFunc(f)
			case 2:
				return hObj{f}
			}
			return f
		}
		r := water.NewRouter()
		g := r
		path := "/x"
		var own []interface{}
		for i := 0; i < n; i++ {
			last := i == n-1
			switch {
			case (where == 1 || where == 4) && i == 0 && (n > 1 || where == 1):
				r.Before(mk(i))
			case where == 4:
				own = append(own, mk(i))
			case where >= 1 && !last && i < n/2:
				r.Use(mk(i))
			case where >= 2 && !last:
				if g == r {
					g = r.Group("/g")
					path = "/g/x"
				}
				g.Use(mk(i))
			default:
				own = append(own, mk(i))
			}
		}
		var opts []water.Option
		if where == 4 {
			opts = append(opts, water.WithNoFoundHandlers(own...))
			own = []interface{}{func(*water.Context) { panic("not asked") }}
			path = "/none/x"
		}
		g.GET("/x", own...)
		e := r.Handler(opts...)
		exp, determined := chainModel2(prog)
		for rep := 0; rep < 2; rep++ {
			ran = nil
			starts = make([]int, n)
			rec, p := Serve(e, Req("GET", path))
			c.Step()
			c.Logf("program %v (placement %d) -> %v status %d", prog, where, ran, rec.Status)
			if p != nil {
				c.Failf("panic", "program %v: panic %v", prog, p)
				return
			}
			if determined && strings.Join(ran, " ") != strings.Join(exp, " ") {
				c.Failf("order", "program %v (N next, W write status, B write body): ran %v, expected %v", prog, ran, exp)
				return
			}
			last := -1
			for _, x := range ran {
				if strings.HasSuffix(x, "'") {
					continue
				}
				k := 0
				fmt.Sscan(x, &k)
				if k <= last {
					c.Failf("twice", "program %v: handlers started in the order %v", prog, ran)
					return
				}
				last = k
			}
		}
		c.Outcome(strings.Join(exp, " "))
		c.State(fmt.Sprint(prog))
	}
}

// c10Long: long chains, one writer, one Next caller.
func c10Long(c *C) {
	n := Pick(c, 1, 2, 7, 8, 16, 33, 64, 127, 128, 130, 255, 256, 257, 300)
	w := Pick(c, -1, 0, n/2, n-1)
	nx := c.Choose(3) // nobody, everybody, every other calls Next
	var ran []int
	var back []int
	r := water.NewRouter()
	prog := make([][]act, n)
	for i := 0; i < n; i++ {
		i := i
		if i == w {
			prog[i] = append(prog[i], actWrite)
		}
		if nx == 1 || nx == 2 && i%2 == 0 {
			prog[i] = append(prog[i], actNext)
		}
		r.Use(func(ctx *water.Context) {
			ran = append(ran, i)
			for _, a := range prog[i] {
				if a == actWrite {
					ctx.WriteHeader(200)
				} else {
					ctx.Next()
					back = append(back, i)
				}
			}
		})
	}
	r.GET("/x", func(ctx *water.Context) { ran = append(ran, n) })
	prog = append(prog, nil)
	e := r.Handler()
	Serve(e, Req("GET", "/x"))
	c.Step()
	var exp, expBack []int
	for _, x := range chainModel(prog) {
		k := 0
		fmt.Sscan(strings.TrimSuffix(x, "'"), &k)
		if strings.HasSuffix(x, "'") {
			expBack = append(expBack, k)
		} else {
			exp = append(exp, k)
		}
	}
	if fmt.Sprint(ran) != fmt.Sprint(exp) || fmt.Sprint(back) != fmt.Sprint(expBack) {
		c.Failf("long", "%d middleware, writer %d, Next mode %d: started %v resumed %v, expected %v and %v", n, w, nx, ran, back, exp, expBack)
	}
	c.State(fmt.Sprint(n, w, nx))
}

// c10Forms: http.Handler and plain functions take part in the chain like any other.
func c10Forms(c *C) {
	n := 3
	forms := make([]int, n)
	writes := make([]int, n)
	for i := range forms {
		forms[i] = c.Choose(8)
		writes[i] = c.Choose(4)
	}
	var ran []string
	r := water.NewRouter()
	var hs []interface{}
	prog := make([][]act, n)
	for i := 0; i < n; i++ {
		i := i
		if writes[i] > 0 {
			prog[i] = []act{actWrite}
		}
		wr := func(w http.ResponseWriter) {
			ran = append(ran, fmt.Sprint(i))
			switch writes[i] {
			case 1:
				w.WriteHeader(201)
			case 2:
				w.Write([]byte("b"))
			case 3:
				w.Write(nil)
			}
		}
		var h interface{}
		switch forms[i] {
		case 0:
			h = func(ctx *water.Context) { wr(ctx) }
		case 1:
			h = water.HandlerFunc(func(ctx *water.Context) { wr(ctx) })
		case 2:
			h = hObj{func(ctx *water.Context) { wr(ctx) }}
		case 3:
			h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { wr(w) })
		case 4:
			h = func(w http.ResponseWriter, r *http.Request) { wr(w) }
		case 5:
			h = water.WrapHandler(func(w http.ResponseWriter, r *http.Request) { wr(w) })
		case 6:
			h = httpObj{wr}
		case 7:
			h = water.WrapHandler(&httpObj{wr})
		}
		hs = append(hs, h)
	}
	r.GET("/x", hs...)
	e := r.Handler()
	rec, p := Serve(e, Req("GET", "/x"))
	c.Step()
	exp := chainModel(prog)
	if p != nil || fmt.Sprint(ran) != fmt.Sprint(exp) {
		c.Failf("forms", "handler forms %v, writes %v: ran %v, expected %v (panic %v)", forms, writes, ran, exp, p)
	}
	for i, w := range writes {
		if w > 0 {
			want := []int{0, 201, 200, 200}[w]
			if rec.Status != want {
				c.Failf("forms-status", "handler forms %v, writes %v: status %d, first writer %d", forms, writes, rec.Status, i)
			}
			break
		}
	}
	c.State(fmt.Sprint(forms, writes))
}

func init() {
	NWB := []act{actNext, actWrite, actWriteBody}
	NW := []act{actNext, actWrite}
	register(&Prop{ID: "C10", Scopes: []Scope{
		{Name: "one", Desc: "a chain of 1 handler doing every sequence of at most 4 of {Next, write status, write body}, over 5 placements and 3 handler types", Body: c10Body(1, actSeqs(4, NWB), true), Split: 2},
		{Name: "two", Desc: "every chain of 2 handlers, each doing every sequence of at most 3 of {Next, write status, write body}, over 5 placements and 3 handler types", Body: c10Body(2, actSeqs(3, NWB), true), Split: 2},
		{Name: "three", Desc: "every chain of 3 handlers, each doing every sequence of at most 3 of {Next, write status, write body}, over 5 placements (Before, Use, group, route, not-found) and 3 handler types", Body: c10Body(3, actSeqs(3, NWB)[:40], true), Split: 2},
		{Name: "four", Desc: "every chain of 4 handlers, each doing every sequence of at most 2 of {Next, write status, write body}", Body: c10Body(4, actSeqs(2, NWB), false), Split: 3},
		{Name: "five", Desc: "every chain of 5 handlers, each doing every sequence of at most 2 of {Next, write}", Body: c10Body(5, actSeqs(2, NW), false), Split: 3},
		{Name: "six", Desc: "every chain of 6 handlers over {nothing, Next, write, Next+write, write+Next}", Body: c10Body(6, [][]act{nil, {actNext}, {actWrite}, {actNext, actWrite}, {actWrite, actNext}}, false), Split: 3},
		{Name: "long", Desc: "14 chain lengths up to 300, each writer position, Next by nobody, all or every other handler", Body: c10Long, Split: 2},
		{Name: "forms", Desc: "every chain of 3 over 8 handler forms and 4 ways of writing", Body: c10Forms, Split: 2},
		{Name: "four-deep", Desc: "every chain of 4 handlers, each doing every sequence of at most 3 of {Next, write}", Body: c10Body(4, actSeqs(3, NW), true), Split: 3, Thorough: true},
		{Name: "seven-deep", Desc: "every chain of 7 handlers over {nothing, Next, write, Next+write, write+Next}", Body: c10Body(7, [][]act{nil, {actNext}, {actWrite}, {actNext, actWrite}, {actWrite, actNext}}, false), Split: 3, Thorough: true},
	}})
}
