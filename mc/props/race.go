package props

import (
	"fmt"
	"net/url"
	"os"
	"reflect"
	"sync"
	"sync/atomic"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// RunRace runs the concurrent bodies without the controlled scheduler, for the race detector.
func RunRace(thorough bool) {
	rounds := 60
	if thorough {
		rounds = 600
	}
	water.Status = water.Stable
	var bad atomic.Int64
	n := 0
	// the first requests of the process come at once; what they are answered is judged below
	cold := map[string]string{}
	{
		e := c14Engine(false, false)
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				t := fmt.Sprint(string(rune('a'+g)), g)
				for _, k := range c14Kinds {
					got := outcomeOf(e, k.req(t))
					mu.Lock()
					cold[k.name+t] = got
					mu.Unlock()
				}
			}(g)
		}
		close(start)
		wg.Wait()
	}
	// types nobody has bound before, some of them by several at once
	for r := 0; r < rounds; r++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				var ts []reflect.Type
				for _, who := range []string{"all", fmt.Sprint("g", g)} {
					for i := 0; i < 4; i++ {
						n := fmt.Sprintf("n%s%dx%d", who, r, i)
						tag := reflect.StructTag(fmt.Sprintf(`form:"%s,default=d" json:"%s" header:"%s" uri:"%s" binding:"max=%d"`, n, n, n, n, 30+r))
						in := reflect.StructOf([]reflect.StructField{{Name: "In", Type: reflect.TypeOf(""), Tag: tag}})
						ts = append(ts, reflect.StructOf([]reflect.StructField{
							{Name: "A", Type: reflect.TypeOf(""), Tag: tag},
							{Name: "B", Type: reflect.TypeOf([]string{}), Tag: tag},
							{Name: "C", Type: in},
							{Name: "D", Type: reflect.PointerTo(in)},
						}))
					}
				}
				<-start
				for i, t := range ts {
					n := fmt.Sprintf("n%s%dx%d", []string{"all", fmt.Sprint("g", g)}[i/4], r, i%4)
					data := map[string][]string{n: {"v" + fmt.Sprint(g)}}
					for way := 0; way < 7; way++ {
						o := reflect.New(t)
						var err error
						switch (way + g) % 7 {
						case 0:
							err = binding.MapForm(o.Interface(), data, nil, "form")
						case 1:
							err = binding.Query.Bind(ReqURL("GET", "/", url.Values(data).Encode()), o.Interface())
						case 2:
							err = binding.Query.Bind2(ReqURL("GET", "/", url.Values(data).Encode()), o.Interface())
						case 3:
							err = binding.Form.Bind(ReqBody("POST", "/", "application/x-www-form-urlencoded", []byte(url.Values(data).Encode())), o.Interface())
						case 4:
							q := Req("GET", "/")
							q.Header.Set(n, data[n][0])
							err = binding.Header.Bind(q, o.Interface())
						case 5:
							err = binding.JSON.Bind(ReqBody("POST", "/", "application/json", []byte(`{"`+n+`":"`+data[n][0]+`"}`)), o.Interface())
							continue // several fields of one name: none is set
						case 6:
							err = binding.Uri.Bind(data, o.Interface())
						}
						if got := o.Elem().Field(0).String(); (err != nil || got != data[n][0]) && bad.Add(1) < 4 {
							fmt.Fprintf(os.Stderr, "MISMATCH binding %q in way %d: %q, %v\n", data, (way+g)%7, got, err)
						}
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
	}
	for _, static := range []bool{false, true} {
		nf := static
		want := map[string]string{}
		for _, k := range c14Kinds {
			for g := 0; g < 4; g++ {
				t := fmt.Sprint(string(rune('a'+g)), g)
				want[k.name+t] = outcomeOf(c14Engine(static, nf), k.req(t))
				if !static && cold[k.name+t] != want[k.name+t] && bad.Add(1) < 4 {
					fmt.Fprintf(os.Stderr, "MISMATCH at the start %s: %s\nalone %s\n", k.name, cold[k.name+t], want[k.name+t])
				}
			}
		}
		for r := 0; r < rounds; r++ {
			e := c14Engine(static, nf)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					t := fmt.Sprint(string(rune('a'+g)), g)
					for i := range c14Kinds {
						k := c14Kinds[(i*(g+1)+r)%len(c14Kinds)]
						if got := outcomeOf(e, k.req(t)); got != want[k.name+t] && bad.Add(1) < 4 {
							fmt.Fprintf(os.Stderr, "MISMATCH %s: %s\nalone %s\n", k.name, got, want[k.name+t])
						}
					}
				}(g)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				x := water.NewRouter()
				x.GET("/a/:b", func(ctx *water.Context) { ctx.String(200, ctx.Param("b")) })
				y := x.Handler(water.WithStaticRouter(true), water.WithMaxMultipartMemory(int64(64+r)))
				outcomeOf(y, Req("GET", "/a/b"))
			}()
			close(start)
			wg.Wait()
			n += 4 * len(c14Kinds)
		}
	}
	fmt.Fprintf(os.Stderr, "%d requests in %d rounds of 5 goroutines\n", n, 2*rounds)
	if bad.Load() > 0 {
		os.Exit(1)
	}
}
