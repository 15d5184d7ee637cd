package props

import (
	"fmt"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// Tables and paths beyond the small bounds of the exhaustive spaces: many siblings, long
// patterns, long segments. What an implementation does from some size on (an index, a sorted
// list, a fixed array) shows here.

var wideSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300}
var deepSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300}
var longSizes = []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 1 << 20}

// wideTable: n siblings of one shape next to a few others, in one of several orders.
func wideTable(shape, n int) (pats, paths []string) {
	name := func(i int) string { return fmt.Sprintf("s%d", i) }
	for i := 0; i < n; i++ {
		s := name(i)
		switch shape {
		case 0: // literals at the end
			pats = append(pats, "/"+s)
		case 1: // literals in front
			pats = append(pats, "/"+s+"/t")
		case 2: // both, and below a parameter
			pats = append(pats, "/"+s, "/"+s+"/:h")
		case 3: // regular expressions at the end
			pats = append(pats, fmt.Sprintf("/<r%d ~ ^%s$>", i, s))
		case 4: // regular expressions in front
			pats = append(pats, fmt.Sprintf("/<r%d ~ ^(%s)$>/t", i, s))
		case 5: // parameters in front
			pats = append(pats, fmt.Sprintf("/:h%d/%s", i, s))
		case 6: // catch-alls in front
			pats = append(pats, fmt.Sprintf("/*g%d/%s", i, s))
		case 7: // a mixture
			switch i % 4 {
			case 0:
				pats = append(pats, "/"+s)
			case 1:
				pats = append(pats, fmt.Sprintf("/<r%d ~ ^%s$>", i, s))
			case 2:
				pats = append(pats, fmt.Sprintf("/:h%d/%s", i, s))
			case 3:
				pats = append(pats, "/"+s+"/*")
			}
		case 8: // parameters at the end of different prefixes
			pats = append(pats, fmt.Sprintf("/%s/:h%d", s, i))
		}
	}
	for _, i := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 99, 126, 127, 128, 129, 254, 255, 256, 257, n / 2, n - 3, n - 2, n - 1, n, n + 1} {
		if i < 0 {
			continue
		}
		s := name(i)
		paths = append(paths, "/"+s, "/"+s+"/", "/"+s+"/t", "/"+s+"/x", "/y/"+s, "/"+s+"/x/y", "/S"+s[1:])
	}
	paths = append(paths, "/", "/s", "/s0x", "/zz", "/zz/zz", "/a/b/c")
	return
}

func sizesWide(judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit), opts ...water.Option) Body {
	return func(c *C) {
		shape := c.Choose(9)
		n := PickS(c, wideSizes)
		order := c.Choose(4)
		extra := Pick(c, "", "/:any", "/*rest", "/:any/:other")
		first := c.Bool()
		pats, paths := wideTable(shape, n)
		switch order {
		case 1:
			for i, j := 0, len(pats)-1; i < j; i, j = i+1, j-1 {
				pats[i], pats[j] = pats[j], pats[i]
			}
		case 2: // the odd ones first
			var o, e []string
			for i, p := range pats {
				if i%2 == 1 {
					o = append(o, p)
				} else {
					e = append(e, p)
				}
			}
			pats = append(o, e...)
		case 3: // from the middle
			k := len(pats) / 2
			pats = append(append([]string{}, pats[k:]...), pats[:k]...)
		}
		if extra == "" && first {
			return
		}
		if extra != "" && first {
			pats = append([]string{extra}, pats...)
		} else if extra != "" {
			pats = append(pats, extra)
		}
		t, why := newTable(pats, opts...)
		if t == nil {
			c.Failf("harness", "%q refused by the model: %s", pats, why)
			return
		}
		for _, path := range paths {
			want, wantP := t.m.match("GET", path)
			got := t.serve("GET", path)
			judge(c, t, pats, path, want, wantP, got)
			c.Step()
			if c.Failed() {
				return
			}
		}
		c.State(fmt.Sprint(shape, n, order, extra, first))
	}
}

// sizesDeep: patterns of many segments, paths as long, shorter and longer.
func sizesDeep(judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit), opts ...water.Option) Body {
	seg := func(kind, i int) string {
		switch kind {
		case 0:
			return fmt.Sprintf("s%d", i)
		case 1:
			return fmt.Sprintf(":h%d", i)
		case 2:
			return "*"
		case 3:
			return fmt.Sprintf("<r%d ~ ^s%d$>", i, i)
		case 4:
			return fmt.Sprintf("<p%d,q%d ~ ^(s)(%d)$>", i, i, i)
		default:
			return []string{fmt.Sprintf("s%d", i), fmt.Sprintf(":h%d", i), "*", fmt.Sprintf("<r%d ~ s>", i)}[i%4]
		}
	}
	return func(c *C) {
		kind := c.Choose(6)
		n := PickS(c, deepSizes)
		last := c.Choose(4)
		other := c.Choose(5)
		first := c.Bool()
		build := func(n int) string {
			p := ""
			for i := 0; i < n; i++ {
				p += "/" + seg(kind, i)
			}
			return p
		}
		main := build(n - 1)
		switch last {
		case 0:
			main += "/" + seg(kind, n-1)
		case 1:
			main += "/end"
		case 2:
			main += "/:last"
		case 3:
			main += "/*"
		}
		pats := []string{main}
		o := ""
		switch other {
		case 1:
			o = "/*all"
		case 2:
			if n > 1 {
				o = build(n/2) + "/*mid"
			}
		case 3:
			o = build(n-1) + "/else"
		case 4:
			o = build(n-1) + "/:z/more"
		}
		if o != "" && o != main {
			if first {
				pats = []string{o, main}
			} else {
				pats = []string{main, o}
			}
		} else if first {
			return
		}
		t, why := newTable(pats, opts...)
		if t == nil {
			c.Logf("refused by the model: %s", why)
			c.Prune()
		}
		var paths []string
		mk := func(n int, end string) {
			p := ""
			for i := 0; i < n; i++ {
				p += fmt.Sprintf("/s%d", i)
			}
			paths = append(paths, p+end)
		}
		for _, e := range []string{"", "/", "/end", "/else", "/x", "/x/more", "/end/more", fmt.Sprintf("/s%d", n-1)} {
			mk(n-1, e)
		}
		mk(n+1, "")
		mk(n+5, "/x")
		mk(n/2, "")
		mk(2*n+40, "/")
		for _, path := range paths {
			want, wantP := t.m.match("GET", path)
			got := t.serve("GET", path)
			judge(c, t, pats, path, want, wantP, got)
			c.Step()
			if c.Failed() {
				return
			}
		}
		c.State(fmt.Sprint(kind, n, last, other, first))
	}
}

// sizesLong: segments and names of many characters.
func sizesLong(judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit), opts ...water.Option) Body {
	return func(c *C) {
		n := PickS(c, longSizes)
		ch := Pick(c, "a", "é", "%", ".")
		long := strings.Repeat(ch, n)
		long = long[:n]
		if ch == "é" && n%2 == 1 {
			long = strings.Repeat(ch, n/2+1)
		}
		shape := c.Choose(8)
		if n > 5000 && (shape == 0 || shape == 3 || shape == 5) {
			return
		}
		var pats []string
		switch shape {
		case 0:
			pats = []string{"/" + long, "/:h"}
		case 1:
			pats = []string{"/:h", "/x/:h/y", "/:h/:i"}
		case 2:
			pats = []string{"/*", "/x/*g"}
		case 3:
			pats = []string{"/" + long + "/x", "/:h/x", "/x/" + long}
		case 4:
			pats = []string{"/<r ~ ^(.+)$>", "/x/<p,q ~ ^(.)(.*)$>"}
		case 5:
			pats = []string{"/<" + strings.Repeat("n", n) + ">", "/x/*" + strings.Repeat("g", n)}
		case 6:
			pats = []string{"/*/x", "/*"}
		case 7:
			pats = []string{"/<p,q,r,s,t,u,v,w,x,y,z,k ~ ^(.)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.?)(.*)$>", "/:h/*"}
		}
		t, why := newTable(pats, opts...)
		if t == nil {
			c.Failf("harness", "refused by the model: %s", why)
			return
		}
		for _, path := range []string{"/" + long, "/" + long + "/", "/x/" + long, "/" + long + "/x", "/x/" + long + "/y", "/" + long + "/" + long, "/" + long + "x", "/" + long[1:], "/x/" + long + "/" + long + "/z/"} {
			want, wantP := t.m.match("GET", path)
			got := t.serve("GET", path)
			if got.Count > 0 && want != nil && got.ID == want.ID && eqParams(got.Params, wantP) {
				continue // the common case, without building messages
			}
			judge(c, t, pats, path, want, wantP, got)
			if c.Failed() {
				return
			}
		}
		c.Steps(9)
		c.State(fmt.Sprint(n, ch, shape))
	}
}

func sizesScopes(judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit), opts ...water.Option) []Scope {
	return []Scope{
		{Name: "sizes-wide", Desc: "tables of 37 sizes between 1 and 300 siblings in 9 shapes (literals, regular expressions, parameters, catch-alls, mixtures; at the end or in front) in 4 orders, with a general route first, last or not, about 240 paths each", Body: sizesWide(judge, opts...), Split: 3},
		{Name: "sizes-deep", Desc: "patterns of 33 lengths between 1 and 300 segments of 6 kinds and 4 ends, with one of 4 competing routes first, last or not; 12 paths as long, shorter and longer", Body: sizesDeep(judge, opts...), Split: 3},
		{Name: "sizes-long", Desc: "segments and names of 37 lengths up to 1 MiB of 4 characters in 8 tables, 9 paths each", Body: sizesLong(judge, opts...), Split: 2},
	}
}
