package props

import (
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// routeSpace is a bounded space of route tables and request paths.
type routeSpace struct {
	kinds   []string // segment kinds; # is replaced by the segment's position
	depth   int      // segments per pattern
	routes  int      // routes per table
	letters []string
	pdepth  int
	slash   bool // also every path with a trailing slash
	opts    []water.Option

	pats, paths []string
}

func (s *routeSpace) init() {
	if s.pats == nil {
		for _, p := range patterns(s.kinds, s.depth) {
			segs := strings.Split(p, "/")
			for i := range segs {
				segs[i] = strings.ReplaceAll(segs[i], "#", string(rune('0'+i)))
			}
			s.pats = append(s.pats, strings.Join(segs, "/"))
		}
		s.pats = append(s.pats, "/")
		s.paths = append([]string{"/"}, paths(s.letters, s.pdepth)...)
		if s.slash {
			for _, p := range s.paths[1:] {
				s.paths = append(s.paths, p+"/")
			}
		}
	}
}

// routeBody explores every table and every path and hands each answer to judge.
func (s *routeSpace) body(judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit)) Body {
	return func(c *C) {
		s.init()
		pats := make([]string, s.routes)
		for i := range pats {
			pats[i] = s.pats[c.Choose(len(s.pats))]
			for j := 0; j < i; j++ {
				if pats[i] == pats[j] {
					c.Prune()
				}
			}
		}
		t, refused := newTable(pats, s.opts...)
		if t == nil {
			_ = refused
			c.Prune()
		}
		ps := s.paths
		for _, p := range pats {
			ps = append(ps[:len(ps):len(ps)], spelled(p)...)
		}
		for _, path := range ps {
			want, wantP := t.m.match("GET", path)
			got := t.serve("GET", path)
			judge(c, t, pats, path, want, wantP, got)
			if c.Failed() {
				return
			}
		}
		c.Steps(len(s.paths))
		c.State(strings.Join(pats, " "))
	}
}

func judgeRoute(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit) {
	if c.Verbose {
		c.Logf("routes %q: GET %s -> %s", pats, path, showHit(got, pats))
	}
	switch {
	case want == nil && got.Count > 0:
		c.Failf("hit-without-match", "routes %q: GET %s covered by no pattern, but %s ran", pats, path, showHit(got, pats))
	case want == nil && t.w.status != 404:
		c.Failf("unmatched-status", "routes %q: GET %s covered by no pattern, status %d", pats, path, t.w.status)
	case want != nil && got.ID != want.ID:
		c.Failf("wrong-route", "routes %q: GET %s must be answered by %q, was answered by: %s", pats, path, want.Pattern, showHit(got, pats))
	case want != nil && got.Count != 1:
		c.Failf("handler-count", "routes %q: GET %s ran the handler %d times", pats, path, got.Count)
	}
}

var abc = []string{"a", "b", "c"}

// curated tables for the character-level path scopes
var charTables = [][]string{
	{"/"}, {"/a"}, {"/:h"}, {"/*"}, {"/*g"}, {"/<r ~ a+>"}, {"/<r ~ ^$>"}, {"/<r ~ b*>"},
	{"/", "/:h"}, {"/", "/*"}, {"/a", "/:h"}, {"/a", "/*"}, {"/a/b", "/a/*"}, {"/:h/b", "/a/*"},
	{"/a/:h", "/:h/a", "/*"}, {"/a/a", "/a/:h", "/:h/*"}, {"/*/a", "/*"}, {"/*/a/*", "/a/*"},
	{"/*g/b", "/:h/a"}, {"/a/*", "/a"}, {"/a/*", "/:h"}, {"/aa", "/ab", "/ba"}, {"/a", "/aa", "/aaa"},
	{"/<r,q ~ (a)(b)>/x", "/<s ~ ab>"}, {"/:h/:i", "/:h"}, {"/:h/:i/:j"}, {"/a/:h/b", "/a/b/:h"},
	{"/<r ~ ^a$>/*", "/*/b"}, {"/*a", "/*b"}, {"/:a/*x", "/:b/*y"}, {"/a.b", "/a"}, {"/.", "/.."}, {"/a/../b", "/b"},
	{"/A", "/a"}, {"/a b", "/a"}, {"/%61", "/a"}, {"/a+b", "/a"}, {"/é", "/<r ~ .>"}, {"/a:b", "/:c"}, {"/a*", "/*"},
}

func strs(alphabet []string, max int) []string {
	out := []string{""}
	cur := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range cur {
			for _, a := range alphabet {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func charBody(alphabet []string, max int, judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit)) Body {
	all := strs(alphabet, max)
	return func(c *C) {
		pats := charTables[c.Choose(len(charTables))]
		t, refused := newTable(pats)
		if refused != "" {
			c.Failf("harness", "table %q refused by the model: %s", pats, refused)
			return
		}
		lead := Pick(c, "/", "")
		for _, s := range all {
			path := lead + s
			want, wantP := t.m.match("GET", path)
			got := t.serve("GET", path)
			judge(c, t, pats, path, want, wantP, got)
			if c.Failed() {
				return
			}
		}
		c.Steps(len(all))
		c.State(strings.Join(pats, " ") + lead)
	}
}

var kinds7 = []string{"a", "<x# ~ a|b>", "<y# ~ (b|c)>", ":h#", "<k#:int>", "*", "*g#"}

var kinds22 = []string{
	"a", "A", "ab", ":h#", "<h#:int>", "*", "*g#", "<w# ~ a>", "<w# ~ ^a$>", "<w# ~ (a|b)>", "<w# ~ .*>", "<w# ~ [a-z]+>", "<p#,q# ~ (a)(b)?>", "<p#,q# ~ (.)(.)>",
	"<p#,q#,s# ~ (a*)(b)(.?)>", "<_ ~ a>", "<_,q# ~ ([a-z])([0-9]?)>", "<w# ~ (?i)a>", ":_", "*_", "<w# ~ [A-Z][0-9]>", "<w#~(b?)>",
}

func routeSpaces(judge func(c *C, t *table, pats []string, path string, want *MRoute, wantP map[string]string, got Hit)) []Scope {
	mk := func(name, desc string, thorough bool, s *routeSpace) Scope {
		return Scope{Name: name, Desc: desc, Body: s.body(judge), Split: 2, Thorough: thorough}
	}
	return []Scope{
		mk("pairs3", "all ordered pairs of patterns of at most 3 segments over 7 segment kinds (literal, two overlapping regular expressions, two holders, unnamed and named catch-all) and /, with every path of at most 4 segments over a,b,c", false,
			&routeSpace{kinds: kinds7, depth: 3, routes: 2, letters: abc, pdepth: 4}),
		mk("triples2", "all ordered triples of patterns of at most 2 segments over the 7 kinds, every path of at most 3 segments over a,b,c with and without trailing slash", false,
			&routeSpace{kinds: kinds7, depth: 2, routes: 3, letters: abc, pdepth: 3, slash: true}),
		mk("triples3", "all ordered triples of patterns of at most 3 segments over literal, holder, named catch-all, every path of at most 4 segments over a,b", false,
			&routeSpace{kinds: []string{"a", ":h#", "*g#"}, depth: 3, routes: 3, letters: abc[:2], pdepth: 4}),
		mk("fours2", "all ordered quadruples of patterns of at most 2 segments over literal, regular expression, holder, catch-all, every path of at most 3 segments over a,b", false,
			&routeSpace{kinds: []string{"a", "<x# ~ b>", ":h#", "*"}, depth: 2, routes: 4, letters: abc[:2], pdepth: 3}),
		mk("ties3", "all ordered triples of one-segment patterns over 22 spellings (literals, regular expressions with one to three names, anchored, unanchored, empty-matching, case-folding, holders, catch-alls), every path of at most 2 segments over 6 letters with and without trailing slash", false,
			&routeSpace{kinds: kinds22, depth: 1, routes: 3, letters: []string{"a", "A", "b", "ab", "aab", "B1"}, pdepth: 2, slash: true}),
		mk("ties2", "all ordered pairs of patterns of at most 2 segments over 18 of the 22 spellings, every path of at most 2 segments over 4 letters", false,
			&routeSpace{kinds: kinds22[:18], depth: 2, routes: 2, letters: []string{"a", "A", "ab", "aab"}, pdepth: 2}),
		mk("pairs5", "all ordered pairs of patterns of at most 5 segments over literal, holder, catch-all, every path of at most 6 segments over a,b", false,
			&routeSpace{kinds: []string{"a", ":h#", "*"}, depth: 5, routes: 2, letters: abc[:2], pdepth: 6}),
		{Name: "chars", Desc: "40 route tables, every path of at most 6 characters over {/, a, b}, with and without leading slash", Body: charBody([]string{"/", "a", "b"}, 6, judge), Split: 2},
		{Name: "chars-odd", Desc: "the same tables, every path of at most 4 characters over {/ a A . % 6 1 space + : * < > é ? #}", Body: charBody([]string{"/", "a", "A", ".", "%", "6", "1", " ", "+", ":", "*", "<", "é", "?", "#"}, 4, judge), Split: 2},
		mk("pairs4-deep", "all ordered pairs of patterns of at most 4 segments over 5 kinds, every path of at most 5 segments over a,b", true,
			&routeSpace{kinds: []string{"a", "<x# ~ a>", ":h#", "*", "*g#"}, depth: 4, routes: 2, letters: abc[:2], pdepth: 5}),
		mk("triples3-deep", "all ordered triples of patterns of at most 3 segments over 5 kinds, every path of at most 4 segments over a,b", true,
			&routeSpace{kinds: []string{"a", "<x# ~ a>", ":h#", "*", "*g#"}, depth: 3, routes: 3, letters: abc[:2], pdepth: 4}),
		mk("fives2-deep", "all ordered 5-tuples of patterns of at most 2 segments over 4 kinds, every path of at most 3 segments over a,b", true,
			&routeSpace{kinds: []string{"a", "<x# ~ b>", ":h#", "*"}, depth: 2, routes: 5, letters: abc[:2], pdepth: 3}),
	}
}

func init() {
	register(&Prop{ID: "C01", Scopes: append(routeSpaces(judgeRoute), sizesScopes(judgeRoute)...)})
}
