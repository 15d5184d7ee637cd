// Package explore is a stateless bounded model checker: a body makes all of its
// decisions (inputs, operations, environment answers, schedules) through C.Choose
// and the explorer enumerates every sequence of decisions, depth first, to the end.
package explore

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Point is one decision taken during an execution.
type Point struct{ Choice, N int }

// Failure is one disagreement between the code and its specification.
type Failure struct {
	Key string `json:"key"` // identifies what fails (used for known findings)
	Msg string `json:"msg"`
}

// C is the handle of one execution.
type C struct {
	Thorough bool
	Verbose  bool

	prefix  []int
	prefixN []int
	trace   []Point
	budget  int
	diverge bool
	log     []string
	fails   []Failure
	pruned  bool
	sharded bool
	noAbort bool

	ex *Explorer
}

// Choose returns a decision in [0,n). Every value is explored.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("explore: Choose(%d)", n))
	}
	if n == 1 {
		return 0
	}
	i := len(c.trace)
	ch := 0
	if i < len(c.prefix) {
		ch = c.prefix[i]
		if ch >= n || (i < len(c.prefixN) && c.prefixN[i] != n) {
			c.diverge = true
			if ch >= n {
				ch = n - 1
			}
		}
	}
	c.trace = append(c.trace, Point{ch, n})
	if c.sharded && !c.noAbort && len(c.trace) == c.ex.SplitDepth && shardOf(c.trace, c.ex.SplitDepth, c.ex.Of) != c.ex.Shard {
		panic(prune{}) // another worker's part of the space
	}
	return ch
}

// InThreads tells that decisions are now made on other goroutines, where an execution
// cannot be abandoned.
func (c *C) InThreads(on bool) { c.noAbort = on }

// Bool is a two-way decision (false first).
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Range returns a decision in [lo,hi].
func (c *C) Range(lo, hi int) int { return lo + c.Choose(hi-lo+1) }

// SetBudget sets the number of deviations Dev may still take in this execution.
func (c *C) SetBudget(n int) { c.budget = n }

// Budget returns the remaining deviations.
func (c *C) Budget() int { return c.budget }

// Dev is a decision whose non-zero values each cost one deviation.
func (c *C) Dev(n int) int {
	if n <= 1 || c.budget <= 0 {
		return 0
	}
	ch := c.Choose(n)
	if ch != 0 {
		c.budget--
	}
	return ch
}

// Pick chooses one of the items.
func Pick[T any](c *C, items ...T) T { return items[c.Choose(len(items))] }

// PickS chooses one item of a slice.
func PickS[T any](c *C, items []T) T { return items[c.Choose(len(items))] }

// Seq chooses a sequence of length 0..max over the items (shorter ones first).
func Seq[T any](c *C, max int, items []T) []T {
	n := c.Choose(max + 1)
	out := make([]T, n)
	for i := range out {
		out[i] = items[c.Choose(len(items))]
	}
	return out
}

// Logf records a line of the execution's narrative (kept only when verbose).
func (c *C) Logf(f string, a ...interface{}) {
	if c.Verbose {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Step counts one operation executed on the real code and compared with its specification.
func (c *C) Step() { c.ex.Transitions++ }

// Steps counts n operations.
func (c *C) Steps(n int) { c.ex.Transitions += int64(n) }

// State records a visited state (a canonical description of what was observed or modelled).
func (c *C) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(c.ex.Scope))
	h.Write([]byte{0})
	h.Write([]byte(s))
	c.ex.addState(h.Sum64())
}

// Outcome counts distinct observed outcomes, to show that explorations are not vacuous.
func (c *C) Outcome(s string) {
	if len(c.ex.Outcomes) < 200 || c.ex.Outcomes[s] > 0 {
		c.ex.Outcomes[s]++
	} else {
		c.ex.Outcomes["(more)"]++
	}
}

// Prune abandons this execution as equivalent to others or outside the space (it is not counted).
func (c *C) Prune() { c.pruned = true; panic(prune{}) }

type prune struct{}

// Failf records a violation. It does not panic, so that it may be used inside handlers.
func (c *C) Failf(key, f string, a ...interface{}) {
	if len(c.fails) < 20 {
		c.fails = append(c.fails, Failure{key, fmt.Sprintf(f, a...)})
	}
}

// Failed tells whether this execution has already failed.
func (c *C) Failed() bool { return len(c.fails) > 0 }

// Try runs f and returns the recovered panic value, if any.
func Try(f func()) (v interface{}, stack string, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
			if _, ok := v.(prune); ok {
				panic(v)
			}
			stack = string(debug.Stack())
		}
	}()
	f()
	panicked = false
	return
}

// Body is one scenario to be explored.
type Body func(*C)

// Explorer enumerates the executions of one scope.
type Explorer struct {
	Scope      string
	Body       Body
	Thorough   bool
	Shard, Of  int
	SplitDepth int
	BeforeCase func()
	Journal    func(prefix []int)
	Deadline   time.Time

	Executions  int64
	Transitions int64
	Choices     int64
	Divergences int64
	Pruned      int64
	states      map[uint64]struct{}
	StatesFull  bool
	Outcomes    map[string]int64
	Complete    bool
	MaxDepth    int
	Samples     [][]int
	Progress    int64 // bumped per execution, read by the watchdog
}

const maxStates = 6 << 20

func (e *Explorer) addState(h uint64) {
	if e.states == nil {
		e.states = map[uint64]struct{}{}
	}
	if len(e.states) >= maxStates {
		e.StatesFull = true
		return
	}
	e.states[h] = struct{}{}
}

// States returns the visited state fingerprints.
func (e *Explorer) States() []uint64 {
	out := make([]uint64, 0, len(e.states))
	for h := range e.states {
		out = append(out, h)
	}
	return out
}

// RunOne executes the body once with the given decisions.
func (e *Explorer) RunOne(prefix, prefixN []int, verbose bool) *C {
	return e.run(prefix, prefixN, verbose, false)
}

func (e *Explorer) run(prefix, prefixN []int, verbose, sharded bool) *C {
	c := &C{prefix: prefix, prefixN: prefixN, Thorough: e.Thorough, Verbose: verbose, ex: e, sharded: sharded}
	if e.Outcomes == nil {
		e.Outcomes = map[string]int64{}
	}
	if e.BeforeCase != nil {
		e.BeforeCase()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(prune); ok {
					return
				}
				c.Failf("panic", "unexpected panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		e.Body(c)
	}()
	return c
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Log returns the narrative of a verbose execution.
func (c *C) Log() []string { return c.log }

// Fails returns the recorded violations.
func (c *C) Fails() []Failure { return c.fails }

// Choices returns the decisions taken.
func (c *C) Choices() []int {
	out := make([]int, len(c.trace))
	for i, p := range c.trace {
		out[i] = p.Choice
	}
	return out
}

func shardOf(tr []Point, d, of int) int {
	h := fnv.New32a()
	var b [4]byte
	for i := 0; i < d && i < len(tr); i++ {
		binary.LittleEndian.PutUint32(b[:], uint32(tr[i].Choice))
		h.Write(b[:])
	}
	x := h.Sum32()
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	return int(x % uint32(of))
}

// Explore enumerates all executions of this shard, calling onFail for each failing one
// until it returns false.
func (e *Explorer) Explore(onFail func(*C) bool) {
	var prefix, prefixN []int
	e.Complete = false
	next := int64(1)
	for {
		if e.Journal != nil {
			e.Journal(prefix)
		}
		save := e.Transitions
		c := e.run(prefix, prefixN, false, e.Of > 1)
		e.Progress++
		tr := c.trace
		mine := e.Of <= 1 || shardOf(tr, e.SplitDepth, e.Of) == e.Shard
		if c.diverge {
			e.Divergences++
		}
		limit := len(tr)
		if !mine {
			e.Transitions = save
			if limit > e.SplitDepth {
				limit = e.SplitDepth
			}
		} else if c.pruned {
			e.Pruned++
			e.Transitions = save
		} else {
			e.Executions++
			e.Choices += int64(len(tr))
			if len(tr) > e.MaxDepth {
				e.MaxDepth = len(tr)
			}
			if e.Executions == next {
				next = next*6 + 1
				if len(e.Samples) < 6 {
					e.Samples = append(e.Samples, c.Choices())
				}
			}
		}
		if mine && len(c.fails) > 0 {
			if !onFail(c) {
				return
			}
		}
		// next sequence in depth-first order
		i := limit - 1
		for i >= 0 && tr[i].Choice+1 >= tr[i].N {
			i--
		}
		if i < 0 {
			e.Complete = true
			return
		}
		prefix = prefix[:0:0]
		prefixN = prefixN[:0:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, tr[j].Choice)
			prefixN = append(prefixN, tr[j].N)
		}
		prefix = append(prefix, tr[i].Choice+1)
		prefixN = append(prefixN, tr[i].N)
		if !e.Deadline.IsZero() && e.Progress%64 == 0 && time.Now().After(e.Deadline) {
			return
		}
	}
}

// Minimize greedily lowers the decisions of a failing execution while it keeps failing
// with the same key.
func (e *Explorer) Minimize(choices []int, key string, until time.Time) []int {
	fails := func(p []int) ([]int, bool) {
		if e.Journal != nil {
			e.Journal(p)
		}
		c := e.RunOne(p, nil, false)
		e.Progress++
		if c.pruned {
			return nil, false
		}
		for _, f := range c.fails {
			if f.Key == key {
				return c.Choices(), true
			}
		}
		return nil, false
	}
	cur := append([]int{}, choices...)
	for improved := true; improved && time.Now().Before(until); {
		improved = false
		// drop a tail
		for n := 0; n < len(cur) && time.Now().Before(until); n++ {
			allZero := true
			for _, v := range cur[n:] {
				if v != 0 {
					allZero = false
				}
			}
			if allZero {
				break
			}
			if got, ok := fails(cur[:n]); ok && less(got, cur) {
				cur, improved = got, true
				break
			}
		}
		for i := 0; i < len(cur) && time.Now().Before(until); i++ {
			for v := 0; v < cur[i]; v++ {
				p := append(append([]int{}, cur[:i]...), v)
				p2 := append(append([]int{}, p...), cur[i+1:]...)
				if got, ok := fails(p2); ok && less(got, cur) {
					cur, improved = got, true
					break
				}
				if got, ok := fails(p); ok && less(got, cur) {
					cur, improved = got, true
					break
				}
			}
		}
	}
	return cur
}

func less(a, b []int) bool {
	nz := func(x []int) (n, s int) {
		for _, v := range x {
			if v != 0 {
				n++
			}
			s += v
		}
		return
	}
	an, as := nz(a)
	bn, bs := nz(b)
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	if an != bn {
		return an < bn
	}
	return as < bs
}

// Report is what a worker hands to the supervisor.
type Report struct {
	Scope       string           `json:"scope"`
	Executions  int64            `json:"executions"`
	Transitions int64            `json:"transitions"`
	Choices     int64            `json:"choices"`
	Divergences int64            `json:"divergences"`
	Pruned      int64            `json:"pruned"`
	Complete    bool             `json:"complete"`
	StatesFull  bool             `json:"states_full"`
	MaxDepth    int              `json:"max_depth"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Samples     [][]string       `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Unrepro     []Violation      `json:"unreproduced"`
}

// Violation is a replayable counterexample.
type Violation struct {
	Property   string   `json:"property"`
	Scope      string   `json:"scope"`
	Thorough   bool     `json:"thorough"`
	Choices    []int    `json:"choices"`
	Key        string   `json:"key"`
	Msg        string   `json:"msg"`
	Log        []string `json:"log"`
	Reproduced string   `json:"reproduced"`
	Known      bool     `json:"known"`
}

// WriteJSON writes v to a file.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}

// SortedOutcomes renders outcome counts.
func SortedOutcomes(m map[string]int64, max int) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return m[keys[i]] > m[keys[j]] || m[keys[i]] == m[keys[j]] && keys[i] < keys[j] })
	if len(keys) > max {
		keys = keys[:max]
	}
	out := make([]string, len(keys))
	for i, k := range keys {
		out[i] = fmt.Sprintf("%s: %d", k, m[k])
	}
	return out
}

// SortedKeys returns the sorted keys of a map.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
