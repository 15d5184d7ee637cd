// Command check decides one property: it divides the bounded space among worker
// processes, merges what they covered, and reports violations.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/explore"
	"verif/mc/props"
	"verif/mc/vsched"
)

var (
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "tier")
	fRoot     = flag.String("root", "/verif", "verification directory")
	fBuild    = flag.String("build", "", "build directory (points.json)")
	fMode     = flag.String("mode", "", "instrumentation mode, for the evidence")
	fWorker   = flag.String("worker", "", "worker: shard/of")
	fDir      = flag.String("dir", "", "worker directory")
	fReplay   = flag.String("replay", "", "replay a counterexample file")
	fRaceBin  = flag.String("racebin", "", "binary built with the race detector")
	fRace     = flag.Bool("race", false, "run the free-running bodies")
	fList     = flag.Bool("list", false, "list the scopes")
	fScope    = flag.String("scope", "", "only this scope")
	fN        = flag.Int("n", 0, "number of workers")
	fHang     = flag.Int("hang", 60, "seconds after which one execution counts as hanging")
	fDeadline = flag.Int("deadline", 0, "seconds after which exploration stops")
	fCPU      = flag.String("cpuprofile", "", "profile")
)

func main() {
	flag.Parse()
	p := props.All[*fProp]
	if *fList {
		for _, id := range explore.SortedKeys(props.All) {
			for _, sc := range props.All[id].Scopes {
				fmt.Printf("%s\t%s\t%v\t%s\n", id, sc.Name, sc.Thorough, sc.Desc)
			}
		}
		return
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	if *fCPU != "" {
		f, _ := os.Create(*fCPU)
		pprof.StartCPUProfile(f)
	}
	if *fRace {
		props.Once()
		props.RunRace(*fTier == "thorough")
		os.Exit(0)
	}
	if *fWorker != "" {
		c := worker(p)
		if *fCPU != "" {
			pprof.StopCPUProfile()
		}
		os.Exit(c)
	}
	os.Exit(supervise(p))
}

func explorer(p *props.Prop, s props.Scope, thorough bool) *explore.Explorer {
	return &explore.Explorer{Scope: s.Name, Body: s.Body, Thorough: thorough, Of: 1, SplitDepth: s.Split,
		BeforeCase: func() { vsched.Reset(); props.Init() }}
}

// ---- worker

type journalEntry struct {
	Scope  string `json:"scope"`
	Prefix []int  `json:"prefix"`
}

func worker(p *props.Prop) int {
	var shard, of int
	fmt.Sscanf(*fWorker, "%d/%d", &shard, &of)
	props.Once()
	known := loadKnown(*fRoot)
	thorough := *fTier == "thorough"
	jf, err := os.Create(filepath.Join(*fDir, fmt.Sprintf("journal.%d", shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dl := time.Duration(*fDeadline) * time.Second
	start := time.Now()
	var reports []explore.Report
	var states []uint64
	flush := func() {
		explore.WriteJSON(filepath.Join(*fDir, fmt.Sprintf("report.%d", shard)), reports)
		var b bytes.Buffer
		w := bufio.NewWriter(&b)
		for _, h := range states {
			var x [8]byte
			binary.LittleEndian.PutUint64(x[:], h)
			w.Write(x[:])
		}
		w.Flush()
		os.WriteFile(filepath.Join(*fDir, fmt.Sprintf("states.%d", shard)), b.Bytes(), 0644)
		var vis []int
		for i, v := range vsched.Visited {
			if v {
				vis = append(vis, i)
			}
		}
		explore.WriteJSON(filepath.Join(*fDir, fmt.Sprintf("visited.%d", shard)), vis)
	}
	for _, s := range p.Scopes {
		if s.Thorough && !thorough || *fScope != "" && *fScope != s.Name {
			continue
		}
		if s.Single && shard != 0 {
			continue
		}
		e := explorer(p, s, thorough)
		if !s.Single {
			e.Shard, e.Of = shard, of
			if e.SplitDepth == 0 {
				e.SplitDepth = 2
			}
		}
		e.Deadline = start.Add(dl)
		pre := []byte(fmt.Sprintf("%-40s", s.Name))
		buf := make([]byte, 0, 4096)
		e.Journal = func(prefix []int) {
			buf = append(buf[:0], pre...)
			buf = binary.AppendUvarint(buf, uint64(len(prefix)))
			for _, v := range prefix {
				buf = binary.AppendUvarint(buf, uint64(v))
			}
			jf.WriteAt(buf, 0)
		}
		stop := make(chan struct{})
		go watchdog(e, stop)
		rep := explore.Report{Scope: s.Name}
		fatal := false
		e.Explore(func(c *explore.C) bool {
			for _, f := range c.Fails() {
				if known.has(p.ID, f.Key) {
					dup := false
					for _, v := range rep.Violations {
						dup = dup || v.Key == f.Key
					}
					if !dup {
						rep.Violations = append(rep.Violations, explore.Violation{Property: p.ID, Scope: s.Name, Thorough: thorough, Choices: c.Choices(), Key: f.Key, Msg: f.Msg, Known: true})
					}
					continue
				}
				v := explore.Violation{Property: p.ID, Scope: s.Name, Thorough: thorough, Choices: c.Choices(), Key: f.Key, Msg: f.Msg}
				confirm(e, &v)
				if v.Reproduced == "0/20" {
					rep.Unrepro = append(rep.Unrepro, v)
					if len(rep.Unrepro) < 5 {
						continue
					}
					// keeps happening, though not when repeated alone: report it
					rep.Unrepro = rep.Unrepro[:0]
				}
				rep.Violations = append(rep.Violations, v)
				fatal = true
				return false
			}
			return true
		})
		close(stop)
		rep.Executions, rep.Transitions, rep.Choices = e.Executions, e.Transitions, e.Choices
		rep.Divergences, rep.Pruned, rep.Complete, rep.MaxDepth = e.Divergences, e.Pruned, e.Complete, e.MaxDepth
		rep.Outcomes, rep.StatesFull = e.Outcomes, e.StatesFull
		states = append(states, e.States()...)
		if !fatal && (shard == 0 || s.Single) {
			for i, ch := range e.Samples {
				if i >= 2 && i < len(e.Samples)-1 {
					continue
				}
				c := e.RunOne(ch, nil, true)
				l := c.Log()
				if len(l) > 12 {
					l = append(l[:12:12], "...")
				}
				for i := range l {
					if len(l[i]) > 300 {
						l[i] = l[i][:300] + "..."
					}
				}
				rep.Samples = append(rep.Samples, append([]string{fmt.Sprintf("decisions %v", clipInts(ch))}, l...))
			}
		}
		reports = append(reports, rep)
		if fatal {
			flush()
			return 1
		}
	}
	flush()
	return 0
}

func clipInts(x []int) []int {
	if len(x) > 60 {
		return x[:60]
	}
	return x
}

// confirm re-runs a failing execution, minimizes it, and keeps its narrative.
func confirm(e *explore.Explorer, v *explore.Violation) {
	again := 0
	for i := 0; i < 20; i++ {
		c := e.RunOne(v.Choices, nil, false)
		e.Progress++
		for _, f := range c.Fails() {
			if f.Key == v.Key {
				again++
				break
			}
		}
		if i == 4 && again == 5 {
			break
		}
	}
	if again == 5 {
		v.Reproduced = "5/5"
	} else {
		v.Reproduced = fmt.Sprintf("%d/20", again)
	}
	if again == 5 {
		v.Choices = e.Minimize(v.Choices, v.Key, time.Now().Add(20*time.Second))
	}
	c := e.RunOne(v.Choices, nil, true)
	v.Log = c.Log()
	for _, f := range c.Fails() {
		if f.Key == v.Key {
			v.Msg = f.Msg
			break
		}
	}
}

func watchdog(e *explore.Explorer, stop chan struct{}) {
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
		}
		p := atomic.LoadInt64(&e.Progress)
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > time.Duration(*fHang)*time.Second {
			b := make([]byte, 1<<20)
			n := runtime.Stack(b, true)
			fmt.Fprintf(os.Stderr, "execution does not finish (no progress for %d s)\n%s\n", *fHang, b[:n])
			os.Exit(3)
		}
	}
}

// ---- supervisor

type knownSet map[string]string

func loadKnown(root string) knownSet {
	k := knownSet{}
	b, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<key> <what fails>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 {
			k[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return k
}

func (k knownSet) has(id, key string) bool { _, ok := k[id+" "+key]; return ok }

func supervise(p *props.Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := *fN
	if n == 0 {
		n = runtime.NumCPU()
		if n > 16 {
			n = 16
		}
	}
	deadline := *fDeadline
	if deadline == 0 {
		deadline = 240
		if *fTier == "thorough" {
			deadline = 800
		}
	}
	self, _ := os.Executable()
	type result struct {
		shard, code int
		stderr      string
	}
	run := func(shard int) result {
		sd := filepath.Join(dir, fmt.Sprintf("scratch.%d", shard))
		os.MkdirAll(sd, 0755)
		cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-root", *fRoot, "-worker", fmt.Sprintf("%d/%d", shard, n),
			"-dir", dir, "-scope", *fScope, "-hang", fmt.Sprint(*fHang), "-deadline", fmt.Sprint(deadline))
		cmd.Env = append(os.Environ(), "MC_SCRATCH="+sd, "TMPDIR="+sd, "GOMAXPROCS=2", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
		cmd.Dir = sd
		var eb tailBuf
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		if err := cmd.Start(); err != nil {
			return result{shard, 2, err.Error()}
		}
		mu.Lock()
		procs[shard] = cmd.Process
		mu.Unlock()
		cmd.Wait()
		return result{shard, cmd.ProcessState.ExitCode(), eb.String()}
	}
	ch := make(chan result)
	for i := 0; i < n; i++ {
		go func(i int) { ch <- run(i) }(i)
	}
	var raceOut string
	raceCode := make(chan int, 1)
	if p.Race && *fRaceBin != "" {
		go func() {
			cmd := exec.Command(*fRaceBin, "-prop", p.ID, "-tier", *fTier, "-race")
			sd := filepath.Join(dir, "scratch.race")
			os.MkdirAll(sd, 0755)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "MC_SCRATCH="+sd, "TMPDIR="+sd)
			cmd.Dir = sd
			var eb tailBuf
			cmd.Stderr, cmd.Stdout = &eb, &eb
			done := make(chan error, 1)
			if err := cmd.Start(); err != nil {
				raceCode <- -2
				return
			}
			go func() { done <- cmd.Wait() }()
			select {
			case <-done:
				raceOut = eb.String()
				raceCode <- cmd.ProcessState.ExitCode()
			case <-time.After(time.Duration(deadline) * time.Second):
				cmd.Process.Kill()
				raceCode <- -3
			}
		}()
	} else {
		raceCode <- -1
	}
	var viol []explore.Violation
	var notes []string
	killed := false
	retried := map[int]bool{}
	left := n
	for left > 0 {
		r := <-ch
		left--
		switch {
		case r.code == 0 || killed:
		case r.code == 1:
			killed = true
			killAll()
		default:
			// crash or hang: confirm on the journalled execution alone
			v := confirmCrash(p, self, dir, r.shard, r.code, r.stderr)
			if v != nil {
				viol = append(viol, *v)
				killed = true
				killAll()
				break
			}
			if !retried[r.shard] {
				retried[r.shard] = true
				notes = append(notes, fmt.Sprintf("worker %d ended with code %d, not reproduced alone; its shard was run again", r.shard, r.code))
				left++
				go func(i int) { ch <- run(i) }(r.shard)
				break
			}
			fmt.Fprintf(os.Stderr, "worker %d ended with code %d twice\n%s\n", r.shard, r.code, r.stderr)
			return 2
		}
	}
	// merge
	type agg struct {
		explore.Report
		shards int
	}
	scopes := map[string]*agg{}
	states := map[uint64]struct{}{}
	visited := map[int]bool{}
	var unrepro int
	for i := 0; i < n; i++ {
		var reps []explore.Report
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("report.%d", i)))
		if err != nil {
			continue
		}
		json.Unmarshal(b, &reps)
		for _, r := range reps {
			a := scopes[r.Scope]
			if a == nil {
				a = &agg{}
				a.Complete = true
				a.Outcomes = map[string]int64{}
				scopes[r.Scope] = a
			}
			a.shards++
			a.Executions += r.Executions
			a.Transitions += r.Transitions
			a.Choices += r.Choices
			a.Divergences += r.Divergences
			a.Complete = a.Complete && r.Complete
			a.StatesFull = a.StatesFull || r.StatesFull
			if r.MaxDepth > a.MaxDepth {
				a.MaxDepth = r.MaxDepth
			}
			for k, v := range r.Outcomes {
				a.Outcomes[k] += v
			}
			a.Samples = append(a.Samples, r.Samples...)
			viol = append(viol, r.Violations...)
			unrepro += len(r.Unrepro)
			for _, u := range r.Unrepro {
				notes = append(notes, "seen once but not when repeated: "+clip(u.Key+": "+u.Msg, 300))
			}
		}
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states.%d", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				states[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("visited.%d", i))); err == nil {
			var vis []int
			json.Unmarshal(b, &vis)
			for _, v := range vis {
				visited[v] = true
			}
		}
	}
	if killed {
		// do not wait for the free-running pass
	} else if rc := <-raceCode; rc == 66 || rc == 1 || rc == 2 {
		if rc == 66 || strings.Contains(raceOut, "DATA RACE") || strings.Contains(raceOut, "fatal error: concurrent") || strings.Contains(raceOut, "MISMATCH") {
			viol = append(viol, explore.Violation{Property: p.ID, Scope: "race", Thorough: *fTier == "thorough", Key: "race", Msg: "free-running pass under the race detector failed:\n" + raceOut})
		} else {
			notes = append(notes, "free-running pass ended abnormally: "+clip(raceOut, 500))
		}
	} else if rc == 0 {
		notes = append(notes, "free-running pass under the race detector: no race. "+strings.TrimSpace(clip(raceOut, 300)))
	} else if p.Race {
		notes = append(notes, fmt.Sprintf("free-running pass not available (code %d)", rc))
	}

	var exec, trans, choices, div int64
	exhaustive := true
	full := false
	var names []string
	for k := range scopes {
		names = append(names, k)
	}
	sort.Strings(names)
	scopeInfo := map[string]interface{}{}
	var samples []interface{}
	desc := map[string]string{}
	want := 0
	for _, s := range p.Scopes {
		desc[s.Name] = s.Desc
		if !s.Thorough || *fTier == "thorough" {
			want++
		}
	}
	for _, k := range names {
		a := scopes[k]
		exec += a.Executions
		trans += a.Transitions
		choices += a.Choices
		div += a.Divergences
		exhaustive = exhaustive && a.Complete
		full = full || a.StatesFull
		scopeInfo[k] = map[string]interface{}{"bounds": desc[k], "executions": a.Executions, "operations": a.Transitions, "decisions": a.Choices,
			"longest": a.MaxDepth, "complete": a.Complete, "distinct_outcomes": len(a.Outcomes), "outcomes": explore.SortedOutcomes(a.Outcomes, 8)}
		for i, s := range a.Samples {
			if i < 3 {
				samples = append(samples, map[string]interface{}{"scope": k, "trace": s})
			}
		}
	}
	if len(names) < want && *fScope == "" {
		exhaustive = false
	}
	if killed || div > 0 {
		exhaustive = false
	}
	var table []string
	if b, err := os.ReadFile(filepath.Join(*fBuild, "points.json")); err == nil {
		json.Unmarshal(b, &table)
	}
	fns := map[string][2]int{}
	for i, t := range table {
		x := fns[fnOf(t)]
		x[1]++
		if visited[i] {
			x[0]++
		}
		fns[fnOf(t)] = x
	}
	var reached []string
	for f, x := range fns {
		if x[0] > 0 {
			reached = append(reached, fmt.Sprintf("%s %d/%d", f, x[0], x[1]))
		}
	}
	sort.Strings(reached)
	nreached := len(reached)
	if len(reached) > 60 {
		reached = append(reached[:60:60], "...")
	}
	cov := map[string]interface{}{
		"states": len(states), "transitions": trans, "traces_validated_against_impl": exec, "samples": samples,
		"decisions": choices, "exhaustive": exhaustive, "scopes": scopeInfo,
		"binding_to_code": "every trace is an execution of the code in /repo itself, rebuilt for this run; each is compared step by step with the reference model",
		"instrumentation": *fMode, "replay_divergences": div, "states_capped": full,
		"repo_statements_reached": len(visited), "repo_statements_total": len(table), "functions_reached": nreached, "functions": reached,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	unknown := 0
	printed := map[string]bool{}
	known := loadKnown(*fRoot)
	seq := 0
	for _, v := range viol {
		if known.has(p.ID, v.Key) {
			if !printed[v.Key] {
				printed[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", p.ID, v.Key, known[p.ID+" "+v.Key])
			}
			continue
		}
		unknown++
		seq++
		rd := filepath.Join(*fRoot, "replays")
		os.MkdirAll(rd, 0755)
		f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", p.ID, seq))
		explore.WriteJSON(f, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		fmt.Printf("  scope %s, key %s, reproduced %s\n  %s\n", v.Scope, v.Key, v.Reproduced, strings.ReplaceAll(clip(v.Msg, 2000), "\n", "\n  "))
		for i, l := range v.Log {
			if i > 40 {
				break
			}
			fmt.Printf("  | %s\n", clip(l, 400))
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{"the Go standard library, regexp and the third-party decoders are trusted", "only the alphabets and bounds listed per scope are covered"}, p.Assumptions...),
		"wall_s":      time.Since(start).Seconds(), "violations": unknown,
	}
	os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0755)
	if err := explore.WriteJSON(filepath.Join(*fRoot, "evidence", p.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if d := os.Getenv("MC_COVER"); d != "" {
		var vis []string
		for i, t := range table {
			if visited[i] {
				vis = append(vis, t)
			}
		}
		explore.WriteJSON(filepath.Join(d, p.ID+".json"), vis)
		explore.WriteJSON(filepath.Join(d, "all.json"), table)
	}
	fmt.Printf("property=%s tier=%s executions=%d operations=%d states=%d decisions=%d exhaustive=%v wall=%.1fs\n", p.ID, *fTier, exec, trans, len(states), choices, exhaustive, time.Since(start).Seconds())
	for _, k := range names {
		a := scopes[k]
		fmt.Printf("  scope %-22s executions=%-9d operations=%-10d longest=%-4d complete=%v outcomes=%d\n", k, a.Executions, a.Transitions, a.MaxDepth, a.Complete, len(a.Outcomes))
	}
	for _, x := range notes {
		fmt.Println("  note:", x)
	}
	if unknown > 0 {
		return 1
	}
	return 0
}

func fnOf(t string) string {
	// file:line func
	i, j := strings.Index(t, ":"), strings.LastIndex(t, " ")
	return t[:i] + " " + t[j+1:]
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

var (
	mu    sync.Mutex
	procs = map[int]*os.Process{}
)

func killAll() {
	mu.Lock()
	defer mu.Unlock()
	for _, p := range procs {
		p.Kill()
	}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16<<10 {
		k := len(p)
		if k > 16<<10 {
			k = 16 << 10
		}
		t.b = append(t.b, p[:k]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// confirmCrash repeats the execution a dead worker was in.
func confirmCrash(p *props.Prop, self, dir string, shard, code int, stderr string) *explore.Violation {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if err != nil || len(b) < 41 {
		return nil
	}
	scope := strings.TrimSpace(string(b[:40]))
	rd := bytes.NewReader(b[40:])
	n, err := binary.ReadUvarint(rd)
	if err != nil {
		return nil
	}
	var prefix []int
	for i := uint64(0); i < n; i++ {
		v, err := binary.ReadUvarint(rd)
		if err != nil {
			return nil
		}
		prefix = append(prefix, int(v))
	}
	v := &explore.Violation{Property: p.ID, Scope: scope, Thorough: *fTier == "thorough", Choices: prefix, Key: "crash",
		Msg: fmt.Sprintf("the process died (code %d) or hung during this execution:\n%s", code, clip(stderr, 6000))}
	f := filepath.Join(dir, fmt.Sprintf("crash.%d.json", shard))
	explore.WriteJSON(f, v)
	again := 0
	for i := 0; i < 3; i++ {
		sd := filepath.Join(dir, "scratch.replay")
		os.MkdirAll(sd, 0755)
		cmd := exec.Command(self, "-replay", f, "-root", *fRoot)
		cmd.Env = append(os.Environ(), "MC_SCRATCH="+sd, "TMPDIR="+sd, "GOMAXPROCS=2")
		cmd.Dir = sd
		var eb tailBuf
		cmd.Stderr, cmd.Stdout = &eb, &eb
		if cmd.Start() != nil {
			return nil
		}
		done := make(chan struct{})
		go func() { cmd.Wait(); close(done) }()
		select {
		case <-done:
			if c := cmd.ProcessState.ExitCode(); c != 0 {
				again++
			}
		case <-time.After(time.Duration(*fHang) * time.Second):
			cmd.Process.Kill()
			<-done
			again++
		}
		if i == 0 && again == 0 {
			continue
		}
		if again > 0 && i >= 1 {
			break
		}
	}
	if again == 0 {
		return nil
	}
	v.Reproduced = fmt.Sprintf("%d", again)
	return v
}

// ---- replay

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v explore.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props.All[v.Property]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", v.Property)
		return 2
	}
	props.Once()
	for _, s := range p.Scopes {
		if s.Name != v.Scope {
			continue
		}
		c := explorer(p, s, v.Thorough).RunOne(v.Choices, nil, true)
		for _, l := range c.Log() {
			fmt.Println(l)
		}
		for _, f := range c.Fails() {
			fmt.Printf("FAIL %s: %s\n", f.Key, f.Msg)
		}
		if len(c.Fails()) > 0 {
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	fmt.Fprintf(os.Stderr, "unknown scope %q\n", v.Scope)
	return 2
}
