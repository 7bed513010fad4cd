package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var mcDir string    // /verif/mc
var verifDir string // /verif

// Finding is a disagreement between the model and the implementation.
type Finding struct {
	Sig string // stable signature: kind of disagreement
	Msg string
}

func finding(sig, f string, a ...interface{}) []Finding {
	return []Finding{{sig, fmt.Sprintf(f, a...)}}
}

// Case is one explored state (or pair / history) together with its trace.
type Case struct {
	Name  string
	Trace []string
	S     *Schema     // main schema
	T     *Schema     // second schema (diffs)
	X     interface{} // anything else
	Heavy bool
}

func (c *Case) Title() string {
	t := c.Name
	if len(c.Trace) > 0 {
		t += " : " + strings.Join(c.Trace, " ; ")
	}
	return t
}

type EvalFn func(r *Runner, c *Case) []Finding

type KnownFinding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"` // regexp on the signature
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type Ctx struct {
	ID         string
	Tier       string
	Thorough   bool
	start      time.Time
	deadline   time.Time
	runners    []*Runner
	freshR     *Runner
	mu         sync.Mutex
	states     int64
	trans      int64
	validated  int64
	runs       int64
	exhaustive bool
	samples    []interface{}
	viol       []violation
	violSigs   map[string]bool
	known      []KnownFinding
	knownHit   map[string]string
	spurious   int64
	stop       int32
	notes      map[string]interface{}
	assume     []string
	sampleN    int64
}

type violation struct {
	Finding Finding
	Case    string
	Replay  string
}

type Prop struct {
	ID    string
	Level string
	Run   func(*Ctx)
	Note  string
}

var props = map[string]*Prop{}

func register(id string, run func(*Ctx)) {
	props[id] = &Prop{ID: id, Level: "model_checking", Run: run}
}

func (x *Ctx) Left() time.Duration { return time.Until(x.deadline) }
func (x *Ctx) Stopped() bool {
	return atomic.LoadInt32(&x.stop) != 0 || time.Now().After(x.deadline)
}
func (x *Ctx) Note(k string, v interface{}) {
	x.mu.Lock()
	x.notes[k] = v
	x.mu.Unlock()
}
func (x *Ctx) AddNote(k string, n int) {
	x.mu.Lock()
	if v, ok := x.notes[k].(int); ok {
		x.notes[k] = v + n
	} else {
		x.notes[k] = n
	}
	x.mu.Unlock()
}

func (x *Ctx) sample(c *Case, extra string) {
	n := atomic.AddInt64(&x.sampleN, 1)
	if n == 1 || n == 17 || n == 301 || n == 5003 || n == 40009 {
		x.mu.Lock()
		m := map[string]interface{}{"case": c.Title()}
		if c.S != nil {
			b := c.S.JSON()
			if len(b) > 1500 {
				b = append(b[:1500], []byte("...")...)
			}
			m["schema"] = string(b)
		}
		if extra != "" {
			m["result"] = extra
		}
		x.samples = append(x.samples, m)
		x.mu.Unlock()
	}
}

// Pool starts the evaluation pool; feed() hands cases to it.
func (x *Ctx) Pool(eval EvalFn, feed func(emit func(*Case) bool)) {
	ch := make(chan *Case, 256)
	var wg sync.WaitGroup
	for i := range x.runners {
		wg.Add(1)
		go func(r *Runner) {
			defer wg.Done()
			for c := range ch {
				if x.Stopped() {
					x.exhaustive = false
					continue
				}
				x.one(r, c, eval)
			}
		}(x.runners[i])
	}
	feed(func(c *Case) bool {
		if x.Stopped() {
			if atomic.LoadInt32(&x.stop) == 0 {
				x.exhaustive = false
			}
			return false
		}
		ch <- c
		return true
	})
	close(ch)
	wg.Wait()
}

func safeEval(eval EvalFn, r *Runner, c *Case) (fs []Finding) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			fs = finding("harness-panic", "harness panic: %v\n%s", e, buf[:n])
		}
	}()
	return eval(r, c)
}

func (x *Ctx) one(r *Runner, c *Case, eval EvalFn) {
	r.Reset()
	n0 := r.Runs
	fs := safeEval(eval, r, c)
	atomic.AddInt64(&x.validated, 1)
	atomic.AddInt64(&x.runs, int64(r.Runs-n0))
	x.sample(c, "")
	if len(fs) == 0 {
		return
	}
	// Known and already seen signatures need no second look.
	var todo []Finding
	for _, f := range fs {
		x.mu.Lock()
		if x.violSigs[f.Sig] {
			x.mu.Unlock()
			continue
		}
		_, hit := x.knownHit[f.Sig]
		x.mu.Unlock()
		if hit {
			continue
		}
		todo = append(todo, f)
	}
	if len(todo) == 0 {
		return
	}
	// Confirm with plain processes, several times.
	x.mu.Lock()
	defer x.mu.Unlock()
	fr := x.freshR
	fr.rec = true
	defer func() { fr.rec = false }()
	counts := map[string]int{}
	var last []Finding
	var log []step
	const reps = 4
	for i := 0; i < reps; i++ {
		fr.Reset()
		fs2 := safeEval(eval, fr, c)
		last = fs2
		log = fr.log
		seen := map[string]bool{}
		for _, f := range fs2 {
			if !seen[f.Sig] {
				seen[f.Sig] = true
				counts[f.Sig]++
			}
		}
		if len(fs2) == 0 {
			break
		}
	}
	confirmed := false
	for _, f := range last {
		if counts[f.Sig] < reps {
			continue
		}
		confirmed = true
		x.record(f, c, log)
	}
	if !confirmed {
		x.spurious++
		if x.spurious <= 3 {
			fmt.Fprintf(os.Stderr, "note: unconfirmed finding dropped (%s): %s\n", c.Title(), todo[0].Msg)
		}
		r.Recycle()
		if x.spurious > 20 {
			// The code keeps state across runs in one process: use plain processes from here on.
			for _, rr := range x.runners {
				rr.fresh = true
			}
		}
	}
}

// record stores a confirmed finding; x.mu is held.
func (x *Ctx) record(f Finding, c *Case, log []step) {
	if x.violSigs[f.Sig] {
		return
	}
	for _, k := range x.known {
		if k.Property == x.ID && k.Fixed == "" {
			if ok, _ := regexp.MatchString("^(?:"+k.Sig+")$", f.Sig); ok {
				x.knownHit[f.Sig] = k.What
				return
			}
		}
	}
	x.violSigs[f.Sig] = true
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", x.ID, len(x.viol)+1))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": x.ID, "case": c.Title(), "signature": f.Sig, "message": f.Msg,
		"schema": c.S, "schema2": c.T, "steps": log}, "", " ")
	os.WriteFile(p, b, 0644)
	x.viol = append(x.viol, violation{f, c.Title(), p})
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, p)
	fmt.Printf("  case: %s\n  sig:  %s\n  %s\n", c.Title(), f.Sig, clip(f.Msg, 1500))
	max := 5
	if os.Getenv("MC_ALL") != "" {
		max = 500
	}
	if len(x.viol) >= max {
		atomic.StoreInt32(&x.stop, 1)
		x.exhaustive = false
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Report records a finding made outside Pool (already confirmed by the caller).
func (x *Ctx) Report(f Finding, c *Case, log []step) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.record(f, c, log)
}

// ---- exploration of the schema state space -----------------------------

type Seed struct {
	Name string
	S    *Schema
}

// sparse limits the edited positions of the large seeds to the first, middle
// and last table and the first, second and last column.
func sparse(name string, a *Alphabet) *Alphabet {
	if name != "many" && name != "long" {
		return a
	}
	b := *a
	b.TblFilter = func(s *Schema, ti int) bool { return ti == 0 || ti == len(s.Tables)-1 || ti == len(s.Tables)/2 }
	b.ColFilter = func(s *Schema, ti, ci int) bool { return ci <= 1 || ci == len(s.Tables[ti].Columns)-1 }
	return &b
}

type Level struct {
	A *Alphabet
}

// Explore enumerates every state reachable from the seeds by at most
// len(levels) edits, edit i taken from levels[i]; each distinct state is
// emitted once. keep (optional) limits the states considered.
func (x *Ctx) Explore(seeds []Seed, levels []*Alphabet, keep func(*Schema) bool, emit func(*Case) bool) {
	for _, sd := range seeds {
		seen := map[hash]struct{}{}
		type node struct {
			s     *Schema
			trace []string
		}
		h0 := hashOf(sd.S.JSON())
		seen[h0] = struct{}{}
		if keep == nil || keep(sd.S) {
			x.states++
			if !emit(&Case{Name: sd.Name, S: sd.S}) {
				return
			}
		}
		cur := []node{{sd.S, nil}}
		for li, a := range levels {
			lastLevel := li == len(levels)-1
			var next []node
			for _, n := range cur {
				for _, op := range sparse(sd.Name, a).Ops(n.s) {
					m := n.s.Clone()
					op.Apply(m)
					x.trans++
					h := hashOf(m.JSON())
					if _, dup := seen[h]; dup {
						continue
					}
					seen[h] = struct{}{}
					if keep != nil && !keep(m) {
						continue
					}
					x.states++
					tr := append(append([]string{}, n.trace...), op.Name)
					if !lastLevel {
						next = append(next, node{m, tr})
					}
					if !emit(&Case{Name: sd.Name, Trace: tr, S: m}) {
						return
					}
				}
			}
			cur = next
		}
	}
}

// ---- main ---------------------------------------------------------------

func loadKnown() []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k []KnownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return k
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <property>")
		os.Exit(2)
	}
	id := os.Args[1]
	verifDir = envOr("VERIF_DIR", "/verif")
	mcDir = filepath.Join(verifDir, "mc")
	scratch = os.Getenv("MC_SCRATCH")
	if scratch == "" {
		fmt.Fprintln(os.Stderr, "MC_SCRATCH not set")
		os.Exit(2)
	}
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	x := &Ctx{ID: id, Tier: tier, Thorough: tier == "thorough", start: time.Now(), exhaustive: true,
		violSigs: map[string]bool{}, knownHit: map[string]string{}, notes: map[string]interface{}{}, known: loadKnown()}
	budget := 150 * time.Second
	if x.Thorough {
		budget = 780 * time.Second
	}
	if v := os.Getenv("MC_BUDGET"); v != "" {
		if d, err := time.ParseDuration(v); err == nil {
			budget = d
		}
	}
	if err := buildAll(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	x.Note("build_s", time.Since(x.start).Seconds())
	x.deadline = time.Now().Add(budget)
	for i := 0; i < 8; i++ {
		x.runners = append(x.runners, newRunner(i, false))
	}
	x.freshR = newRunner(99, true)
	p.Run(x)
	for _, r := range x.runners {
		r.Close()
	}
	x.freshR.Close()
	x.finish(p)
}

func (x *Ctx) finish(p *Prop) {
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	if len(x.viol) > 0 {
		x.exhaustive = false
	}
	cov := map[string]interface{}{
		"states": x.states, "transitions": x.trans, "traces_validated_against_impl": x.validated,
		"exhaustive": x.exhaustive, "implementation_runs": x.runs, "samples": x.samples,
		"unconfirmed_findings_dropped": x.spurious,
	}
	if x.samples == nil {
		cov["samples"] = []interface{}{}
	}
	for k, v := range x.notes {
		cov[k] = v
	}
	var kh []string
	seen := map[string]bool{}
	for s, w := range x.knownHit {
		kh = append(kh, s)
		if !seen[w] {
			seen[w] = true
		}
	}
	sort.Strings(kh)
	var ws []string
	for w := range seen {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", x.ID, w)
	}
	cov["known_findings_seen"] = kh
	ev := map[string]interface{}{"property": x.ID, "tier": x.Tier, "seed": seed, "level": p.Level, "coverage": cov,
		"wall_s": time.Since(x.start).Seconds(), "violations": len(x.viol), "assumptions": x.assume}
	if x.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", x.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: states=%d transitions=%d validated=%d runs=%d exhaustive=%v violations=%d spurious=%d %.1fs\n", x.ID, x.Tier, x.states, x.trans,
		x.validated, x.runs, x.exhaustive, len(x.viol), x.spurious, time.Since(x.start).Seconds())
	if len(x.viol) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
