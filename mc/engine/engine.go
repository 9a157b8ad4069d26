//go:build go1.23

// Package engine is a small stateless model checker.
//
// A driver is a nondeterministic program: every choice the environment, the
// schedule or the input alphabet can make is a call of Ctx.Choose (or Ctx.Dev
// for choices that count against a deviation bound). The engine runs the
// driver once for every sequence of choices, depth first, by replaying a
// prefix and taking choice 0 afterwards. A driver ends normally, or by
// Ctx.Failf, which is a counterexample identified by its choice sequence.
package engine

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Space is one exhaustively enumerated space of executions.
type Space struct {
	Name   string
	Shards int  // independent parts, explored in parallel
	Dev    int  // deviation bound
	Serial bool // one worker only
	// Elastic spaces have executions whose number of choices may depend on
	// earlier executions (as by caches of the code under test).
	Elastic bool
	Bound   string // what the space covers
	Run     func(c *Ctx, shard int)
}

// A Prop is the check of one property.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	// Parts is the number of processes the shards of a check with global
	// state are spread over, each with one worker (0: one process for all).
	Parts  func(thorough bool) int
	Spaces func(thorough bool) []Space
}

type point struct{ n, choice int32 }

type failure struct{ msg, key string }

type knownHit struct{ key string }

// Ctx is one execution.
type Ctx struct {
	prefix   []int32
	trace    []point
	devs     int
	devBound int
	elastic  bool
	diverged bool

	Thorough bool
	verbose  bool
	logs     []string

	w *worker
}

// Choose returns a choice in [0, n); the engine explores all of them.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic("engine: Choose of nothing")
	}
	i := len(c.trace)
	var v int32
	if i < len(c.prefix) {
		v = c.prefix[i]
		if int(v) >= n && c.elastic {
			v = int32(n - 1)
			c.diverged = true
		}
		if int(v) >= n {
			panic(fmt.Sprintf("engine: replay diverged: choice %d of %d at %d", v, n, i))
		}
	}
	c.trace = append(c.trace, point{int32(n), v})
	return int(v)
}

// Script returns the choices still prescribed, for drivers that make their
// choices themselves (0 after those) and Record them.
func (c *Ctx) Script() []int32 {
	if len(c.trace) >= len(c.prefix) {
		return nil
	}
	return c.prefix[len(c.trace):]
}

// Record is like Choose for a choice already made.
func (c *Ctx) Record(n, v int) {
	if i := len(c.trace); i < len(c.prefix) && int(c.prefix[i]) != v {
		if !c.elastic {
			panic("engine: recorded another choice than the one prescribed")
		}
		c.diverged = true
	}
	c.trace = append(c.trace, point{int32(n), int32(v)})
}

// Dev is like Choose, but any choice other than 0 is a deviation
// and no more than the deviation bound of them are taken.
func (c *Ctx) Dev(n int) int {
	if c.devs >= c.devBound {
		return 0
	}
	v := c.Choose(n)
	if v != 0 {
		c.devs++
	}
	return v
}

// DevsLeft returns the number of deviations that may still be taken.
func (c *Ctx) DevsLeft() int { return c.devBound - c.devs }

// Pick chooses an element.
func Pick[T any](c *Ctx, xs []T) T { return xs[c.Choose(len(xs))] }

// Step counts a transition: an operation on the implementation.
func (c *Ctx) Step() { c.w.transitions++ }

// Steps counts n transitions.
func (c *Ctx) Steps(n int) { c.w.transitions += int64(n) }

// State records a visited state by hash.
func (c *Ctx) State(h uint64) {
	if len(c.w.states) < maxStates {
		c.w.states[h] = struct{}{}
	} else {
		c.w.statesCapped = true
	}
}

// StateOf records a visited state.
func (c *Ctx) StateOf(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xff, 0})
	}
	c.State(h.Sum64())
}

// Outcome counts an observed outcome class.
func (c *Ctx) Outcome(s string) {
	if len(c.w.outcomes) < 4096 {
		c.w.outcomes[s]++
	}
}

// Nontrivial marks the execution as non-trivial by the rule of the property.
func (c *Ctx) Nontrivial() { c.w.nontrivial++ }

// Logf records a line of the execution (kept for samples and replays).
func (c *Ctx) Logf(format string, args ...any) {
	if c.verbose {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		c.logs = append(c.logs, s)
	}
}

// Verbose reports whether Logf keeps anything.
func (c *Ctx) Verbose() bool { return c.verbose }

// Failf ends the execution as a counterexample.
func (c *Ctx) Failf(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	panic(failure{msg: msg})
}

// FailKey is like Failf for a failure with an identity that
// the known-findings file can name.
func (c *Ctx) FailKey(key, format string, args ...any) {
	if c.w.known[key] {
		panic(knownHit{key})
	}
	panic(failure{msg: fmt.Sprintf(format, args...), key: key})
}

const maxStates = 3_000_000

type worker struct {
	id           int
	execs        int64
	diverged     int64
	transitions  int64
	choicePoints int64
	nontrivial   int64
	maxTrace     int
	states       map[uint64]struct{}
	statesCapped bool
	outcomes     map[string]int64
	known        map[string]bool
	knownHits    map[string]int64
	slot         *slot
}

// Trace identifies one execution.
type Trace struct {
	Space string  `json:"space"`
	Shard int     `json:"shard"`
	Trace []int32 `json:"trace"`
}

// Violation is a counterexample.
type Violation struct {
	Trace
	Msg       string   `json:"msg"`
	Key       string   `json:"key,omitempty"`
	Confirmed int      `json:"confirmed_of_5"`
	Log       []string `json:"log,omitempty"`
}

// SpaceResult is what was covered in a space.
type SpaceResult struct {
	Name        string `json:"space"`
	Bound       string `json:"bound"`
	Dev         int    `json:"deviation_bound"`
	Shards      int    `json:"shards"`
	Executions  int64  `json:"executions"`
	Transitions int64  `json:"transitions"`
	States      int    `json:"distinct_states"`
	MaxChoices  int    `json:"max_choices_in_one_execution"`
	Outcomes    int    `json:"distinct_outcomes"`
	Diverged    int64  `json:"diverged,omitempty"`
	Exhaustive  bool   `json:"exhaustive"`
	WallS       float64
}

// Result is what one run covered.
type Result struct {
	Executions  int64            `json:"executions"`
	Transitions int64            `json:"transitions"`
	Nontrivial  int64            `json:"nontrivial"`
	States      int              `json:"states"`
	Capped      bool             `json:"states_capped"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Spaces      []SpaceResult    `json:"spaces"`
	Exhaustive  bool             `json:"exhaustive"`
	Samples     []string         `json:"samples"`
	KnownHits   map[string]int64 `json:"known_hits"`
	Violation   *Violation       `json:"violation"`
	WallS       float64          `json:"wall_s"`
}

func newWorker(id int, known map[string]bool) *worker {
	return &worker{
		id:        id,
		states:    map[uint64]struct{}{},
		outcomes:  map[string]int64{},
		known:     known,
		knownHits: map[string]int64{},
	}
}

// run1 runs one execution.
func run1(w *worker, sp *Space, shard int, prefix []int32, thorough, verbose bool) (c *Ctx, fail *failure) {
	c = &Ctx{prefix: prefix, devBound: sp.Dev, elastic: sp.Elastic, Thorough: thorough, verbose: verbose, w: w}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case failure:
				fail = &r
			case knownHit:
				w.knownHits[r.key]++
			default:
				if s, ok := r.(string); ok && strings.HasPrefix(s, "engine: ") {
					panic(r)
				}
				stack := string(debug.Stack())
				if len(stack) > 3000 {
					stack = stack[:3000]
				}
				fail = &failure{msg: fmt.Sprintf("panic: %v\n%s", r, stack)}
			}
		}
	}()
	sp.Run(c, shard)
	if len(c.trace) < len(prefix) && c.elastic {
		c.diverged = true
	}
	if len(c.trace) < len(prefix) && !c.elastic {
		panic("engine: replay diverged: execution ended before its prefix")
	}
	return c, nil
}

func choices(tr []point) []int32 {
	out := make([]int32, len(tr))
	for i, p := range tr {
		out[i] = p.choice
	}
	return out
}

// explore enumerates one shard depth first.
func explore(w *worker, si int, sp *Space, shard int, thorough bool, stop *atomic.Bool, deadline time.Time) (v *Violation, complete bool) {
	var prefix []int32
	for n := 0; ; n++ {
		if stop.Load() {
			return nil, false
		}
		if n&63 == 63 && time.Now().After(deadline) {
			return nil, false
		}
		w.slot.begin(si, shard, prefix)
		c, fail := run1(w, sp, shard, prefix, thorough, false)
		w.slot.end()
		w.execs++
		if c.diverged {
			w.diverged++
		}
		if len(c.trace) > w.maxTrace {
			w.maxTrace = len(c.trace)
		}
		if fail != nil {
			tr := choices(c.trace)
			v := &Violation{Trace: Trace{sp.Name, shard, tr}, Msg: fail.msg, Key: fail.key}
			for range 5 {
				w.slot.begin(si, shard, tr)
				c2, f2 := run1(w, sp, shard, tr, thorough, true)
				w.slot.end()
				if f2 != nil {
					v.Confirmed++
					v.Log = c2.logs
				}
			}
			return v, false
		}
		tr := c.trace
		i := len(tr) - 1
		for i >= 0 && tr[i].choice+1 >= tr[i].n {
			i--
		}
		if i < 0 {
			return nil, true
		}
		prefix = choices(tr[:i+1])
		prefix[i]++
	}
}

// Explore explores all spaces of a property.
func Explore(p *Prop, thorough bool, workers int, budget time.Duration, known map[string]bool, j *journal, only string, part, parts int) *Result {
	start := time.Now()
	deadline := start.Add(budget)
	res := &Result{Outcomes: map[string]int64{}, KnownHits: map[string]int64{}, Exhaustive: true}
	spaces := p.Spaces(thorough)
	var stop atomic.Bool
	allStates := map[uint64]struct{}{}
	for si := range spaces {
		sp := &spaces[si]
		if only != "" && !strings.Contains(sp.Name, only) {
			continue
		}
		t0 := time.Now()
		nw := workers
		if sp.Serial {
			nw = 1
		}
		ws := make([]*worker, nw)
		var next atomic.Int64
		var mu sync.Mutex
		var wg sync.WaitGroup
		complete := true
		for i := range ws {
			w := newWorker(i, known)
			w.slot = j.slot(i)
			ws[i] = w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					sh := int(next.Add(1)) - 1
					if sh >= sp.Shards {
						return
					}
					if sh%parts != part {
						continue
					}
					v, ok := explore(w, si, sp, sh, thorough, &stop, deadline)
					mu.Lock()
					if v != nil {
						stop.Store(true)
						if res.Violation == nil || v.Confirmed > res.Violation.Confirmed {
							res.Violation = v
						}
					}
					if !ok {
						complete = false
					}
					mu.Unlock()
					if !ok {
						return
					}
				}
			}()
		}
		wg.Wait()
		sr := SpaceResult{Name: sp.Name, Bound: sp.Bound, Dev: sp.Dev, Shards: sp.Shards, Exhaustive: complete}
		st := map[uint64]struct{}{}
		oc := map[string]int64{}
		for _, w := range ws {
			sr.Executions += w.execs
			sr.Diverged += w.diverged
			sr.Transitions += w.transitions
			res.Nontrivial += w.nontrivial
			sr.MaxChoices = max(sr.MaxChoices, w.maxTrace)
			for h := range w.states {
				st[h] = struct{}{}
			}
			res.Capped = res.Capped || w.statesCapped
			for k, n := range w.outcomes {
				oc[k] += n
			}
			for k, n := range w.knownHits {
				res.KnownHits[k] += n
			}
		}
		sr.States = len(st)
		sr.Outcomes = len(oc)
		for h := range st {
			// states of different spaces are different states
			allStates[h^(uint64(si+1)*0x9e3779b97f4a7c15)] = struct{}{}
		}
		for k, n := range oc {
			if len(res.Outcomes) < 60 {
				res.Outcomes[k] += n
			}
		}
		sr.WallS = time.Since(t0).Seconds()
		res.Executions += sr.Executions
		res.Transitions += sr.Transitions
		sr.Exhaustive = complete && sr.Diverged == 0
		res.Exhaustive = res.Exhaustive && sr.Exhaustive
		res.Spaces = append(res.Spaces, sr)
		if stop.Load() {
			break
		}
		// Samples: the last execution of the first shard's first few, replayed verbosely.
		if len(res.Samples) < 24 {
			w := newWorker(0, known)
			w.slot = j.slot(0)
			for _, sh := range []int{0, sp.Shards / 2} {
				w.slot.begin(si, sh, nil)
				c, _ := run1(w, sp, sh, nil, thorough, true)
				w.slot.end()
				if c != nil && len(c.logs) > 0 {
					res.Samples = append(res.Samples, fmt.Sprintf("%s/shard %d, choices %v: %s", sp.Name, sh, clip(choices(c.trace), 40), clipS(strings.Join(c.logs, "; "), 500)))
				}
			}
		}
	}
	res.States = len(allStates)
	res.WallS = time.Since(start).Seconds()
	return res
}

func clip(xs []int32, n int) []int32 {
	if len(xs) > n {
		return xs[:n]
	}
	return xs
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Replay runs one execution verbosely.
func Replay(p *Prop, thorough bool, t Trace, j *journal) (log []string, msg string, failed bool, err error) {
	spaces := p.Spaces(thorough)
	for si := range spaces {
		if spaces[si].Name == t.Space {
			w := newWorker(0, nil)
			w.slot = j.slot(0)
			w.slot.begin(si, t.Shard, t.Trace)
			c, fail := run1(w, &spaces[si], t.Shard, t.Trace, thorough, true)
			w.slot.end()
			if fail != nil {
				return c.logs, fail.msg, true, nil
			}
			return c.logs, "", false, nil
		}
	}
	return nil, "", false, fmt.Errorf("no space %q", t.Space)
}

func fatalf(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", args...)
	os.Exit(2)
}

// merge adds up what several processes covered.
func merge(rs []*Result) *Result {
	m := rs[0]
	for _, r := range rs[1:] {
		m.Executions += r.Executions
		m.Transitions += r.Transitions
		m.Nontrivial += r.Nontrivial
		m.States += r.States
		m.Capped = m.Capped || r.Capped
		m.Exhaustive = m.Exhaustive && r.Exhaustive
		m.WallS = max(m.WallS, r.WallS)
		for k, n := range r.Outcomes {
			m.Outcomes[k] += n
		}
		for k, n := range r.KnownHits {
			m.KnownHits[k] += n
		}
		if v := r.Violation; v != nil && (m.Violation == nil || v.Confirmed > m.Violation.Confirmed) {
			m.Violation = v
		}
		if len(m.Samples) == 0 {
			m.Samples = r.Samples
		}
		for i := range r.Spaces {
			if i >= len(m.Spaces) {
				break
			}
			a, b := &m.Spaces[i], &r.Spaces[i]
			a.Executions += b.Executions
			a.Transitions += b.Transitions
			a.States += b.States
			a.MaxChoices = max(a.MaxChoices, b.MaxChoices)
			a.Outcomes = max(a.Outcomes, b.Outcomes)
			a.Diverged += b.Diverged
			a.Exhaustive = a.Exhaustive && b.Exhaustive
			a.WallS = max(a.WallS, b.WallS)
		}
	}
	return m
}
