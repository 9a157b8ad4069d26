//go:build go1.23

package engine

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The journal tells the supervising process which execution every worker is
// in, so that an execution that ends the process or does not end is known.
type journal struct{ mem []byte }

const slotSize = 32 << 10

type slot struct{ mem []byte }

func openJournal(path string, slots int) *journal {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fatalf("journal: %v", err)
	}
	defer f.Close()
	if err := f.Truncate(int64(slots * slotSize)); err != nil {
		fatalf("journal: %v", err)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slots*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("journal: %v", err)
	}
	return &journal{mem}
}

func (j *journal) slot(i int) *slot {
	return &slot{j.mem[i*slotSize : (i+1)*slotSize]}
}

// begin records the execution about to run; a sequence number makes progress visible.
func (s *slot) begin(space, shard int, prefix []int32) {
	le := binary.LittleEndian
	le.PutUint32(s.mem[8:], uint32(space))
	le.PutUint32(s.mem[12:], uint32(shard))
	n := min(len(prefix), (slotSize-32)/4)
	le.PutUint32(s.mem[16:], uint32(n))
	for i := range n {
		le.PutUint32(s.mem[32+4*i:], uint32(prefix[i]))
	}
	le.PutUint32(s.mem[20:], 1)
	le.PutUint64(s.mem[0:], le.Uint64(s.mem[0:])+1)
}

func (s *slot) end() { binary.LittleEndian.PutUint32(s.mem[20:], 0) }

func (s *slot) read() (seq uint64, active bool, space, shard int, prefix []int32) {
	le := binary.LittleEndian
	seq = le.Uint64(s.mem)
	active = le.Uint32(s.mem[20:]) == 1
	space = int(le.Uint32(s.mem[8:]))
	shard = int(le.Uint32(s.mem[12:]))
	n := min(int(le.Uint32(s.mem[16:])), (slotSize-32)/4)
	for i := range n {
		prefix = append(prefix, int32(le.Uint32(s.mem[32+4*i:])))
	}
	return
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Trace
	Msg      string   `json:"what_failed"`
	Log      []string `json:"execution,omitempty"`
	HowTo    string   `json:"replay_with"`
	Crash    string   `json:"process_output,omitempty"`
	Note     string   `json:"note,omitempty"`
	Confirms int      `json:"reproduced_of_5"`
}

const (
	stallLimit  = 100 * time.Second
	replayLimit = 150 * time.Second
)

// Main is the entry point of a check binary.
//
//	bin check ID quick|thorough    supervise a check
//	bin child ID tier journal out  explore
//	bin replay FILE                run one recorded execution
func Main(props []*Prop) {
	if len(os.Args) < 2 {
		fatalf("usage")
	}
	find := func(id string) *Prop {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		fatalf("no property %s", id)
		return nil
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "check":
		os.Exit(check(find(os.Args[2]), os.Args[3]))
	case "child":
		limitMemory(20 << 30)
		child(find(os.Args[2]), os.Args[3], os.Args[4], os.Args[5])
	case "replay":
		limitMemory(8 << 30)
		os.Exit(replay(find, os.Args[2], os.Args[3:]))
	default:
		fatalf("usage")
	}
}

// limitMemory makes executions that eat memory without end fail before the
// machine does.
func limitMemory(n uint64) {
	if !RaceEnabled {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads the known-findings file: lines
// "finding: property=ID key=KEY what" ("fixed:" lines suppress nothing).
func knownFindings(id string) (map[string]bool, map[string]string) {
	keys := map[string]bool{}
	what := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return keys, what
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(sc.Text(), "finding: property="+id+" key=")
		if !ok {
			continue
		}
		key, w, _ := strings.Cut(rest, " ")
		keys[key] = true
		what[key] = w
	}
	return keys, what
}

func workersFromEnv() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		return n
	}
	return min(runtime.NumCPU(), 16)
}

func budget(tier string) time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS")); err == nil && n > 0 {
		return time.Duration(n) * time.Millisecond
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 720 * time.Second
	}
	return 300 * time.Second
}

func child(p *Prop, tier, jpath, out string) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	known, _ := knownFindings(p.ID)
	w := workersFromEnv()
	part, parts := 0, 1
	if _, err := fmt.Sscanf(os.Getenv("VERIF_PART"), "%d/%d", &part, &parts); err == nil {
		w = 1
		debug.SetGCPercent(100)
		debug.SetMemoryLimit(1 << 30)
	}
	j := openJournal(jpath, max(w, 1))
	if f := os.Getenv("VERIF_PROF"); f != "" {
		if pf, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(pf)
			defer pprof.StopCPUProfile()
		}
	}
	res := Explore(p, tier == "thorough", w, budget(tier), known, j, os.Getenv("VERIF_ONLY"), part, parts)
	b, err := json.Marshal(res)
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(out, b, 0o600); err != nil {
		fatalf("%v", err)
	}
}

func replay(find func(string) *Prop, file string, rest []string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatalf("%v", err)
	}
	jpath := file + ".journal"
	if len(rest) > 0 {
		jpath = rest[0]
	} else {
		defer os.Remove(jpath)
	}
	j := openJournal(jpath, 1)
	log, msg, failed, err := Replay(find(rf.Property), rf.Tier == "thorough", rf.Trace, j)
	if err != nil {
		fatalf("%v", err)
	}
	for _, l := range log {
		fmt.Println("  " + l)
	}
	if failed {
		fmt.Println("FAILED: " + msg)
		return 1
	}
	fmt.Println("held")
	return 0
}

type childExit struct {
	res     *Result
	crashed bool
	stalled bool
	stopped bool
	output  string
	cands   []Trace
}

// tail keeps the head and the tail of a process's output.
type tail struct{ head, last []byte }

func (t *tail) Write(p []byte) (int, error) {
	if n := 6000 - len(t.head); n > 0 {
		t.head = append(t.head, p[:min(n, len(p))]...)
	}
	t.last = append(t.last, p...)
	if len(t.last) > 4000 {
		t.last = append([]byte(nil), t.last[len(t.last)-2000:]...)
	}
	return len(p), nil
}

// runChildren runs the exploration in one process or in several.
func runChildren(p *Prop, tier, dir string, n int) childExit {
	if p.Parts == nil {
		return runChild(p, tier, dir, fmt.Sprint(n), "", 0, nil)
	}
	parts := p.Parts(tier == "thorough")
	procs := min(workersFromEnv(), parts)
	deadline := time.Now().Add(budget(tier))
	var mu sync.Mutex
	next := 0
	var rs []*Result
	var bad *childExit
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				select {
				case <-stop:
					return
				default:
				}
				if i >= parts {
					return
				}
				rounds := (parts - i + procs - 1) / procs
				ex := runChild(p, tier, dir, fmt.Sprintf("%d-%d", n, i), fmt.Sprintf("%d/%d", i, parts), time.Until(deadline)/time.Duration(rounds), stop)
				mu.Lock()
				if ex.res != nil {
					rs = append(rs, ex.res)
				} else if !ex.stopped && (bad == nil || len(bad.cands) == 0) {
					bad = &ex
				}
				mu.Unlock()
				if !ex.stopped && (ex.res == nil || ex.res.Violation != nil) {
					once.Do(func() { close(stop) })
				}
			}
		}()
	}
	wg.Wait()
	if bad != nil {
		for _, r := range rs {
			if r.Violation != nil && r.Violation.Confirmed > 0 {
				return childExit{res: merge(rs)}
			}
		}
		return *bad
	}
	return childExit{res: merge(rs)}
}

func runChild(p *Prop, tier, dir, n, part string, limit time.Duration, stop chan struct{}) childExit {
	self, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	w := workersFromEnv()
	if part != "" {
		w = 1
	}
	jpath := filepath.Join(dir, "journal"+n)
	out := filepath.Join(dir, "out"+n)
	j := openJournal(jpath, max(w, 1))
	cmd := exec.Command(self, "child", p.ID, tier, jpath, out)
	if part != "" {
		cmd.Env = append(os.Environ(), "VERIF_PART="+part, "GOMAXPROCS=2", fmt.Sprintf("VERIF_BUDGET_MS=%d", limit.Milliseconds()))
	}
	t := &tail{}
	cmd.Stdout = t
	cmd.Stderr = t
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	seqs := make([]uint64, w)
	since := make([]time.Time, w)
	for i := range since {
		since[i] = time.Now()
	}
	spaces := p.Spaces(tier == "thorough")
	active := func(stalledOnly bool) (out []Trace) {
		for i := range w {
			_, act, sp, sh, pre := j.slot(i).read()
			if act && sp < len(spaces) && (!stalledOnly || time.Since(since[i]) > stallLimit) {
				out = append(out, Trace{spaces[sp].Name, sh, pre})
			}
		}
		return
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err == nil {
				if b, err := os.ReadFile(out); err == nil {
					var res Result
					if err := json.Unmarshal(b, &res); err == nil {
						return childExit{res: &res}
					}
				}
			}
			return childExit{crashed: true, output: fmt.Sprintf("%v\n%s\n...\n%s", err, t.head, t.last), cands: active(false)}
		case <-stop:
			_ = cmd.Process.Kill()
			<-done
			return childExit{stopped: true}
		case <-tick.C:
			now := time.Now()
			stalled := false
			for i := range w {
				seq, act, _, _, _ := j.slot(i).read()
				if seq != seqs[i] || !act {
					seqs[i] = seq
					since[i] = now
				} else if now.Sub(since[i]) > stallLimit {
					stalled = true
				}
			}
			if stalled {
				cands := active(true)
				_ = cmd.Process.Kill()
				<-done
				return childExit{stalled: true, output: "an execution did not end", cands: cands}
			}
		}
	}
}

// replayIsolated runs one execution in a process of its own.
func replayIsolated(p *Prop, tier, dir string, t Trace) (bad bool, what string) {
	self, _ := os.Executable()
	f := filepath.Join(dir, "cand.json")
	b, _ := json.Marshal(replayFile{Property: p.ID, Tier: tier, Trace: t})
	if err := os.WriteFile(f, b, 0o600); err != nil {
		fatalf("%v", err)
	}
	cmd := exec.Command(self, "replay", f, filepath.Join(dir, "journalr"))
	tl := &tail{}
	cmd.Stdout = tl
	cmd.Stderr = tl
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return true, fmt.Sprintf("%v\n%s\n...\n%s", err, tl.head, tl.last)
		}
		return false, ""
	case <-time.After(replayLimit):
		_ = cmd.Process.Kill()
		<-done
		return true, fmt.Sprintf("the execution did not end within %v", replayLimit)
	}
}

func check(p *Prop, tier string) int {
	start := time.Now()
	if tier != "quick" && tier != "thorough" {
		fatalf("bad tier %q", tier)
	}
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	repdir := filepath.Join(verifDir(), "replays")
	if err := os.MkdirAll(repdir, 0o755); err != nil {
		fatalf("%v", err)
	}
	report := func(rf replayFile) int {
		rf.Property, rf.Tier = p.ID, tier
		path := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", p.ID, time.Now().UnixNano()))
		rf.HowTo = "bash /verif/run.sh replay " + path
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatalf("%v", err)
		}
		fmt.Printf("space %s shard %d: %s\n", rf.Space, rf.Shard, rf.Msg)
		for _, l := range rf.Log {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}

	var prev childExit
	for try := 0; ; try++ {
		ex := runChildren(p, tier, dir, try)
		if ex.res != nil {
			res := ex.res
			v := res.Violation
			if v != nil && v.Confirmed == 0 && try == 0 {
				// Not reproducible on its own: look whether it happens again.
				fmt.Printf("unconfirmed failure, exploring again: %s\n", v.Msg)
				prev = ex
				continue
			}
			if v != nil {
				writeEvidence(p, tier, seed, res, 1, time.Since(start).Seconds())
				return report(replayFile{Trace: v.Trace, Msg: v.Msg, Log: v.Log, Confirms: v.Confirmed})
			}
			if try > 0 && prev.res != nil {
				fmt.Printf("the unconfirmed failure did not happen again\n")
			}
			if try > 0 && (prev.crashed || prev.stalled) {
				// A process died once and the execution it was in is harmless: say so.
				fmt.Printf("note: the first exploration process ended unexpectedly: %s\n", clipS(prev.output, 400))
			}
			writeEvidence(p, tier, seed, res, 0, time.Since(start).Seconds())
			_, what := knownFindings(p.ID)
			for k, n := range res.KnownHits {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%d executions)\n", p.ID, what[k], n)
			}
			fmt.Printf("%s %s: held: %d executions, %d states, %d transitions, exhaustive within bounds: %v, %.1fs\n", p.ID, tier, res.Executions, res.States, res.Transitions, res.Exhaustive, time.Since(start).Seconds())
			for _, s := range res.Spaces {
				fmt.Printf("  %-28s executions=%d transitions=%d states=%d outcomes=%d exhaustive=%v %.1fs\n", s.Name, s.Executions, s.Transitions, s.States, s.Outcomes, s.Exhaustive, s.WallS)
			}
			return 0
		}
		// The process died or an execution does not end: find the execution.
		for _, t := range ex.cands {
			if bad, what := replayIsolated(p, tier, dir, t); bad {
				res := &Result{Outcomes: map[string]int64{}}
				writeEvidence(p, tier, seed, res, 1, time.Since(start).Seconds())
				return report(replayFile{Trace: t, Msg: "the process did not survive this execution: " + clipS(what, 1500), Crash: what, Confirms: 1})
			}
		}
		if try >= 1 {
			res := &Result{Outcomes: map[string]int64{}}
			writeEvidence(p, tier, seed, res, 1, time.Since(start).Seconds())
			rf := replayFile{Msg: "the exploration process ended twice: " + clipS(ex.output, 1500), Crash: ex.output, Note: "not reproduced by one execution alone; run the check again"}
			if len(ex.cands) > 0 {
				rf.Trace = ex.cands[0]
			}
			return report(rf)
		}
		prev = ex
	}
}

func writeEvidence(p *Prop, tier string, seed int, res *Result, violations int, wall float64) {
	cov := map[string]any{
		"exhaustive": res.Exhaustive,
		"samples":    res.Samples,
		"rule":       p.Rule,
		"spaces":     res.Spaces,
	}
	if len(res.Samples) == 0 {
		cov["samples"] = []string{"none: the run ended before samples were taken"}
	}
	if p.Level == "model_checking" {
		cov["states"] = res.States
		cov["transitions"] = res.Transitions
		cov["traces_validated_against_impl"] = res.Executions
		cov["states_capped"] = res.Capped
	}
	cov["outcome_classes"] = res.Outcomes
	ev := map[string]any{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      wall,
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0o644); err != nil {
		fatalf("%v", err)
	}
}
