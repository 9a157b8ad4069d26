//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/sched"
)

// A job is one execution in a process in which nothing of the code under test
// has been used before: not even its package variables are set up.
type job struct {
	Ops         []int // of freshOps
	Preemptions int
	Kind        int
	Choices     []int32
}

type jobResult struct {
	Taken            [][2]int // number of choices and choice
	Points, Switches int
	Problem          string
	Races            int
	Got, Want        []string
}

// freshOps lists the operations of all kinds.
func freshOps() []op {
	ops := append(streamOps(), firstUse()...)
	for i := range idlDocs {
		ops = append(ops, parseOp(i, nil))
	}
	return append(ops, recUse()...)
}

func freshFamily(ops []op) func(names ...string) *family {
	rec := false
	for _, o := range ops {
		for _, t := range o.types {
			rec = rec || t == "a" || t == "b" || t == "r"
		}
	}
	return func(names ...string) *family {
		var other []string
		for _, n := range names {
			if n != "a" && n != "b" && n != "r" {
				other = append(other, n)
			}
		}
		f := newFamily(other...)
		if rec {
			inst := pool[poolNext]
			poolNext++
			g := recAt(inst, poolNext-1)
			for n := range g.types {
				f.types[n], f.vals[n] = g.types[n], g.vals[n]
			}
			f.tag2 = g.tag
		}
		return f
	}
}

type scripted struct {
	script []int32
	taken  [][2]int
}

func (s *scripted) Script() []int32 { return s.script }
func (s *scripted) Record(n, v int) { s.taken = append(s.taken, [2]int{n, v}) }

// runFresh runs the job of the argument and prints what happened.
func runFresh(arg string) {
	var j job
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		panic(err)
	}
	all := freshOps()
	var ops []op
	var types []string
	for _, i := range j.Ops {
		ops = append(ops, all[i])
		types = append(types, all[i].types...)
	}
	fresh := freshFamily(ops)
	f := fresh(types...)
	var r jobResult
	r.Got = make([]string, len(ops))
	bodies := make([]func(), len(ops))
	finish := make([]func() string, len(ops))
	for i, o := range ops {
		bodies[i], finish[i] = o.prep(f)
	}
	s := &scripted{script: j.Choices}
	before := sched.Races()
	r.Points, r.Switches, r.Problem = sched.Run(s, j.Preemptions, j.Kind, bodies...)
	r.Problem = f.normal(r.Problem)
	r.Races = sched.Races() - before
	r.Taken = s.taken
	if r.Problem == "" {
		for i, o := range ops {
			r.Got[i] = finish[i]()
			if o.model != "" {
				r.Want = append(r.Want, o.model)
			} else {
				r.Want = append(r.Want, o.run(fresh(o.types...)))
			}
		}
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	os.Stdout.WriteString("\nRESULT " + string(b) + "\n")
}

// freshThreads runs operations, one per thread, in a new process.
func freshThreads(c *engine.Ctx, preemptions, kind int, ops ...int) {
	names := []string{}
	all := freshOps()
	for _, i := range ops {
		names = append(names, all[i].name)
	}
	arg, _ := json.Marshal(job{Ops: ops, Preemptions: preemptions, Kind: kind, Choices: c.Script()})
	exe, err := os.Executable()
	if err != nil {
		panic("engine: " + err.Error())
	}
	cmd := exec.Command(exe, "fresh", string(arg))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0")
	err = cmd.Run()
	_, res, ok := strings.Cut(out.String(), "\nRESULT ")
	var r jobResult
	if err != nil || !ok || json.Unmarshal([]byte(res), &r) != nil {
		if strings.Contains(errs.String(), "fatal error: ") || strings.Contains(errs.String(), "panic: ") {
			c.Failf("threads %q, the first of their process, end it: %v: %s", names, err, head(errs.String()))
		}
		panic(fmt.Sprintf("engine: %v: %s", err, head(errs.String())))
	}
	for _, t := range r.Taken {
		c.Record(t[0], t[1])
	}
	c.Steps(r.Points)
	if c.Verbose() {
		c.Logf("threads: %q, %d points, %d switches", names, r.Points, r.Switches)
		c.Logf("%s", errs.String())
	}
	if r.Problem != "" {
		c.Failf("threads %q, the first of their process: %s", names, r.Problem)
	}
	if r.Races > 0 {
		c.Failf("threads %q, the first of their process: %d data races: %s", names, r.Races, head(errs.String()))
	}
	for i := range ops {
		if r.Got[i] != r.Want[i] {
			c.Failf("thread %d of %q, the first of their process: got %s, alone it gives %s", i, names, r.Got[i], r.Want[i])
		}
	}
	if r.Switches > len(ops) {
		c.Nontrivial()
	}
	c.StateOf(fmt.Sprint(ops), r.Points, r.Switches)
	c.Outcome(fmt.Sprintf("%d threads, %d switches", len(ops), r.Switches))
}

func head(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}
