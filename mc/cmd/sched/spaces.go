//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/token"
	"strings"
	"sync"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/idl"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/sched"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

// warmUp uses the types shared by all families.
var warmUp = sync.OnceFunc(func() {
	for _, o := range firstUse() {
		o.run(template)
	}
	for _, o := range recUse() {
		o.run(recTemplate)
	}
})

// threads runs the threads, each a sequence of operations, under a schedule
// and compares what every operation saw with what it sees alone.
func threads(c *engine.Ctx, fresh func(types ...string) *family, preemptions, kind int, warm bool, ths ...[]op) {
	warmUp()
	var types []string
	want := make([][]string, len(ths))
	for i, th := range ths {
		for _, o := range th {
			types = append(types, o.types...)
			want[i] = append(want[i], expected(o, fresh))
		}
	}
	f := fresh(types...)
	if f == nil {
		c.Outcome("no fresh types left")
		return
	}
	if warm {
		for _, th := range ths {
			for _, o := range th {
				o.run(f)
			}
		}
	}
	got := make([][]string, len(ths))
	bodies := make([]func(), len(ths))
	finish := make([][]func() string, len(ths))
	for i, th := range ths {
		got[i] = make([]string, len(th))
		finish[i] = make([]func() string, len(th))
		execs := make([]func(), len(th))
		for j, o := range th {
			execs[j], finish[i][j] = o.prep(f)
		}
		bodies[i] = func() {
			for _, e := range execs {
				e()
			}
		}
	}
	races := sched.Races()
	points, switches, problem := sched.Run(c, preemptions, kind, bodies...)
	c.Steps(points)
	if c.Verbose() {
		c.Logf("threads: %v, %d points, %d switches", ths, points, switches)
	}
	if problem != "" {
		c.Failf("threads %v: %s", ths, f.normal(problem))
	}
	if n := sched.Races(); n > races {
		c.Failf("threads %v: %d data races (see the report of the race detector)", ths, n-races)
	}
	for i := range ths {
		for j, o := range ths[i] {
			got[i][j] = finish[i][j]()
			if got[i][j] != want[i][j] {
				c.Failf("thread %d of %v: %s: got %s, alone it gives %s", i, ths, o.name, got[i][j], want[i][j])
			}
		}
	}
	if switches > len(ths) {
		c.Nontrivial()
	}
	c.StateOf(fmt.Sprint(ths), points, switches)
	c.Outcome(fmt.Sprintf("%d threads, %d switches", len(ths), switches))
}

// firstUse lists the operations that find types new.
func firstUse() []op {
	c, b := ref.CompactP, ref.BinStrict
	return []op{
		marshalOp(c, "in", true), unmarshalOp(b, "in", "in"),
		marshalOp(b, "slice", false), unmarshalOp(c, "map", "map"),
		marshalOp(c, "out", false), unmarshalOp(c, "out", "out"),
		marshalOp(b, "bad", true), unmarshalOp(c, "bad", "bad"),
		marshalOp(c, "uns", true), unmarshalOp(c, "uns", "uns"),
		unmarshalOp(c, "in", "slice"),
		marshalOp(c, "badin", true),
		unmarshalOp(b, "badin", "badin"),
		marshalOp(c, "map", true), unmarshalOp(b, "arr", "arr"), marshalOp(b, "wrap", true),
	}
}

func recUse() []op {
	c, b := ref.CompactP, ref.BinStrict
	return []op{marshalOp(c, "a", true), unmarshalOp(c, "b", "b"), marshalOp(b, "r", true), unmarshalOp(c, "r", "r"), marshalOp(b, "b", true)}
}

type pair struct{ i, j int }

func pairs(n int) (ps []pair) {
	for i := range n {
		for j := i; j < n; j++ {
			ps = append(ps, pair{i, j})
		}
	}
	return ps
}

func streamOps() []op {
	var ops []op
	add := func(name, model string, prep func() (func(), func() string)) {
		ops = append(ops, op{name: name, model: model, prep: func(*family) (func(), func() string) { return prep() }})
	}
	v := ref.StructV(
		ref.F(1, ref.BoolV(true)), ref.F(2, ref.MapV(ref.String, ref.Bool, ref.StrV("a"), ref.BoolV(false))),
		ref.F(-3, ref.ListV(ref.Struct, ref.StructV(ref.F(1, ref.I64V(1<<40))), ref.StructV())),
		ref.F(4, ref.UUIDV("0123456789")), ref.F(5, ref.StrV("str")), ref.F(6, ref.SetV(ref.Double, ref.DoubleV(1.5))),
		ref.F(300, ref.StrV("bytes ")), ref.F(301, ref.I16V(-7)), ref.F(302, ref.ByteV(9)), ref.F(303, ref.I32V(1<<30)),
	)
	for _, p := range uni.Protos {
		enc := p.Enc(nil, v)
		msg := ref.Msg{Name: "method", Type: 1, ID: -5}
		menc := p.EncMsg(nil, msg)
		add(fmt.Sprintf("%v write", p), fmt.Sprintf("%x", append(append([]byte(nil), menc...), enc...)), func() (func(), func() string) {
			var buf bytes.Buffer
			var err error
			return func() {
					w := uni.Impl(p).NewWriter(&buf)
					err = errors.Join(uni.WriteMsg(w, msg), uni.WriteV(w, v), w.WriteMessageEnd(), w.Flush())
				}, func() string {
					if err != nil {
						return err.Error()
					}
					return fmt.Sprintf("%x", buf.Bytes())
				}
		})
		add(fmt.Sprintf("%v read", p), ref.Canon(v).String(), func() (func(), func() string) {
			var got ref.V
			var err error
			return func() {
					r := uni.Impl(p).NewReader(bytes.NewReader(enc))
					got, err = uni.ReadV(r, ref.Struct)
				}, func() string {
					if err != nil {
						return err.Error()
					}
					return ref.Canon(got).String()
				}
		})
		add(fmt.Sprintf("%v skip", p), "<nil>;EOF", func() (func(), func() string) {
			var err, err2 error
			return func() {
				r := uni.Impl(p).NewReader(bytes.NewReader(enc))
				err = thriftwire.Skip(r, thriftwire.Struct)
				_, err2 = r.ReadByte()
			}, func() string { return fmt.Sprint(err, ";", err2) }
		})
		bad := p.Enc(nil, ref.StrV("0123456789abcdef"))
		bad = bad[:len(bad)-3]
		add(fmt.Sprintf("%v truncated", p), "", func() (func(), func() string) {
			var err, err2 error
			return func() {
				r := uni.Impl(p).NewReader(bytes.NewReader(bad))
				_, err = r.ReadString()
				_, err2 = r.ReadI64()
			}, func() string { return fmt.Sprint(err, ";", err2) }
		})
		add(fmt.Sprintf("%v malformed", p), "", func() (func(), func() string) {
			var s, s2 string
			return func() {
				r := uni.Impl(p).NewReader(strings.NewReader("\x0f\x0f\x0f\x80\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"))
				_, err := r.ReadMessageBegin()
				s = errString(err)
				r.Reset(strings.NewReader("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"))
				_, err = r.ReadMapBegin()
				s2 = errString(err)
			}, func() string { return s + ";" + s2 }
		})
	}
	add("names", "", func() (func(), func() string) {
		var s []string
		e := &thrift.SemanticError{ThriftType: thriftwire.Map, GoType: uni.TypeOf[[]bool](), Err: errors.New("why")}
		return func() {
			for i := range 20 {
				s = append(s, thriftwire.Type(i).String(), thriftwire.MessageType(i).String())
			}
			s = append(s, e.Error())
			for _, p := range uni.Protos {
				s = append(s, uni.Impl(p).(interface{ String() string }).String())
			}
		}, func() string { return new(family).normal(fmt.Sprint(s)) }
	})
	return ops
}

func errString(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

var idlDocs = []string{
	"include \"a.thrift\"\nnamespace go x.y\n/* c */ typedef list<i32> L // c\n",
	"enum E { A = 1, B = 0x2F } # c\nstruct S { 1: required map<string,E> m = {'a': 1}; 2: optional i64 (a = 'b') }\n",
	"service S extends T.U { oneway void f(1: i32 x), i32 g() throws (1: E e) }\nconst double D = -1.5e3\n",
	"struct { 1: i32 }\nunion U { 08: x y = 'open }\n\x01",
}

func parseOp(i int, shared *token.FileSet) op {
	doc := idlDocs[i]
	name := fmt.Sprint("f", i, ".thrift")
	return op{name: fmt.Sprintf("parse %d", i), prep: func(*family) (func(), func() string) {
		fs := shared
		if fs == nil {
			fs = token.NewFileSet()
		}
		var file *thriftfile.File
		var msg string
		return func() {
			var err error
			file, err = thriftfile.Parse(fs, name, []byte(doc))
			msg = errString(err)
		}, func() string { return fmt.Sprint(idl.Dump(file), msg) }
	}}
}

func spaces(thorough bool) []engine.Space {
	fu, ru, st := firstUse(), recUse(), streamOps()
	none := func(...string) *family { return &family{} }
	both := pairs(len(fu))
	rboth := pairs(len(ru))
	sboth := pairs(len(st))
	pboth := pairs(len(idlDocs))
	var out []engine.Space
	add := func(name string, shards int, bound string, run func(c *engine.Ctx, sh int)) {
		out = append(out, engine.Space{Name: name, Shards: shards, Bound: bound, Serial: true, Elastic: true, Run: run})
	}
	add("first use, any statement", len(both), "all pairs of first uses of the same types x all schedules with one preemption at any statement",
		func(c *engine.Ctx, sh int) {
			threads(c, newFamily, 1, sched.Stmt, false, []op{fu[both[sh].i]}, []op{fu[both[sh].j]})
		})
	add("first use, shared variables", len(both), "all pairs of first uses x all schedules with two preemptions at statements that name shared variables and at operations of sync",
		func(c *engine.Ctx, sh int) {
			threads(c, newFamily, 2, sched.Shared, false, []op{fu[both[sh].i]}, []op{fu[both[sh].j]})
		})
	three := []op{fu[0], fu[3], fu[5], fu[6], fu[11], fu[15]}
	n3 := len(three)
	add("three threads", n3*n3*n3, "three first uses x all schedules with one preemption at shared variables or operations of sync",
		func(c *engine.Ctx, sh int) {
			i, j, k := sh%n3, sh/n3%n3, sh/n3/n3
			if i > j || j > k {
				return
			}
			threads(c, newFamily, 1, sched.Shared, false, []op{three[i]}, []op{three[j]}, []op{three[k]})
		})
	add("later use", len(both), "all pairs of uses of types in use x all schedules with one preemption at any statement",
		func(c *engine.Ctx, sh int) {
			threads(c, newFamily, 1, sched.Stmt, true, []op{fu[both[sh].i]}, []op{fu[both[sh].j]})
		})
	add("recursive types", len(rboth), "pairs of first uses of types that refer to each other x all schedules with one preemption at shared variables or operations of sync",
		func(c *engine.Ctx, sh int) {
			threads(c, recFamily, 1, sched.Shared, false, []op{ru[rboth[sh].i]}, []op{ru[rboth[sh].j]})
		})
	add("streams", len(sboth), "pairs of separate readers and writers x all schedules with one preemption at any statement",
		func(c *engine.Ctx, sh int) {
			threads(c, none, 1, sched.Stmt, false, []op{st[sboth[sh].i]}, []op{st[sboth[sh].j]})
		})
	add("parsers", 2*len(pboth), "pairs of parsers, with a file set each or one for both, x all schedules with one preemption at any statement",
		func(c *engine.Ctx, sh int) {
			p := pboth[sh/2]
			var fset *token.FileSet
			if sh%2 == 1 {
				fset = token.NewFileSet()
			}
			threads(c, none, 1, sched.Stmt, false, []op{parseOp(p.i, fset)}, []op{parseOp(p.j, fset)})
		})
	fr := freshOps()
	fboth := pairs(len(fr))
	add("first in the process", len(fboth), "all pairs of operations (streams, first uses, parsers) that are the first in their process, one after the other in both orders, watched by the race detector",
		func(c *engine.Ctx, sh int) {
			freshThreads(c, 0, sched.Shared, fboth[sh].i, fboth[sh].j)
		})
	var sel []int
	for i, o := range fr {
		if strings.HasPrefix(o.name, "parse") || thorough || strings.Contains(o.name, "compact") && strings.Contains(o.name, "(out") || o.name == "names" || o.name == "compact read" || o.name == "binary write" {
			sel = append(sel, i)
		}
	}
	fsel := pairs(len(sel))
	add("first in the process, preempted", len(fsel), fmt.Sprintf("pairs of %d of these operations x all schedules with one preemption at shared variables or operations of sync", len(sel)),
		func(c *engine.Ctx, sh int) {
			freshThreads(c, 1, sched.Shared, sel[fsel[sh].i], sel[fsel[sh].j])
		})
	if thorough {
		var docs []int
		for i, o := range fr {
			if strings.HasPrefix(o.name, "parse") || o.name == "names" {
				docs = append(docs, i)
			}
		}
		dboth := pairs(len(docs))
		add("first parsers in the process", len(dboth), "pairs of parsers x all schedules with one preemption at any statement",
			func(c *engine.Ctx, sh int) {
				freshThreads(c, 1, sched.Stmt, docs[dboth[sh].i], docs[dboth[sh].j])
			})
	}
	return out
}
