package main

// Exploration of the tasks of a check by several machines in parallel.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Task struct {
	Pkg    string // package path below the module
	Func   string
	Warm   string // warm-up function of the same package ("" = none)
	Params map[string]int64
	Label  string
	Steps  int64
}

type job struct {
	task   int
	prefix []int
}

// sampledPath is a completed path with a model of its path condition.
type sampledPath struct {
	task     int
	model    []uint64
	kinds    []string
	obs      []string
	hasOrder bool
}

// sample keeps a few completed paths for replay.
func (ex *Explorer) sample(m *Machine, task int) {
	if ex.maxSamples == 0 {
		return
	}
	per := ex.maxSamples / len(ex.tasks)
	if per < 2 {
		per = 2
	}
	ex.mu.Lock()
	if ex.perTask == nil {
		ex.perTask = map[int]int{}
	}
	n := ex.perTask[task]
	// the first ones and then ever rarer ones, so that late paths count too
	take := n < per && (m.res.Paths <= 2 || m.res.Paths&(m.res.Paths-1) == 0 || m.res.Paths%97 == 0)
	if take {
		ex.perTask[task]++
	}
	ex.mu.Unlock()
	if !take {
		return
	}
	var dv []domVar
	for _, v := range m.vars {
		dv = append(dv, domVar{v, m.doms[v.seq]})
	}
	r, model := m.solver.check(dv, m.pc)
	if r != "sat" {
		return
	}
	s := sampledPath{task: task, kinds: append([]string(nil), m.kinds...)}
	for _, v := range m.vars {
		s.model = append(s.model, model[v])
	}
	for _, o := range m.obs {
		s.obs = append(s.obs, o.label+"="+m.evalStr(o.v, model))
	}
	s.hasOrder = hasKind(m.kinds, "maporder")
	ex.mu.Lock()
	ex.sampled = append(ex.sampled, s)
	ex.mu.Unlock()
}

type TaskResult struct {
	Result
	Ends  map[string]int
	Steps int64
	Time  time.Duration
}

type Explorer struct {
	w        *World
	tasks    []Task
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []job
	busy     int
	idle     int32
	qlen     int32
	done     bool
	results  []*TaskResult
	deadline time.Time
	timedOut bool
	maxViol  int
	nviol    int32
	encoded  map[string]bool // repo functions
	encAll   int
	solver   struct {
		queries, hits, sat, unsat, unknown int
		time                               time.Duration
	}
	native     *nativeFuture
	share      float64 // of the time, for rechecking what value sets decided
	keep       bool
	kept       []keptQuery
	err        error
	trace      bool
	pend       map[int]int // jobs outstanding per task
	sampled    []sampledPath
	maxSamples int
	perTask    map[int]int
}

func (ex *Explorer) run(workers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.encoded = map[string]bool{}
	ex.pend = map[int]int{}
	for i := range ex.tasks {
		ex.results = append(ex.results, &TaskResult{Result: *newResult(), Ends: map[string]int{}})
		ex.queue = append(ex.queue, job{task: i})
		ex.pend[i]++
	}
	atomic.StoreInt32(&ex.qlen, int32(len(ex.queue)))
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i)
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) next() (job, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt32(&ex.idle, 1)
	for {
		if ex.done || ex.err != nil {
			atomic.AddInt32(&ex.idle, -1)
			ex.cond.Broadcast()
			return job{}, false
		}
		if len(ex.queue) > 0 {
			j := ex.queue[0]
			ex.queue = ex.queue[1:]
			atomic.StoreInt32(&ex.qlen, int32(len(ex.queue)))
			atomic.AddInt32(&ex.idle, -1)
			ex.busy++
			return j, true
		}
		if ex.busy == 0 {
			ex.done = true
			ex.cond.Broadcast()
			continue
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) finish() {
	ex.mu.Lock()
	ex.busy--
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) fail(err error) {
	ex.mu.Lock()
	if ex.err == nil {
		ex.err = err
	}
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

type machKey struct{ pkg, warm string }

func (ex *Explorer) worker(id int) {
	defer func() {
		if r := recover(); r != nil {
			ex.fail(fmt.Errorf("worker: %v\n%s", r, debug.Stack()))
		}
	}()
	ms := map[machKey]*Machine{}
	defer func() {
		ex.mu.Lock()
		for _, m := range ms {
			s := m.solver
			ex.solver.queries += s.Queries
			ex.solver.hits += s.Hits
			ex.solver.sat += s.Sat
			ex.solver.unsat += s.Unsat
			ex.solver.unknown += s.Unknown
			ex.solver.time += s.Time
			ex.kept = append(ex.kept, s.Kept...)
			for f := range m.encoded {
				if ex.w.inRepo(f) {
					ex.encoded[f.String()] = true
				}
			}
			if len(m.encoded) > ex.encAll {
				ex.encAll = len(m.encoded)
			}
			s.stop()
		}
		ex.mu.Unlock()
	}()
	for {
		j, ok := ex.next()
		if !ok {
			return
		}
		t := &ex.tasks[j.task]
		k := machKey{t.Pkg, t.Warm}
		m := ms[k]
		if m == nil {
			var err error
			m, err = newReadyMachine(ex.w, t.Pkg, t.Warm)
			if err != nil {
				ex.fail(err)
				ex.finish()
				return
			}
			m.solver.keep = ex.keep
			m.job = ex
			m.began = time.Now()
			ms[k] = m
		}
		ex.runJob(m, j)
		ex.finish()
	}
}

func newReadyMachine(w *World, pkg, warm string) (*Machine, error) {
	m := newMachine(w)
	full := repoMod + "/" + pkg
	for _, n := range []string{"os.Stdout", "os.Stderr", "os.Stdin"} {
		parts := strings.Split(n, ".")
		if p := w.pkgs[parts[0]]; p != nil {
			g := p.Var(parts[1])
			c := m.global(g)
			cell := new(Value)
			*cell = zeroValue(deref(deref(g.Type())))
			*c = cell
		}
	}
	if p := w.pkgs["os"]; p != nil {
		*m.global(p.Var("Args")) = Slice{"kuneiform"}
	}
	m.side["stdout"], m.side["stderr"] = "", ""
	if err := m.initMachine(full); err != nil {
		return nil, err
	}
	if warm != "" {
		f := w.funcByName(full, warm)
		if f == nil {
			return nil, fmt.Errorf("no warm-up function %s", warm)
		}
		m.warm = true
		m.pushCall(m.closureFor(f, nil), nil, -1)
		end := m.runPath()
		m.warm = false
		if end.kind != "done" {
			// a warm-up that fails is not an error of the check: the paths decide
			m.top = nil
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "warm-up %s: %s %s\n", warm, end.kind, end.msg)
			}
		}
	}
	m.side["stdout"], m.side["stderr"] = "", ""
	m.logging = true
	return m, nil
}

func (ex *Explorer) runJob(m *Machine, j job) {
	t := &ex.tasks[j.task]
	f := ex.w.funcByName(repoMod+"/"+t.Pkg, t.Func)
	if f == nil {
		ex.fail(fmt.Errorf("no function %s.%s", t.Pkg, t.Func))
		return
	}
	m.res = newResult()
	m.params = t.Params
	m.stepLimit = t.Steps
	if m.stepLimit == 0 {
		m.stepLimit = 40_000_000
	}
	m.curTask = j.task
	m.forced = j.prefix
	m.decisions = m.decisions[:0]
	m.cps = nil
	m.steps = 0
	m.deadline = ex.deadline
	ends := map[string]int{}
	t0 := time.Now()
	total := int64(0)
	m.top = nil
	m.pushCall(m.closureFor(f, nil), nil, -1)
	for {
		end := m.runPath()
		total += m.steps
		m.steps = 0
		m.res.Paths++
		ends[end.kind]++
		switch end.kind {
		case "done", "stop":
			m.res.Done++
			if len(m.res.Samples) < 3 {
				m.res.Samples = append(m.res.Samples, m.sampleInput())
			}
			ex.sample(m, j.task)
		case "unsupported":
			m.res.Unsupported[end.msg]++
		case "panic":
			m.recordPanic(end.msg)
		}
		if ex.trace {
			fmt.Fprintf(os.Stderr, "path %d end %s %s dec=%v\n", m.res.Paths, end.kind, end.msg, m.decisions)
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.mu.Lock()
			if len(m.cps) > 0 || len(ex.queue) > 0 {
				ex.timedOut = true
			}
			m.cps = nil
			ex.queue = nil
			ex.mu.Unlock()
			break
		}
		if ex.maxViol > 0 && int(atomic.LoadInt32(&ex.nviol))+len(m.res.Violations) >= ex.maxViol {
			m.cps = nil
			ex.mu.Lock()
			ex.queue = nil
			ex.mu.Unlock()
			break
		}
		if !m.backtrack() {
			break
		}
	}
	atomic.AddInt32(&ex.nviol, int32(len(m.res.Violations)))
	m.undoTo(0)
	m.cps = nil
	m.labels = m.labels[:0]
	m.obs = m.obs[:0]
	ex.mu.Lock()
	r := ex.results[j.task]
	r.Paths += m.res.Paths
	r.Done += m.res.Done
	r.Asserts += m.res.Asserts
	r.Const += m.res.Const
	r.Trivial += m.res.Trivial
	r.Rechecked += m.res.Rechecked
	r.Queries += m.res.Queries
	r.Unknown += m.res.Unknown
	r.Forks += m.res.Forks
	for k, v := range m.res.Unsupported {
		r.Unsupported[k] += v
	}
	for k, v := range m.res.Reached {
		r.Reached[k] += v
	}
	for k, v := range m.res.Cuts {
		r.Cuts[k] += v
	}
	for k, v := range ends {
		r.Ends[k] += v
	}
	r.Violations = append(r.Violations, m.res.Violations...)
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, m.res.Samples...)
	}
	r.Steps += total
	r.Time += time.Since(t0)
	ex.mu.Unlock()
}

// recordPanic: the harness let a Go panic escape.
func (m *Machine) recordPanic(msg string) {
	m.res.Unsupported["uncaught panic: "+msg]++
}

func (m *Machine) sampleInput() string {
	var parts []string
	n := 0
	for i, v := range m.vars {
		if n >= 40 {
			break
		}
		n++
		d := m.doms[i]
		k := d.first()
		if k < 0 {
			continue
		}
		s := fmt.Sprint(k)
		if i < len(m.labels) && m.labels[i] != nil {
			s = m.labels[i](k)
		}
		more := ""
		if c := d.count(); c > 1 {
			more = fmt.Sprintf("(+%d)", c-1)
		}
		parts = append(parts, m.kinds[i]+"="+s+more)
		_ = v
	}
	return strings.Join(parts, " ")
}

// maybeDonate hands the oldest open alternatives to idle workers.
func (m *Machine) maybeDonate() {
	ex := m.job
	if ex == nil || atomic.LoadInt32(&ex.idle) == 0 || atomic.LoadInt32(&ex.qlen) > 0 {
		return
	}
	for _, cp := range m.cps {
		if len(cp.alts) == 0 {
			continue
		}
		ex.mu.Lock()
		for i := range cp.alts {
			p := append(append([]int(nil), m.decisions[:cp.decLen]...), cp.altIdx+i)
			ex.queue = append(ex.queue, job{task: m.curTask, prefix: p})
		}
		atomic.StoreInt32(&ex.qlen, int32(len(ex.queue)))
		ex.cond.Broadcast()
		ex.mu.Unlock()
		cp.alts = nil
		return
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
