package main

// `gosym check ID quick|thorough`: explore the tasks of one property, confirm
// counterexamples by running the real code, write the evidence file.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type P = map[string]int64

type Check struct {
	ID          string
	Quick       []Task
	Thorough    []Task
	Bounds      string   // what the tasks cover, in words
	Outside     []string // assumptions and what is not covered
	Need        []string // labels a run on code that keeps the property must reach
	GOOS        string
	QuickTime   time.Duration
	FullTime    time.Duration
	Native      string // replay package below zzverif ("" = replay)
	MaxSamples  int
	SampleEvery int
}

type replayFile struct {
	Property string           `json:"property"`
	Pkg      string           `json:"pkg"`
	Func     string           `json:"func"`
	Params   map[string]int64 `json:"params"`
	Model    []uint64         `json:"model"`
	Kinds    []string         `json:"kinds"`
	Values   []string         `json:"values,omitempty"`
	Message  string           `json:"message,omitempty"`
	Observed []string         `json:"observed,omitempty"`
	Native   string           `json:"native,omitempty"`
	HowTo    string           `json:"how_to,omitempty"`
}

type nativeBin struct {
	path string
	dir  string
	goos string
	err  error
}

// buildNative compiles the harness and the real code for this machine.
func buildNative(pkg, goos string) nativeBin {
	dir, err := os.MkdirTemp("", "kfverif-native")
	if err != nil {
		return nativeBin{err: err}
	}
	n := nativeBin{dir: dir, path: filepath.Join(dir, "replay"), goos: goos}
	files, where, err := gatherOverlay(repoDir(), verifDir()+"/harness")
	if err != nil {
		n.err = err
		return n
	}
	for dst, b := range files {
		if where[dst] == "" {
			where[dst] = filepath.Join(dir, "gen-"+strings.ReplaceAll(strings.TrimPrefix(dst, repoDir()+"/"), "/", "-"))
			if n.err = os.WriteFile(where[dst], b, 0o644); n.err != nil {
				return n
			}
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": where})
	os.WriteFile(filepath.Join(dir, "overlay.json"), ov, 0o644)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir(), f))
		if err != nil {
			n.err = err
			return n
		}
		os.WriteFile(filepath.Join(dir, f), b, 0o644)
	}
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(dir, "overlay.json"), "-modfile="+filepath.Join(dir, "go.mod"), "-o", n.path, "./"+pkg)
	cmd.Dir = repoDir()
	cmd.Env = cleanEnv("GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
	if goos == "js" {
		cmd.Env = append(cmd.Env, "GOOS=js", "GOARCH=wasm")
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		n.err = fmt.Errorf("building the replay program: %v: %s", err, out.String())
	}
	return n
}

func cleanEnv(extra ...string) []string {
	var base []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOWORK", "GOPROXY", "CGO_ENABLED", "GOTOOLCHAIN", "GOOS", "GOARCH", "GO111MODULE":
			continue
		}
		base = append(base, e)
	}
	return append(base, extra...)
}

// run returns the exit code, the output and the observations.
func (n *nativeBin) run(file string, fn string, limit time.Duration) (int, string, []string) {
	work, err := os.MkdirTemp("", "kfverif-run")
	if err != nil {
		return -1, err.Error(), nil
	}
	defer os.RemoveAll(work)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	var cmd *exec.Cmd
	if n.goos == "js" {
		cmd = exec.CommandContext(ctx, "node", "--stack-size=8192", goroot()+"/lib/wasm/wasm_exec_node.js", n.path)
	} else {
		cmd = exec.CommandContext(ctx, n.path)
	}
	cmd.Dir = work
	cmd.Env = append(cleanEnv(), "ND_REPLAY="+file, "ND_FUNC="+fn, "ND_SCRATCH="+work)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if ctx.Err() != nil {
			code = -2
		}
	}
	var obs []string
	sc := bufio.NewScanner(bytes.NewReader(out.Bytes()))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		if t, ok := strings.CutPrefix(sc.Text(), "OBS "); ok {
			if s, err := strconv.Unquote(t); err == nil {
				obs = append(obs, s)
			}
		}
	}
	return code, out.String(), obs
}

var gorootOnce sync.Once
var gorootDir string

func goroot() string {
	gorootOnce.Do(func() {
		b, _ := exec.Command("go", "env", "GOROOT").Output()
		gorootDir = strings.TrimSpace(string(b))
	})
	return gorootDir
}

func (n *nativeBin) clean() {
	if n.dir != "" && strings.Contains(n.dir, "kfverif-native") {
		os.RemoveAll(n.dir)
	}
}

type knownFinding struct{ property, key string }

func loadKnown() []knownFinding {
	b, err := os.ReadFile(verifDir() + "/known-findings.txt")
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if t, ok := strings.CutPrefix(l, "finding: property="); ok {
			id, key, _ := strings.Cut(t, " ")
			out = append(out, knownFinding{id, strings.TrimSpace(key)})
		}
	}
	return out
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gosym check ID [quick|thorough]")
		return 2
	}
	id := args[0]
	tier := "quick"
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if len(args) > 1 {
		tier = args[1]
	}
	seed := 0
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	c := checkByID(id)
	if c == nil {
		fmt.Println("no check", id)
		return 2
	}
	start := time.Now()
	tasks := c.Quick
	limit := c.QuickTime
	if limit == 0 {
		limit = 420 * time.Second
	}
	if tier == "thorough" {
		tasks = append(append([]Task(nil), c.Quick...), c.Thorough...)
		limit = c.FullTime
		if limit == 0 {
			limit = 3000 * time.Second
		}
	}
	ov, _, err := gatherOverlay(repoDir(), verifDir()+"/harness")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	// the replay program is built while the exploration runs
	npkg := c.Native
	if npkg == "" {
		npkg = "zzverif/replay"
	}
	native := startNative(npkg, c.GOOS)

	pats := []string{"./zzverif/rt"}
	seen := map[string]bool{}
	for _, t := range tasks {
		if !seen[t.Pkg] {
			seen[t.Pkg] = true
			pats = append(pats, "./"+t.Pkg)
		}
	}
	var env []string
	if c.GOOS == "js" {
		env = []string{"GOOS=js", "GOARCH=wasm"}
	}
	w, err := loadWorld(repoDir(), ov, pats, env...)
	if err != nil {
		fmt.Println(err)
		native.get().clean()
		return 2
	}
	ex := &Explorer{w: w, tasks: tasks, maxViol: 6, deadline: start.Add(limit), keep: tier == "thorough", share: 0.2, native: native}
	ex.maxSamples = c.MaxSamples
	if ex.maxSamples == 0 {
		ex.maxSamples = 24
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	ex.run(workers)
	nb := native.get()
	defer nb.clean()
	if ex.err != nil {
		fmt.Println("error:", ex.err)
		return 2
	}
	if nb.err != nil {
		fmt.Println(nb.err)
		return 2
	}

	// counterexamples
	evDir := verifDir() + "/evidence"
	os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, id+"-violation-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	known := loadKnown()
	var unconfirmed, knownHit []string
	violations := 0
	exit := 0
	seenMsg := map[string]int{}
	for i, r := range ex.results {
		t := tasks[i]
		for _, v := range r.Violations {
			if seenMsg[v.Msg] >= 2 {
				continue
			}
			rf := replayFile{Property: id, Pkg: t.Pkg, Func: t.Func, Params: t.Params, Model: v.Model, Kinds: v.Kinds, Values: v.Desc, Message: v.Msg, Observed: v.Obs}
			path := filepath.Join(evDir, fmt.Sprintf("%s-violation-%d.json", id, violations+1))
			rf.HowTo = "ND_REPLAY=<this file> ND_FUNC=" + t.Func + " <replay program built from harness/" + npkg + ">"
			writeJSON(path, rf)
			ok := false
			outp := ""
			for try := 0; try < 24 && !ok; try++ {
				code, out, _ := nb.run(path, t.Func, 60*time.Second)
				outp = out
				ok = code == 3 || (code == 2 && strings.Contains(out, "panic"))
				if !hasKind(v.Kinds, "maporder") {
					break
				}
			}
			if !ok {
				unconfirmed = append(unconfirmed, v.Msg+" "+strings.Join(v.Desc, " ")+" native: "+tail(outp))
				os.Remove(path)
				continue
			}
			rf.Native = tail(outp)
			writeJSON(path, rf)
			hit := false
			for _, k := range known {
				if k.property == id && k.key != "" && strings.Contains(v.Msg+" | "+strings.Join(v.Obs, " | "), k.key) {
					knownHit = append(knownHit, k.key)
					hit = true
				}
			}
			if hit {
				continue
			}
			seenMsg[v.Msg]++
			violations++
			exit = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", id, path, v.Msg)
			for _, o := range v.Obs {
				fmt.Println("   ", o)
			}
		}
	}
	sort.Strings(knownHit)
	for i, k := range knownHit {
		if i == 0 || knownHit[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}

	// completed paths are replayed against the real code as well
	validated, disagree := 0, []string{}
	var written []any
	if exit == 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for _, s := range ex.sampled {
			wg.Add(1)
			sem <- true
			go func(s sampledPath) {
				defer wg.Done()
				defer func() { <-sem }()
				t := tasks[s.task]
				f, _ := os.CreateTemp("", "kfverif-sample-*.json")
				f.Close()
				defer os.Remove(f.Name())
				rf := replayFile{Property: id, Pkg: t.Pkg, Func: t.Func, Params: t.Params, Model: s.model, Kinds: s.kinds, Observed: s.obs}
				writeJSON(f.Name(), rf)
				code, out, obs := nb.run(f.Name(), t.Func, 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				switch {
				case code == 3 && !s.hasOrder:
					path := filepath.Join(evDir, fmt.Sprintf("%s-violation-%d.json", id, violations+1))
					rf.Native = tail(out)
					writeJSON(path, rf)
					violations++
					exit = 1
					fmt.Printf("VIOLATION property=%s replay=%s\n  found when replaying a completed path: %s\n", id, path, tail(out))
				case code != 0:
					disagree = append(disagree, fmt.Sprintf("%s %v exit %d: %s", t.Func, s.obs, code, tail(out)))
				default:
					if d := obsDiff(s.obs, obs); d != "" {
						disagree = append(disagree, t.Func+": "+d)
					} else {
						validated++
						if len(written) < 6 {
							written = append(written, map[string]any{"harness": t.Func, "params": t.Params, "observed": clip(s.obs)})
						}
					}
				}
			}(s)
		}
		wg.Wait()
	}

	// evidence
	tot := newResult()
	ends := map[string]int{}
	var steps int64
	var perTask []any
	undecided := 0
	for i, r := range ex.results {
		tot.Paths += r.Paths
		tot.Done += r.Done
		tot.Asserts += r.Asserts
		tot.Const += r.Const
		tot.Trivial += r.Trivial
		tot.Rechecked += r.Rechecked
		tot.Queries += r.Queries
		tot.Unknown += r.Unknown
		tot.Forks += r.Forks
		for k, v := range r.Unsupported {
			tot.Unsupported[k] += v
		}
		for k, v := range r.Reached {
			tot.Reached[k] += v
		}
		for k, v := range r.Cuts {
			tot.Cuts[k] += v
		}
		for k, v := range r.Ends {
			ends[k] += v
		}
		steps += r.Steps
		if r.Done == 0 {
			undecided++
		}
		if os.Getenv("GOSYM_V") != "" {
			fmt.Fprintf(os.Stderr, "  %9d Msteps %7d paths %s %v\n", r.Steps/1000000, r.Paths, tasks[i].Func, tasks[i].Params)
		}
		perTask = append(perTask, map[string]any{"harness": tasks[i].Func, "params": tasks[i].Params, "paths": r.Paths, "ends": r.Ends, "asserts": r.Asserts, "by_solver": r.Queries, "by_value_sets": r.Trivial, "rechecked_by_solver": r.Rechecked, "constant": r.Const})
	}
	if len(written) == 0 {
		for _, r := range ex.results {
			for _, s := range r.Samples {
				if len(written) < 4 {
					written = append(written, s)
				}
			}
		}
	}
	if len(written) == 0 {
		written = append(written, "none")
	}
	var missing []string
	for _, n := range c.Need {
		if tot.Reached[n] == 0 {
			missing = append(missing, n)
		}
	}
	var encoded []string
	for f := range ex.encoded {
		encoded = append(encoded, strings.ReplaceAll(f, repoMod+"/", ""))
	}
	sort.Strings(encoded)
	cross := map[string]any{}
	if tier == "thorough" {
		cross = crossCheck(ex.kept, start.Add(limit+600*time.Second))
	}
	reduced := []string{}
	if ex.timedOut {
		reduced = append(reduced, fmt.Sprintf("the time limit of %v ended the exploration before all paths were taken", limit))
	}
	for k, v := range tot.Unsupported {
		reduced = append(reduced, fmt.Sprintf("%d path(s) ended early: %s", v, clipStr(k, 400)))
	}
	if tot.Unknown > 0 {
		reduced = append(reduced, fmt.Sprintf("%d solver queries undecided", tot.Unknown))
	}
	if ends["limit"] > 0 {
		reduced = append(reduced, fmt.Sprintf("%d path(s) ended at the step limit", ends["limit"]))
	}
	for _, u := range unconfirmed {
		reduced = append(reduced, "counterexample not confirmed by the real code: "+clipStr(u, 600))
	}
	for _, m := range missing {
		reduced = append(reduced, "witness not reached: "+m)
	}
	for _, d := range disagree {
		reduced = append(reduced, "replay of a completed path disagrees: "+clipStr(d, 600))
	}
	sort.Strings(reduced)
	if len(reduced) > 40 {
		reduced = reduced[:40]
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
		"assumptions": append([]string{
			"bounds: " + c.Bounds,
			"trusted: the SSA builder of golang.org/x/tools, the symbolic machine in /verif/engine, z3; completed paths are replayed against the compiled code to validate the machine",
		}, c.Outside...),
		"coverage": map[string]any{
			"states":                        tot.Paths,
			"transitions":                   steps,
			"traces_validated_against_impl": validated,
			"samples":                       written,
			"meaning":                       "states: symbolic execution paths taken to their end; transitions: SSA instructions executed; traces: completed paths whose solver model was run through the compiled code with the same observations",
			"paths_completed":               tot.Done,
			"path_ends":                     ends,
			"assertions_decided":            tot.Asserts,
			"assertions_constant_on_path":   tot.Const,
			"assertions_by_value_sets":      tot.Trivial,
			"of_these_also_by_solver":       tot.Rechecked,
			"assertions_by_solver":          tot.Queries,
			"solver_unknown":                tot.Unknown,
			"branch_forks":                  tot.Forks,
			"solver_queries":                ex.solver.queries,
			"solver_cache_hits":             ex.solver.hits,
			"solver_sat":                    ex.solver.sat,
			"solver_unsat":                  ex.solver.unsat,
			"solver_seconds":                ex.solver.time.Seconds(),
			"functions_of_the_repository":   encoded,
			"functions_executed_in_all":     ex.encAll,
			"witnesses_reached":             tot.Reached,
			"cuts":                          tot.Cuts,
			"tasks":                         perTask,
			"exhaustive":                    len(reduced) == 0,
			"reduced":                       reduced,
			"bounds":                        c.Bounds,
			"cross_check":                   cross,
		},
	}
	writeJSON(filepath.Join(evDir, id+".json"), ev)
	fmt.Printf("%s %s: %d paths, %d completed, %d assertions (%d by solver, %d by value sets of which %d also by solver, %d constant), %d instructions, %d traces replayed, %d violation(s), %.1fs\n", id, tier, tot.Paths, tot.Done, tot.Asserts, tot.Queries, tot.Trivial, tot.Rechecked, tot.Const, steps, validated, violations, time.Since(start).Seconds())
	for _, r := range reduced {
		fmt.Println("  reduced:", clipStr(r, 300))
	}
	if exit == 0 && tot.Done == 0 {
		fmt.Println("nothing was decided")
		return 2
	}
	return exit
}

type nb interface{ clean() }

// nativeFuture is a replay program that is being built.
type nativeFuture struct {
	done chan struct{}
	bin  nativeBin
	mu   sync.Mutex
	lone map[string]string
}

func startNative(pkg, goos string) *nativeFuture {
	f := &nativeFuture{done: make(chan struct{}), lone: map[string]string{}}
	go func() {
		f.bin = buildNative(pkg, goos)
		close(f.done)
	}()
	return f
}

func (f *nativeFuture) get() *nativeBin {
	<-f.done
	return &f.bin
}

// alone is what the compiled code makes of the text in a process of its own.
func (f *nativeFuture) alone(text string) (string, error) {
	f.mu.Lock()
	r, ok := f.lone[text]
	f.mu.Unlock()
	if ok {
		return r, nil
	}
	n := f.get()
	if n.err != nil {
		return "", n.err
	}
	cmd := exec.Command(n.path)
	cmd.Env = append(cleanEnv(), "ND_LONE=1")
	cmd.Stdin = strings.NewReader(text)
	out, err := cmd.Output()
	if err != nil {
		return "", err
	}
	f.mu.Lock()
	f.lone[text] = string(out)
	f.mu.Unlock()
	return string(out), nil
}

func hasKind(ks []string, k string) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 800 {
		s = "…" + s[len(s)-800:]
	}
	return s
}

func clip(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, clipStr(s, 500))
	}
	return out
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// obsDiff compares what both sides observed; labels starting with "~" are
// informative only.
func obsDiff(a, b []string) string {
	f := func(xs []string) []string {
		var out []string
		for _, x := range xs {
			if !strings.HasPrefix(x, "~") {
				out = append(out, x)
			}
		}
		return out
	}
	a, b = f(a), f(b)
	for i := range a {
		if i >= len(b) {
			return "missing natively: " + a[i]
		}
		if a[i] != b[i] {
			return fmt.Sprintf("machine %q native %q", a[i], b[i])
		}
	}
	if len(b) > len(a) {
		return "only natively: " + b[len(a)]
	}
	return ""
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Println("writing", path, err)
		return
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
}

// crossCheck gives every kept query to a second solver.
func crossCheck(qs []keptQuery, deadline time.Time) map[string]any {
	agree, differ, unknown, n := 0, 0, 0, 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan keptQuery)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				cmd := exec.Command("cvc5", "--lang", "smt2", "--tlimit=20000", "-")
				cmd.Stdin = strings.NewReader(q.text)
				out, _ := cmd.Output()
				r := strings.TrimSpace(string(out))
				mu.Lock()
				switch {
				case r == q.res:
					agree++
				case r == "sat" || r == "unsat":
					differ++
					fmt.Println("SOLVERS DISAGREE", r, q.res)
				default:
					unknown++
				}
				mu.Unlock()
			}
		}()
	}
	for _, q := range qs {
		if time.Now().After(deadline) || n >= 4000 {
			break
		}
		n++
		ch <- q
	}
	close(ch)
	wg.Wait()
	return map[string]any{"second_solver": "cvc5", "queries": n, "agree": agree, "differ": differ, "no_answer": unknown, "kept": len(qs)}
}
