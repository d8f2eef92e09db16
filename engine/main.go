package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym run pkg func [warm=F] [k=v...] | check ID quick|thorough")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "warmup": // fills the build cache for the replay programs
		seen := map[string]bool{}
		for _, id := range checkIDs() {
			c := checkByID(id)
			n := c.Native
			if n == "" {
				n = "zzverif/replay"
			}
			if !seen[n+c.GOOS] {
				seen[n+c.GOOS] = true
				b := buildNative(n, c.GOOS)
				if b.err != nil {
					fmt.Println(b.err)
				}
				b.clean()
			}
		}
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func repoDir() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("GOSYM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func cmdRun(args []string) {
	t := Task{Pkg: args[0], Func: args[1], Params: map[string]int64{}}
	workers := 8
	limit := 60 * time.Second
	ex := &Explorer{maxViol: 5}
	for _, a := range args[2:] {
		k, v, _ := strings.Cut(a, "=")
		switch k {
		case "warm":
			t.Warm = v
		case "workers":
			workers, _ = strconv.Atoi(v)
		case "time":
			limit, _ = time.ParseDuration(v)
		case "trace":
			ex.trace = true
		case "obs":
			ex.maxSamples, _ = strconv.Atoi(v)
		case "steps":
			t.Steps, _ = strconv.ParseInt(v, 10, 64)
		case "forks":
			forkHist = map[string]int{}
			defer func() {
				type kv struct {
					k string
					n int
				}
				var l []kv
				for k, n := range forkHist {
					l = append(l, kv{k, n})
				}
				sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
				for i := 0; i < len(l) && i < 25; i++ {
					fmt.Println("  fork", l[i].n, l[i].k)
				}
			}()
		case "prof":
			f, _ := os.Create(v)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		default:
			n, _ := strconv.ParseInt(v, 10, 64)
			t.Params[k] = n
		}
	}
	t0 := time.Now()
	ov, _, err := gatherOverlay(repoDir(), verifDir()+"/harness")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var env []string
	if strings.HasPrefix(t.Pkg, "zzverif/w") {
		env = []string{"GOOS=js", "GOARCH=wasm"}
	}
	w, err := loadWorld(repoDir(), ov, []string{"./" + t.Pkg, "./zzverif/rt"}, env...)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	ex.w = w
	ex.native = startNative("zzverif/replay", "")
	defer func() { ex.native.get().clean() }()
	ex.tasks = []Task{t}
	ex.deadline = time.Now().Add(limit)
	t1 := time.Now()
	ex.run(workers)
	if ex.err != nil {
		fmt.Println("error:", ex.err)
		return
	}
	r := ex.results[0]
	fmt.Printf("paths %d ends %v forks %d asserts %d trivial %d queries %d unknown %d steps %d time %v wall %v timedout %v\n", r.Paths, r.Ends, r.Forks, r.Asserts, r.Trivial, r.Queries, r.Unknown, r.Steps, r.Time, time.Since(t1), ex.timedOut)
	fmt.Printf("solver %+v repo functions %d all %d\n", ex.solver, len(ex.encoded), ex.encAll)
	for _, k := range sortedKeys(r.Unsupported) {
		fmt.Printf("  unsupported %d x %s\n", r.Unsupported[k], k)
	}
	for _, k := range sortedKeys(r.Reached) {
		fmt.Printf("  reached %d x %s\n", r.Reached[k], k)
	}
	for _, k := range sortedKeys(r.Cuts) {
		fmt.Printf("  cut %d x %s\n", r.Cuts[k], k)
	}
	for _, s := range r.Samples {
		fmt.Println("  sample", s)
	}
	if len(ex.sampled) > 0 {
		nat := "zzverif/replay"
		goos := ""
		if t.Pkg != "zzverif/h" {
			nat += strings.TrimPrefix(t.Pkg, "zzverif/")
		}
		if strings.HasPrefix(t.Pkg, "zzverif/w") {
			goos = "js"
		}
		n := buildNative(nat, goos)
		defer n.clean()
		for _, s := range ex.sampled {
			f, _ := os.CreateTemp("", "kfverif-sample-*.json")
			f.Close()
			writeJSON(f.Name(), replayFile{Params: t.Params, Model: s.model, Kinds: s.kinds})
			code, out, obs := n.run(f.Name(), t.Func, 60*time.Second)
			os.Remove(f.Name())
			fmt.Println("  path", s.obs)
			fmt.Println("  native", code, obs, n.err)
			if code != 0 {
				fmt.Println(tail(out))
			}
			fmt.Println("  diff", obsDiff(s.obs, obs))
		}
	}
	for _, v := range r.Violations {
		fmt.Println("  VIOLATION", v.Msg, v.Desc, v.Trace)
		for _, o := range v.Obs {
			fmt.Println("     ", o)
		}
	}
}
