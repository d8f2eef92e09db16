// Package c holds the harness of the command line tool: it runs the main
// function of the module on invocations and file trees built from symbolic
// choices. Natively every invocation is a process of its own in the scratch
// directory that is the working directory.
package c

import (
	"bytes"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"syscall"
	"unsafe"

	tool "github.com/kwilteam/kuneiform/zzverif/gen/kuneiform"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

type outcome struct {
	code     int
	stdout   string
	stderr   string
	panicked bool
}

// run is one invocation of the tool.
func run(args []string) outcome {
	if !nd.Symbolic() {
		return runNative(args)
	}
	os.Args = append([]string{"kuneiform"}, args...)
	r := nd.Try(tool.Main)
	o := outcome{stdout: nd.Stdout(), stderr: nd.Stderr()}
	if a, ok := r.(nd.Aborted); ok && a.Kind == "exit" {
		o.code = a.Code
	} else if r != nil {
		o.panicked = true
	}
	return o
}

func runNative(args []string) outcome {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, args...)
	cmd.Args[0] = "kuneiform"
	cmd.Env = append(os.Environ(), "ND_CLI="+nd.FaultSpec+".")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	o := outcome{}
	if err := cmd.Run(); err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		o.code = ee.ExitCode()
		o.panicked = o.code < 0 || o.code == 2 && strings.Contains(errs.String(), "goroutine ")
	}
	o.stdout, o.stderr = out.String(), errs.String()
	return o
}

type filter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

type program struct {
	n uint16
	f *filter
}

// fault makes the system calls of this process fail that spec names: m creating
// directories, c opening files that may be created, x closing,
// l writing more than five bytes to a file.
func fault(spec string) {
	const load, jeq, jset, jge, ret = 0x20, 0x15, 0x45, 0x35, 0x06
	fail := func(e syscall.Errno) filter { return filter{ret, 0, 0, 0x00050000 | uint32(e)} }
	var p []filter
	if strings.Contains(spec, "m") {
		p = append(p, filter{load, 0, 0, 0}, filter{jeq, 1, 0, syscall.SYS_MKDIR}, filter{jeq, 0, 1, syscall.SYS_MKDIRAT}, fail(syscall.EACCES))
	}
	if strings.Contains(spec, "c") {
		p = append(p, filter{load, 0, 0, 0}, filter{jeq, 0, 3, syscall.SYS_OPENAT}, filter{load, 0, 0, 32}, filter{jset, 0, 1, syscall.O_CREAT}, fail(syscall.EACCES))
	}
	if strings.Contains(spec, "x") {
		p = append(p, filter{load, 0, 0, 0}, filter{jeq, 0, 3, syscall.SYS_CLOSE}, filter{load, 0, 0, 16}, filter{jge, 0, 1, 3}, fail(syscall.EIO))
	}
	if strings.Contains(spec, "l") {
		signal.Ignore(syscall.SIGXFSZ)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 5, Max: 5}); err != nil {
			panic(err)
		}
	}
	if len(p) == 0 {
		return
	}
	p = append(p, filter{ret, 0, 0, 0x7fff0000})
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		panic(e)
	}
	pr := program{uint16(len(p)), &p[0]}
	if r, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&pr))); e != 0 || r != 0 {
		panic(e)
	}
}

// Child is the process of one invocation.
func Child(spec string) {
	os.Unsetenv("ND_CLI")
	fault(spec)
	tool.Main()
	os.Exit(0)
}

// ---- the file tree below the working directory ----

type entry struct {
	path string
	kind string // dir, file, special
	data string
}

func snapshot(dir string) []entry {
	list, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	var out []entry
	for _, e := range list {
		p := e.Name()
		if dir != "." {
			p = dir + "/" + p
		}
		switch {
		case e.IsDir():
			out = append(out, entry{path: p, kind: "dir"})
			out = append(out, snapshot(p)...)
		case e.Type().IsRegular():
			b, err := os.ReadFile(p)
			nd.Assert(err == nil, "the snapshot is complete")
			out = append(out, entry{p, "file", string(b)})
		default:
			out = append(out, entry{path: p, kind: "special"})
		}
	}
	return out
}

func must(err error) {
	if err != nil {
		panic("preparing the files: " + err.Error())
	}
}

func put(path, data string) { must(os.WriteFile(path, []byte(data), 0o644)) }
