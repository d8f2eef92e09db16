#!/usr/bin/env python3
"""Planted bugs: makes and confirms /verif/seeded/<id>/, and runs checks on them.

  seeds.py make [id...]    build, test and demonstrate each in a scratch copy
  seeds.py check [id...]   run the quick check of its property on a copy with it
"""
import sys, os, subprocess, json, shutil, tempfile, importlib.util, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
PRE = '''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

func check(ok bool, what string, args ...any) {
	if !ok {
		fmt.Printf(what+"\\n", args...)
		os.Exit(1)
	}
}

func parse(src string) (*schema.Schema, error) {
	a, err := kfparser.Parse(src)
	if err != nil {
		return nil, err
	}
	return a.(*schema.Schema), nil
}

func accept(src string) *schema.Schema {
	s, err := parse(src)
	check(err == nil, "rejected: %v\\n%s", err, src)
	return s
}

func reject(src string, want error) {
	_, err := parse(src)
	check(err != nil, "accepted:\\n%s", src)
	if want != nil {
		check(errors.Is(err, want), "rejected with %v instead of %v:\\n%s", err, want, src)
	}
}

var _ = utils.ErrInvalidSyntax

'''
DEMO = '''#!/bin/bash
# runs main.go inside the module at the working directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$D" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 9
"$T/demo"
'''

def load():
    seeds = []
    for f in sorted(glob.glob(here + "/seeds/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    return seeds

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=kw.get("env", ENV), timeout=kw.get("timeout", 900))

def scratch():
    d = tempfile.mkdtemp(prefix="kfseed")
    subprocess.check_call(["cp", "-a", "/repo/.", d + "/repo"])
    return d

def reset(d):
    subprocess.check_call("git checkout -q -- . && git clean -fdq", shell=True, cwd=d + "/repo")

def apply(d, s):
    for f, old, new in s["edits"]:
        p = d + "/repo/" + f
        t = open(p).read()
        assert t.count(old) == 1, f"{s['id']}: {f}: {t.count(old)} matches of {old!r}"
        open(p, "w").write(t.replace(old, new))

def demo_files(s, dst):
    os.makedirs(dst, exist_ok=True)
    if "files" in s:
        for n, c in s["files"].items():
            open(dst + "/" + n, "w").write(c)
    else:
        pre = PRE.replace('import (', 'import (\n\t' + s["imports"]) if "imports" in s else PRE
        open(dst + "/main.go", "w").write(pre + s["demo"])
        r = run("gofmt -w main.go", dst)
        assert r.returncode == 0, r.stderr
    open(dst + "/demo.sh", "w").write(s.get("sh", DEMO))
    os.chmod(dst + "/demo.sh", 0o755)

def make(d, s):
    reset(d)
    tmp = d + "/demo"
    shutil.rmtree(tmp, ignore_errors=True)
    demo_files(s, tmp)
    r = run(f"bash {tmp}/demo.sh", d + "/repo")
    if r.returncode != 0:
        return "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:]
    apply(d, s)
    r = run("gofmt -l . ; go vet ./... ; go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./wasm", d + "/repo")
    if r.returncode != 0:
        return "does not build: " + r.stderr[-600:]
    if r.stdout.strip():
        print("  gofmt:", r.stdout.strip())
    diff = run("git diff", d + "/repo").stdout
    r = run("go test -vet=off -count=1 ./...", d + "/repo")
    if r.returncode != 0:
        return "tests fail: " + r.stdout[-800:]
    r = run(f"bash {tmp}/demo.sh", d + "/repo")
    if r.returncode == 0 or r.returncode == 9:
        return f"demo exits {r.returncode} with the change {r.stdout[-300:]} {r.stderr[-300:]}"
    dst = root + "/seeded/" + s["id"]
    demo_files(s, dst)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
    return "ok: " + (r.stdout.strip().split("\n") or [""])[0][:150]

def check(d, s, tier="quick"):
    reset(d)
    apply(d, s)
    env = dict(ENV, GOSYM_REPO=d + "/repo", GOSYM_VERIF=d + "/verif")
    shutil.rmtree(d + "/verif", ignore_errors=True)
    os.makedirs(d + "/verif/evidence")
    for x in ("harness", "engine", "known-findings.txt"):
        if os.path.exists(root + "/" + x):
            subprocess.check_call(["cp", "-r", root + "/" + x, d + "/verif/" + x])
    r = run(f"{root}/bin/gosym check {s['property']} {tier}", d + "/verif", env=env)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    return ("CAUGHT" if r.returncode == 1 and v else f"MISSED (exit {r.returncode})") + " " + "|".join(r.stdout.strip().split("\n")[-3:])[:int(os.environ.get("W", "200"))]

def main():
    ids = sys.argv[2:]
    seeds = [s for s in load() if not ids or any(s["id"].startswith(i) for i in ids)]
    d = scratch()
    try:
        for s in seeds:
            print(s["id"], {"make": make, "check": check}[sys.argv[1]](d, s), flush=True)
    finally:
        shutil.rmtree(d)

main()
