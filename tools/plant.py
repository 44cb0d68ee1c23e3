#!/usr/bin/env python3
"""Makes and confirms planted bugs (see DESIGN.md); no check uses this.

  plant.py make FILE.py [id...]   write and confirm seeded/<id> from definitions
  plant.py catch [id...]          apply each to /repo, run its check, undo it

A definition file calls bug(id, property, edits, demo, needs, breaks, ...).
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
ENV["PATH"] = "/usr/local/bin:" + ENV["PATH"]
BUGS = {}

PRELUDE = r'''// Demonstration; run by demo.sh.
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
	"github.com/fadhilkurnia/shamir/worker"
)

var (
	_ = bytes.Equal
	_ = aes.NewCipher
	_ = cipher.NewCTR
	_ = crand.Read
	_ = sha256.Sum256
	_ = runtime.GC
	_ = rand.Intn
	_ sync.Mutex
	_ = atomic.AddInt32
	_ = time.Now
	_ = syscall.Getpid
	_ = csprng.NewCSPRNG
	_ = galois.GalAdd
	_ = krawczyk.Split
	_ = randomizer.NewRandomizer
	_ = shamir.Split
	_ = utils.NewBytesBufferPool
	_ = worker.NewWorker
)

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func must(sh [][]byte, err error) [][]byte {
	if err != nil {
		fail("split: %v", err)
	}
	return sh
}

func mul(a, b byte) byte {
	var r byte
	for ; b != 0; b >>= 1 {
		if b&1 != 0 {
			r ^= a
		}
		c := a & 0x80
		a <<= 1
		if c != 0 {
			a ^= 0x1d
		}
	}
	return r
}

func inv(a byte) byte {
	r := byte(1)
	for i := 0; i < 254; i++ {
		r = mul(r, a)
	}
	return r
}

// at is the value at x of the polynomial through the points.
func at(xs, ys []byte, x byte) byte {
	var r byte
	for i := range xs {
		b := ys[i]
		for j := range xs {
			if i != j {
				b = mul(b, mul(x^xs[j], inv(xs[i]^xs[j])))
			}
		}
		r ^= b
	}
	return r
}

func text(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + 3)
	}
	return b
}

'''

SH = r'''#!/bin/bash
# exit 0: the property holds here; otherwise it is broken. Run in /repo.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
%(body)s
'''
SH_MAIN = r'''printf '{"Replace": {"%%s/zz_demo/main.go": "%%s/demo.go"}}' "$PWD" "$D" > "$T/overlay.json"
go build -buildvcs=false %(tags)s -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 3
cd "$T" && timeout 200 ./demo
'''
SH_386 = r'''printf '{"Replace": {"%%s/zz_demo/main.go": "%%s/demo.go"}}' "$PWD" "$D" > "$T/overlay.json"
go build -buildvcs=false -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 3
GOARCH=386 CGO_ENABLED=0 go build -buildvcs=false -overlay "$T/overlay.json" -o "$T/demo32" ./zz_demo || exit 3
cd "$T" && timeout 100 ./demo > a && timeout 100 ./demo32 > b && { cmp a b || { echo "FAIL: a 32-bit machine makes other shares"; exit 1; }; }
'''
SH_TEST = r'''printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo.go"}}' "$PWD" "$D" > "$T/overlay.json"
timeout 250 go test -vet=off -count=1 %(tags)s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''


def bug(id, prop, edits, demo, needs, breaks, tags="", pkg=None):
    BUGS[id] = (prop, edits, demo, needs, breaks, tags, pkg)


def sh(cmd, cwd, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-2000:], "timeout")


def tests(tree):
    p = sh(["bash", "-c", "go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vx github.com/fadhilkurnia/shamir)"], tree)
    passed = set()
    for line in p.stdout.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if t not in passed]


def make(id):
    prop, edits, demo, needs, breaks, tags, pkg = BUGS[id]
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = os.path.join(tmp, "wt")
        clean = os.path.join(tmp, "clean")
        for t in (tree, clean):
            subprocess.run(["git", "clone", "-q", "--shared", REPO, t], check=True)
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p).read()
            if isinstance(old, tuple):  # (text, which occurrence)
                old, k = old
                pos = -1
                for _ in range(k):
                    pos = s.find(old, pos + 1)
                if pos < 0:
                    return id, "occurrence not found: " + old
                s = s[:pos] + new + s[pos + len(old):]
            else:
                if s.count(old) != 1:
                    return id, "%d occurrences: %s" % (s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        out = os.path.join(tmp, "out")
        os.makedirs(out)
        with open(os.path.join(out, "demo.go"), "w") as f:
            f.write(demo if pkg else PRELUDE + demo)
        t = "-tags " + tags if tags else ""
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(SH % {"body": (SH_386 if tags == "386" else SH_TEST if pkg else SH_MAIN) % {"tags": t, "pkg": pkg}})
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        d = sh(["git", "diff"], tree)
        open(os.path.join(out, "patch.diff"), "w").write(d.stdout)
        b = sh(["go", "build", "./..."], tree)
        if b.returncode:
            return id, "does not build: " + b.stderr[-800:]
        a = sh(["bash", os.path.join(out, "demo.sh")], clean, 320)
        if a.returncode:
            return id, "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-800:]
        b = sh(["bash", os.path.join(out, "demo.sh")], tree, 320)
        if b.returncode in (0, 3):
            return id, "demo gives %d with the change: %s" % (b.returncode, (b.stdout + b.stderr)[-800:])
        bad = tests(tree)
        if bad:
            return id, "tests fail: " + " ".join(bad)
        dst = os.path.join(SEEDED, id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return id, "ok: " + (b.stdout + b.stderr).strip().replace("\n", " ")[:160]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def catch(id, checks=None):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = []
    if sh(["git", "apply", os.path.join(d, "patch.diff")], REPO).returncode:
        return "does not apply"
    try:
        for c in checks or [prop]:
            p = sh([sys.executable, "check.py", c], VERIF, 900)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            first = p.stdout.splitlines()[0][:150] if p.stdout else p.stderr[:300]
            res.append("%s %s %s" % (c, "CAUGHT" if p.returncode == 1 and v else "missed(%d)" % p.returncode, first))
    finally:
        sh(["git", "checkout", "--", "."], REPO)
    return " | ".join(res)


def main():
    if sys.argv[1] == "make":
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"), {"bug": bug})
        ids = sys.argv[3:] or list(BUGS)
        with cf.ThreadPoolExecutor(6) as ex:
            for id, r in ex.map(make, ids):
                print(id, r, flush=True)
    elif sys.argv[1] == "catch":
        checks = os.environ.get("CHECKS", "").split() or None
        for id in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            r = catch(id, checks)
            print(id, r, flush=True)
            if not checks:
                # what the table in PLANTED.md is made of
                f = os.path.join(VERIF, "tools", "caught.json")
                known = json.load(open(f)) if os.path.exists(f) else {}
                known[id] = r
                with open(f, "w") as g:
                    json.dump(known, g, indent=0, sort_keys=True)
                    g.write("\n")


if __name__ == "__main__":
    main()
