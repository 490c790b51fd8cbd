#!/usr/bin/env python3
"""mutate.py OUT FILE... [--sample N] [--seed S] [--slots K] [--runs R]
Mutation campaign over scratch copies of /repo: which small changes that build and
pass the tests does no check notice? A development tool; no check uses it."""
import argparse, json, os, queue, random, shutil, subprocess, sys, threading
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("files", nargs="+")
ap.add_argument("--sample", type=int, default=0); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--slots", type=int, default=4); ap.add_argument("--scale", type=float, default=0.02)
ap.add_argument("--only", default="")
a = ap.parse_args()
QUICK = dict(C01=150000,C02=60000,C03=200000,C04=150000,C05=100000,C06=300000,C07=400000,C08=100000,C09=40000,C10=60000,C11=60000,C12=60000,C13=60000,C14=50000,C16=150000,C17=120000)
ORDER = ["C02","C01","C07","C04","C05","C16","C14","C03","C06","C12","C08","C10","C11","C13","C17","C09"]
base = "/tmp/mut"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
def sh(cmd, cwd, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"
os.makedirs(base, exist_ok=True)
sh(f"go build -o {base}/mutate ./cmd/mutate && go build -o {base}/instr ./cmd/instr", "/verif/sim")
rc, lst = sh(f"{base}/mutate list {' '.join(a.files)}", "/repo")
ms = lst.strip().split("\n")
idx = list(range(len(ms)))
if a.only: idx = [int(x) for x in a.only.split(",")]
elif a.sample:
    random.seed(a.seed); idx = sorted(random.sample(idx, min(a.sample, len(idx))))
q = queue.Queue()
for i in idx: q.put(i)
lock = threading.Lock(); out = open(a.out, "a")
def work(k):
    d = f"{base}/s{k}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && cp -a /verif/sim {d}/sim && sed -i 's#=> /repo#=> {d}/repo#' {d}/sim/go.mod", "/")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        sh("git checkout -q -- .", d+"/repo")
        sh(f"{base}/mutate apply {i} {' '.join(a.files)}", d+"/repo")
        res = dict(i=i, m=ms[i])
        if sh("go build ./...", d+"/repo")[0]: res["r"] = "no build"
        elif sh("go test -vet=off -count=1 -timeout 60s ./...", d+"/repo", 90)[0]: res["r"] = "tests"
        else:
            sh(f"rm -rf {d}/ov && mkdir {d}/ov && go list -export -deps -f '{{{{.ImportPath}}}} {{{{.Export}}}}' github.com/ipfs/go-ipld-git/... > {d}/exports; {base}/instr {d}/repo {d}/ov {d}/exports {d}/sim/simhook/dict.go", d+"/sim")
            rc, o = sh(f"go build -overlay {d}/ov/overlay.json -o {d}/gitsim ./cmd/gitsim", d+"/sim")
            if rc: res["r"] = "no sim build: "+o[:200]
            else:
                res["r"] = "SURVIVED"
                for p in ORDER:
                    n = max(300, int(QUICK[p]*a.scale))
                    # phase two needs the race build; leave it out
                    rc, o = sh(f"{d}/gitsim -known /verif/known_findings.json -evidence {d}/ev -workers 2 -runs {n} -norace run {p}", d, 400)
                    if rc == 1: res["r"] = "caught "+p; break
                    if rc: res["r"] = f"ERROR {p} rc={rc} "+o[-300:]; break
        with lock:
            out.write(json.dumps(res)+"\n"); out.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.slots)]
for t in ts: t.start()
for t in ts: t.join()
