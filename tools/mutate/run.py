#!/usr/bin/env python3
"""Runs the quick checks against mutants of a copy of /repo; prints the survivors.
   run.py MUTANTS.txt STEP OFFSET WORKERS OUT   (list made by 'mutate list' in /repo)"""
import json, os, shutil, subprocess, sys, threading, queue
lst, step, offs, nw, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
W = "/tmp/w"
MAP = [
 ("format/common/", "C30 C25 C02 C18 C21 C26 C27"), ("format/dbml/", "C23 C14 C28 C27 C26"), ("format/diff/", "C12 C13 C14 C28 C15 C26 C27"),
 ("format/gorm/", "C16 C17 C25 C14 C28 C15 C26 C27"), ("format/graphql/", "C20 C25 C28 C27 C29 C26"), ("format/jpa/", "C18 C19 C25 C14 C28 C29 C26 C27"),
 ("format/liquibase/diff.go", "C11 C14 C28 C15 C26 C27"), ("format/liquibase/", "C10 C11 C14 C28 C26 C27"), ("format/mysql/exporter", "C03 C05 C14 C28 C27 C26"),
 ("format/mysql/", "C04 C05 C03 C28 C27 C26"), ("format/octopus/", "C30 C01 C02 C03 C23 C29 C14 C11 C28 C27 C10 C16 C18 C22"), ("format/ojson/", "C08 C28 C27 C26"),
 ("format/plantuml/", "C24 C28 C29 C27 C26"), ("format/quickdbd/", "C24 C28 C27 C26"), ("format/protobuf/", "C21 C25 C14 C28 C15 C26 C27"),
 ("format/sqlalchemy/", "C22 C25 C14 C28 C29 C26 C27"), ("format/staruml/", "C09 C28 C27 C26"), ("format/xlsx/", "C06 C07 C28 C29 C27 C26"),
 ("main.go", "C26 C28 C29"), ("util/", "C22 C16 C18 C21 C11 C12 C04 C28 C29 C15 C09 C07 C06 C17 C19 C20"),
]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
muts = [l.rstrip("\n").split("\t") for l in open(lst)][offs::step]
done = set()
if os.path.exists(out):
    done = {tuple(json.loads(l)["m"][:2]) for l in open(out)}
q = queue.Queue()
for m in muts:
    if tuple(m[:2]) not in done: q.put(m)
lock = threading.Lock()
def env(repo):
    e = dict(os.environ, OCT_REPO=repo, MC_BUDGET="60s", VERIF_TIER="quick", VERIF_SEED="1", HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    return e
def work(i):
    repo, ver = f"{W}/mutrepo{i}", f"{W}/mutverif{i}"
    for d in (repo, ver): subprocess.run(["rm", "-rf", d])
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    subprocess.run(["git", "clone", "-q", "/verif", ver], check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = os.path.join(repo, m[0])
        orig = open(f, "rb").read()
        res = None
        try:
            b = subprocess.run([W + "/mutate", "apply", os.path.join("/repo", m[0]), m[1]], capture_output=True)
            open(f, "wb").write(b.stdout)
            if subprocess.run(["go", "build", "-o", "/dev/null", "."], cwd=repo, env=env(repo), capture_output=True).returncode:
                res = "nobuild"
            else:
                t = subprocess.run(["go", "test", "-json", "-vet=off", "./..."], cwd=repo, env=env(repo), capture_output=True, text=True, timeout=300)
                passed = set()
                for l in t.stdout.splitlines():
                    try: d = json.loads(l)
                    except ValueError: continue
                    if d.get("Action") == "pass" and d.get("Test"): passed.add(d["Package"] + "/" + d["Test"])
                if not stable <= passed: res = "tests"
                else:
                    for p, cs in MAP:
                        if m[0].startswith(p): break
                    for c in cs.split():
                        if c == "C28" and "err" not in m[3] and "nil" not in m[3]: continue
                        r = subprocess.run(["bash", ver + "/check.sh", c], env=env(repo), capture_output=True, text=True, timeout=900)
                        if r.returncode == 1: res = c; break
                        if r.returncode != 0: res = "ERR " + c + " " + (r.stdout + r.stderr)[-300:]; break
                    else: res = "SURVIVED"
        except subprocess.TimeoutExpired:
            res = "timeout"
        finally:
            open(f, "wb").write(orig)
        with lock:
            open(out, "a").write(json.dumps({"m": m, "res": res}) + "\n")
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
for i in range(nw):
    for d in (f"{W}/mutrepo{i}", f"{W}/mutverif{i}"): subprocess.run(["rm", "-rf", d])
