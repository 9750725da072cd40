#!/usr/bin/env python3
"""Screens mutants: mutate.py FILE [name...]   FILE defines M = [(name, "CHECK ...", [(file, old, new), ...]), ...]
Each is applied to a private copy of /repo (bind-mounted over /repo in a user namespace of its own, as is a copy of /verif), then the checks run. LANES lanes in parallel."""
import os, subprocess, sys, threading, queue, time, json
LANES = int(os.environ.get("LANES", "3"))
TIER = os.environ.get("TIER", "quick")
src = sys.argv[1]; ns = {}
exec(open(src).read(), ns)
M = [m for m in ns["M"] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
names = [m[0] for m in M]; assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
for n, _, ed in M:
    for f, a, b in ed:
        if isinstance(a, int): continue  # the line of that number (from 0) is replaced
        k = open("/repo/" + f).read().count(a)
        if k != 1: print("BAD EDIT", n, f, k, a[:80]); sys.exit(1)
q = queue.Queue()
for m in M: q.put(m)
lock = threading.Lock(); res = {}
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def lane(i):
    d = f"/tmp/lane{i}"
    os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {d}/repo/ 2>/dev/null || (rm -rf {d}/repo && cp -a /repo {d}/repo && rm -rf {d}/repo/target)")
    sh(f"mkdir -p {d}/verif && rsync -a --delete --exclude /target --exclude .git --exclude evidence --exclude replays /verif/ {d}/verif/ || (cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./replays . | tar xf - -C {d}/verif)")
    while True:
        try: name, checks, ed = q.get_nowait()
        except queue.Empty: return
        for f in {e[0] for e in ed}: open(f"{d}/repo/{f}", "w").write(open("/repo/" + f).read())
        for f, a, b in ed:
            s = open(f"{d}/repo/{f}").read()
            if isinstance(a, int): l = s.split("\n"); l[a] = b; s = "\n".join(l)
            else: s = s.replace(a, b)
            open(f"{d}/repo/{f}", "w").write(s)
        out = []
        for c in checks.split():
            t = time.time()
            r = sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && MC_WORKERS={os.environ.get('MC_WORKERS', '4')} timeout 900 ./run.sh {c} {TIER}'")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = r.returncode == 1 and any(f"property={c} " in l for l in v)
            why = [l for l in r.stdout.splitlines() if not l.startswith((c + " ", "VIOLATION", "glob", "enti", " ", "KNOWN"))]
            out.append(f"{c}:{'caught' if ok else 'MISSED' if r.returncode == 0 else 'EXIT %d' % r.returncode}({time.time()-t:.0f}s)")
            if "BUILD FAILED" in r.stderr: out[-1] = "does not compile"; break
            if os.environ.get("STOP") and ok: break
            if r.returncode not in (0, 1): out.append((r.stderr or r.stdout)[-600:])
            elif ok and os.environ.get("WHY"): out.append("\n    " + "\n    ".join(x[:200] for x in why[:4]))
        for f in {e[0] for e in ed}: open(f"{d}/repo/{f}", "w").write(open("/repo/" + f).read())
        with lock: res[name] = out; print(name, *out, flush=True)
ts = [threading.Thread(target=lane, args=(i + int(os.environ.get("LANE0", "0")),)) for i in range(min(LANES, len(M)))]
for t in ts: t.start()
for t in ts: t.join()
print("missed:", [n for n in res if not any("caught" in x for x in res[n])])
