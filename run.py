#!/usr/bin/env python3
"""run.py PROP quick|thorough   check one property        (exit 0 held, 1 violation, 2 the check itself failed)
   run.py --replay FILE         re-execute a replay file  (exit 1 when it reproduces its recorded violation)
   run.py --show FILE           print the call-by-call trace of a replay file"""
import sys, os, subprocess, hashlib, json, time, fcntl, shutil, collections, re, signal
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); SIM = V + "/sim"; CORPUS = V + "/corpus"
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/nonexistent", "TZ": "UTC",
       "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:handle_segv=1", "REPO": REPO}
sys.path.insert(0, V)
from props_meta import META

def sources():
    L = []
    for root, d, fs in os.walk(REPO + "/decoder"):
        d.sort()
        for f in sorted(fs):
            if f.endswith((".c", ".h")): L.append(os.path.join(root, f))
    for f in sorted(os.listdir(SIM)): L.append(os.path.join(SIM, f))
    return L
def build(flavour):
    h = hashlib.sha256(flavour.encode())
    for f in sources():
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read())
    base = V + "/.build"; os.makedirs(base, exist_ok=True); out = f"{base}/{h.hexdigest()[:20]}-{flavour or 'n'}"
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out + "/ok"):
            # keep the cache small: at most the six newest other builds
            old = sorted((d for d in os.listdir(base) if os.path.isdir(base + "/" + d)), key=lambda d: os.path.getmtime(base + "/" + d))
            for d in old[:-5]: shutil.rmtree(base + "/" + d, ignore_errors=True)
            r = subprocess.run(["bash", SIM + "/build.sh", out] + ([flavour] if flavour else []), env=ENV, capture_output=True, text=True)
            if r.returncode:
                print("build failed:\n" + (r.stdout + r.stderr)[-4000:]); sys.exit(2)
            shutil.rmtree(out + "/obj", ignore_errors=True); shutil.rmtree(out + "/obj2", ignore_errors=True)
            open(out + "/ok", "w").close()
    return out + "/simrun"

def sh(bin_, *a, timeout=600):
    r = subprocess.run([bin_, CORPUS] + [str(x) for x in a], env=ENV, capture_output=True, text=True, timeout=timeout, errors="replace")
    return r
def exec_plan(bin_, path):
    m = re.search(r"^RESULT (\S+) (.*?) ([0-9a-f]{16}) \| (.*)$", sh(bin_, "exec", path).stdout, re.M)
    return (m.group(1), m.group(2), m.group(3), m.group(4)) if m else ("error", "-", "-", "no result")
def findings(prop):
    L = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: L.append(m.groups()[1:])
    return L
def plan_prop(path):
    return open(path).read().split()[1]

def replay(path):
    prop = plan_prop(path); b = build("san" if META[prop]["san"] else "")
    want = None
    for l in open(path):
        m = re.match(r"# expect (\S+) ([0-9a-f]{16})", l)
        if m: want = m.groups()
    st, cls, h, d = exec_plan(b, path)
    print(f"replay {st} class={cls} history={h}: {d}")
    if want: print("recorded class=%s history=%s: %s" % (want[0], want[1], "reproduced exactly" if want == (cls, h) else "NOT the recorded execution"))
    if st == "violation": print(f"VIOLATION property={prop} replay={path}"); return 1
    return 0 if st == "ok" else 2

def main():
    t0 = time.time()
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 3 and sys.argv[1] == "--show":
        p = sys.argv[2]; print(sh(build("san" if META[plan_prop(p)]["san"] else ""), "show", p).stdout); sys.exit(0)
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    M = META[prop]; b = build("san" if M["san"] else ""); tb = time.time()
    n = M["quick"] if tier == "quick" else M["quick"] * 40; deadline = 110 if tier == "quick" else 660
    base = (seed % 1000000) * 10000000; W = 8
    out = f"{V}/.build/run-{prop}-{os.getpid()}"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    try: code = explore(prop, tier, seed, M, b, n, deadline, base, W, out, t0, tb)
    finally: shutil.rmtree(out, ignore_errors=True)
    sys.exit(code)

def explore(prop, tier, seed, M, b, n, deadline, base, W, out, t0, tb):
    ps = []
    for i in range(W):
        f = open(f"{out}/log.{i}", "w"); ps.append(subprocess.Popen([b, CORPUS, "batch", prop, str(base + i), str(base + n), str(W), tier, out, str(deadline)], env=ENV, stdout=f, stderr=subprocess.STDOUT, start_new_session=True))
    bad_exit = []
    for i, p in enumerate(ps):
        try: rc = p.wait(timeout=max(1, deadline + 120 - (time.time() - tb)))
        except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        if rc != 0: bad_exit.append((i, rc))
    runs, F, P, T = [], collections.Counter(), collections.Counter(), collections.Counter()
    for i in range(W):
        for l in open(f"{out}/log.{i}", errors="replace"):
            t = l.rstrip("\n").split(" ", 6)
            if t[0] == "R" and len(t) >= 7: runs.append((int(t[1]), int(t[2]), int(t[3]), t[4], t[5], t[6]))
            elif t[0] == "F": F[t[1]] += int(t[2])
            elif t[0] == "P": P[t[1]] += int(t[2])
            elif t[0] == "T":
                w = l.split()[1:]
                for k, v in zip(w[::2], w[1::2]): T[k] += int(v)
    if bad_exit: print(f"the simulator itself ended abnormally: {bad_exit}"); print(open(f"{out}/log.{bad_exit[0][0]}").read()[-1500:]); return 2
    te = time.time()
    # the same seed must be the same execution in another process
    det = 0
    sample = sorted(runs)[:: max(1, len(runs) // 5)][:5]
    for r in sample:
        g = subprocess.run([b, CORPUS, "gen", prop, str(r[0]), tier], env=ENV, capture_output=True, text=True).stdout
        pf = f"{out}/det.plan"; open(pf, "w").write(g); st, cls, h, d = exec_plan(b, pf)
        if h != r[3]: print(f"determinism: seed {r[0]} gave history {r[3]} in the batch and {h} alone"); det += 1 << 20
        det += 1
    if det >> 20:
        if not any(r[1] for r in runs): return 2
    edges = None
    cov = [f"{out}/{f}" for f in os.listdir(out) if f.startswith("cov.")]
    if cov:
        acc = 0
        for c in cov: acc |= int.from_bytes(open(c, "rb").read(), "little")
        edges = bin(acc).count("1")
    known = findings(prop); kprint = []
    for cls, rp, what in known:
        st, c, h, d = exec_plan(b, V + "/" + rp)
        if st == "violation" and c == cls: kprint.append(f"KNOWN-FINDING: property={prop} {what}")
    # violations: reproduce twice in fresh processes, minimise, reproduce the minimised plan twice
    byc = collections.OrderedDict()
    for r in sorted(runs):
        if r[1]: byc.setdefault(r[5].split(" | ")[0], []).append(r)
    confirmed, unstable = [], []
    for cls, rs in byc.items():
        if any(k[0] == cls for k in known): continue
        if len(confirmed) >= 2: break
        ok = None
        for r in rs[:3]:
            pf = f"{out}/{prop}-{r[0]}.plan"
            a, c = exec_plan(b, pf), exec_plan(b, pf)
            if a[:3] == c[:3] and a[0] == "violation" and a[1] == cls and a[2] == r[3]: ok = (r, pf, a); break
            unstable.append((r[0], cls, a[:3], c[:3]))
        if ok: confirmed.append((cls, ok, len(rs)))
    vio = []
    os.makedirs(V + "/replays", exist_ok=True)
    for cls, (r, pf, a), cnt in confirmed:
        mf = f"{out}/min.plan"; best, res = pf, a
        try:
            sh(b, "min", pf, mf, 45 if tier == "quick" else 120, timeout=400)
            x, y = exec_plan(b, mf), exec_plan(b, mf)
            if x == y and x[0] == "violation" and x[1] == cls: best, res = mf, x
        except Exception as e: print("minimisation stopped:", e)
        dst = f"{V}/replays/{prop}-{r[0]}.plan"; L = open(best).read().split("\n", 1)
        open(dst, "w").write(L[0] + f"\n# expect {res[1]} {res[2]}\n# {res[3]}\n# found by VERIF_SEED={seed} tier={tier} run seed={r[0]}; replay: python3 run.py --replay <this file>\n" + L[1])
        vio.append((dst, cls, res[3], cnt))
    for k in kprint: print(k)
    nt = [r for r in runs if r[2]]
    distinct = len({r[4] for r in nt})
    secs = te - tb
    ev = {"property": prop, "tier": tier, "seed": seed, "level": M["level"], "coverage": {
        "evaluations": len(runs), "distinct_nontrivial": distinct,
        "rule": "one evaluation = one seeded plan (workload, faults, schedule) and its reference runs in the simulator; distinct = different call history, schedule and fault counts (64-bit hash); non-trivial: " + M["rule"],
        "samples": [subprocess.run([b, CORPUS, "gen", prop, str(r[0]), tier], env=ENV, capture_output=True, text=True).stdout[:1200] for r in (nt[:1] + nt[len(nt) // 2:][:1] + nt[-1:])],
        "simulated_worlds": T["worlds"], "decoder_calls": T["calls"], "frames_decoded": T["frames"], "outputs_compared": T["compared"],
        "simulated_audio_seconds": round(T["frames"] * 1024 / 48000.0, 1), "scheduler_steps": T["steps"], "context_switches_inside_calls": T["switches"],
        "runs_per_hour": int(len(runs) / max(secs, 0.01) * 3600), "seeds_per_hour": int(len(runs) / max(secs, 0.01) * 3600),
        "faults_injected": dict(sorted(F.items())), "reach_probes": dict(sorted(P.items())), "decoder_edges_reached": edges,
        "determinism_rechecks": det & 0xfffff, "stopped_by_deadline": T["cut"] > 0, "unstable_reports_discarded": len(unstable),
        "real_components": "every source file of /repo/decoder (create, init, execute, delete and everything below them), compiled from the working tree",
        "stubbed_components": "allocator, stack, scheduler, byte transport and host application are the simulator's; the /repo/test file reader and writer are not used"},
        "assumptions": M["assume"], "wall_s": round(time.time() - t0, 2), "violations": len(vio)}
    os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {len(runs)} runs ({distinct} distinct non-trivial), {T['worlds']} worlds, {T['frames']} frames, {sum(F.values())} faults, {secs:.0f} s explore, {tb-t0:.0f} s build")
    for dst, cls, d, cnt in vio: print(f"  {cls} in {cnt} runs: {d}"); print(f"VIOLATION property={prop} replay={dst}")
    if vio: return 1
    if unstable: print("unstable reports (not believed):", unstable[:3]); return 2
    if not runs: print("nothing was explored"); return 2
    return 0
main()
