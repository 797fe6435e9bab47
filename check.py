#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

1. extracts the typed AST of /repo/core/src (clang, afresh), generates the obligations of every function under
   contract for the property and discharges them;
2. builds the real code natively with the property's harness, which evaluates the same clauses on real executions:
   it confirms failed obligations (searching with the numerals of the counterexamples) and is the bounded stand-in,
   labelled as such, for functions out of the verifier's reach.
"""
import sys, os, time, json, tempfile, shutil, subprocess, glob, importlib, multiprocessing, signal, argparse, hashlib
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "vcgen"), os.path.join(HERE, "specs")]
import frontend
from run import load_specs, targets, overriders

REPO = frontend.REPO
NPROC = 8


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- native side
class Native:
    def __init__(self, prop, work, tier):
        self.prop, self.work, self.tier = prop, work, tier
        self.src = os.path.join(HERE, "native", prop.lower() + ".cpp")
        self.exe = os.path.join(work, "harness")
        self.error, self.wall, self.ok = None, 0.0, False

    def have(self):
        return os.path.exists(self.src)

    def flags(self):
        return ["clang++"] + frontend.clang_flags() + ["-O1" if self.tier == "thorough" else "-O0", "-fno-access-control", "-I" + os.path.join(HERE, "native")]

    def compile(self, jobs):
        """jobs: (source, object) -> list of (source, stderr) that failed"""
        bad, running = [], []
        todo = list(jobs)
        while todo or running:
            while todo and len(running) < NPROC:
                s, o = todo.pop(0)
                running.append((s, subprocess.Popen(self.flags() + ["-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
            s, p = running.pop(0)
            _, err = p.communicate()
            if p.returncode:
                bad.append((s, err[-1500:]))
        return bad

    def build(self):
        t0 = time.time()
        srcs = frontend.source_files()
        groups = [[] for _ in range(7)]
        for i, s in enumerate(srcs):
            groups[i % 7].append(s)
        jobs = []
        for i, g in enumerate(groups):
            u = os.path.join(self.work, "u%d.cpp" % i)
            with open(u, "w") as f:
                f.writelines('#include "%s"\n' % s for s in g)
            jobs.append((u, os.path.join(self.work, "u%d.o" % i)))
        h = [(self.src, os.path.join(self.work, "h.o"))]
        bad = self.compile(h + jobs)
        hb = [b for b in bad if b[0] == self.src]
        if hb:
            self.error = "the harness does not compile against the current sources:\n" + hb[0][1]
        elif bad:
            jobs = [(s, os.path.join(self.work, "s%d.o" % i)) for i, s in enumerate(srcs)]
            bad = self.compile(jobs)
            if bad:
                self.error = "the sources do not compile:\n" + bad[0][1]
        if not self.error:
            p = subprocess.run(["clang++", "-o", self.exe, os.path.join(self.work, "h.o")] + [o for _, o in jobs] + ["-lnetcdf", "-lyaml-cpp"],
                               capture_output=True, text=True)
            if p.returncode:
                self.error = "link: " + p.stderr[-1500:]
        self.wall = time.time() - t0
        self.ok = self.error is None
        return self.ok

    def run(self, secs, seeds, numerals=(), harness=None, timeout=None):
        """one process per seed -> merged result"""
        dic = os.path.join(self.work, "dict.txt")
        open(dic, "w").write("\n".join(repr(x) for x in numerals))
        ps = []
        for sd in seeds:
            cmd = [self.exe, "--seed", str(sd), "--secs", str(secs), "--dict", dic] + (["--harness", harness] if harness else [])
            wd = os.path.join(self.work, "run%d" % sd)
            os.makedirs(wd, exist_ok=True)
            fo = open(os.path.join(wd, "out.txt"), "w+")
            ps.append((sd, fo, subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=wd), wd))
        out = {"evaluations": 0, "clauses": 0, "distinct": 0, "per": {}, "counters": {}, "samples": [], "fails": {}, "incomplete": []}
        end = time.time() + (timeout or secs * 3 + 120)
        for sd, fo, p, wd in ps:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            fo.seek(0)
            txt = fo.read()
            j = txt.rfind("HBRESULT ")
            if j >= 0 and rc in (0, 3):
                d = json.loads(txt[j + 9:].split("\n")[0], strict=False)
                for k in ("evaluations", "clauses"):
                    out[k] += d[k]
                out["distinct"] = max(out["distinct"], d["distinct"])
                for k in ("per", "counters"):
                    for a, b in d[k].items():
                        out[k][a] = out[k].get(a, 0) + b
                out["samples"] += d["samples"][:4]
                for a, b in d["fails"].items():
                    out["fails"].setdefault(a, b)
            else:
                k = [l for l in txt.split("\n") if l.startswith("HBCASE ")][-1:]
                desc = "process of seed %d ended with %s %s" % (sd, rc, " ".join(k))
                if rc == "timeout":
                    out["incomplete"].append(desc)
                else:
                    out["fails"].setdefault("the real code crashed", desc + " | " + txt[-300:])
        return out


# ---------------------------------------------------------------- proof side
P = None
JOBS = []


def _work(i):
    import verify
    con, f, cls, budget, only, scale = JOBS[i]
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(int(budget[1]))
    try:
        r = verify.verify(P, con, f, cls, budget=budget[0], only=only, scale=scale)
        signal.alarm(0)
    except TimeoutError:
        r = verify.Result(f.qname + ((" [%s]" % cls) if cls else ""))
        r.error = "time: no result within %d s" % budget[1]
    except BaseException as e:
        signal.alarm(0)
        r = verify.Result(f.qname)
        r.error = "internal: %s: %s" % (type(e).__name__, e)
    return i, r


def pool_run(n, procs):
    with multiprocessing.get_context("fork").Pool(min(procs, n), maxtasksperchild=4) as pool:
        yield from pool.imap_unordered(_work, range(n))


def prove(prop, tier):
    global JOBS
    import contracts
    JOBS = []
    missing = []
    budget = (12.0, 240) if tier == "quick" else (40.0, 500)
    for con in contracts.STORE.all():
        if prop not in con.props:
            continue
        tg = targets(P, con) + (overriders(P, con) if con.subtypes else [])
        if not tg and con.verify and not con.trusted and not con.inline:
            missing.append(con.qname)
        for c, f, cls in tg:
            # the obligations of long functions are shared between processes
            n = 6 if (c.timeout or 0) >= 60 else 1
            for k in range(n):
                JOBS.append((c, f, cls, budget, (n, k) if n > 1 else None, 1.0))
    # long functions first (the longest one bounds the wall time)
    JOBS.sort(key=lambda j: -(j[0].timeout or 0))
    res = dict(pool_run(len(JOBS), NPROC)) if JOBS else {}
    first = {}
    for i in sorted(res):
        c, f, cls, _, only, _ = JOBS[i]
        if only is None:
            continue
        k = (id(c), id(f), cls)
        if k not in first:
            first[k] = i
            continue
        a, b = res[first[k]], res.pop(i)
        if b.error and not a.error:
            a.error = b.error
        a.obls = sorted(a.obls + b.obls, key=lambda o: o["index"])
        a.wall += b.wall
    # second attempt, with three times the time per obligation and less load, where the solvers gave no answer
    # (never where one of them refuted an obligation of the function)
    again, jobs = [], []
    for i, r in sorted(res.items()):
        bad = [o for o in r.obls if o["status"] != "proved"]
        if not r.error and bad and all(o["status"] == "unknown" for o in bad) and len(bad) <= 12 and len(jobs) < 12:
            for o in bad:
                again.append((i, o["index"]))
                c, f, cls = JOBS[i][:3]
                jobs.append((c, f, cls, (budget[0] * 3, 120 if tier == "quick" else 300), {o["index"]}, 2.0))
    if jobs:
        jobs, again = jobs[:12], again[:12]
        JOBS = jobs
        for k, r in pool_run(len(jobs), 4):
            if not r.error and r.obls and r.obls[0]["status"] != "unknown":
                i, j = again[k]
                o = dict(r.obls[0], second_attempt=True)
                res[i].obls = [o if x["index"] == j else x for x in res[i].obls]
    return [r for _, r in sorted(res.items())], missing


# ---------------------------------------------------------------- findings
def known_findings(prop):
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))["findings"] if k["property"] == prop and k.get("status") == "open"]


def main():
    global P
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="hbcheck_%s_" % prop)
    rc = 2
    try:
        rc = run(prop, tier, seed, t0, work, a)
    finally:
        if a.keep:
            shutil.copytree(work, a.keep, dirs_exist_ok=True)
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, t0, work, a):
    global P
    load_specs()
    # native build in a child while the extraction runs
    nat = Native(prop, work, tier)
    use_native = nat.have() and not a.no_native
    if use_native:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                nat.build()
                os.write(w, json.dumps([nat.ok, (nat.error or "")[-3000:], nat.wall]).encode())
            finally:
                os._exit(0)
        os.close(w)
    ext_err = None
    if not a.no_proof:
        try:
            P = frontend.load()
        except Exception as e:
            ext_err = "extraction: %s" % str(e)[-2000:]
    t_ext = time.time() - t0
    if use_native:
        buf = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            buf += x
        os.waitpid(pid, 0)
        nat.ok, nat.error, nat.wall = json.loads(buf or b'[false,"no build result",0]')
        if not nat.ok:
            log("native build not available:", nat.error)
    # the bounded native pass runs next to the proofs
    nres, npid = None, None
    secs = 8 if tier == "quick" else 150
    seeds = [seed * 1000 + k for k in range(2 if tier == "quick" else 4)]
    if use_native and nat.ok:
        r, w = os.pipe()
        npid = os.fork()
        if npid == 0:
            try:
                d = nat.run(secs, seeds)
                open(os.path.join(work, "nres.json"), "w").write(json.dumps(d))
            finally:
                os._exit(0)
        os.close(w)
        os.close(r)
    results, missing = [], []
    if ext_err is None and not a.no_proof:
        results, missing = prove(prop, tier)
    t_proof = time.time() - t0 - t_ext
    if npid:
        os.waitpid(npid, 0)
        nres = json.load(open(os.path.join(work, "nres.json")))
    # ---- verdict
    import stdlib_model, contracts
    failed, reach = [], []
    if ext_err:
        reach.append({"function": "(all)", "reason": ext_err})
    for m in missing:
        reach.append({"function": m, "reason": "no such function in the current sources"})
    obls, disch, solver_t, backends = 0, 0, 0.0, {}
    funcs = []
    for r in results:
        if r.error:
            reach.append({"function": r.name, "reason": r.error})
            continue
        if r.vacuous:
            reach.append({"function": r.name, "reason": "vacuous contract: " + r.vacuous})
        bad = [o for o in r.obls if o["status"] != "proved"]
        for o in r.obls:
            obls += 1
            solver_t += o["time"]
            if o["status"] == "proved":
                disch += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        for o in bad:
            failed.append(o)
        funcs.append({"function": r.name, "obligations": len(r.obls), "discharged": len(r.obls) - len(bad), "wall_s": round(r.wall, 2),
                      "inlined": r.inlined, "callee_contracts": r.used, "loops_without_closed_form": r.unresolved})
    known = known_findings(prop)
    shown, viol = [], []

    def is_known(kind, text):
        for k in known:
            if k.get("kind", "native") == kind and k["match"] in text:
                if k not in shown:
                    shown.append(k)
                return True
        return False
    nfails = {}
    if nres:
        nfails = {k: v for k, v in nres["fails"].items() if not is_known("native", k)}
    failed_new = [o for o in failed if not is_known("obligation", o["func"] + " | " + o["name"])]
    search = None
    if failed_new and not nfails and use_native and nat.ok:
        nums = sorted({x for o in failed_new for x in o.get("numerals", [])})
        log("searching for a failing execution (%d numerals of counterexamples)" % len(nums))
        search = nat.run(25 if tier == "quick" else 120, [seed * 1000 + 500 + k for k in range(NPROC)], nums)
        nfails = {k: v for k, v in search["fails"].items() if not is_known("native", k)}
    rdir = os.path.join(HERE, "replay")
    if failed_new or nfails:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % prop)
        rec = {"property": prop, "tier": tier, "failed_obligations": [{k: o.get(k) for k in ("func", "name", "kind", "status", "reason", "backend", "model")} for o in failed_new],
               "native_failures": nfails,
               "how_to_replay": "python3-vt %s/check.py %s; a native failure line names seed and case: build native/%s.cpp (check.py --keep DIR) and run harness --seed S --harness H --case N" % (HERE, prop, prop.lower())}
        json.dump(rec, open(rp, "w"), indent=1)
        for o in failed_new[:12]:
            log("FAILED OBLIGATION %s: %s (%s)" % (o["func"], o["name"], o["status"]), json.dumps(o.get("model", {}))[:400])
        for k, v in list(nfails.items())[:12]:
            log("NATIVE FAILURE %s: %s" % (k, v[:700]))
    for k in shown:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop), "wall_s": round(time.time() - t0, 2),
          "violations": len(failed_new) + len(nfails),
          "coverage": {
              "obligations": obls, "discharged": disch, "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
              "trusted_base": TRUST_BASE + ["std/Eigen model: " + x for x in stdlib_model.TRUST],
              "functions_under_contract": funcs, "back_ends": backends, "solver_time_s": round(solver_t, 2), "extraction_s": round(t_ext, 2),
              "proof_wall_s": round(t_proof, 2),
              "failed": [o["func"] + ": " + o["name"] for o in failed],
              "out_of_reach_bounded_only": reach,
              "assumed_callee_contracts": assumed(prop, results, contracts),
              "explanation": "contracts on the functions extracted from the current sources; bounded native executions evaluate the same clauses on the real build",
          },
          "assumptions": ASSUME}
    if nres:
        ev["coverage"]["bounded_native"] = {"label": "bounded: never counted as proved", "evaluations": nres["evaluations"], "clauses_evaluated": nres["clauses"],
                                            "distinct_situations": nres["distinct"], "per_harness": nres["per"], "samples": nres["samples"],
                                            "situations": dict(list(nres["counters"].items())[:200]), "seconds": secs, "processes": len(seeds), "incomplete": nres["incomplete"]}
        ev["coverage"]["evaluations"] = nres["evaluations"]
        ev["coverage"]["distinct_nontrivial"] = nres["distinct"]
        ev["coverage"]["samples"] = nres["samples"] or ["-"]
        ev["coverage"]["rule"] = "random and boundary inputs to the real code; distinct = situations named by the harness (branch of the law, component type, scheme)"
    elif use_native:
        ev["coverage"]["bounded_native"] = {"error": nat.error}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %d functions, %d obligations, %d discharged, %d out of reach; native %s; %.1f s" % (
        prop, len(funcs), obls, disch, len(reach), ("%d cases, %d clauses" % (nres["evaluations"], nres["clauses"])) if nres else "none", time.time() - t0))
    for x in reach:
        log("out of reach (bounded only): %s: %s" % (x["function"], x["reason"][:300]))
    if nfails:
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if failed_new:
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    return 0


def level_of(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "proof"


def assumed(prop, results, contracts):
    mine = {r.name.split(" [")[0] for r in results}
    out = {}
    for r in results:
        for u in r.used:
            if u not in mine:
                c = contracts.STORE.get(u)
                if c is None:
                    continue
                if c.trusted:
                    out[u] = "trusted: %s" % c.trusted
                elif c.props:
                    out[u] = "discharged by the checks of %s" % ", ".join(c.props)
                else:
                    out[u] = "assumed"
    return out


TRUST_BASE = ["clang 18 front end (typed AST)", "vcgen (/verif/vcgen): translation of the AST to first-order formulas", "z3 4.x and cvc5 1.1.2"]
ASSUME = ["floating point arithmetic is treated as mathematical real arithmetic; NaN is a distinguished value; no overflow to infinity",
          "machine integers are treated as mathematical integers",
          "distinct owning pointers (unique_ptr) own distinct objects; a *Real parameter cell is never a field cell unless taken by address",
          "container loops are summarised by closed forms derived from their bodies or by the stated invariants (each checked inductively)",
          "termination is not proved (partial correctness)"]

if __name__ == "__main__":
    main()
