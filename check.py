#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.

exit 0: every obligation discharged; exit 1: VIOLATION line(s); exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vf"))
import engine, props, runner  # noqa: E402

T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VERIF_BUDGET", "760" if TIER == "quick" else "14400"))
DEADLINE = T0 + BUDGET
WORK = os.path.join(HERE, ".work", PROP)
REPLAY = os.path.join(HERE, "evidence", "replay")
CORES = min(8, os.cpu_count() or 8)
log = lambda *a: print("[%5.1fs]" % (time.time() - T0), *a, flush=True)


class Result:
    def __init__(self):
        self.violations = []     # (label, replay path, confirmed)
        self.known = []
        self.cov = {}
        self.bounded = []
        self.err = None


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) label=\"([^\"]+)\" (.*)", l.strip())
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    return out


def write_replay(n, text):
    os.makedirs(REPLAY, exist_ok=True)
    while True:
        p = os.path.join(REPLAY, "%s_%d.txt" % (PROP, n))
        try:
            with open(p, "x") as f:
                f.write(text)
            break
        except FileExistsError:
            n += 1
    return p


def evidence(R, level):
    cov = dict(R.cov)
    cov.setdefault("bounded_stand_ins", R.bounded)
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=props.assumptions(PROP),
              wall_s=round(time.time() - T0, 1), violations=len(R.violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)


LOCK = threading.Lock()
PRIMED, PLOCK = {}, threading.Lock()


def prime(path, kind, features=None, dep=None):
    """compile the dependencies once per check and copy them into the target directory of a crate; only saves time"""
    with PLOCK:
        k = (kind, features, dep)
        if k not in PRIMED:
            p = os.path.join(WORK, "prime%d" % len(PRIMED))
            runner.write_crate(p, [], "", features, dep, "vhdep")
            out = os.path.join(p, "build.log")
            if kind == "tk":
                engine.run(["cargo", "kani", "--only-codegen", "--target-dir", p + "/tk"], p, 300, out)
            else:
                engine.run(["cargo", "+" + engine.pinned_toolchain(), "build", "--offline", "--lib", "--target-dir", p + "/tn"], p, 300, out)
            PRIMED[k] = os.path.join(p, kind)
    if os.path.isdir(PRIMED[k]):
        subprocess.run(["cp", "-a", PRIMED[k], os.path.join(path, kind)])


def native_build(path, timeout, cfg=None, target=None):
    if not cfg and not target and not os.path.isdir(path + "/tn"):
        m = re.search(r"^bitfields = \{ (.*) \}$", open(path + "/Cargo.toml").read(), re.M)
        if m and m.group(1) == 'path = "%s/bitfields"' % runner.REPO:
            prime(path, "tn")
    out = os.path.join(path, "native.log")
    rc = engine.run(["cargo", "+" + engine.pinned_toolchain(), "build", "--offline", "--target-dir", target or os.path.join(path, "tn")],
                    path, timeout, out, {"RUSTFLAGS": "--cfg " + cfg} if cfg else {})
    return rc, engine.read(out)


def compile_failure(R, path, units, lines, logtext, target=None):
    """the harness crate does not compile: is a definition that must be accepted rejected,
    or a documented function missing?"""
    rc, nlog = native_build(path, 400, None, target)
    if rc == 0:
        R.err = "the harness crate compiles natively but not under Kani:\n" + logtext[-3000:]
        return
    if "could not compile `vh`" not in nlog:
        R.err = "the repository does not build:\n" + nlog[-3000:]
        return
    hits = {}
    for m in re.finditer(r"^(error[^\n]*)\n\s*--> src/lib\.rs:(\d+):", nlog, re.M):
        ln = int(m.group(2))
        for u in units:
            a, b = lines[u.id]
            if a <= ln <= b:
                hits.setdefault(u.id, []).append(m.group(1))
    if not hits:
        R.err = "compile errors outside the definitions:\n" + nlog[-3000:]
        return
    for i, (uid, es) in enumerate(sorted(hits.items())[:5]):
        u = [x for x in units if x.id == uid][0]
        txt = ("property %s: a valid definition is rejected, or a documented function of it is missing or ill-typed.\n\n"
               "Definition (%s):\n%s\n\nCompiler errors (pinned toolchain, real macro crate of /repo):\n%s\n\nReproduce: put the definition in a crate "
               "depending on /repo/bitfields (helper types: /verif/spec/prelude.rs) and build it.\n\nFull log:\n%s\n" % (
                   PROP, uid, u.definition, "\n".join(es[:20]), nlog[-20000:]))
        R.violations.append(("%s|%s|compile" % (PROP, uid), write_replay(len(R.violations), txt), True))


def short(desc):
    return (desc or "").strip().strip('"')


def confirm(R, K, path, unit_by_h, h, r, bad, cfg, n):
    """get the verifier's counterexample and replay it on the real code, natively"""
    u = unit_by_h[h]
    labels = [short(c["description"]) for c in bad]
    vals = []
    out = os.path.join(path, "cex.log")
    left = DEADLINE - time.time() + 60
    if left > 40:
        cmd = ["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "-Z", "unstable-options", "--no-assertion-reach-checks",
               "--target-dir", os.path.join(path, "tk"), "--harness-timeout", "120s", "--harness", h, "--exact"]
        engine.run(cmd, path, min(200, left), out, {"RUSTFLAGS": "--cfg " + cfg} if cfg else {})
        t = engine.read(out)
        for m in re.finditer(r"Check for `(\w+)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", t, re.S):
            if m.group(1) == "cover":
                continue
            b = []
            for v in re.finditer(r"vec!\[([0-9, ]*)\]", m.group(3)):
                b += [int(x) for x in v.group(1).split(",") if x.strip()]
            vals.append(b)
    confirmed, how = False, ""
    exe = os.path.join(path, "tn", "debug", "replay")
    if not os.path.exists(exe) and DEADLINE - time.time() > 20:
        native_build(path, min(300, DEADLINE + 60 - time.time()), cfg)
    if os.path.exists(exe):
        o2 = os.path.join(path, "rep.log")
        for b in vals:
            hx = "".join("%02x" % x for x in b)
            if engine.run([exe, h, hx], path, 30, o2) == 1:
                confirmed, how = True, "replay %s %s\n%s" % (h, hx, engine.read(o2))
                break
        if not confirmed:
            engine.run([exe, "fuzz", "20000", str(SEED), h], path, 60, o2)
            m = re.search(r"^FAIL (\S+) ([0-9a-f]*) (.*)$", engine.read(o2), re.M)
            if m:
                confirmed, how = True, "replay %s %s\nFAILED %s" % (m.group(1), m.group(2), m.group(3))
    txt = "property %s\nharness %s\nfailed obligations (Kani/CBMC):\n" % (PROP, h)
    for c in bad:
        txt += "  - %s   [%s in %s %s:%s]\n" % (short(c["description"]), c.get("category"), c.get("function"),
                                               (c.get("location") or {}).get("file"), (c.get("location") or {}).get("line"))
    txt += "\nDefinition:\n%s\n\n" % u.definition
    if confirmed:
        txt += ("Counterexample replayed natively on the real generated code (pinned toolchain); input bytes are the values of nd() in order:\n%s\n"
                "Rerun: %s\n" % (how, "cd %s && cargo +%s run --offline --target-dir tn -- %s" % (path, engine.pinned_toolchain(), how.split("\n")[0].replace("replay ", "", 1))))
    else:
        txt += "No failing input was reproduced natively; verifier output:\n%s\n" % engine.read(out)[-8000:]
    txt += "\nHarness source: %s/src/lib.rs module %s\n\n%s\n" % (path, u.id, u.text[-30000:])
    R.violations.append((labels[0] if labels else h, write_replay(n, txt), confirmed))


def bounded_fallback(R, path, hs, cfg):
    """harnesses the verifier did not decide: bounded native exploration, reported as such"""
    exe = os.path.join(path, "tn", "debug", "replay")
    if not os.path.exists(exe):
        native_build(path, max(60, DEADLINE + 90 - time.time()), cfg)
    if not os.path.exists(exe):
        R.err = "undecided obligations and no native build"
        return
    o2 = os.path.join(path, "fuzz.log")
    it = 20000 if len(hs) < 20 else 4000
    for h in hs:
        engine.run([exe, "fuzz", str(it), str(SEED), h], path, 60, o2)
        t = engine.read(o2)
        m = re.search(r"^FAIL (\S+) ([0-9a-f]*) (.*)$", t, re.M)
        if m:
            R.violations.append((m.group(3), write_replay(len(R.violations), "property %s\nbounded native check of %s failed:\n%s\n" % (PROP, h, t)), True))
        else:
            R.bounded.append("%s: undecided by the verifier, %d native pseudo-random cases instead" % (h, it))
        if time.time() > DEADLINE + 60:
            break


def classify(res):
    fails, und, vac = {}, [], []
    ob = dis = 0
    for h, r in res.items():
        bad, u, cov, ok, n = engine.check_failures(r)
        ob += n
        dis += ok
        if bad:
            fails[h] = bad
        elif u or (r["status"] != "Success"):
            und.append(h)
        elif cov[1] == 0 or cov[0] < cov[1]:
            vac.append(h)
    return fails, und, vac, ob, dis


def split(units, n):
    """balance the units over n shards by the size of their text"""
    n = max(1, min(n, len(units), sum(len(u.harnesses) for u in units) // 25))
    sh = [[0, []] for _ in range(n)]
    for u in sorted(units, key=lambda u: -len(u.text)):
        s = min(sh, key=lambda x: x[0])
        s[0] += len(u.text)
        s[1].append(u)
    order = {u.id: i for i, u in enumerate(units)}
    return [sorted(x[1], key=lambda u: order[u.id]) for x in sh]


class Shard:
    """one harness crate: some of the definitions, compiled and verified on its own"""

    def __init__(self, i, units, extra, features, jobs):
        self.features = features
        self.units, self.path = units, os.path.join(WORK, "s%d" % i)
        self.lines = runner.write_crate(self.path, units, extra, features)
        self.K, self.cfg, self.first = engine.Kani(self.path, jobs), None, ""
        self.st, self.res = None, {}

    def verify(self, ht):
        prime(self.path, "tk", self.features)
        self.st, self.res = self.K.verify(DEADLINE - 60, None, ht)
        if self.st == "compile":
            self.first = self.K.log
            log("does not compile; retrying without access to the private representation")
            self.st, self.res = self.K.verify(DEADLINE - 60, "repr_api", ht)
            self.cfg = "repr_api"


def bounded_units(R, units, iters, why, features=None, extra=""):
    """definitions kept out of the verifier's reach at this tier: pseudo-random native runs of the same contracts"""
    path = os.path.join(WORK, "b")
    runner.write_crate(path, units, extra, features)
    rc, nlog = native_build(path, DEADLINE - time.time())
    if rc != 0:
        log("bounded stand-in not built: " + nlog[-300:])
        R.bounded.append("not run (native build failed)")
        return
    out = os.path.join(path, "run.log")
    rc = engine.run([os.path.join(path, "tn", "debug", "replay"), "fuzz", str(iters), str(SEED)], path, max(20, DEADLINE - time.time() - 60), out)
    t = engine.read(out)
    um = {u.id: u for u in units}
    for h, hx, lab in re.findall(r"^FAIL (\S+) ([0-9a-f]*) (.*)$", t, re.M)[:2]:
        R.violations.append((lab, write_replay(90 + len(R.violations),
            "property %s\nfailed clause: %s\n\nDefinition:\n%s\n\nBounded native run (pinned toolchain); input bytes %s\n\nHarness source:\n%s\n" % (
                PROP, lab, um[h.split("::")[0]].definition, hx, um[h.split("::")[0]].text[-20000:])), True))
    R.bounded.append("%s: %d definitions, %d native pseudo-random cases per harness%s (%s)" % (
        why, len(units), iters, "" if rc in (0, 1) else ", incomplete", ", ".join(u.id for u in units)))


def sweep(R, units, iters):
    """bounded: the same contracts on many more definitions, evaluated natively on pseudo-random and boundary values"""
    n = max(1, min(CORES, len(units) // 40))
    parts = [units[i::n] for i in range(n)]
    um = {u.id: u for u in units}
    done, bad = [], []

    def go(i):
        path = os.path.join(WORK, "w%d" % i)
        lines = runner.write_crate(path, parts[i])
        rc, nlog = native_build(path, DEADLINE - time.time())
        if rc != 0:
            with LOCK:
                if not any("compile" in v[0] for v in R.violations):
                    compile_failure(R, path, parts[i], lines, nlog)
            return
        out = os.path.join(path, "run.log")
        engine.run([os.path.join(path, "tn", "debug", "replay"), "fuzz", str(iters), str(SEED)], path, max(20, min(300 if TIER == "quick" else 4000, DEADLINE - time.time() - 60)), out)
        t = engine.read(out)
        with LOCK:
            bad.extend(re.findall(r"^FAIL (\S+) ([0-9a-f]*) (.*)$", t, re.M))
            done.append("fuzz done" in t)
        shutil.rmtree(path + "/tn", ignore_errors=True)

    ts = [threading.Thread(target=guarded(R, go), args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    kinds = set()
    for h, hx, lab in bad:
        k = (lab.split("|") + [""] * 3)[3] or lab[:40]
        if k in kinds or len(kinds) >= 2:
            continue
        kinds.add(k)
        u = um[h.split("::")[0]]
        R.violations.append((lab, write_replay(60 + len(R.violations),
            "property %s\nfailed clause: %s\n\nDefinition:\n%s\n\nBounded native run of the definition sweep (pinned toolchain, real macro output); "
            "the input bytes are the values of nd() in order: replay %s %s\n\nAll failures:\n%s\n\nHarness source:\n%s\n" % (
                PROP, lab, u.definition, h, hx, "\n".join("%s %s" % (x[0], x[2]) for x in bad[:60]), u.text[-20000:])), True))
    log("sweep: %d definitions, %d clauses, %d native cases each; %d failures%s" % (
        len(units), sum(u.clauses for u in units), iters, len(bad), "" if done and all(done) and len(done) == n else " (incomplete)"))
    R.cov["sweep_bounded"] = dict(definitions=len(units), clauses=sum(u.clauses for u in units), native_cases_per_harness=iters, complete=len(done) == n and all(done),
                                  what="every (storage, field type, width) and random definitions: the same contracts evaluated natively; bounded, not proved")


def guarded(R, f):
    def g(*a):
        try:
            f(*a)
        except Exception as e:      # an error of the check, never an alarm
            import traceback
            traceback.print_exc()
            R.err = R.err or "internal error: %r" % e
    return g


def kani_property(R, units, features=None, extra="", bounded=(), iters=3000, why="", sweep_iters=400, **kw):
    parts = split(units, int(os.environ.get("VERIF_SHARDS", "5")))
    shards = [Shard(i, us, extra, features, CORES if len(parts) == 1 else max(2, 2 * CORES // len(parts))) for i, us in enumerate(parts)]
    allh = {"%s::%s" % (u.id, h[0]): (u, h) for u in units for h in u.harnesses}
    shard_of = {"%s::%s" % (u.id, h[0]): s for s in shards for u in s.units for h in u.harnesses}
    unit_by_h = {k: v[0] for k, v in allh.items()}
    log("%s: %d definitions, %d harnesses, %d crates" % (PROP, len(units), len(allh), len(shards)))
    ht = 150 if TIER == "quick" else 1500
    ts = [threading.Thread(target=guarded(R, s.verify), args=(ht,)) for s in shards]
    if bounded:
        ts.append(threading.Thread(target=bounded_units, args=(R, bounded, iters, why, features, extra)))
    if kw.get("sweep"):
        ts.append(threading.Thread(target=guarded(R, sweep), args=(R, kw["sweep"], sweep_iters)))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res = {}
    for s in shards:
        if s.st == "compile":
            compile_failure(R, s.path, s.units, s.lines, s.first)
        elif s.st == "tool":
            R.err = "verifier failed:\n" + s.K.log[-3000:]
        res.update(s.res)
    if R.err or any("compile" in v[0] for v in R.violations):
        return
    early, R.violations = R.violations, []
    fails, und, vac, ob, dis = classify(res)
    missing = [h for h in allh if h not in res]
    log("verified: %d harnesses, %d obligations, %d discharged; failing %d, undecided %d, vacuous %d, not run %d" % (
        len(res), ob, dis, len(fails), len(und), len(vac), len(missing)))
    # retry undecided ones with a larger unwinding bound
    unw = [h for h in und if any("unwinding assertion" in (c.get("description") or "") for c in engine.check_failures(res[h])[1])]
    for h in (unw[:6] if not fails else []):
        if DEADLINE - time.time() < 120:
            break
        s = shard_of[h]
        uw = allh[h][1][1]
        st2, r2 = s.K.verify(min(DEADLINE - 60, time.time() + ht), s.cfg, ht, [h], ["--unwind", str(max(140, 4 * uw))], "retry")
        if st2 == "ok" and h in r2:
            f2, u2, v2, ob2, dis2 = classify(r2)
            if not u2:
                _f, _u, _v, obo, diso = classify({h: res[h]})
                res[h] = r2[h]
                ob += ob2 - obo
                dis += dis2 - diso
                und.remove(h)
                fails.update(f2)
                vac += v2
    if vac and not fails:
        R.err = "vacuous harnesses (precondition unsatisfiable or the function never returns): %s" % vac[:5]
    seen = set()
    for h in sorted(fails):
        key = short(fails[h][0]["description"]).split("|")[2:3] or [short(fails[h][0]["description"])]
        if key[0] in seen and len(seen) > 0:
            continue
        seen.add(key[0])
        if len(R.violations) >= (1 if early else 3):
            break
        s = shard_of[h]
        confirm(R, s.K, s.path, unit_by_h, h, res[h], fails[h], s.cfg, len(R.violations))
    # the failed obligations first, then what the bounded runs found
    R.violations += early
    if not fails and not early and (und or missing):
        log("bounded stand-in for %d undecided harnesses" % (len(und) + len(missing)))
        for s in shards:
            hs = [h for h in und + missing if shard_of[h] is s]
            if hs:
                bounded_fallback(R, s.path, hs, s.cfg)
    fns = sorted({"%s::%s" % (u.id, f) for u in units for h in u.harnesses for f in h[2]})
    R.cov.update(obligations=ob, discharged=dis, checker_cmd="cd .work/%s/s<shard> && %s" % (PROP, shards[0].K.cmd_used.replace(HERE + "/", "")),
                 trusted_base=props.TRUSTED, definitions=len(units), harnesses=len(allh), harnesses_verified=len(res) - len(fails) - len(und),
                 contract_clauses=sum(u.clauses for u in units), functions_under_contract=len(fns),
                 function_samples=fns[:: max(1, len(fns) // 25)][:30],
                 definition_samples=[u.definition for u in units[:: max(1, len(units) // 4)][:5]],
                 back_end="Kani 0.68.0 -> CBMC 6.11.0 -> CaDiCaL",
                 symex_s=round(sum((r["stats"].get("runtime_symex_s") or 0) for r in res.values()), 2),
                 solver_s=round(sum((r["stats"].get("runtime_decision_procedure_s") or 0) for r in res.values()), 2),
                 verifier_cpu_s=round(sum(r["ms"] for r in res.values()) / 1000, 1),
                 vacuity_covers_satisfied=sum(engine.check_failures(r)[2][0] for r in res.values()),
                 representation_access="private storage" if all(s.cfg is None for s in shards) else "through the public conversions / transmute",
                 undecided=und + missing)




def native_property(R, units, iters, what, rule, features=None, extra="", path=None, dep=None, target=None, note=""):
    """bounded: build with the pinned toolchain and evaluate the clauses natively"""
    path = path or WORK + "/d"
    lines = runner.write_crate(path, units, extra, features, dep)
    log("%s: %d definitions, native %s" % (PROP, len(units), note))
    rc, nlog = native_build(path, DEADLINE - time.time(), None, target)
    if rc != 0:
        with LOCK:
            compile_failure(R, path, units, lines, nlog, target)
        return
    out = os.path.join(path, "run.log")
    exe = os.path.join(target or os.path.join(path, "tn"), "debug", "replay")
    rc = engine.run([exe, "fuzz", str(iters), str(SEED)], path, DEADLINE - time.time(), out)
    with LOCK:
        native_result(R, units, iters, what, rule, rc, engine.read(out), note)


def native_result(R, units, iters, what, rule, rc, t, note):
    fails = re.findall(r"^FAIL (\S+) ([0-9a-f]*) (.*)$", t, re.M)
    um = {u.id: u for u in units}
    seen = set()
    for h, hx, lab in fails:
        k = lab.split("|")[2:4]
        if str(k) in seen or len(seen) >= 4:
            continue
        seen.add(str(k))
        u = um[h.split("::")[0]]
        R.violations.append((lab, write_replay(len(R.violations),
            "property %s\nfailed clause: %s\n%s\n\nDefinition:\n%s\n\nEvaluated natively on the real macro output (pinned toolchain).\n"
            "All failures of this run:\n%s\n\nHarness source:\n%s\n" % (PROP, lab, note, u.definition, "\n".join(x[2] for x in fails[:60]), u.text[-20000:])), True))
    if rc not in (0, 1) or "fuzz done" not in t:
        if not R.violations:
            R.err = "native run failed: rc %s\n%s" % (rc, t[-2000:])
        return
    cl = sum(u.clauses for u in units)
    c = R.cov
    c["evaluations"] = c.get("evaluations", 0) + what(units, iters)
    c["distinct_nontrivial"] = c.get("distinct_nontrivial", 0) + cl
    c["rule"] = rule
    c["definitions"] = c.get("definitions", 0) + len(units)
    if note:
        c.setdefault("configurations", []).append(note)
    c.setdefault("samples", [])
    c["samples"] += [dict(definition=u.definition, clauses=re.findall(r'"(C\d\d\|[^"]*)"', u.text)[:6]) for u in units[:: max(1, len(units) // 3)][:3]]


def try_definitions(path, defs):
    """modules with an error -> messages; None when the build itself failed otherwise"""
    S = runner.VERIF + "/spec/"
    head = '#![allow(warnings)]\n#[macro_use]\n#[path = "%snd.rs"] pub mod nd;\n#[path = "%sspec.rs"] pub mod spec;\n#[path = "%sprelude.rs"] pub mod prelude;\n' % (S, S, S)
    text, lines = head, {}
    for (i, _rule, src) in defs:
        a = text.count("\n") + 1
        text += "pub mod %s {\n%s\n}\n" % (i, src)
        lines[i] = (a, text.count("\n"))
    open(path + "/src/lib.rs", "w").write(text)
    out = os.path.join(path, "check.log")
    rc = engine.run(["cargo", "+" + engine.pinned_toolchain(), "check", "--offline", "--lib", "--message-format=short", "--target-dir", os.path.join(path, "tn")],
                    path, DEADLINE - time.time(), out)
    t = engine.read(out)
    hits = {}
    starts = sorted((a, b, i) for i, (a, b) in lines.items())
    for m in re.finditer(r"^src/lib\.rs:(\d+):\d+: (error.*)$", t, re.M):
        ln = int(m.group(1))
        for (a, b, i) in starts:
            if a <= ln <= b:
                hits.setdefault(i, []).append(m.group(2))
                break
    if rc == 0:
        return {}, t
    return (hits or None), t


def accept_property(R, inv, val):
    """bounded: every definition of `inv` must fail to compile, every one of `val` must compile"""
    log("%s: %d definitions to reject, %d to accept" % (PROP, len(inv), len(val)))

    os.makedirs(WORK, exist_ok=True)
    path = WORK + "/acc"
    runner.write_crate(path, [])
    hits, t = try_definitions(path, val)
    if hits is None:
        R.err = "the repository does not build, or errors outside the definitions:\n" + t[-3000:]
        return
    byid = {x[0]: x for x in val + inv}
    for i in sorted(hits)[:4]:
        R.violations.append(("C22|%s|valid definition rejected" % byid[i][1], write_replay(len(R.violations),
            "property C22: a valid definition is rejected (%s)\n\n%s\n\nCompiler errors:\n%s\n" % (byid[i][1], byid[i][2], "\n".join(hits[i][:10]))), True))
    left, rejected, rounds = list(inv), {}, 0
    while left:
        hits, t = try_definitions(path, left)
        rounds += 1
        if hits is None:
            R.err = "compile errors outside the definitions:\n" + t[-3000:]
            return
        if not hits:
            break
        rejected.update(hits)
        left = [x for x in left if x[0] not in hits]
    for x in left[:4]:
        R.violations.append(("C22|%s|invalid definition accepted" % x[1], write_replay(len(R.violations),
            "property C22: an invalid definition is accepted (%s)\n\n%s\n\nAll invalid definitions that compiled:\n%s\n" % (
                x[1], x[2], "\n".join(y[1] + ": " + y[2].replace("\n", " ") for y in left[:40]))), True))
    log("%d rejected in %d rounds, %d invalid ones accepted" % (len(rejected), rounds, len(left)))
    R.cov.update(evaluations=len(inv) + len(val), distinct_nontrivial=len(set(x[2] for x in inv + val)),
                 rule="one evaluation compiles one definition with the real macro crate; distinct by source text",
                 rejected=len(rejected), accepted=len(val),
                 samples=[dict(rule=x[1], definition=x[2], outcome=(rejected.get(x[0]) or ["accepted"])[0]) for x in inv[:: max(1, len(inv) // 12)]] +
                         [dict(rule=x[1], definition=x[2], outcome="accepted") for x in val[:: max(1, len(val) // 8)]])


def macro_functions(R):
    """contracts on the macro crate's own functions; a failed one is an alarm only when the real macro shows the failure"""
    import macrofn
    path = os.path.join(WORK, "mf")
    todo = [k for k in macrofn.contracts() if k.prop == PROP or PROP in k.also]
    lost, st, res, lg = [], "compile", {}, ""
    for _ in range(4):
        lines = macrofn.write(path, todo)
        K = engine.Kani(path, 4)
        st, res = K.verify(DEADLINE - 30, None, 200, None, ["-Z", "stubbing"])
        lg = K.log
        if st != "compile":
            break
        hit, other = set(), False
        for m in re.finditer(r"^error[^\n]*\n\s*--> src/([^:\n]+):(\d+):", lg, re.M):
            h = [k for (a, b, k) in lines.get(m.group(1), []) if a <= int(m.group(2)) <= b]
            hit.update(h)
            other = other or not h
        lost += [k for k in todo if k in hit] if hit else todo
        todo = [k for k in todo if k not in hit] if hit else []
        if not todo:
            break
    c = dict(contracts=len(todo) - 0, source="bitfields_impl/src copied on this run; lib.rs entry points dropped",
             stubs="error construction and alloc::fmt::format", anchors_lost=["%s %s" % (k.file, "/".join(k.fns)) for k in lost])
    with LOCK:
        R.cov["macro_functions"] = c
    if not todo or st != "ok":
        c["note"] = "not verified on this tree (%s): %s" % (st, (re.findall(r"^error.*", lg, re.M) or ["?"])[0])
        log("macro functions: " + c["note"])
        return
    fails, und, vac, ob, dis = classify(res)
    name = {macrofn.harness(k): k for k in todo}
    c.update(obligations=ob, discharged=dis, back_end="Kani 0.68.0 -> CBMC 6.11.0 -> CaDiCaL", undecided=und + vac,
             functions=sorted({f for h, k in name.items() for f in k.fns if h in res and h not in fails and h not in und}),
             bounded={k.fns[0]: k.bound for k in todo if k.bound},
             solver_s=round(sum((r["stats"].get("runtime_decision_procedure_s") or 0) for r in res.values()), 2))
    log("macro functions: %d contracts, %d obligations, %d discharged; failing %d, undecided %d, anchors lost %d" % (
        len(todo), ob, dis, len(fails), len(und) + len(vac), len(lost)))
    c["unconfirmed_failures"] = []
    for h in sorted(fails):
        k = name.get(h)
        lab = short(fails[h][0]["description"])
        defs, vals = [], []
        if k and k.replay:
            out = os.path.join(path, "cex.log")
            engine.run(["cargo", "kani", "-Z", "concrete-playback", "--concrete-playback=print", "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks",
                        "--target-dir", os.path.join(path, "tk"), "--harness-timeout", "120s", "--harness", h, "--exact"], path, max(30, min(200, DEADLINE - time.time())), out)
            for m in re.finditer(r"Check for `(\w+)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", engine.read(out), re.S):
                if m.group(1) != "cover":
                    v = [int.from_bytes(bytes(int(x) for x in y.group(1).split(",") if x.strip()), "little") for y in re.finditer(r"vec!\[([0-9, ]*)\]", m.group(3))]
                    vals.append(v)
                    try:
                        defs += k.replay(v)
                    except Exception as e:
                        log("no definition for %s: %r" % (v, e))
        wrong = []
        objs = [d for d in defs if not isinstance(d, tuple)]
        defs = [d for d in defs if isinstance(d, tuple)]
        if objs:
            import contracts
            us = []
            for i, d in enumerate(objs):
                d.id = "r%d" % i
                us.append(runner.unit_of(d, contracts.PROPS[PROP](d), 30.0))
            R2 = Result()
            native_property(R2, us, 3000, lambda us, n: 0, "", path=os.path.join(WORK, "mo"), note="Counterexample of the contract of %s (bitfields_impl/src/%s): %s, values %s" % (
                ", ".join(k.fns), k.file, lab, vals))
            if R2.violations:
                with LOCK:
                    R.violations += R2.violations[:1]
                continue
        if defs:
            p2 = os.path.join(WORK, "mr")
            runner.write_crate(p2, [])
            ds = [("r%d" % i, ok, "use bitfields::*;\n" + src) for i, (src, ok) in enumerate(defs)]
            hits, t = try_definitions(p2, ds)
            left = [d for d in ds if d[0] not in (hits or {})]
            while hits and left:      # later phases of the compiler
                more, t = try_definitions(p2, left)
                if not more:
                    break
                hits.update(more)
                left = [d for d in left if d[0] not in more]
            if hits is not None:
                wrong = [(d, hits.get(d[0])) for d in ds if (d[0] not in hits) != d[1]]
        if wrong:
            (d, es) = wrong[0]
            with LOCK:
                R.violations.append((lab, write_replay(80 + len(R.violations),
                    "property %s\nfailed obligation: %s\ncontract of %s in bitfields_impl/src/%s\ncounterexample values: %s\n\nReplayed with the real macro: this definition must be %s but is %s:\n%s\n%s\n\nContract:\n%s\n" % (
                        PROP, lab, ", ".join(k.fns), k.file, vals, "accepted" if d[1] else "rejected", "rejected" if es else "accepted", d[2], "\n".join(es or []), k.body)), True))
        else:
            c["unconfirmed_failures"].append("%s (values %s)" % (lab, vals[:1]))
            log("macro function contract not met, not confirmed on the macro's output: " + lab)



def finish(R, level):
    kf = known_findings()
    left = []
    for v in R.violations:
        k = [x for x in kf if x[0] in v[0]]
        if k:
            kl = "KNOWN-FINDING: property=%s %s" % (PROP, k[0][1])
            if kl not in R.known:
                R.known.append(kl)
                print(kl)
        else:
            left.append(v)
    R.violations = left
    for k, v in (("obligations", 0), ("discharged", 0), ("checker_cmd", "check.py " + PROP), ("trusted_base", props.TRUSTED)):
        if level == "proof":
            R.cov.setdefault(k, v)
    if R.violations or R.err:
        R.cov.setdefault("explanation", R.err or "stopped at the violation")
    evidence(R, level)
    if os.environ.get("VERIF_KEEP") != "1" and not R.violations:
        shutil.rmtree(WORK, ignore_errors=True)
    if R.violations:
        for (lab, path, conf) in R.violations:
            log("violated: " + lab)
        for (lab, path, conf) in R.violations:
            print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if conf else " no-failing-input-found"), flush=True)
        return 1
    if R.err:
        log("NO ANSWER: " + R.err)
        return 2
    log("%s holds on everything explored" % PROP)
    return 0


def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    if os.path.isdir(REPLAY):
        for f in os.listdir(REPLAY):
            if f.startswith(PROP + "_"):
                os.unlink(os.path.join(REPLAY, f))
    R = Result()
    spec = props.SPECS[PROP]
    mt = threading.Thread(target=guarded(R, macro_functions), args=(R,))
    if PROP in ("C01", "C22", "C23", "C24"):
        mt.start()
    try:
        spec.run(R, sys.modules[__name__])
    except Exception as e:      # an error of the check, never an alarm
        import traceback
        traceback.print_exc()
        R.err = "internal error: %r" % e
    if mt.ident:
        mt.join()
    return finish(R, spec.level)


if __name__ == "__main__":
    sys.exit(main())
