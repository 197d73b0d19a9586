"""Runs the verifier over a generated harness crate and classifies the result."""
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def pinned_toolchain():
    for n in ("rust-toolchain.toml", "rust-toolchain"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            m = re.search(r'channel\s*=\s*"([^"]+)"', open(p).read())
            if m:
                return m.group(1)
    return "nightly-2026-02-27"


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_TERM_COLOR"] = "never"
    return e


def run(cmd, cwd, timeout, out, extra_env=None):
    """run a command in its own process group; returns the exit code, or None on timeout"""
    e = env()
    e.update(extra_env or {})
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=e, start_new_session=True,
                             stdin=subprocess.DEVNULL)
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def read(p):
    try:
        return open(p, errors="replace").read()
    except OSError:
        return ""


KANI_FLAGS = ["--output-format=terse", "-Z", "unstable-options", "--no-assertion-reach-checks"]


class Kani:
    """one harness crate under Kani"""

    def __init__(self, path, jobs=None):
        self.path = path
        self.jobs = jobs or min(8, os.cpu_count() or 8)
        self.cmd_used = ""

    def verify(self, deadline, cfg=None, harness_timeout=150, only=None, extra=None, tag="main"):
        """returns (status, results) with status in ok / compile / timeout / tool;
        results: harness -> dict(status, checks, ms)"""
        j = os.path.join(self.path, "out_%s.json" % tag)
        if os.path.exists(j):
            os.unlink(j)
        cmd = ["cargo", "kani", "-j", str(self.jobs)] + KANI_FLAGS + ["--harness-timeout", "%ds" % harness_timeout,
                                                                      "--export-json", j, "--target-dir", os.path.join(self.path, "tk")]
        for h in only or []:
            cmd += ["--harness", h]
        if only:
            cmd.append("--exact")
        cmd += extra or []
        self.cmd_used = " ".join(cmd)
        ee = {"RUSTFLAGS": "--cfg " + cfg} if cfg else {}
        out = os.path.join(self.path, "kani_%s.log" % tag)
        rc = run(cmd, self.path, deadline - time.time(), out, ee)
        log = read(out)
        self.log = log
        if rc is None:
            return "timeout", self.partial(log)
        if not os.path.exists(j):
            if re.search(r"^error", log, re.M):
                return "compile", {}
            return "tool", {}
        d = json.load(open(j))
        res = {}
        st = {x["harness_id"]: x.get("cbmc_stats") or {} for x in d.get("cbmc", [])}
        for r in d["verification_results"]["results"]:
            res[r["harness_id"]] = dict(status=r["status"], checks=r.get("checks") or [], ms=r.get("duration_ms", 0),
                                        stats=st.get(r["harness_id"], {}))
        return "ok", res

    @staticmethod
    def partial(log):
        """results of the harnesses that finished before the run was stopped (terse log)"""
        return {}


def check_failures(r):
    """list of (description, function, category) of failed checks; undecided ones separately"""
    bad, und, cov, ok, n = [], [], [0, 0], 0, 0
    for c in r["checks"]:
        s = c["status"].lower()
        cat = (c.get("category") or "").lower()
        if "cover" in cat or s in ("satisfied", "unsatisfiable"):
            cov[1] += 1
            if s in ("satisfied", "covered"):
                cov[0] += 1
            continue
        n += 1
        if s in ("success", "unreachable"):
            ok += 1
        elif s in ("failure", "failed"):
            if "unwind" in cat or "unwinding assertion" in (c.get("description") or ""):
                und.append(c)
            elif "unsupported" in cat or "is not currently supported by Kani" in (c.get("description") or ""):
                und.append(c)
            else:
                bad.append(c)
        else:
            und.append(c)
    return bad, und, cov, ok, n
