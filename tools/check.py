#!/usr/bin/env python3
"""One property, one run: extract the functions of /repo, have Verus discharge
every obligation, and search for a failing input on the real code.

usage: check.py PROPERTY [quick|thorough]
exit 0: held on everything explored; exit 1: VIOLATION line on stdout.
"""
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties import PROPS  # noqa: E402

# diagnostics of Verus that mean "this obligation does not hold", as opposed
# to "the text is outside the dialect" or "the solver gave up"
FAILED = [
    "postcondition not satisfied",
    "precondition not satisfied",
    "assertion failed",
    "assertion not satisfied",
    "assertion might not hold",
    "invariant not satisfied",
    "loop invariant not preserved",
    "loop invariant not satisfied",
    "possible arithmetic underflow/overflow",
    "possible division by zero",
    "possible bit shift underflow/overflow",
    "decreases not satisfied",
    "could not prove termination",
    "unable to prove assertion",
    "requires not satisfied",
    "cannot prove",
    "possible index out of bounds",
    "loop ensures not satisfied",
    "failed precondition",
    "precondition of",
    "ensures not satisfied",
]


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        o = (x.stdout or b"").decode("utf8", "replace")
        e = (x.stderr or b"").decode("utf8", "replace")
        return 124, o, e + "\ntimed out"


CARGO = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}


def build_vx():
    env = dict(CARGO, CARGO_TARGET_DIR=os.path.join(BUILD, "vx"))
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(HERE, "tools/vx"), env=env, timeout=600)
    if rc != 0:
        raise RuntimeError("the extractor does not build:\n" + e)
    return os.path.join(BUILD, "vx/release/vx")


def build_replay():
    """the harness is compiled as a module of a copy of /repo/src/bin.rs, with
    /repo's library as a path dependency; nothing in /repo is written"""
    d = os.path.join(BUILD, "replay")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(d, "src")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    # the binary and the modules it declares itself
    for name in os.listdir(os.path.join(REPO, "src")):
        p = os.path.join(REPO, "src", name)
        if os.path.isdir(p):
            if name != "tests":
                shutil.copytree(p, os.path.join(src, name))
        else:
            shutil.copy(p, os.path.join(src, name))
    b = open(os.path.join(src, "bin.rs"), encoding="utf8").read()
    b2, n = re.subn(r"\bfn\s+main\s*\(\s*\)", "fn vx_orig_main()", b, count=1)
    if n != 1:
        raise RuntimeError("src/bin.rs has no fn main()")
    b2 = "#![allow(dead_code, unused_imports, unused_variables)]\n" + b2
    b2 += '\n#[path = "%s"]\nmod vx_replay;\nfn main() { vx_replay::main() }\n' % os.path.join(HERE, "replay/src/mod.rs")
    open(os.path.join(src, "bin.rs"), "w", encoding="utf8").write(b2)
    t = open(os.path.join(HERE, "replay/Cargo.toml.in")).read().replace("@REPO@", REPO).replace("@BIN@", os.path.join(src, "bin.rs"))
    f = os.path.join(d, "Cargo.toml")
    if not os.path.exists(f) or open(f).read() != t:
        open(f, "w").write(t)
    shutil.copy(os.path.join(HERE, "replay/Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = dict(CARGO, CARGO_TARGET_DIR=os.path.join(BUILD, "replay-target"))
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, timeout=800)
    if rc != 0:
        raise RuntimeError("the replay harness does not build against /repo:\n" + e[-6000:])
    return os.path.join(BUILD, "replay-target/debug/replay")


class Unit:
    """one extracted, annotated text and what Verus said about it"""

    def __init__(self, name):
        self.name = name
        self.status = "undecided"  # proved | failed | undecided
        self.why = []
        self.failures = []  # dicts: obligation, function, where, text
        self.meta = {}
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.functions = []
        self.assumed = []
        self.lines = []
        self.raw = ""
        self.obligations = 0


def where_in(meta, line):
    """the extracted function (or framework text) a line of the unit belongs to"""
    best = None
    for f in meta.get("functions", []):
        if f["start"] <= line < f["end"]:
            best = f
    return best


def name_at(lines, line):
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return m.group(1)
    return "?"


def shapes():
    """the loops each function had when its invariants were written (units/shapes.json)"""
    p = os.path.join(HERE, "units/shapes.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def run_unit(vx, spec, tier, only_meta=False):
    """extract UNIT:TAGS and run Verus on it"""
    u = Unit(spec)
    t0 = time.time()
    base, _, tags = spec.partition(":")
    d = os.path.join(BUILD, "units")
    os.makedirs(d, exist_ok=True)
    stem = re.sub(r"\W", "_", spec)
    out, meta = os.path.join(d, stem + ".rs"), os.path.join(d, stem + ".json")
    for p in (out, meta):
        if os.path.exists(p):
            os.remove(p)
    rc, o, e = sh([vx, REPO, os.path.join(HERE, "units", base + ".vspec") + ((":" + tags) if tags else ""), out, meta], timeout=120)
    if rc != 0 or not os.path.exists(meta):
        u.why.append("extraction failed: " + (e or o)[-2000:])
        return u
    u.meta = json.load(open(meta))
    u.lines = open(out, encoding="utf8").read().split("\n")
    for k in ("lost", "errors"):
        for x in u.meta.get(k, []):
            u.why.append("%s: %s" % ("anchor not found" if k == "lost" else "outside the extractor's dialect", x))
    if u.why:
        return u
    u.functions = ["%s (%s)" % (f["path"], f["file"]) for f in u.meta["functions"] if f["verify"]]
    u.assumed = ["%s (%s)" % (f["path"], f["file"]) for f in u.meta["functions"] if not f["verify"]]
    limit = 300 if tier == "quick" else 1500
    rc, o, e = sh(["verus", out, "--output-json", "--time-expanded", "--multiple-errors", "4", "--num-threads", "4", "--error-format=json"], cwd=d, timeout=limit)
    u.wall = time.time() - t0
    u.raw = e
    try:
        j = json.loads(o)
    except Exception:
        u.why.append("verus gave no result (exit %d): %s" % (rc, (o + e)[-1500:]))
        return u
    r = j.get("verification-results", {})
    u.verified, u.errors = r.get("verified", 0), r.get("errors", 0)
    smt = j.get("times-ms", {}).get("smt", {})
    u.smt_ms = smt.get("total", 0)
    fb = [f for m in smt.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
    u.obligations = len(fb)
    rendered = []
    for l in e.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            m = json.loads(l)
        except Exception:
            continue
        if m.get("level") != "error":
            continue
        msg = m.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        rendered.append(m.get("rendered") or msg)
        spans = m.get("spans", [])
        spans = [s for s in spans if s.get("file_name", "").endswith(stem + ".rs")]
        prim = [s for s in spans if s["is_primary"]]
        low = msg.lower()
        is_failed = any(low.startswith(f) or f in low for f in FAILED) and "resource limit" not in low
        if not is_failed:
            u.why.append("verus: " + msg[:600])
            continue
        # the function whose proof failed: that of the call or body end
        fn = None
        rest = [s for s in spans if not s["is_primary"]]
        for s in (prim + rest if "precondition" in low else rest + prim):
            fn = where_in(u.meta, s["line_start"])
            if fn:
                break
        line = (prim or spans or [{"line_start": 0}])[0]["line_start"]
        text = " ".join(x["text"].strip() for s in (prim or spans)[:1] for x in s.get("text", []))
        u.failures.append({
            "obligation": msg,
            "function": fn["path"] if fn else "lemma " + name_at(u.lines, line),
            "file": fn["file"] if fn else None,
            "clause": text,
            "where": "%s:%d" % (out, line),
            "text": m.get("rendered") or msg,
        })
    # invariants are attached loop by loop: where the loops of a function are no
    # longer those they were written for, a failed obligation decides nothing
    base = shapes().get(spec, {})
    moved = {f["path"] for f in u.meta["functions"] if f["verify"] and f.get("shape", "") != base.get(f["path"], "")}
    for f in [f for f in u.failures if f["function"] in moved]:
        u.failures.remove(f)
        u.why.append("%s: its loops are not those the invariants were written for (%s)" % (f["function"], f["obligation"]))
    u.raw = "\n".join(rendered)
    if not r:
        u.why.append("verus gave no verification result")
    if r.get("success") and u.verified > 0 and u.errors == 0 and not u.why and not u.failures:
        u.status = "proved"
    elif u.failures and not r.get("encountered-vir-error"):
        u.status = "failed"
    else:
        u.status = "undecided"
        if not u.why:
            u.why.append("verus did not accept the unit: " + u.raw[-1500:])
    return u


def vacuity(vx, spec):
    """no contract under which the code is verified may be contradictory: at the
    entry of every verified function, at the start of every loop and at every
    tail, `assert(!vx_probe(k))` about a fact nothing is known of must fail"""
    d = os.path.join(BUILD, "units")
    stem = re.sub(r"\W", "_", spec) + "_probe"
    out, meta = os.path.join(d, stem + ".rs"), os.path.join(d, stem + ".json")
    base, _, tags = spec.partition(":")
    rc, o, e = sh([vx, REPO, os.path.join(HERE, "units", base + ".vspec") + ((":" + tags) if tags else ""), out, meta], timeout=120, env={"VX_PROBE": "1"})
    if rc != 0:
        return None
    probes = json.load(open(meta)).get("probed", [])
    rc, o, e = sh(["verus", out, "--multiple-errors", "400", "--num-threads", "8", "--error-format=json"], cwd=d, timeout=900)
    lines = open(out, encoding="utf8").read().split("\n")
    hit, gave_up = set(), False
    for l in e.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            j = json.loads(l)
        except Exception:
            continue
        gave_up = gave_up or "esource limit" in j.get("message", "")
        if j.get("level") == "error" and j.get("message", "").startswith("assertion"):
            for s in j.get("spans", []):
                if s["is_primary"]:
                    for k in re.findall(r"vx_probe\s*\(\s*(\d+)", " ".join(lines[s["line_start"] - 1:s["line_end"]])):
                        hit.add(int(k))
    if not hit:
        return None
    missed = [p["what"] for p in probes if p["k"] not in hit]
    return {"probes": len(probes), "refuted": len(hit), "solver_gave_up_somewhere": gave_up,
            "vacuous": [] if gave_up else [w for w in missed if w.endswith(" entry")],
            "out_of_reach_in_this_run": [w for w in missed if not w.endswith(" entry")]}


def run_replay(exe, prop, seed, cases, secs, extra=()):
    """the harness, as an ordinary user in a scratch directory where it can do no harm"""
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--scratch", scratch] + list(extra)
    pre = None
    env = {"HOME": scratch, "RUST_BACKTRACE": "0", "VX_SCRATCH": scratch}
    try:
        if os.geteuid() == 0 and prop in ("S01", "G01"):
            # an unprivileged user that owns nothing but the scratch directory
            import tempfile
            shutil.rmtree(scratch, ignore_errors=True)
            scratch = tempfile.mkdtemp(prefix="vx-scratch-")
            os.chmod(scratch, 0o755)
            exe2 = os.path.join(scratch, "replay")
            shutil.copy(exe, exe2)
            os.chmod(exe2, 0o755)
            work = os.path.join(scratch, "work")
            os.makedirs(work)
            os.chown(work, 65534, 65534)
            cmd[0] = exe2
            cmd[cmd.index("--scratch") + 1] = work
            env.update(HOME=work, VX_SCRATCH=work)

            def pre():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
                os.chdir(work)
            cwd = work
        else:
            cwd = scratch
        e = dict(os.environ)
        e.update(env)
        try:
            p = subprocess.run(cmd, cwd=cwd if pre is None else "/", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=secs + 150, preexec_fn=pre)
            rc, o, er = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            rc, o, er = 124, (x.stdout or b"").decode("utf8", "replace"), "timed out"
        # what the thread that ended the process was doing
        m = re.search(r"thread '(w\d+)'", er)
        last = os.path.join(scratch, "current-%s" % (m.group(1) if m else "w0"))
        doing = open(last, errors="replace").read() if os.path.exists(last) else None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res = None
    known = []
    for l in o.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                j = json.loads(l)
            except Exception:
                continue
            if "violation" in j:
                res = j
    if res is None:
        # the process itself died: overflowed stack, abort, out of memory
        res = {"property": prop, "seed": seed, "agreed": 0, "violation": rc not in (0, 2, 124), "index": None, "input": doing or "(see output)", "expected": "the process survives",
               "got": "the process ended with status %d: %s" % (rc, er[-800:]), "what": "", "ms": 0, "fixed": 0, "died": True}
    res["stderr"] = er[-1500:]
    return res


def known_findings():
    p = os.path.join(HERE, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    box = {}

    def replay_side():
        try:
            exe = build_replay()
            box["exe"] = exe
            cases = P["cases"] if tier == "quick" else P["cases"] * 40
            secs = P.get("secs", 60) if tier == "quick" else 900
            box["replay"] = run_replay(exe, prop, seed, cases, secs)
        except Exception as x:
            box["replay_error"] = str(x)

    th = threading.Thread(target=replay_side)
    th.start()
    units, vac = [], None
    try:
        vx = build_vx()
        res = [None] * len(P["units"])

        def one(i, s):
            res[i] = run_unit(vx, s, tier)
        ths = [threading.Thread(target=one, args=(i, s)) for i, s in enumerate(P["units"])]
        for x in ths:
            x.start()
        for x in ths:
            x.join()
        units = res
        if tier == "thorough":
            vac = {}
            for s, u in zip(P["units"], units):
                if u.status == "proved":
                    v = vacuity(vx, s)
                    if v is not None:
                        vac[s] = v
    except Exception as x:
        u = Unit("extractor")
        u.why.append(str(x))
        units = [u]
    th.join()
    rep = box.get("replay")
    failures = [f for u in units for f in u.failures]
    undecided = [w for u in units for w in u.why]
    proved = bool(units) and all(u.status == "proved" for u in units)
    if vac:
        for s, v in vac.items():
            if v["vacuous"]:
                proved = False
                undecided.append("contradictory contracts in %s: %s" % (s, v["vacuous"]))

    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, "%s.txt" % prop)
    violation = None
    # known findings: printed, never suppressing anything else
    for k in known_findings():
        if k.get("property") == prop and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # when an obligation failed and the ordinary search was quiet, search deeper
    if failures and rep and not rep["violation"] and "exe" in box and tier == "quick":
        left = max(30, min(180, 840 - int(time.time() - t0) - 200))
        rep2 = run_replay(box["exe"], prop, seed + 7919, P["cases"] * 20, left)
        if rep2["violation"]:
            rep = rep2

    if rep and rep["violation"]:
        L = ["property: %s  %s" % (prop, P["title"]),
             "failing input (on the real code of /repo):",
             "  input:    %s" % rep["input"],
             "  expected: %s" % rep["expected"],
             "  got:      %s" % rep["got"],
             "replay: build/replay-target/debug/replay --prop %s --seed %s --index %s   (after: python3 tools/check.py %s)" % (prop, rep["seed"], rep.get("index"), prop)]
        if failures:
            L.append("obligations that no longer hold:")
            for f in failures[:10]:
                L.append("  %s: %s: %s" % (f["function"], f["obligation"], f["clause"]))
        elif undecided:
            L.append("the proof was not redone: " + "; ".join(undecided)[:1500])
        open(rfile, "w").write("\n".join(L) + "\n")
        violation = "VIOLATION property=%s replay=%s" % (prop, rfile)
        print("\n".join(L))
    elif failures:
        L = ["property: %s  %s" % (prop, P["title"]), "obligations that no longer hold (no failing input found):"]
        for f in failures:
            L += ["", "%s: %s" % (f["function"], f["obligation"]), "  clause: %s" % f["clause"], "  at %s" % f["where"], f["text"]]
        open(rfile, "w").write("\n".join(L) + "\n")
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rfile)
        print("\n".join(L[:40]))
    elif "replay_error" in box and not proved:
        # neither side could look at this tree
        print("UNDECIDED " + box["replay_error"][-1500:])

    ob = sum(u.verified + u.errors for u in units)
    dis = sum(u.verified for u in units)
    cov = {
        "obligations": ob,
        "discharged": dis,
        "checker_cmd": "verus UNIT.rs (Verus 0.2026.09.13, Z3 back end) on build/units/{%s}.rs, extracted from /repo by tools/vx on this run" % ",".join(re.sub(r"\W", "_", u.name) for u in units),
        "trusted_base": P["trusted"] + ["Verus, Z3 and rustc", "tools/vx: the mechanical rewrites listed under rewrites keep the meaning"],
        "functions_under_contract": sorted({f for u in units for f in u.functions}),
        "functions_assumed": sorted({f for u in units for f in u.assumed}),
        "solver": "z3 (via Verus)",
        "solver_ms": sum(u.smt_ms for u in units),
        "smt_queries": sum(u.obligations for u in units),
        "rewrites": sorted({r for u in units for r in (u.meta.get("rewrites") or {})}),
        "inlined": sorted({str(r) for u in units for r in (u.meta.get("inlined") or [])}),
        "units": {u.name: u.status for u in units},
        "undecided": undecided[:20],
        "failed_obligations": [{k: f[k] for k in ("function", "obligation", "clause")} for f in failures][:20],
    }
    if vac is not None:
        cov["vacuity"] = vac
    if rep:
        cov["bounded"] = {"what": rep.get("what"), "evaluations": rep.get("agreed", 0), "enumerated": rep.get("fixed", 0), "seed": rep.get("seed"), "ms": rep.get("ms"),
                          "label": "bounded: a search on the real code, not part of the proof", "stand_in_for": P.get("bounded", [])}
        cov["evaluations"] = rep.get("agreed", 0)
    if "replay_error" in box:
        cov["replay_error"] = box["replay_error"][-800:]
    level = "proof" if proved or failures else "exploration"
    if level == "exploration":
        cov.update(evaluations=cov.get("evaluations", 0), distinct_nontrivial=cov.get("evaluations", 0),
                   rule="each case is one input of the harness; the proof was not redone on this tree", samples=[rep.get("what") if rep else "none"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, sort_keys=True)
    if violation:
        print(violation)
        sys.exit(1)
    print("%s: %s; %d of %d obligations discharged; %s cases agreed; %.1f s" % (
        prop, "proved" if proved else "proof UNDECIDED on this tree (" + "; ".join(undecided)[:400] + ")", dis, ob, rep.get("agreed") if rep else "no", time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
