#!/usr/bin/env python3
"""One check: contracts discharged by Verus on functions extracted from /repo, plus the concrete search.
usage: check.py <property> [quick|thorough]"""
import sys, os, json, re, subprocess, time, hashlib, shutil, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
VX = os.path.join(VERIF, "tools/extract/target/release/vx")
HT = os.path.join(VERIF, "harness/target")

def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/vp/skip-dashboard:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["HOME"] = "/root"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    return e

def run(cmd, timeout, cwd=None, e=None):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er, time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, er = p.communicate()
        return "timeout", o, er, time.time() - t

def build_vx():
    if os.environ.get("VERIF_SKIP_VX") and os.path.exists(VX): return None
    rc, o, e, _ = run(["cargo", "build", "--release", "--offline", "-q"], 600, os.path.join(VERIF, "tools/extract"))
    return None if rc == 0 else "extractor does not build: " + e[-2000:]

# ------------------------------------------------------------------ Verus side
def diags(err):
    for l in err.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error": yield d

def verus(path, extra, timeout):
    rc, o, e, dt = run(["verus", path, "--output-json", "--time", "--error-format=json"] + extra, timeout, os.path.dirname(path))
    try: j = json.loads(o[o.index("{"):]) if "{" in o else {}
    except ValueError: j = {}
    return rc, j, list(diags(e)), e, dt

def trusted(text):
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if "assume_specification" in l:
            m = re.search(r"\[(.*?)\]", l); out.append("assumed specification: " + (m.group(1).strip() if m else l.strip()))
        m = re.search(r"axiom fn (\w+)", l)
        if m: out.append("axiom: " + m.group(1))
        if "external_body" in l:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"\b(?:fn|struct) (\w+)", lines[k])
                if m: out.append("trusted body: " + m.group(1)); break
    return sorted(set(out))

def short(key): return key.split("#", 1)[1]

class Unit:
    def __init__(self, name, wanted):
        self.name = name; self.wanted = wanted
        self.status = {}; self.why = {}; self.failed = []; self.obl = 0; self.dis = 0
        self.smt_ms = 0; self.rewrites = []; self.trusted = []; self.broken = None; self.times = []; self.lemmas_failed = []
        self.vacuous = []; self.lemma_n = 0; self.cmd = ""

    def extract(self, ext, probe=False):
        d = os.path.join(WORK, "v"); os.makedirs(d, exist_ok=True)
        tag = self.name + ("_probe" if probe else "")
        rs, rep = os.path.join(d, tag + ".rs"), os.path.join(d, tag + ".json")
        cmd = [VX, REPO, os.path.join(VERIF, "units", self.name + ".vu"), rs, rep]
        if ext: cmd += ["--external", ",".join(sorted(ext))]
        if probe: cmd += ["--probe"]
        rc, o, e, _ = run(cmd, 60)
        if rc != 0: return None, None, "extraction failed: " + e[-500:]
        return rs, json.load(open(rep)), None

    def locate(self, rep, line):
        for f in rep["functions"]:
            if f["from"] <= line < f["to"]: return f["fn"]
        return None

    def go(self, rlimit, probes):
        ext = set()
        rl = rlimit
        for it in range(12):
            rs, rep, err = self.extract(ext)
            if err: self.broken = err; return
            lost = {x["fn"]: x["why"] for x in rep["lost"]}
            for k, w in lost.items(): self.status[k] = "undecided"; self.why[k] = "anchor lost: " + w
            if rep["items_lost"]:
                pass
            self.cmd = "verus " + os.path.relpath(rs, VERIF)
            rc, j, ds, raw, dt = verus(rs, ["--rlimit", str(rl), "--multiple-errors", "2"], 600)
            self.times.append(dt)
            if rc == "timeout": self.broken = "verifier timed out"; return
            vr = j.get("verification-results", {})
            bd = [f for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
            if not bd and (vr.get("encountered-error", True)):
                # not a proof failure: the extracted text is outside the verifier's language
                hit = set()
                for d in ds:
                    for s in d["spans"]:
                        k = self.locate(rep, s["line_start"])
                        if k and (s["is_primary"] or not any(self.locate(rep, q["line_start"]) for q in d["spans"] if q["is_primary"])) and k not in ext and k not in lost: hit.add((k, d["message"]))
                if not hit:
                    self.broken = "unit does not compile: " + "; ".join(d["message"][:200] for d in ds[:3]) + raw[-300:] * (not ds); return
                for k, m in hit:
                    ext.add(k); self.status[k] = "undecided"; self.why[k] = "outside the verifier's language: " + m[:300]
                continue
            failing_names = {f["function"].split("::", 1)[1] for f in bd if not f["success"]}
            rl_hit = set(); fails = {}; lem = []
            for d in ds:
                if d["message"].startswith("aborting due"): continue
                ks = [self.locate(rep, s["line_start"]) for s in d["spans"]]
                prim = [self.locate(rep, s["line_start"]) for s in d["spans"] if s["is_primary"]]
                cand = [k for k in ks if k and any(n.split("::")[-1] == short(k).split("::")[-1].split(" for ")[-1] for n in failing_names)] or [k for k in prim if k] or [k for k in ks if k]
                # an obligation failing at a call is the caller's: prefer primary span
                pc = [k for k in prim if k in cand]
                if pc: cand = pc
                if "Resource limit" in d["message"] or "rlimit" in d["message"]:
                    for k in cand[:1]: rl_hit.add(k)
                    if not cand: rl_hit.add("lemma")
                    continue
                if cand: fails.setdefault(cand[0], []).append(d["rendered"])
                else: lem.append(d["rendered"])
            if rl_hit and rl < rlimit * 4 and not fails:
                rl = rl * 4; continue
            for k in rl_hit: self.status[k] = "undecided"; self.why[k] = "solver resource limit"
            for f in rep["functions"]:
                k = f["fn"]
                if k in self.status and self.status[k] == "undecided": continue
                if f["external"]: self.status[k] = "undecided"; continue
                self.status[k] = "failed" if k in fails else "proved"
            for k, r in fails.items(): self.failed.append((k, r))
            # helpers and lemmas written in the unit itself
            lines = open(rs).read()
            names = set()
            for f in bd:
                n = f["function"].split("::", 1)[1]
                if f["mode:"] == "proof" :
                    self.lemma_n += 1
                    if not f["success"]: self.lemmas_failed.append((n, "\n".join(lem)))
                elif f["mode:"] == "exec" and not f["success"] and not any(n.split("::")[-1] == short(k).split("::")[-1] for k in list(fails) + list(rl_hit)):
                    self.lemmas_failed.append((n, "\n".join(lem)))
                self.smt_ms += f.get("time-micros", 0) / 1000.0
            self.rewrites = rep["rewrites"]; self.trusted = trusted(lines)
            if re.search(r"\b(assume|admit)\s*\(", re.sub(r"//.*", "", lines)): self.broken = "unit contains assume/admit"
            self.bd = bd
            break
        else:
            self.broken = "no stable extraction"; return
        if probes:
            rs, rep, err = self.extract(ext, probe=True)
            if err: return
            # the lemmas were checked in the run above
            tx = re.sub(r"(?m)^pub proof fn", "#[verifier::external_body] pub proof fn", open(rs).read())
            open(rs, "w").write(tx)
            rc, j, ds, raw, dt = verus(rs, ["--rlimit", "3", "--multiple-errors", "0"], 600)
            self.times.append(dt)
            bd2 = [] if rc == "timeout" else [f for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
            if not bd2: self.broken = "the vacuity probes did not run: " + "; ".join(d["message"][:200] for d in ds[:2]); return
            hit = set()
            probes_at = {}
            for i, l in enumerate(open(rs).read().splitlines(), 1):
                if "proof { assert(false); }" in l: probes_at[i] = self.locate(rep, i)
            for d in ds:
                for s in d["spans"]:
                    if s["line_start"] in probes_at: hit.add(probes_at[s["line_start"]])
                    elif "Resource limit" in d["message"]: hit.add(self.locate(rep, s["line_start"]))
            self.vacuous = [k for k in probes_at.values() if k not in hit and self.status.get(k) == "proved"]
            self.probes = len(probes_at)

# ------------------------------------------------------------------ concrete side
def tree_hash():
    h = hashlib.sha256()
    fs = []
    for base in ("src",):
        for d, _, f in os.walk(os.path.join(REPO, base)):
            fs += [os.path.join(d, x) for x in f]
    fs += [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for f in sorted(fs):
        if os.path.exists(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build_bin(b):
    os.makedirs(os.path.join(REPO, "dashboard/dist"), exist_ok=True)
    os.makedirs(HT, exist_ok=True)
    stamp = os.path.join(HT, "nexo.sha")
    h = tree_hash()
    hd = os.path.join(VERIF, "harness")
    if not os.path.exists(stamp) or open(stamp).read() != h:
        run(["cargo", "clean", "--offline", "-p", "nexo"], 120, hd)
    rc, o, e, dt = run(["cargo", "build", "--offline", "--bin", b], 800, hd)
    if rc == 0:
        open(stamp, "w").write(h)
        return None, dt
    return e[-3000:], dt

def harness(prop, b, tier, seed):
    """-> dict(result) ; result['failures'] list of {key, what, replay}"""
    err, bt = build_bin(b)
    if err: return {"error": "concrete search does not build: " + err, "failures": []}
    out = os.path.join(WORK, "h", prop); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    scratch = os.path.join(WORK, "scratch", prop); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    e = env(); e["TMPDIR"] = scratch
    lim = 200 if tier == "quick" else 780
    cmd = [os.path.join(HT, "debug", b), prop, tier, str(seed), out]
    rc, o, er, dt = run(cmd, lim, scratch, e)
    res = {"failures": [], "evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    rp = os.path.join(out, "result.json")
    if rc in (0, 1) and os.path.exists(rp):
        res = json.load(open(rp))
    else:
        # crash or hang: run once more, the case being executed is the failing input
        cur = os.path.join(out, "current.json")
        first = open(cur).read() if os.path.exists(cur) else None
        rc2, o2, er2, _ = run(cmd, lim, scratch, e)
        if rc2 in (0, 1) and os.path.exists(rp):
            res = json.load(open(rp)); res["note"] = f"first run ended with {rc}"
        else:
            p = os.path.join(WORK, "replays", f"{prop}-crash.json"); os.makedirs(os.path.dirname(p), exist_ok=True)
            json.dump({"property": prop, "ended": str(rc2), "case": open(cur).read() if os.path.exists(cur) else None, "stderr": er2[-4000:]}, open(p, "w"), indent=1)
            if rc2 == "timeout" : res["error"] = "concrete search ran out of time"; 
            res["failures"].append({"key": "crash-or-hang", "what": f"the server code {'did not answer' if rc2=='timeout' else 'ended the process'} ({rc2})", "replay": p})
    res["run_s"] = dt; res["build_s"] = bt
    shutil.rmtree(scratch, ignore_errors=True)
    return res

# ------------------------------------------------------------------ one property
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = json.load(open(os.path.join(VERIF, "known-findings.json")))["entries"]
    rlimit = 20 if tier == "quick" else 60
    notes, fails, undecided, proved, lemn = [], [], [], [], 0
    units = []
    vxerr = build_vx()
    if vxerr: notes.append(vxerr)
    for un, sel in cfg.get("units", {}).items():
        if vxerr: break
        u = Unit(un, sel); u.go(rlimit, True); units.append(u)
        if u.broken:
            notes.append(f"unit {un} undecided: {u.broken}"); undecided += [f"{un}: {s}" for s in sel]; continue
        for want in sel:
            ks = [k for k in u.status if short(k) == want or k == want]
            if not ks: undecided.append(want); notes.append(f"{want}: not found in /repo"); continue
            for k in ks:
                st = u.status[k]
                if k in u.vacuous: st = "undecided"; u.why[k] = "contract can not be reached (probe proved)"
                if st == "proved": proved.append(k)
                elif st == "failed": fails.append((k, "\n".join(dict(u.failed)[k])))
                else: undecided.append(k); notes.append(f"{k}: {u.why.get(k, 'undecided')}")
        for n, r in u.lemmas_failed: fails.append((f"{un}: {n}", r))
        lemn += u.lemma_n
    h = None
    if cfg.get("bin"):
        h = harness(prop, cfg["bin"], tier, seed)
        if h.get("error"): notes.append(h["error"])
        if h.get("note"): notes.append("concrete search: " + h["note"])
    violations, seen_known = [], []
    for f in (h or {}).get("failures", []):
        hit = [k for k in known if k["property"] == prop and k.get("status") == "finding" and re.fullmatch(k["key"], f["key"])]
        if hit: seen_known.append(hit[0])
        else: violations.append(f)
    out = []
    for k in {k["key"]: k for k in seen_known}.values():
        out.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    if violations:
        f = violations[0]
        out.append(f"VIOLATION property={prop} replay={f['replay']}"); rc = 1
        for k, r in fails: notes.append(f"failed obligation: {k}")
        notes.append("failing input: " + f["what"])
    elif fails:
        p = os.path.join(WORK, "replays", f"{prop}-obligation.json")
        json.dump({"property": prop, "failed_obligations": [{"function": k, "verifier": r} for k, r in fails], "replay": "none: the concrete search found no failing input", "verifier_cmd": [u.cmd for u in units]}, open(p, "w"), indent=1)
        out.append(f"VIOLATION property={prop} replay={p} no-failing-input-found"); rc = 1
        for k, r in fails: notes.append(f"failed obligation: {k}\n{r[:1500]}")
    obl = len(proved) + len(fails) + len(undecided) + lemn
    dis = len(proved) + lemn - len([1 for u in units for _ in u.lemmas_failed])
    full = units and not undecided and not fails
    level = cfg.get("level", "proof")
    if level == "proof" and not full: level_now = "exploration" if h and not h.get("error") else "other"
    else: level_now = level
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "; ".join(u.cmd for u in units) + " (Verus 0.2026.09.13, back end Z3; files regenerated from /repo/src by tools/extract on this run)",
        "trusted_base": sorted({t for u in units for t in u.trusted}),
        "functions_under_contract": proved, "functions_undecided_this_run": undecided,
        "lemmas_and_helpers": lemn, "vacuity_probes": sum(getattr(u, "probes", 0) for u in units),
        "solver_ms": round(sum(u.smt_ms for u in units), 1), "verifier_s": [round(x, 2) for u in units for x in u.times],
        "rewrites": sorted({r for u in units for r in u.rewrites}),
        "unverified_surroundings": cfg.get("bounded", []),
        "explanation": cfg.get("note", "contracts discharged by Verus on functions extracted from /repo"),
    }
    if h is not None:
        cov.update({"evaluations": h.get("evaluations", 0), "distinct_nontrivial": h.get("distinct_nontrivial", 0), "rule": h.get("rule", "seeded cases; distinct by digest of the case, non-trivial if it exercised the guarded behaviour"), "samples": h.get("samples", []), "concrete_search": {"label": "bounded", "run_s": round(h.get("run_s", 0), 2), "build_s": round(h.get("build_s", 0), 2), "groups": h.get("groups", {})}})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level_now, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["machine arithmetic is checked, not idealised: overflow is an obligation"], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0, "notes": notes}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for n in notes: print("note:", n[:3000])
    print(f"{prop}: {dis}/{obl} obligations discharged, {len(undecided)} undecided, concrete cases {(h or {}).get('evaluations', 0)}, {time.time()-t0:.1f}s")
    for l in out: print(l)
    sys.exit(rc)

if __name__ == "__main__":
    main()
