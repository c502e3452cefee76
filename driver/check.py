import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import config
import literals

REPO = "/repo"
ENV = dict(os.environ)
ENV.update({
    "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0", "NO_COLOR": "1", "TERM": "dumb", "RUSTC_WRAPPER": "",
    "PATH": "/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
})
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
BUILD = os.path.join(VERIF, ".build")
# The loops and closures of each function that its annotations are written for (tools/mkshapes.py).
SHAPES = json.load(open(os.path.join(VERIF, "specs", "shapes.json")))


def sh(cmd, cwd=None, env=None, timeout=None):
    """(exit code or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- building

def build_extractor():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "extract"))
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "extract"), env=env, timeout=400)
    exe = os.path.join(BUILD, "extract", "debug", "extract")
    return (exe, "") if rc == 0 else (None, e[-4000:])


def build_harness(clients):
    t = os.path.join(BUILD, "harness" if clients else "harness_nc")
    env = dict(ENV, CARGO_TARGET_DIR=t)
    cmd = ["cargo", "build", "--offline", "-q"] + ([] if clients else ["--no-default-features"])
    rc, o, e = sh(cmd, cwd=os.path.join(VERIF, "harness"), env=env, timeout=400)
    exe = os.path.join(t, "debug", "vharness")
    return (exe, "") if rc == 0 else (None, e[-6000:])


def expand_clients(work):
    """What the derive macros of the current tree make of the types in clients/: the text that the compiler sees."""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "clients"), RUSTC_BOOTSTRAP="1")
    rc, o, e = sh(["cargo", "rustc", "--offline", "-q", "--lib", "--", "-Zunpretty=expanded"], cwd=os.path.join(VERIF, "clients"), env=env, timeout=400)
    if rc != 0 or not o.strip():
        return None, e[-3000:]
    p = os.path.join(work, "clients_expanded.rs")
    open(p, "w").write(o)
    return p, ""


# ---------------------------------------------------------------- Verus

class Failure:
    def __init__(self, kind, message, fn, labels, clause, where):
        self.kind, self.message, self.fn, self.labels, self.clause, self.where = kind, message, fn, labels, clause, where

    def text(self):
        l = "[" + ",".join(self.labels) + "] " if self.labels else ""
        return f"{self.fn or '?'}: {self.message}: {l}{self.clause} ({self.where})"


LABEL = re.compile(r"/\*@\[([A-Z0-9,]+)\]\*/")


class GenFile:
    """A generated file: which function a line belongs to, and the label that governs a line."""

    def __init__(self, path):
        self.lines = open(path, errors="replace").read().split("\n")
        self.fn = [None] * len(self.lines)
        cur = None
        for i, l in enumerate(self.lines):
            m = re.search(r"/\*@fn ([^*]+)\*/", l)
            if m:
                cur = m.group(1)
            self.fn[i] = cur
            if "/*@end*/" in l and not (m and l.index("/*@end*/") < m.start()):
                cur = None

    def fn_at(self, line):
        return self.fn[line - 1] if 0 < line <= len(self.lines) else None

    def labels_at(self, line, col):
        """The label of the clause that starts at `line`, `col` (from 1): it stands right before it."""
        before = self.lines[line - 1][: col - 1] if 0 < line <= len(self.lines) else ""
        m = list(LABEL.finditer(before))
        return m[-1].group(1).split(",") if m and not before[m[-1].end():].strip() else []

    def fn_labels(self, key):
        s = set()
        for l, f in zip(self.lines, self.fn):
            if f == key:
                for m in LABEL.finditer(l):
                    s.update(m.group(1).split(","))
        return sorted(s)


# verified whenever any part is
PRELUDE_MODULES = ["prelude", "ulog", "roundtrip", "xstd::io", "xstd::byteorder", "xstd::collections", "xstd::fmt"]


def canaries(exe, modules, only, work):
    """Assertions that nothing can prove, at the start and before the end of every block of the
    annotated functions: one that the verifier discharges shows contradictory assumptions, or dead code."""
    gen = os.path.join(work, "canary")
    within, failed, which = None, set(), "1"
    # Where the solver gives up before it has enumerated all of a function's, those left are tried alone.
    for _ in range(4):
        rc, o, e = sh([exe, os.path.join(REPO, "core/src"), os.path.join(VERIF, "specs"), gen] + modules, env=dict(ENV, EXTRACT_CANARY=which), timeout=120)
        if rc != 0:
            return {"error": e[-500:]}
        names = open(os.path.join(gen, "canaries.txt")).read().split("\n")
        if within is None:
            within = {i for i in range(len(names)) if not only or any(names[i].startswith(m + "::") for m in only)}
        cmd = ["verus", "--crate-type=bin", "main.rs", "--num-threads", "6", "--multiple-errors", "400", "--triggers-mode", "silent", "--rlimit", "60"]
        for m in (list(only) + PRELUDE_MODULES) if only else []:
            cmd += ["--verify-module", m]
        rc, o, e = sh(cmd, cwd=gen, timeout=900)
        if rc is None:
            return {"error": "no answer in time"}
        new = {int(x) for x in re.findall(r"canary::c\((\d+)int\)", o + e)} - failed
        failed |= new
        left = within - failed
        gave_up = "Resource limit" in o + e
        if not left or not gave_up or not new:
            break
        which = ",".join(map(str, sorted(left))) + ","
    d = {"inserted": len(within), "not_provable": len(within & failed),
         "meaning": "a provable canary is dead code (constant conditions of the expanded macros) or stands under contradictory assumptions"}
    d["undecided" if gave_up else "provable"] = sorted(names[i] for i in within - failed)
    return d


def run_verus(exe, modules, only, work, extra=(), timeout=420):
    """Extract and verify. Functions that the verifier cannot read are left out one by one."""
    out = {"failures": [], "undecided": [], "ok": False, "verified": 0, "errors": 0, "report": {}, "seconds": 0.0, "solver_ms": 0, "external": [],
           "functions": [], "raw": "", "aborted": None, "cmd": ""}
    t0 = time.time()
    external = []
    for attempt in range(5):
        gen = os.path.join(work, f"gen{attempt}")
        shutil.rmtree(gen, ignore_errors=True)
        env = dict(ENV, EXTRACT_EXTERNAL=",".join(external))
        rc, o, e = sh([exe, os.path.join(REPO, "core/src"), os.path.join(VERIF, "specs"), gen] + modules, env=env, timeout=120)
        if rc != 0:
            out["aborted"] = "extraction failed: " + e[-1500:]
            return out
        out["report"] = json.load(open(os.path.join(gen, "report.json")))
        cmd = ["verus", "--crate-type=bin", "main.rs", "--output-json", "--time-expanded", "--num-threads", "6", "--rlimit", "30", "--multiple-errors", "6", "--error-format=json"]
        for m in (list(only) + PRELUDE_MODULES) if only else []:
            cmd += ["--verify-module", m]
        cmd += list(extra)
        out["cmd"] = " ".join(cmd)
        rc, o, e = sh(cmd, cwd=gen, timeout=timeout)
        out["seconds"] = time.time() - t0
        if rc is None:
            out["aborted"] = "the verifier did not answer in time"
            return out
        diags = []
        for l in e.splitlines():
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
        files = {}

        def gf(n):
            if n not in files:
                p = os.path.join(gen, n)
                files[n] = GenFile(p) if os.path.exists(p) else None
            return files[n]

        out["raw"] = "\n".join(d.get("rendered", d.get("message", "")) for d in diags if d.get("level") == "error")[:20000]
        try:
            res = json.loads(o)
            vr = res["verification-results"]
        except (ValueError, KeyError):
            res, vr = {}, {"encountered-error": True, "success": False}
        bad = vr.get("encountered-vir-error") or (vr.get("encountered-error")) or (rc != 0 and not vr.get("errors"))
        if rc == 0 and vr.get("verified") and not vr.get("errors") and not vr.get("encountered-error"):
            out["ok"] = True
        if bad and not vr.get("verified"):
            # Not Rust that the verifier reads: leave out the function and assume its contract, if that is where the trouble is.
            more = []
            for d in diags:
                if d.get("level") != "error":
                    continue
                for s in d.get("spans", []):
                    f = gf(s["file_name"])
                    k = f.fn_at(s["line_start"]) if f else None
                    if k and k not in external and k not in more and out["report"]["functions"].get(k, {}).get("contract"):
                        more.append(k)
            if not more:
                out["aborted"] = "the verifier cannot read the code: " + out["raw"][:1500]
                return out
            external += more
            out["external"] = list(external)
            continue
        break
    else:
        out["aborted"] = "the verifier cannot read the code: " + out["raw"][:1500]
        return out
    out["verified"], out["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    smt = res.get("times-ms", {}).get("smt", {})
    out["solver_ms"] = smt.get("total", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m["function-breakdown"]:
            out["functions"].append((f["function"], f.get("mode:", ""), f["time"], f["success"]))
    clauses = {}
    gen_text = ""
    for n in sorted(os.listdir(gen)):
        if n.endswith(".rs"):
            t = open(os.path.join(gen, n), errors="replace").read()
            gen_text += t
            for m in LABEL.finditer(t):
                for p in m.group(1).split(","):
                    clauses[p] = clauses.get(p, 0) + 1
    out["clauses"] = clauses
    out["trusted"] = trusted(gen_text)
    out["external_labels"] = {}
    for k in external:
        r = out["report"]["functions"].get(k, {})
        g = gf(r.get("module", "") + ".rs")
        out["external_labels"][k] = sorted(set(r.get("tags", [])) | set(g.fn_labels(k) if g else []) | {"C03"})
    unc = set(out["report"].get("uncontracted", []))
    unc_names = {u.split("::")[-1] for u in unc}
    lost = out["report"].get("lost_anchors", [])
    for d in diags:
        if d.get("level") != "error" or not d.get("spans"):
            continue
        spans = d["spans"]
        msg = d["message"]
        fn = labels = None
        clause, where = "", ""
        body = [s for s in spans if (gf(s["file_name"]) and gf(s["file_name"]).fn_at(s["line_start"]))]
        at = None
        if "postcondition" in msg:
            for s in spans:
                if s.get("label") and "failed this postcondition" in s["label"]:
                    at = s
            others = [s for s in body if s is not at]
            fnspan = others[0] if others else (body[0] if body else None)
        elif "precondition" in msg:
            fnspan = next((s for s in body if s.get("is_primary")), None) or (body[0] if body else None)
            for s in spans:
                if s.get("label") and "failed precondition" in s["label"]:
                    at = s
        else:
            fnspan = next((s for s in body if s.get("is_primary")), None) or (body[0] if body else None)
            at = fnspan
        if fnspan:
            fn = gf(fnspan["file_name"]).fn_at(fnspan["line_start"])
        if at:
            g = gf(at["file_name"])
            if g:
                clause = " ".join(x["text"].strip() for x in at.get("text", []))[:300]
                where = f"{at['file_name']}:{at['line_start']}"
                if "post-condition of closure" in msg:
                    m = LABEL.search(" ".join(g.lines[at["line_start"] - 1: at["line_end"]]))
                    labels = m.group(1).split(",") if m else None
                elif "postcondition" in msg:
                    labels = g.labels_at(at["line_start"], at["column_start"])
        kind = "closure" if "post-condition of closure" in msg else "post" if "postcondition" in msg else "pre" if "precondition" in msg else \
            "arith" if ("overflow" in msg or "underflow" in msg or "division" in msg or "bit shift" in msg) else \
            "rlimit" if ("rlimit" in msg.lower() or "resource limit" in msg.lower()) else \
            "invariant" if "invariant" in msg else "termination" if ("decreases" in msg or "termination" in msg) else \
            "assert" if "assert" in msg else "other"
        if not fn and kind not in ("post",):
            # a lemma
            fn = None
        labels = labels or []
        possible = list(labels)
        if not labels and fn:
            # No clause of the property itself: its owner is the one property of the function, or that nothing panics.
            r = out["report"]["functions"].get(fn, {})
            own = set(r.get("tags", [])) or set(gf(fnspan["file_name"]).fn_labels(fn)) - {"C03"}
            possible = sorted(own | {"C03"})
            if kind in ("pre", "arith", "termination"):
                labels = ["C03"] + (sorted(own) if len(own) == 1 else [])
            elif len(own) == 1 or r.get("tags"):
                labels = sorted(own)
        f = Failure(kind, msg, fn, labels, clause or (d.get("rendered", "")[:300]), where)
        f.possible = possible
        r = out["report"]["functions"].get(fn or "", {})
        called = {c.split("::")[-1] for c in r.get("calls", [])}
        why = None
        if kind in ("rlimit", "other"):
            why = "no answer from the solver"
        elif kind == "assert":
            why = "a proof step, not a contract"
        elif fn is None:
            why = "a lemma over the changed definitions"
        elif any(x.startswith(f"fn {fn}:") or f" {fn} " in x or x.endswith(fn) for x in lost):
            why = "the code that the proof refers to changed its shape"
        elif called & unc_names:
            why = "it calls functions without a contract: " + ", ".join(sorted(called & unc_names))
        elif fn in unc:
            why = "a function without a contract"
        elif r.get("shape") != SHAPES.get(fn):
            why = "its loops and closures are not those that the proof annotates"
        if why:
            out["undecided"].append((f, why))
        else:
            out["failures"].append(f)
    return out


def identified():
    """Items of std and byteorder for which the extraction puts a function or type of the prelude."""
    t = ["Iterator adapters (any all skip rev find map enumerate cloned collect): XIter", "Vec::with_capacity, vec![x; n]: x_with_capacity, x_vec_elem", "slice comparison: x_slice_eq", "derive(Clone), derive(PartialEq): spelled out field by field"]
    for p in sorted(os.listdir(os.path.join(VERIF, "specs"))):
        if p.endswith(".spec"):
            for m in re.finditer(r"(?m)^@@ (rename|path|callpath) (\S+) (\S+)", open(os.path.join(VERIF, "specs", p)).read()):
                if m.group(3) != "-":
                    t.append(f"{m.group(2)}: {m.group(3)}")
    return sorted(set(t))


def trusted(text):
    t = []
    for m in re.finditer(r"#\[verifier::(external_body|external_fn_specification|external_type_specification|external)\][^{;]*?\b(fn|struct|enum|trait)\s+(\w+)", text):
        t.append(f"{m.group(1)} {m.group(2)} {m.group(3)}")
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*)\]", text):
        t.append("assume_specification " + re.sub(r"\s+", " ", m.group(1).strip()))
    for m in re.finditer(r"\b(axiom fn|uninterp spec fn)\s+(\w+)", text):
        t.append(f"{m.group(1)} {m.group(2)}")
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        t.append(f"{m.group(1)}() in the generated text")
    return sorted(set(t))


# ---------------------------------------------------------------- execution of the real code

def run_harness(exe, prop, seed, secs, threads, work, tag="h"):
    """Result of an exploration: a dict with 'violation', 'crash' or 'hang' set if something is wrong."""
    out = os.path.join(work, f"{tag}.json")
    new = os.path.join(work, f"{tag}.literals")
    with open(new, "w") as f:
        f.write(literals.new_literals(REPO))
    rc, o, e = sh([exe, "run", prop, str(seed), "100000000", str(secs), str(threads), out], env=dict(ENV, VERIF_LITERALS=new), timeout=secs + 400)
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = {"evaluations": 0, "nontrivial": 0, "distinct": 0, "systematic": 0, "samples": [], "violation": None}
    r["rc"] = rc
    r["crash"] = None
    if rc in (0, 1):
        return r
    if rc is None or rc == 3:
        r["crash"] = {"what": "a step does not end within 30 s", "case": r.get("hang"), "seed": seed}
        return r
    # The process died: find the case.
    try:
        doing = open(out + ".doing").read()
    except OSError:
        doing = ""
    if doing.startswith("probe"):
        r["crash"] = {"what": f"the process dies (status {rc}) decoding formats that are nested 257 levels deep", "case": "probe", "seed": seed}
        return r
    for c in [x for x in doing.split() if x.isdigit()]:
        rc2, o2, e2 = sh([exe, "one", prop, str(seed), c], timeout=60)
        if rc2 not in (0, 1):
            r["crash"] = {"what": f"the process dies (status {rc2})", "case": int(c), "seed": seed, "stderr": e2[-800:]}
            return r
    r["crash"] = {"what": f"the process dies (status {rc})", "case": None, "seed": seed, "stderr": e[-800:]}
    return r


# ---------------------------------------------------------------- one check

def write_replay(prop, d):
    p = os.path.join(VERIF, "evidence", "replay", f"{prop}.json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    d["property"] = prop
    d["rerun"] = f"/verif/check --replay {p}"
    json.dump(d, open(p, "w"), indent=1)
    return p


def known_findings(prop):
    l = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for x in open(p):
            m = re.match(r"finding: property=(\w+) match=(\S+) (.*)", x.strip())
            if m and m.group(1) == prop:
                l.append((m.group(2), m.group(3)))
    return l


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"chk_{prop}_", dir=BUILD)
    spec = config.VERUS[prop]
    secs = config.THOROUGH_S if tier == "thorough" else config.QUICK_S
    try:
        with ThreadPoolExecutor(4) as ex:
            fv = ex.submit(verus_part, prop, spec, work, tier) if spec else None
            fh = ex.submit(harness_part, prop, seed, secs, work)
            v = fv.result() if fv else None
            h, hexe, herr = fh.result()
        rc = decide(prop, tier, seed, v, h, hexe, herr, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def verus_part(prop, spec, work, tier):
    exe, err = build_extractor()
    if not exe:
        return {"aborted": "the extractor does not build: " + err, "failures": [], "undecided": [], "ok": False, "verified": 0, "errors": 0, "report": {}, "external": [], "functions": [], "trusted": [], "clauses": {}, "solver_ms": 0, "seconds": 0, "cmd": "", "raw": err}
    mods = list(spec[0])
    if "clients" in mods:
        p, err = expand_clients(work)
        if not p:
            return {"aborted": "the expansion of the derive macros fails: " + err, "failures": [], "undecided": [], "ok": False, "verified": 0, "errors": 0, "report": {}, "external": [], "functions": [], "trusted": [], "clauses": {}, "solver_ms": 0, "seconds": 0, "cmd": "", "raw": err}
        mods[mods.index("clients")] = "clients=" + p
    v = run_verus(exe, mods, spec[1], work)
    if tier == "thorough" and v["ok"]:
        v["canaries"] = canaries(exe, mods, spec[1], work)
    v.setdefault("trusted", [])
    v.setdefault("clauses", {})
    return v


def harness_part(prop, seed, secs, work):
    exe, err = build_harness(True)
    if not exe:
        exe, err2 = build_harness(False)
        if not exe or prop in ("C13", "C14"):
            return None, None, err
    return run_harness(exe, prop, seed, secs, 3, work), exe, err


def concrete_violation(prop, h):
    """(description, replay data) of a concrete failure that concerns `prop`."""
    if not h:
        return None
    if h.get("violation"):
        return h["violation"]["what"], {"kind": "input", **h["violation"]}
    c = h.get("crash")
    if c:
        if prop == "C03" or prop in ("C13",) or (prop in ("C06", "C16", "C20", "C21", "C14")) or (c["case"] == "probe" and prop == "C04"):
            return c["what"], {"kind": "crash", **c}
    return None


def decide(prop, tier, seed, v, h, hexe, herr, work, t0):
    viol = None
    notes = []
    mine = []
    undec = []
    if v:
        mine = [f for f in v["failures"] if prop in f.labels]
        for f in v["failures"]:
            if prop not in f.labels and prop in f.possible:
                v["undecided"].append((f, "it is not clear which property the obligation belongs to"))
        for f, why in v["undecided"]:
            if not f.fn or prop in f.possible:
                undec.append((f.text(), why))
            else:
                notes.append(f"undecided by the verifier, about other properties ({why}): {f.text()[:300]}")
        other = [f for f in v["failures"] if prop not in f.possible]
        for f in other:
            # The proof of this property may rest on that contract.
            undec.append((f.text(), "an obligation of other properties fails"))
        if v["aborted"]:
            undec.append((v["aborted"][:600], "not verified"))
        for k in v.get("external", []):
            # Whatever the function does, callers may rely on any of its clauses: undecided for every property.
            undec.append((k, "the verifier cannot read its body: its contract is assumed for its callers"))
    if h is None and herr:
        # The real code does not build with its clients.
        if prop in ("C13", "C14"):
            rc, o, e = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "harness")), timeout=400)
            if rc != 0 and re.search(r"src/clients\.rs", e):
                viol = ("clients written with the derive macros no longer compile", {"kind": "compile", "output": e[-6000:]}, False)
            else:
                notes.append("the execution layer does not build: " + herr[-800:])
        else:
            notes.append("the execution layer does not build: " + herr[-800:])
    c = concrete_violation(prop, h)
    if c and not viol:
        viol = (c[0], c[1], False)
    extra = None
    if not viol and (mine or undec) and hexe:
        extra = run_harness(hexe, prop, seed + 7919, config.SEARCH_S if tier == "quick" else config.THOROUGH_S, 8, work, "s")
        c = concrete_violation(prop, extra)
        if c:
            viol = (c[0], c[1], False)
    if mine:
        text = "\n".join(f.text() for f in mine)
        if viol:
            viol[1]["failed_obligations"] = [f.text() for f in mine]
        else:
            viol = ("failed obligation: " + mine[0].text(), {"kind": "obligation", "failed_obligations": [f.text() for f in mine], "verifier_output": v["raw"], "command": v["cmd"]}, True)
    evidence(prop, tier, seed, v, h, extra, notes, undec, viol, t0)
    for n in notes:
        print("note:", n[:500])
    for a, b in undec:
        print(f"undecided by the verifier ({b}): {a[:300]}")
    if viol:
        p = write_replay(prop, dict(viol[1], what=viol[0]))
        print(viol[0][:1500])
        print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if viol[2] else ""))
        return 1
    n = (h or {}).get("evaluations", 0)
    if v:
        print(f"{prop}: {v['verified']} verified, {v['errors']} errors; {n} executions of the real code agree")
    else:
        print(f"{prop}: {n} executions of the real code agree")
    return 0


RULE = ("every case is a log, message or value made from the seed: valid structure with malformed parts, cut, mutated or enumerated at boundaries; "
        "the real code's result is compared with an independent executable statement of the property; a case is non-trivial when it contains what the property is about")


def evidence(prop, tier, seed, v, h, extra, notes, undec, viol, t0):
    hs = [x for x in (h, extra) if x]
    ev = sum(x["evaluations"] for x in hs)
    di = sum(x["distinct"] for x in hs)
    samples = [s for x in hs for s in x["samples"]][:4]
    cov = {
        "evaluations": ev, "distinct_nontrivial": di, "rule": RULE, "samples": samples,
        "bounded_part": config.BOUNDED.get(prop, []),
        "bounded_layer_note": "the executions are a bounded check beside the proof and are not counted as proved",
    }
    assumptions = list(BASE_ASSUMPTIONS) if v else ["the executions are bounded: nothing is proved"]
    level = "exploration"
    if v:
        level = "proof" if v["ok"] and not v["external"] else "exploration"
        fns = v["report"].get("functions", {})
        contracted = sorted(k for k, x in fns.items() if x["contract"] and not x["external"])
        lab = sorted(k for k, x in fns.items() if prop in x.get("tags", []))
        cov.update({
            "obligations": v["verified"] + v["errors"], "discharged": v["verified"],
            "checker_cmd": f"cd /verif && ./check {prop} {tier}   # runs, on the text extracted from /repo/core/src: {v['cmd']}",
            "trusted_base": ["Verus 0.2026.09.13 and its Z3", "the extractor in /verif/extract (syntax-directed edits, counted in edits)"] + (["rustc's -Zunpretty=expanded: the text of the expanded derive macros"] if "clients" in config.VERUS[prop][0] else []) + v["trusted"],
            "std_items_identified_with_prelude": identified(),
            "obligation_unit": "one function, lemma or loop of the extracted code, with all its clauses",
            "labelled_clauses_of_this_property": v["clauses"].get(prop, 0),
            "functions_under_contract": contracted, "number_of_functions_under_contract": len(contracted),
            "functions_without_contract": v["report"].get("uncontracted", []),
            "functions_trusted": sorted(k for k, x in fns.items() if x["external"]),
            "dropped_by_extraction": v["report"].get("dropped", []), "edits": v["report"].get("edit_log", {}),
            "lost_anchors": v["report"].get("lost_anchors", []),
            "back_end": "Z3 (through Verus)", "solver_ms": v["solver_ms"], "verifier_wall_s": round(v["seconds"], 1),
            "slowest_functions_ms": sorted(((t, f) for f, m, t, s in v["functions"]), reverse=True)[:5],
            "undecided": [f"{b}: {a}" for a, b in undec], "failed": [f.text() for f in v["failures"]],
        })
        if v.get("canaries"):
            cov["canaries"] = v["canaries"]
    if notes:
        cov["notes"] = notes
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)


BASE_ASSUMPTIONS = [
    "the items of std and byteorder that the code uses behave as the contracts of their counterparts in the prelude (std_items_identified_with_prelude); those counterparts have verified bodies, which shows their contracts to be consistent, except the ones that trusted_base lists as external_body or uninterp",
    "std::io::Read::read_exact follows its documentation: all bytes or an error, and what it read is gone from the stream",
    "usize is 64 bits; f32/f64 are identified with their bits",
    "log::trace!/debug! arguments, Debug/Display texts inside errors and doc comments are dropped by the extraction",
    "memory is sufficient: allocation does not fail for sizes up to the message size",
    "less than 2^64 - 65554 bytes are read from one log",
]


def replay(path):
    d = json.load(open(path))
    print(d.get("what"))
    if d.get("kind") in ("obligation", "compile"):
        print("\n".join(d.get("failed_obligations", [])))
        print(d.get("verifier_output") or d.get("output"))
        return 1
    exe, err = build_harness(True)
    if not exe:
        print(err)
        return 2
    prop = d["property"]
    if d.get("case") not in (None, "probe") and d.get("kind") in ("input", "crash") and int(d["case"]) >= 0:
        rc, o, e = sh([exe, "one", prop, str(d["seed"]), str(d["case"])], timeout=120)
        print(o[-3000:], e[-2000:])
        if rc != 0:
            return 1
    if d.get("bytes"):
        rc, o, e = sh([exe, "bytes", d["bytes"], d.get("cfg") or "111"], timeout=120)
        print(o[-6000:], e[-2000:])
        return 1 if rc else 0
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        ok = build_extractor()[0] and build_harness(True)[0]
        os.makedirs(BUILD, exist_ok=True)
        with tempfile.TemporaryDirectory(dir=BUILD) as w:
            ok = ok and expand_clients(w)[0]
        return 0 if ok else 1
    if a and a[0] == "--replay":
        return replay(a[1])
    if not a or a[0] not in config.PROPS:
        print("usage: check PROPERTY [quick|thorough] | --replay FILE | --setup")
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier if tier in ("quick", "thorough") else "quick")


sys.exit(main())
