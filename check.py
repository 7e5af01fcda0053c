#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: extracts the functions under contract from /repo's current
sources, has Verus discharge every obligation, then runs the compiled code on
generated inputs (to validate the trusted contracts, and to look for a failing
input when an obligation fails)."""
import json, os, re, subprocess, sys, time, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props as P
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(V, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NIGHTLY = "nightly-2025-05-06"


def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        f = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, f(x.stdout), f(x.stderr) + "\ntimeout"


class Fatal(Exception):
    pass


def build_vx():
    td = os.path.join(BUILD, "vx")
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], env={"CARGO_TARGET_DIR": td, "RUSTFLAGS": ""}, cwd=os.path.join(V, "vx"), timeout=600)
    if rc:
        raise Fatal("cannot build the extractor:\n" + e)
    return os.path.join(td, "debug", "vx")


class Proof:
    """one run of the verifier over a unit"""

    def __init__(self, unit):
        self.unit = unit
        self.ok = {}          # function -> bool (discharged)
        self.fail = {}        # function -> [messages]
        self.bounded = {}     # function -> reason (not within reach on this tree)
        self.trusted = []
        self.map = []
        self.smt_ms = 0
        self.cmd = ""
        self.raw = ""
        self.lemma_fail = []
        self.unit_lost = None
        self.tags = {}        # function -> what its failed clauses are about (None: everything)
        self.ext = {}         # functions verified elsewhere: only their contracts are used

    def run(self, vx, smoke=False, only=None, tags=False, second=False, want=None):
        d = os.path.join(BUILD, "gen")
        os.makedirs(d, exist_ok=True)
        skip = set()
        gen, mp = os.path.join(d, self.unit + ".rs"), os.path.join(d, self.unit + ".json")
        ext = {}
        for _ in range(11):
            c = [vx, os.path.join(V, "units", self.unit + ".vspec"), "--repo", REPO, "--out", gen, "--map", mp]
            if ext or skip:
                c += ["--external", ",".join(sorted(set(ext) | skip))]
            if smoke:
                c += ["--smoke"]
            rc, o, e = sh(c, timeout=120)
            if rc:
                self.unit_lost = "extraction failed: " + e[-600:]
                return self
            self.map = json.load(open(mp))
            if only is not None and not skip:
                skip = {m["fn"] for m in self.map if "fn" in m and not any(w.endswith("::*") and m["fn"].startswith(w[:-1]) for w in only)} - set(only)
                if skip:
                    continue
            if want is not None and "like" not in want:
                # clauses only one property needs (nothing else is built on them)
                s = re.sub(r"(?m)^[^\n]*// @like *$", "", open(gen).read())
                open(gen, "w").write(s)
            if second:
                # room for telling the clauses of a failing function apart
                s = open(gen).read()
                open(gen, "w").write(s.replace("/*+", "").replace("+*/", ""))
            v = ["verus", gen, "--triggers-mode", "silent", "--multiple-errors", "20", "--num-threads", "8", "--output-json", "--time-expanded", "--rlimit", "60"]
            self.cmd = " ".join(v)
            rc, o, e = sh(v, timeout=240 if second else 420, env={"RUSTUP_TOOLCHAIN": ""}, cwd=d)
            self.raw = e
            try:
                j = json.loads(o[o.index("{"):])
            except Exception:
                j = {}
            if rc == 124:
                self.unit_lost = "verifier timed out"
                return self
            br = []
            for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                br += m.get("function-breakdown", [])
            if j.get("verification-results", {}).get("encountered-vir-error") or not br:
                # front-end error: which functions does it point at?
                bad = {}
                for msg, line in self.errors(e, gen):
                    f = self.fn_at(line)
                    if f:
                        bad.setdefault(f, msg)
                new = {k: m for k, m in bad.items() if k not in ext}
                if not new:
                    self.unit_lost = "verifier front end: " + e[:1500]
                    return self
                ext.update(new)
                continue
            self.digest(br, e, gen, ext)
            self.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
            if tags and 0 < len(self.fail) <= 12 and not second:
                # which clauses fail? (the others of the same function may still be discharged)
                two = Proof(self.unit).run(vx, only=list(self.fail), tags=True, second=True, want=want)
                for f in list(self.fail):
                    if f in two.fail and two.tags.get(f) is not None:
                        self.fail[f], self.tags[f] = two.fail[f], two.tags[f]
            return self
        self.unit_lost = "verifier front end keeps failing"
        return self

    def errors(self, txt, gen):
        out = []
        base = os.path.basename(gen)
        for blk in re.split(r"\n(?=error|warning|note)", txt):
            m = re.match(r"error(\[E\d+\])?: (.*)", blk)
            if not m:
                continue
            for l in re.finditer(r"--> [^\n]*?" + re.escape(base) + r":(\d+):\d+", blk):
                out.append((m.group(2).strip() + " | " + " ".join(blk.split())[:700], int(l.group(1))))
                break
        return out

    def fn_at(self, line):
        for m in self.map:
            if "fn" in m and m["gen_start"] <= line <= m["gen_end"]:
                return m["fn"]
        return None

    def digest(self, br, err, gen, ext):
        names = {}
        for b in br:
            n = b["function"].split("::", 1)[-1]
            names.setdefault(n, True)
            names[n] = names[n] and b["success"]
        mine = {}
        for m in self.map:
            if "fn" not in m:
                if m.get("status") == "lost" and "type" in m:
                    self.bounded["type " + m["type"]] = "type not found"
                continue
            mine[m["fn"]] = m
        msgs, about = {}, {}
        src = open(gen).read().split("\n")
        for msg, line in self.errors(err, gen):
            f = self.fn_at(line)
            msgs.setdefault(f or "?", []).append(msg)
            tg = set(re.findall(r"@(\w+)", src[line - 1].split("//", 1)[1])) if "//" in src[line - 1] else set()
            if not tg and (msg.startswith(("possible arithmetic", "unreachable", "possible division")) or msg.startswith("precondition not satisfied") and not re.search(r"fits\(|lem_|thm_", msg)):
                tg = {"safe"}
            about.setdefault(f or "?", []).append(tg or None)
        for f, a in about.items():
            a = [x for m, x in zip(msgs[f], a) if "rlimit" not in m and "not all errors" not in m]
            self.tags[f] = None if None in a or not a else set().union(*a)
        for f, m in mine.items():
            if m["status"] != "ok":
                why = [i[1:] for i in m["inlined"] if i.startswith("!")]
                if m.get("declared_external"):
                    self.trusted.append(f)
                else:
                    self.bounded[f] = ext.get(f) or (why[0] if why else m["status"])
                continue
            short = f.split("@")[-1]
            ok = names.get(short)
            if ok is False and [g for g in mine if g.split("@")[-1] == short and g in msgs]:
                ok = None  # impls of a trait for several types share a name: the messages tell which fails
            if ok is None:
                ok = f not in msgs
            if ok:
                self.ok[f] = True
            else:
                ms = msgs.get(f, ["obligation not discharged"])
                if all("Resource limit" in x or "rlimit" in x for x in ms):
                    self.bounded[f] = "solver resource limit"
                else:
                    self.fail[f] = ms
        execs = {g.split("@")[-1] for g in mine} | set(mine)
        for n, ok in names.items():
            if n in execs:
                continue
            if ok:
                self.ok["lemma " + n.split("::")[-1]] = True
            else:
                self.lemma_fail.append(n)


def known_findings():
    out = []
    p = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    p = P.PROPS[pid]
    proofs, fails, bounded, discharged, trusted, smt = [], {}, {}, [], [], 0
    cmds = []
    notes = []
    with cf.ThreadPoolExecutor(6) as ex:
        bt = ex.submit(P.build_replay, p["replay"], REPO, BUILD, sh) if p.get("replay") else None
        vx = build_vx() if p.get("units") else None
        units = list(p.get("units", {}).items())
        runs = {u: ex.submit(Proof(u).run, vx, only=w["fns"] if w.get("only") else None, tags=bool(w.get("tags")), want=w.get("tags")) for u, w in units}
        for unit, want in units:
            pr = runs[unit].result()
            cmds.append(pr.cmd)
            smt += pr.smt_ms
            proofs.append(pr)
            if pr.unit_lost:
                for f in want["fns"]:
                    bounded[f] = pr.unit_lost
                continue
            # `Trait@Type::*`: the methods that have no contract of their own
            named = set(want["fns"])
            for f in [f for f in want["fns"] if not f.endswith("::*")] + [m["fn"] for m in pr.map if "fn" in m and m["fn"] not in named and any(w.endswith("::*") and m["fn"].startswith(w[:-1]) for w in named)]:
                if f in pr.fail and want.get("tags") and pr.tags.get(f) is not None and not (pr.tags[f] & set(want["tags"])):
                    discharged.append(f)
                    notes.append("%s: only clauses that do not concern this property fail (%s)" % (f, ", ".join(sorted(pr.tags[f]))))
                elif f in pr.fail:
                    fails[f] = pr.fail[f]
                elif f in pr.bounded:
                    bounded[f] = pr.bounded[f]
                elif f in pr.ok:
                    discharged.append(f)
                elif f in pr.trusted:
                    trusted.append(f)
                else:
                    bounded[f] = "function not found in the source"
            for k, w in pr.bounded.items():
                if k.startswith("type "):
                    bounded[k] = w
            for l in want.get("theorems", []):
                if ("lemma " + l) in pr.ok:
                    discharged.append("lemma " + l)
                else:
                    bounded[l] = "theorem not discharged"
            discharged += [n for n in pr.ok if n.startswith(("lemma lem_", "lemma thm_")) and n[6:] not in want.get("theorems", [])]
            for l in pr.lemma_fail:
                bounded["lemma " + l] = "lemma not discharged"
            if tier == "thorough" and not fails:
                sm = Proof(unit).run(vx, smoke=True, only=want["fns"] if want.get("only") else None, want=want.get("tags"))
                vac = [f for f in want["fns"] if f in sm.ok]
                if vac:
                    notes.append("VACUOUS contracts: " + ", ".join(vac))
                notes.append("vacuity run: assert(false) at the start of every function under contract fails in %d of %d functions" % (len([f for f in want["fns"] if f in sm.fail]), len([f for f in want["fns"] if f in pr.ok])))
        rep = None
        if bt:
            built, why = bt.result()
            if not built:
                raise Fatal("cannot build the replay harness:\n" + why)
    kf = [k for k in known_findings() if k.get("property") == pid and not k.get("fixed")]
    result = None
    if p.get("replay"):
        need = bool(fails or bounded)
        secs = p.get("secs_" + tier, 6 if tier == "quick" else 120)
        if need:
            secs = max(secs, p.get("secs_alarm", 40))
        rep = P.run_replay(p["replay"], pid, SEED, secs, tier, BUILD, sh, REPO, V)
        result = rep.get("fail")
    violation = None
    rpath = os.path.join(BUILD, "replay", pid + ".json")
    if result:
        violation = "VIOLATION property=%s replay=%s" % (pid, rpath)
        json.dump({"property": pid, "failing_input": result, "failed_obligations": fails}, open(rpath, "w"), indent=1)
    elif fails:
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)
        json.dump({"property": pid, "failed_obligations": fails, "verifier_output": [x.raw[-20000:] for x in proofs], "searched": rep}, open(rpath, "w"), indent=1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    nobl = len(discharged) + len(fails) + len(bounded)
    cov = {
        "obligations": nobl,
        "discharged": len(discharged),
        "checker_cmd": " ; ".join(cmds) or "none",
        "trusted_base": P.TRUSTED + p.get("trusted", []) + ["contract assumed: " + t for t in trusted],
        "functions_under_contract": [f for u in p.get("units", {}).values() for f in u["fns"] if not f.endswith("::*")],
        "discharged_list": discharged[:400],
        "back_end": "Verus 0.2026.09.13 / Z3 (bundled)",
        "solver_ms": smt,
        "failed": fails,
        "bounded_instead_of_proved": dict(bounded, **p.get("unproved", {})),
        "extraction": [{k: m.get(k) for k in ("fn", "file", "line", "status", "inlined", "hash")} for pr in proofs for m in pr.map if "fn" in m and m["fn"] in [f for u in p["units"].values() for f in u["fns"]]],
        "notes": notes,
    }
    if p["level"] != "proof":
        cov["explanation"] = p.get("explanation", "see DESIGN.md")
    if rep:
        cov["evaluations"] = rep.get("evaluations", 0)
        cov["distinct_nontrivial"] = rep.get("distinct", 0)
        cov["rule"] = rep.get("rule", "")
        cov["samples"] = rep.get("samples", [])
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": p["level"],
        "coverage": cov, "assumptions": p.get("assumptions", []) + P.ASSUME,
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged, %d failed, %d bounded, %s replay cases, %.1fs" % (pid, tier, len(discharged), nobl, len(fails), len(bounded), rep.get("evaluations") if rep else "no", time.time() - t0))
    for f, why in bounded.items():
        print("  bounded: %s (%s)" % (f, why[:160]))
    if violation:
        for f, m in fails.items():
            print("  failed obligation: %s: %s" % (f, m[0][:300]))
        if result:
            print("  failing input: %s" % str(result.get("what"))[:600])
        print(violation)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Fatal as e:
        print(e)
        sys.exit(2)
