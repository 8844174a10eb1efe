#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: extracts the contracted functions from /repo's current source (extract/), has
Verus discharge every obligation, and looks for a concrete failing input on the compiled code
(harness/) when an obligation fails; functions outside the verifier's reach are covered by a short,
bounded harness run on every check.
Exit 0 = held, 1 = VIOLATION, 2 = the check itself could not run."""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROPS = json.load(open(os.path.join(HERE, "props.json")))
NL = "no-failing-input-found"


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), "timeout"


def match(key, pats):
    return any(fnmatch.fnmatchcase(key, p) for p in pats)


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = PROPS["properties"][pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.tgt = os.environ.get("VERIF_TARGET", os.path.join(HERE, "target"))
        os.makedirs(self.tgt, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="vchk-")
        self.log = []
        self.ev = {"verus": [], "lost": [], "structural": []}

    def say(self, m):
        self.log.append(m)
        print(m, flush=True)

    # ---------- builds ----------
    def build_harness(self):
        t = time.time()
        env = {"RUSTUP_TOOLCHAIN": "1.76-x86_64-unknown-linux-gnu", "CARGO_TARGET_DIR": os.path.join(self.tgt, "harness"),
               "CARGO_NET_OFFLINE": "true", "CARGO_PROFILE_DEV_DEBUG": "0", "RUSTFLAGS": "-Awarnings"}
        hdir = os.path.join(HERE, "harness")
        gen = os.path.join(HERE, "harness", "gen_swap.py")
        self.hfeat = []
        if os.path.exists(gen):
            rc, o, e = sh([sys.executable, gen, REPO, os.path.join(self.tgt, "sim_swap.rs")])
            env["SIM_SWAP_RS"] = os.path.join(self.tgt, "sim_swap.rs")
            if rc == 0:
                self.hfeat = ["--features", "simswap"]
        rc, o, e = sh(["cargo", "build", "--offline", "--locked"] + self.hfeat, cwd=hdir, env=env)
        if rc != 0 and self.hfeat:
            self.hfeat = []
            rc, o, e = sh(["cargo", "build", "--offline", "--locked"], cwd=hdir, env=env)
        self.hrc, self.herr = rc, e
        self.hbin = os.path.join(self.tgt, "harness", "debug", "harness")
        self.ht = time.time() - t

    def build_extract(self):
        env = {"CARGO_TARGET_DIR": os.path.join(self.tgt, "extract"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings"}
        rc, o, e = sh(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(HERE, "extract"), env=env)
        if rc != 0:
            raise RuntimeError("extractor does not build: " + e[-2000:])
        self.xbin = os.path.join(self.tgt, "extract", "debug", "extract")

    # ---------- proof ----------
    def verify(self, sset):
        """returns dict(ok, fails={key:[...]}, theory=[...], lost=set, fns=[...], ...)"""
        lost, panic = set(), set()
        hist, retried = [], False
        for rnd in range(8):
            gen, idx = os.path.join(self.tmp, f"gen_{sset}.rs"), os.path.join(self.tmp, f"idx_{sset}.json")
            cmd = [self.xbin, "--repo", REPO, "--specs", os.path.join(HERE, "specs"), "--out", gen, "--index", idx, "--set", sset]
            for k in sorted(lost):
                cmd += ["--lost", k]
            for k in sorted(panic):
                cmd += ["--panicops", k]
            rc, o, e = sh(cmd)
            if rc != 0:
                return {"ok": False, "broken": "extraction failed: " + e[-1500:], "fails": {}, "fns": [], "lost": lost, "panic": panic, "missing": [], "theory": [], "verified": 0, "errors": 0}
            index = json.load(open(idx))
            vcmd = ["verus", os.path.basename(gen), "--error-format=json", "--output-json", "--time", "--multiple-errors", "4"]
            t = time.time()
            rc, o, e = sh(vcmd, cwd=self.tmp, timeout=400)
            wall = time.time() - t
            diags = []
            for l in e.splitlines():
                if l.startswith("{"):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d.get("level") == "error" and d.get("spans"):
                        diags.append(d)
            try:
                out = json.loads(o)
            except ValueError:
                out = {}
            res = out.get("verification-results", {})
            smt = 0
            try:
                smt = out["times-ms"]["smt"]["total"] / 1000.0
            except Exception:
                pass
            fns = index["fns"]
            fails, theory, front = {}, [], False

            def owner(line):
                for f in fns:
                    if f["gen_start"] <= line < f["gen_end"]:
                        return f
                return None
            verified, errors = res.get("verified"), res.get("errors")
            if verified is None or res.get("encountered-vir-error"):
                front = True
            if any(d.get("code") for d in diags):
                front = True
            for d in diags:
                own = None
                for s in d["spans"]:
                    if (s.get("label") or "") == "failed precondition":
                        continue
                    f = owner(s["line_start"]) if s["file_name"].endswith(os.path.basename(gen)) else None
                    if f and (own is None or s["is_primary"] is False):
                        own = f
                msg = {"message": d["message"], "rendered": d.get("rendered", "")[:3000]}
                if own:
                    fails.setdefault(own["key"], []).append(msg)
                else:
                    theory.append(msg)
            r = {"ok": rc == 0 and not front, "fails": fails, "theory": theory, "fns": fns, "lost": lost, "panic": panic, "missing": index["missing"],
                 "dropped": index["dropped"], "verified": verified or 0, "errors": errors or 0, "smt_s": smt, "wall_s": wall, "cmd": " ".join(vcmd), "front": front, "rounds": rnd + 1}
            if front:
                # the verifier's front end rejects some function: drop its body, keep its contract (assumed), and go on
                new = set(k for k in fails if k not in lost)
                if not new:
                    r["broken"] = "verifier front end: " + "; ".join(m["message"] for m in theory)[:1500] + e[-500:] * (not theory)
                    return r
                for k in new:
                    hist.append({"fn": k, "why": fails[k][0]["message"]})
                lost |= new
                r["hist"] = hist
                continue
            # an overflow that panics in the compiled code is a revert, not a wrong result
            ov = set(k for k, ms in fails.items() if k not in panic and any("overflow" in m["message"] or "division by zero" in m["message"] for m in ms))
            if ov:
                panic |= ov
                continue
            r["hist"] = hist
            if fails and not retried:
                # a proof found under any solver seed is a proof: try the failing obligations once more
                retried = True
                # (loop_isolation(false): facts about variables a loop does not change stay known in it)
                txt = open(gen).read()
                open(gen, "w").write("#![verifier::loop_isolation(false)] #![verifier::allow_complex_invariants] " + txt)
                rc2, o2, e2 = sh(vcmd + ["--rlimit", "40", "--smt-option", "smt.random_seed=7"], cwd=self.tmp, timeout=300)
                again, bad = set(), rc2 == 124
                for l in e2.splitlines():
                    if not l.startswith("{"):
                        continue
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d.get("level") == "error" and d.get("spans"):
                        for s in d["spans"]:
                            f = owner(s["line_start"])
                            if f:
                                again.add(f["key"])
                        if not any(owner(s["line_start"]) for s in d["spans"]):
                            again.add("theory")
                # it counts only as a complete verification: a run the front end stopped proves nothing
                try:
                    res2 = json.loads(o2[o2.index("{"):]).get("verification-results", {})
                except ValueError:
                    res2 = {}
                full = res2.get("verified") is not None and not res2.get("encountered-vir-error") and res2["verified"] + res2.get("errors", 0) >= 0.8 * ((verified or 0) + (errors or 0))
                if not bad and full:
                    for k in [k for k in fails if k not in again]:
                        del fails[k]
                        r["errors"] = max(0, r["errors"] - 1)
                        r["verified"] += 1
                    if theory and "theory" not in again:
                        theory.clear()
                    r["ok"] = not fails and not theory
            return r
        r["broken"] = "no stable extraction"
        return r

    def table(self):
        """A02: verify, compile and execute the table checker that establishes lemma_table"""
        src = os.path.join(self.tmp, "tickcheck.rs")
        body = "#![allow(unused)]\nuse vstd::prelude::*;\n"
        for f in ("common/04_vtab.head.rs", "tickcheck.rs"):
            body += open(os.path.join(HERE, "specs", f)).read()
        open(src, "w").write(body)
        rc, o, e = sh(["verus", "--compile", "-O", "tickcheck.rs"], cwd=self.tmp, timeout=300)
        m = re.search(r"(\d+) verified, (\d+) errors", o + e)
        if rc != 0 or not m or m.group(2) != "0":
            return "table checker not accepted: " + (o + e)[-600:], 0
        rc, o, e = sh([os.path.join(self.tmp, "tickcheck")], timeout=300)
        return (None if rc == 0 and "TABLE-OK" in o else "table check failed: " + o[-300:]), int(m.group(1))

    # ---------- bounded run ----------
    def harness(self, secs):
        if self.hrc != 0:
            return None, "harness does not build: " + self.herr[-3000:]
        rc, o, e = sh([self.hbin, self.pid, "--seed", str(self.seed), "--secs", str(secs)], timeout=secs + 120)
        m = re.search(r"^(FAIL|PASS|NONE)(.*)$", o, re.M)
        if not m:
            return None, "harness: " + (o + e)[-1500:]
        return m.group(1), m.group(2).strip()

    def run(self):
        err = []

        def hb():
            try:
                self.build_harness()
            except Exception as x:
                self.hrc, self.herr = 1, repr(x)
        th = threading.Thread(target=hb)
        th.start()
        results = {}
        try:
            self.build_extract()
            for s in self.p.get("sets", ["contract"]):
                results[s] = self.verify(s)
        finally:
            th.join()
        own, dep = self.p["own"], self.p.get("dep", [])
        failing_own, failing_dep, structural, broken, lost = {}, {}, [], [], []
        under = []
        verified = errors = 0
        smt = 0
        trusted = []
        for s, r in results.items():
            pre = "" if s == "contract" else s + "/"
            verified += r["verified"]
            errors += r["errors"]
            smt += r.get("smt_s", 0)
            if r.get("broken"):
                broken.append(f"{s}: {r['broken']}")
            for f in r["fns"]:
                k = pre + f["key"]
                if match(k, own) or match(k, dep):
                    if f["assumed"]:
                        trusted.append(k)
                    elif f["contract"] or not f["lost"]:
                        under.append(f)
                    if f["lost"]:
                        lost.append(k)
                    for n in f["notes"]:
                        structural.append(f"{k}: {n}")
            for k, ms in r["fails"].items():
                if match(pre + k, own):
                    failing_own[pre + k] = ms
                elif match(pre + k, dep):
                    failing_dep[pre + k] = ms
            if r["theory"]:
                failing_dep["theory"] = r["theory"]
            for k in r["missing"]:
                if match(pre + k, own + dep):
                    structural.append(f"{pre}{k}: function not found in the source")
        if self.p.get("table"):
            terr, tn = self.table()
            verified += tn
            if terr:
                broken.append(terr)
        th_secs = self.p.get("secs", 12)
        relevant = bool(failing_own or failing_dep or broken or lost or structural)
        secs = th_secs if not relevant else max(60, 3 * th_secs)
        if self.tier == "thorough":
            secs = 240
        hres, hmsg = self.harness(secs)
        viol = []
        replay = None
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{self.pid}.json")
        if hres == "FAIL":
            it = re.match(r"iter=(\d+)", hmsg)
            it = it.group(1) if it else "0"
            rep = {"property": self.pid, "kind": "input", "message": hmsg, "seed": self.seed, "iter": int(it),
                   "failed_obligations": {**failing_own, **failing_dep},
                   "replay_cmd": f"build /verif/harness against /repo, then: harness {self.pid} --seed {self.seed} --iter {it}"}
            viol.append(("input", rep))
        elif failing_own:
            hard = {k: v for k, v in failing_own.items() if not any(n.startswith(k + ":") for n in structural)}
            if hard:
                rep = {"property": self.pid, "kind": "obligation", "failed_obligations": hard, "harness": hmsg,
                       "note": "the verifier rejects these obligations for the current source and gives no counterexample; no failing input was found on the compiled code"}
                viol.append(("obligation", rep))
        for k, ms in list(failing_own.items()) + list(failing_dep.items()):
            self.say(f"obligation failed: {k}: {ms[0]['message']}")
        for b in broken:
            self.say("verifier did not run: " + b[:600])
        for k in lost:
            self.say(f"outside the verifier's reach in this source: {k} (contract assumed, bounded check stands in)")
        for n in structural:
            self.say("note: " + n)
        if hres is None:
            self.say(hmsg)
        elif hres != "FAIL":
            self.say(f"bounded run: {hres} {hmsg} ({secs} s)")
        proof_ok = not (failing_own or failing_dep or broken or lost or structural)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "proof" if proof_ok and self.p.get("level") == "proof" else ("exploration" if hres in ("PASS", "FAIL") else "other"),
              "coverage": {"obligations": verified + errors, "discharged": verified,
                           "checker_cmd": "; ".join(f"[{s}] {r.get('cmd', '')}" for s, r in results.items()),
                           "trusted_base": PROPS["trusted_base"] + self.p.get("trusted", []) + [f"assumed contract: {k}" for k in trusted],
                           "backend": "Verus 0.2026.09.13 / Z3", "solver_time_s": round(smt, 2),
                           "functions_under_contract": sorted({f["key"] for f in under if not f["lost"] and not f["assumed"]}),
                           "functions_lost": lost, "failed": sorted(list(failing_own) + list(failing_dep)), "structural_notes": structural,
                           "inlined_helpers": sorted({h for f in under for h in f["inlined"]}),
                           "bounded": {"label": "bounded, not proved", "what": self.p.get("bounded", ""), "seconds": secs, "result": hres, "detail": hmsg[:500]},
                           "explanation": self.p.get("explain", ""),
                           "evaluations": int((re.search(r"iters=(\d+)", hmsg) or re.match(r"()", "")).group(1) or 0),
                           "distinct_nontrivial": int((re.search(r"distinct=(\d+)", hmsg) or re.search(r"iters=(\d+)", hmsg) or re.match(r"()", "")).group(1) or 0),
                           "rule": "pseudo-random inputs biased to edges (see harness/src); each iteration is one generated case or history from (property, seed, iteration)",
                           "samples": [f"{self.pid} seed={self.seed} iter={i}" for i in range(3)]},
              "assumptions": PROPS["assumptions"] + self.p.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w"), indent=1)
        kf = os.path.join(HERE, "known_findings.json")
        if os.path.exists(kf):
            for f in json.load(open(kf)).get("findings", []):
                if f.get("property") == self.pid and f.get("status") == "open":
                    print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        if viol:
            kind, rep = viol[0]
            rep["gen"] = {s: r.get("cmd") for s, r in results.items()}
            json.dump(rep, open(rp, "w"), indent=1)
            print(f"VIOLATION property={self.pid} replay={rp}" + ("" if kind == "input" else " " + NL))
            return 1
        if hres is None and broken:
            print("the check could not run")
            return 2
        print(f"OK {self.pid}: {verified} obligations discharged, {len(ev['coverage']['functions_under_contract'])} functions under contract, {ev['wall_s']} s")
        return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    c = Check(pid, tier)
    try:
        rc = c.run()
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
