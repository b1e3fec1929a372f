"""Machinery shared by the checks: running TLC, running drivers against the
code in /repo, judging recorded traces, evidence and verdicts.  Stdlib only."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLADIR = "/opt/veriftools/tla"
SPEC = os.path.join(ROOT, "spec")
CLASSES = os.path.join(ROOT, "build", "classes")


class CheckError(Exception):
    """the check could not give an answer (exit 2)"""


def build_overrides():
    cls = os.path.join(CLASSES, "vt", "BigOv.class")
    src = os.path.join(ROOT, "java", "vt", "BigOv.java")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build"))
    p = subprocess.run(["javac", "-nowarn", "-cp", TLADIR + "/tla2tools.jar",
                        "-d", tmp, src], capture_output=True, text=True)
    if p.returncode:
        raise CheckError("javac: " + p.stderr)
    if os.path.isdir(CLASSES):
        shutil.rmtree(CLASSES, ignore_errors=True)
    try:
        os.rename(tmp, CLASSES)
    except OSError:            # somebody else just built it
        shutil.rmtree(tmp, ignore_errors=True)


class TlcResult:
    pass


def tlc(module, cfg=None, cfgtext=None, env=None, workers=8, timeout=600,
        pure=False, args=(), heap="6g"):
    """run TLC on spec/<module>.tla"""
    build_overrides()
    meta = tempfile.mkdtemp(prefix="vt-tlc-")
    try:
        if cfgtext is not None:
            cfgf = os.path.join(meta, "m.cfg")
            with open(cfgf, "w") as f:
                f.write(cfgtext)
        else:
            cfgf = os.path.join(SPEC, cfg or module + ".cfg")
        ov = "tlc2.overrides.TLCOverrides"
        if not pure:
            ov = "vt.BigOv:" + ov
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
               "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta,
               "-Dtlc2.overrides.TLCOverrides=" + ov, "-cp",
               ":".join([CLASSES, TLADIR + "/tla2tools.jar",
                         TLADIR + "/CommunityModules-deps.jar"]),
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta + "/st",
               "-noGenerateSpecTE", "-config", cfgf, *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CheckError(f"TLC {module}: no answer in {timeout}s")
        r = TlcResult()
        r.out = out
        r.rc = p.returncode
        r.wall = time.time() - t0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        r.ok = "Model checking completed. No error has been found." in out
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def driver_env(scratch, extra=None):
    env = {"PATH": REPO + "/radiance_depend/linux:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
           "HOME": scratch, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "LANG": "C.UTF-8",
           "COLUMNS": "100", "VT_REPO": REPO,
           "PYTHONPATH": REPO + ":" + os.path.join(ROOT, "drivers"),
           "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
           "VERIF_TIER": os.environ.get("VERIF_TIER", "quick")}
    env.update(extra or {})
    return env


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.clauses = {}
        self.failures = []      # dicts
        self.known_hits = {}
        self.notes = {}
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            self.known = [k for k in json.load(f)["findings"] if k["property"] == pid]
        self.scratch = tempfile.mkdtemp(prefix=f"vt-{pid}-")

    # ---------------------------------------------------------------- models
    def model(self, module, cfg=None, cfgtext=None, env=None, minstates=1, **kw):
        """exhaustive check of a design model: a failure here is an error of
        the specification, not of the code"""
        r = tlc(module, cfg=cfg, cfgtext=cfgtext, env=env, **kw)
        if not r.ok or r.distinct < minstates:
            raise CheckError(f"model {module} ({cfg or ''}): not accepted by TLC\n" + r.out[-6000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "cfg": cfg or "", "distinct": r.distinct,
                            "generated": r.generated, "wall_s": round(r.wall, 2)})
        return r

    def generate(self, module, tag="CASE", **kw):
        """cases TLC enumerates: lines PrintT(tag \\o " " \\o ToJson(x))"""
        r = self.model(module, **kw)
        cases = []
        for line in r.out.splitlines():
            if line.startswith('"' + tag + " "):
                cases.append(json.loads(json.loads(line)[len(tag) + 1:]))
        if not cases:
            raise CheckError(f"model {module}: no generated cases\n" + r.out[-3000:])
        # TLC's print order depends on its workers
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        return cases

    # --------------------------------------------------------------- drivers
    def drive(self, script, cases=None, shards=1, timeout=400, env=None, args=()):
        """run drivers/<script> against the code; returns the list of chains
        (lists of events).  A driver that dies or hangs is reported as the
        failure of the case it was working on."""
        def one(k):
            d = os.path.join(self.scratch, f"{script}.{k}.{len(os.listdir(self.scratch))}")
            d = tempfile.mkdtemp(dir=self.scratch)
            cf = os.path.join(d, "cases.json")
            of = os.path.join(d, "events.jsonl")
            work = os.path.join(d, "w")
            os.mkdir(work)
            with open(cf, "w") as f:
                json.dump(None if cases is None else cases[k::shards], f)
            cmd = [PY, os.path.join(ROOT, "drivers", script), cf, of, str(k), str(shards), *args]
            with open(os.path.join(d, "err"), "w") as errf:
                p = subprocess.Popen(cmd, cwd=work, env=driver_env(work, env),
                                     stdin=subprocess.DEVNULL, stdout=errf,
                                     stderr=errf, start_new_session=True)
                # hung: over its time, or long without a new record (a call
                # that does not return may fill the memory meanwhile)
                hung, t0, size, t1 = False, time.time(), -1, time.time()
                while not hung:
                    try:
                        p.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    n = os.path.getsize(of) if os.path.exists(of) else 0
                    if n != size:
                        size, t1 = n, time.time()
                    hung = (time.time() - t0 > timeout
                            or time.time() - t1 > (300 if self.thorough else 120))
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            chains, cur, done = [], None, False
            if os.path.exists(of):
                with open(of) as f:
                    for line in f:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            break
                        if r[0] == "B":
                            cur = r[1]
                        elif r[0] == "C":
                            chains.append(r[1])
                            cur = None
                        elif r[0] == "END":
                            done = True
            with open(os.path.join(d, "err"), errors="replace") as f:
                err = f.read()[-3000:]
            if not done:
                if cur is None:
                    if hung:
                        raise CheckError(f"{script}: no progress\n{err}")
                    if "DRIVER-IMPORT" in err:
                        self.fail("the package does not import", {"driver": script}, err)
                        return chains
                    tb = err.rpartition("Traceback (most recent call last)")[2]
                    if not hung and f'File "{REPO}/raytools/' in tb:
                        # preparing calls are calls too
                        self.fail("a call the others build on raised", {"driver": script}, err)
                        return chains
                    raise CheckError(f"{script}: driver died (rc {p.returncode})\n{err}")
                self.fail("the call did not return" if hung else
                          f"the process died (status {p.returncode})", cur, err)
            shutil.rmtree(d, ignore_errors=True)
            return chains
        if shards == 1:
            return one(0)
        with ThreadPoolExecutor(min(shards, 8)) as ex:
            res = list(ex.map(one, range(shards)))
        return [c for r in res for c in r]

    # ----------------------------------------------------------------- judge
    def judge(self, module, chains, cfgtext=None, workers=8, timeout=600, extra_env=None,
              label=None):
        """TLC checks the recorded chains against spec/<module>.tla"""
        if not chains:
            raise CheckError(f"{module}: nothing recorded")
        d = tempfile.mkdtemp(dir=self.scratch)
        tf = os.path.join(d, "trace.json")
        with open(tf, "w") as f:
            json.dump(chains, f)
        env = {"TRACE_FILE": tf}
        env.update(extra_env or {})
        if cfgtext is None:
            cfgtext = ("INIT ConfInit\nNEXT ConfNext\nCHECK_DEADLOCK FALSE\n"
                       "CONSTANTS\n Judge <- J\n StepSt <- S\n St0 <- S0\n")
        r = tlc(module, cfgtext=cfgtext, env=env, workers=workers, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        seen = set()
        for line in r.out.splitlines():
            if line.startswith('"VFAIL '):
                c, i, why = json.loads(json.loads(line)[6:])
                if (c, i, why) in seen:
                    continue
                seen.add((c, i, why))
                ch = chains[c - 1]
                self.fail(why, {"chain": ch[:i]} if len(ch) > 1 else {"event": ch[0]}, None,
                          event=ch[i - 1])
        nev = sum(len(c) for c in chains)
        nch = len(chains)
        if not r.ok:
            m = re.findall(r"/\\ cc = (\d+)", r.out)
            n = re.findall(r"/\\ ci = (\d+)", r.out)
            if "VCHECKERR" in r.out or not m:
                raise CheckError(f"{module}: TLC failed\n" + r.out[-6000:])
            c, i = int(m[-1]), int(n[-1])
            msg = r.out[r.out.find("Error:"):][:1500]
            ch = chains[c - 1]
            if i < len(ch):
                self.fail("the recorded result has no meaning in the specification",
                          {"chain": ch[:i + 1]}, msg, event=ch[i])
            else:
                raise CheckError(f"{module}: TLC failed\n" + r.out[-6000:])
        elif r.distinct != nev + nch:
            raise CheckError(f"{module}: judged {r.distinct} states, expected {nev + nch}\n"
                             + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += nch
        self.events += nev
        self.models.append({"module": module, "cfg": label or "recorded traces", "distinct": r.distinct,
                            "generated": r.generated, "wall_s": round(r.wall, 2)})
        for ch in chains:
            for e in ch:
                k = e.get("k", "?")
                self.clauses[k] = self.clauses.get(k, 0) + 1
        for ch in chains[::max(1, len(chains) // 3)][:3]:
            self.samples.append(json.dumps(ch)[:600])

    # --------------------------------------------------------------- verdict
    def fail(self, why, case, detail=None, event=None):
        kf = None
        if event is not None:
            kf = event.get("kf")
        for k in self.known:
            if kf is not None and k["id"] == kf and why in k["clauses"]:
                self.known_hits.setdefault(k["id"], k)
                return
        self.failures.append({"property": self.pid, "clause": why, "case": case,
                              "event": event, "detail": detail})

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        # a known finding that no longer fails is simply quiet
        for k in self.known_hits.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_judged": self.events, "events_by_kind": self.clauses,
               "tlc_runs": self.models, "samples": self.samples or ["none"],
               "known_findings_hit": sorted(self.known_hits)}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2),
              "violations": len(self.failures),
              "assumptions": ["TLC evaluates the specification correctly",
                              "BigInteger overrides agree with Big.tla (spec/BigCheck.tla)",
                              "inputs outside those generated are not executed"]}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.failures:
            try:
                os.remove(os.path.join(ROOT, "replay", f"{self.pid}.json"))
            except OSError:
                pass
            print(f"OK property={self.pid} states={self.states} traces={self.traces} "
                  f"events={self.events} wall={wall:.1f}s")
            return 0
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        rp = os.path.join(ROOT, "replay", f"{self.pid}.json")
        with open(rp, "w") as f:
            json.dump(self.failures[:50], f, indent=1)
        by = {}
        for x in self.failures:
            by[x["clause"]] = by.get(x["clause"], 0) + 1
        for k, n in sorted(by.items()):
            print(f"  {n} x {k}")
        print(f"VIOLATION property={self.pid} replay={rp}")
        return 1
