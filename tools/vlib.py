"""Check runner: model checking of the specification, replay of scripts into the real code, and
validation of the recorded traces against the specification with TLC."""
import json, os, re, subprocess, sys, time, shutil, random, tempfile
from concurrent.futures import ThreadPoolExecutor
import build

VERIF = build.VERIF
SPEC = VERIF + "/spec"
JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-cp"]
CP = build.TLAJAR + ":" + build.TLADEPS
NCPU = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """The check itself failed (never reported as a violation)."""


class Enough(Exception):
    """A violation was confirmed, or the time is up: nothing more is explored."""


def known_findings():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = VERIF + "/work/%s-%s" % (pid, self.tier)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = self.scripts = 0
        self.model = []
        self.samples = []
        self.failures = []
        self.notes = []
        self.families = {}
        self.serial = 0

    def enough(self):
        if self.new_failures():
            raise Enough()
        if time.time() - self.t0 > 760:
            self.notes.append("stopped early: time is up")
            self.log("stopped early: time is up")
            raise Enough()

    thorough = property(lambda self: self.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=NCPU, extra=(), timeout=800, tag="", fast=True):
        self.serial += 1
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = JAVA + [(build.overrides() + ":" if fast else "") + CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg",
                      "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        log = self.work + "/tlc-%d%s.log" % (self.serial, tag)
        with open(log, "w") as f:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        out = open(log, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, out

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model_check(self, module, cfg=None, env=None, timeout=800, extra=()):
        """Exhaustive check of the specification's own invariants (independent of /repo)."""
        self.enough()
        t = time.time()
        rc, out = self.tlc(module, cfg, env, timeout=timeout, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise Machinery("model check of %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
        gen, dist = self.counts(out)
        self.states += dist
        self.transitions += gen
        self.model.append({"module": module, "config": cfg or module, "distinct_states": dist, "transitions": gen})
        self.log("model %s: %d distinct states, %d transitions, %.1fs" % (cfg or module, dist, gen, time.time() - t))
        return out

    def config(self, name, spec="Spec", view=None, invariants=(), constants=None, properties=(), extra=""):
        p = "%s/%s" % (self.work, name)
        def val(v):
            if v is True or v is False:
                return str(v).upper()
            if isinstance(v, (list, tuple, set)):
                return "{%s}" % ", ".join(val(x) for x in v)
            return '"%s"' % v if isinstance(v, str) else str(v)
        with open(p + ".cfg", "w") as f:
            f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
            if view:
                f.write("VIEW %s\n" % view)
            if constants:
                f.write("CONSTANTS\n" + "".join("  %s = %s\n" % (k, val(v)) for k, v in constants.items()))
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
            if properties:
                f.write("PROPERTIES %s\n" % " ".join(properties))
            f.write(extra)
        return p

    # ------------------------------------------------------- real code runs
    def run_driver(self, exe, scripts, tag, env=None, limit=20, shards=NCPU):
        """Runs all scripts; returns (traces by id, crashes by id)."""
        traces, crashes = {}, {}
        shards = max(1, min(shards, len(scripts)))
        groups = [scripts[i::shards] for i in range(shards)]
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0"
        e["DRIVER_LIMIT_S"] = str(limit)
        e["QT_LOGGING_RULES"] = "*.debug=false"
        e["LC_ALL"] = "C.UTF-8"
        e.update(env or {})

        def shard(k):
            g = groups[k]
            sf, tf = "%s/%s-%d.scripts" % (self.work, tag, k), "%s/%s-%d.traces" % (self.work, tag, k)
            with open(sf, "w") as f:
                for s in g:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")
            if os.path.exists(tf):
                os.unlink(tf)
            open(tf, "w").close()
            first = 0
            res, cr = {}, {}
            while first < len(g):
                try:
                    r = subprocess.run([exe, sf, tf, str(first)], env=e, cwd=self.work, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=max(30, min(400, self.t0 + 800 - time.time())))
                    rc, out = r.returncode, r.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired as x:       # what was recorded until now has to do
                    self.notes.append("%s: not all scripts were run" % tag)
                    break
                with open(tf) as f:
                    lines = f.read().split("\n")
                done = len([l for l in lines if l.strip()]) + len(cr)
                if rc == 0:
                    break
                if rc in (2, 3) or done >= len(g):
                    raise Machinery("driver failed (rc %d): %s" % (rc, out[-2000:]))
                why = "hang" if rc == 97 else "crash"
                m = re.search(r"(SUMMARY: .*|ERROR: AddressSanitizer: .*|.*[Aa]ssert.*failed.*|qFatal: .*)", out)
                frames = re.findall(r"#\d+ 0x\w+ in ([^\n]*)", out)[:6]
                cr[g[done]["id"]] = "%s (rc %d) %s | %s" % (why, rc, m.group(1)[:200] if m else out[-200:].replace("\n", " "),
                                                         " < ".join(re.sub(r"\(/.*|/\S+/", "", x).strip()[:80] for x in frames))
                first = done + 1
                if len(cr) >= 3:            # the rest of the shard is not needed to report a violation
                    break
            with open(tf) as f:
                for l in f:
                    if l.strip() and l.endswith("}\n"):
                        i = int(re.match(r'\{"id":(\d+)', l).group(1))
                        res[i] = l if l.endswith("\n") else l + "\n"
            os.unlink(sf)
            os.unlink(tf)
            return res, cr

        with ThreadPoolExecutor(shards) as ex:
            for res, cr in ex.map(shard, range(shards)):
                traces.update(res)
                crashes.update(cr)
        return traces, crashes

    def validate(self, module, traces, tag, cfg=None, batch_bytes=24000000):
        """TLC decides for every recorded trace whether it is a behaviour of the specification."""
        rejects, accepted, nev = {}, set(), [0, 0]
        items = sorted(traces.items())
        batches, cur, size = [], [], 0
        for i, l in items:
            cur.append(l)
            size += len(l)
            if size > batch_bytes:
                batches.append(cur)
                cur, size = [], 0
        if cur:
            batches.append(cur)
        for n, b in enumerate(batches):
            tf = "%s/%s-b%d.ndjson" % (self.work, tag, n)
            with open(tf, "w") as f:
                f.writelines(b)
            t = time.time()
            rc, out = self.tlc(module, cfg, {"TRACES": tf}, tag="-" + tag)
            if rc != 0 or "No error has been found" not in out:
                if "OutOfMemory" in out or "StackOverflow" in out or "Error:" not in out:
                    raise Machinery("trace validation %s failed to run (rc %d):\n%s" % (module, rc, out[-3000:]))
                os.unlink(tf)
                if len(b) > 1:               # some trace is nothing the specification has a meaning for: which?
                    for half in (b[:len(b) // 2], b[len(b) // 2:]):
                        rj, ac, ne = self.validate(module, {int(re.match(r'\{"id":(\d+)', l).group(1)): l for l in half}, tag, cfg)
                        rejects.update(rj)
                        accepted |= ac
                        nev = [nev[0] + ne[0], nev[1] + ne[1]]
                        if rj:
                            break
                    if rejects:
                        return rejects, accepted, nev
                    continue
                m = re.search(r"(The error occurred|Error: (?!The behavior)[^\n]*\n[^\n]*)", out)
                rejects[int(re.match(r'\{"id":(\d+)', b[0]).group(1))] = "recorded behaviour has no meaning in the specification: " + re.sub(r"\s+", " ", m.group(1) if m else "")[:200]
                continue
            gen, dist = self.counts(out)
            nev[0] += dist
            nev[1] += gen
            for m in re.finditer(r'<<"ACCEPT", (\d+)>>', out):
                accepted.add(int(m.group(1)))
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)",\s*"([^"]*)"\s*>>', out):
                rejects[int(m.group(1))] = "%s (event %s, #%s)" % (m.group(3), m.group(4), m.group(2))
            os.unlink(tf)
        missing = set(traces) - accepted - set(rejects)
        if missing:
            raise Machinery("TLC gave no verdict for %d traces, e.g. %s" % (len(missing), sorted(missing)[:3]))
        return rejects, accepted, nev

    def conform(self, family, driver, scripts, module, cfg=None, env=None, limit=20, shards=NCPU, san=True, sample=1):
        """Replay scripts into the real code and check the recorded behaviour."""
        self.enough()
        t = time.time()
        for n, s in enumerate(scripts):
            s["id"] = n
        exe = build.driver(driver, san)
        t1 = time.time()
        traces, crashes = self.run_driver(exe, scripts, family, env, limit, shards)
        t2 = time.time()
        rejects, accepted, nev = self.validate(module, traces, family, cfg)
        bad = dict(rejects)
        bad.update(crashes)
        self.scripts += len(scripts)
        self.traces += len(accepted)
        self.states += nev[0]
        self.transitions += nev[1]
        fam = self.families.setdefault(family, {"scripts": 0, "accepted": 0, "events": 0})
        fam["scripts"] += len(scripts)
        fam["accepted"] += len(accepted)
        fam["events"] += nev[0]
        for i in sorted(traces)[:sample]:
            self.samples.append({"family": family, "script": _short(scripts[i]), "trace": traces[i][:1500]})
        self.log("%s: %d scripts, %d accepted, %d rejected, %d crashes (build %.1fs run %.1fs tlc %.1fs)" % (
            family, len(scripts), len(accepted), len(rejects), len(crashes), t1 - t, t2 - t1, time.time() - t2))
        if bad:
            kinds = {}
            for i, w in bad.items():
                kinds.setdefault(re.sub(r"#?\d+", "", w)[:150], []).append(i)
            for w, l in sorted(kinds.items(), key=lambda x: -len(x[1])):
                self.log("  %d x %s e.g. %s" % (len(l), w, l[:3]))
            self.confirm(family, driver, exe, scripts, bad, module, cfg, env, limit)

    def confirm(self, family, driver, exe, scripts, bad, module, cfg, env, limit):
        """Only what fails again, alone, is reported."""
        order = sorted(bad)[:12]
        seen = set()
        for i in order:
            sc = [dict(scripts[i])]
            why = None
            for attempt in range(2):
                tr, cr = self.run_driver(exe, sc, family + "-confirm", dict(env or {}, PATIENCE="20"), limit)
                rj = {}
                if tr:
                    rj, _, _ = self.validate(module, tr, family + "-confirm", cfg)
                why = cr.get(i) or rj.get(i)
                if why:
                    break
            if not why:
                self.notes.append("not reproduced: %s #%d %s" % (family, i, bad[i]))
                self.log("not reproduced: %s #%d: %s" % (family, i, bad[i]))
                continue
            path = "%s/replay-%s-%d.json" % (self.work, family, i)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "family": family, "driver": driver, "module": module, "cfg": cfg,
                           "env": env, "script": scripts[i], "why": why, "trace": tr.get(i)}, f)
            self.failures.append({"family": family, "why": why, "replay": path, "script": scripts[i]})
            key = re.sub(r"\d+", "", why)[:60]
            seen.add(key)
            if self.new_failures():
                break

    # -------------------------------------------------------------- results
    def new_failures(self):
        known = [k for k in known_findings() if k.get("property") == self.pid and k.get("kind") == "finding"]
        return [f for f in self.failures
                if not any(k["family"] == f["family"] and re.search(k["why"], f["why"]) and re.search(k.get("script", ""), json.dumps(f["script"])) for k in known)]

    def finish(self, technique_note="", exploration=None):
        known = [k for k in known_findings() if k.get("property") == self.pid and k.get("kind") == "finding"]
        new = self.new_failures()
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "scripts_replayed": self.scripts, "model_runs": self.model, "families": self.families,
                           "samples": self.samples[:4] or ["none"]},
              "assumptions": ASSUMPTIONS + self.notes, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        for f in new:
            self.log("violation: %s: %s" % (f["family"], f["why"]))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, new[0]["replay"]), flush=True)
            return 1
        self.log("held on everything explored")
        return 0


ASSUMPTIONS = ["TLC evaluates the specification correctly; the driver records what the API shows",
               "scripts not generated are covered only through the model-level check"]


def _short(s):
    t = json.dumps(s, separators=(",", ":"))
    return t if len(t) < 1200 else t[:1200] + "..."
