"""Shared machinery of the checks: run TLC / Quint on the committed specifications, build the replay
drivers from /repo's working tree, replay, compare, report.  See DESIGN.md."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS, DRIVERS = os.path.join(VERIF, "specs"), os.path.join(VERIF, "drivers")
SHIM = os.path.join(VERIF, "shim")
CXX = "clang++-18"
BASE_FLAGS = ["-std=c++17", "-w", "-fconstexpr-steps=2147483647", "-ferror-limit=3",
              # reading or writing outside an array ends the case
              "-D_GLIBCXX_ASSERTIONS", "-fsanitize=bounds", "-fsanitize-trap=bounds",
              "-I" + SHIM, "-I" + os.path.join(REPO, "include"), "-I" + DRIVERS]


class Broken(Exception):
    """The machinery itself failed (not the code under test)."""


class BuildFailed(Exception):
    def __init__(self, unit, log):
        super().__init__("driver does not compile: " + unit)
        self.unit, self.log = unit, log


def sh(cmd, timeout, cwd=None, env=None, stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, (out or b"").decode("utf8", "replace")
    return p.returncode, (out or b"").decode("utf8", "replace")


def itf(v):
    """ITF value -> case text"""
    if isinstance(v, dict):
        for k in ("#bigint", "#tup", "#set", "#map"):
            if k in v:
                return v[k] if k == "#bigint" else itf(v[k])
        if set(v) == {"tag", "value"}:
            return itf(v["value"])
        return itf([v[k] for k in sorted(v)])
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, list):
        return "<<" + ", ".join(itf(x) for x in v) + ">>"
    return str(v)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "build"))
        self.lock = threading.Lock()
        self.states = self.distinct = self.replayed = self.compared = self.traces = 0
        self.samples, self.counts, self.fails = [], {}, []      # fails: (key, detail, case, driver)
        self.runs = []          # what was explored, for the evidence
        self.known = self.load_known()
        self.assume = []
        self.groups = {}
        self.exhaustive = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, n):
        return os.path.join(self.dir, n)

    # ------------------------------------------------------------------ known findings
    def load_known(self):
        out = []
        f = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r"known: property=(\S+) key=\[(.*?)\] case=\[(.*?)\] (.*)", line)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3), m.group(4).strip()))
        return out

    # ------------------------------------------------------------------ specifications
    def tlc(self, name, module, consts, out, invariants=(), properties=(), constraint=None, spec="Spec",
            simulate=None, depth=None, timeout=600, workers=8, xmx="6g", deadlock=False, extra_env=None):
        """Run TLC on `module` with the given constants; exported transitions go to file `out`."""
        d = self.path("tlc-" + name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        mc, cfg = "MC_" + re.sub(r"\W", "_", name), []
        body = ["---- MODULE %s ----" % mc, "EXTENDS " + module]
        cfg.append("SPECIFICATION " + spec)
        for k, v in consts.items():
            body.append("C_%s == %s" % (k, v))
            cfg.append("CONSTANT %s <- C_%s" % (k, k))
        body.append("====")
        cfg += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if not deadlock:
            cfg.append("CHECK_DEADLOCK FALSE")
        open(os.path.join(d, mc + ".tla"), "w").write("\n".join(body) + "\n")
        open(os.path.join(d, mc + ".cfg"), "w").write("\n".join(cfg) + "\n")
        outf = self.path(out)
        open(outf, "a").close()
        cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:" + self._cm(), "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "md"), "-config", mc + ".cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 10), "-seed", str(self.seed)]
        cmd.append(mc + ".tla")
        env = {"OUT": outf}
        env.update(extra_env or {})
        rc, log = sh(cmd, timeout, cwd=d, env=env)
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", log)
        g = [int(x.replace(",", "")) for x in m[-1]] if m else [0, 0]
        if simulate:
            m = re.findall(r"(\d+) states checked", log) or re.findall(r"Progress: ([\d,]+) states checked", log)
            g = [int(m[-1].replace(",", "")), 0] if m else g
        if rc != 0:
            raise Broken("TLC %s failed (rc %d):\n%s" % (name, rc, log[-3000:]))
        for line in open(outf):         # concurrent TLC workers append to one file: every line must have come out whole
            if not (line.startswith('"<<') and line.endswith('>>"\n') and line.count('"<<') == 1 and line.count("<<") == line.count(">>")):
                raise Broken("TLC %s: garbled export line %s" % (name, line[:200]))
        with self.lock:
            self.states += g[0]
            self.distinct += g[1]
            self.runs.append("TLC %s: %d states generated, %d distinct%s" % (name, g[0], g[1], " (simulation)" if simulate else ", exhaustive"))
        return outf

    _cmjar = None

    @classmethod
    def _cm(cls):
        if cls._cmjar is None:
            c = []
            for root, _, fs in os.walk("/opt/veriftools/tla"):
                c += [os.path.join(root, f) for f in fs if f.endswith(".jar") and "ommunity" in f]
            cls._cmjar = ":".join(c)
        return cls._cmjar

    def quint(self, name, module, main, out=None, steps=20, samples=1, traces=1, invariants=(), seed=None, timeout=600,
              files=None, step=None, init=None, mbt=False):
        """quint run (random simulation of the specification); ITF traces to out_<i>.itf.json"""
        d = self.path("quint-" + name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPECS):
            if f.endswith(".qnt"):
                shutil.copy(os.path.join(SPECS, f), d)
        for n, text in (files or {}).items():
            open(os.path.join(d, n), "w").write(text)
        cmd = ["quint", "run", "--main", main, "--max-steps", str(steps), "--max-samples", str(samples),
               "--n-traces", str(traces), "--backend", "typescript",
               "--seed", "0x" + hashlib.sha1(("%s/%s" % (name, seed if seed is not None else self.seed)).encode()).hexdigest()[:11], "--verbosity", "1"]
        if out:
            cmd += ["--out-itf", os.path.join(d, out + "_{seq}.itf.json")]
        if mbt:
            cmd.append("--mbt")
        if step:
            cmd += ["--step", step]
        if init:
            cmd += ["--init", init]
        for i in invariants:
            cmd += ["--invariant", i]
        cmd.append(module)
        rc, log = sh(cmd, timeout, cwd=d, env={"NODE_OPTIONS": "--max-old-space-size=8000"})
        return rc, log, d

    def qcases(self, name, module, main, out, steps, runs=1, invariants=(), timeout=600, files=None, step=None, init=None, filesof=None):
        """Simulate a Quint specification `runs` times in parallel (different seeds) and append the
        transitions (state variable ev) of every trace to file `out` as <<op, parameters, args, result>> lines."""
        def one(i):
            n = "%s-%d" % (name, i)
            rc, log, d = self.quint(n, module, main, out="t", steps=steps, invariants=invariants, seed=self.seed * 64 + i,
                                    timeout=timeout, files=filesof(i) if filesof else files, step=step, init=init)
            f = os.path.join(d, "t_0.itf.json")
            if rc != 0 or not os.path.exists(f):
                raise Broken("quint %s failed (rc %d):\n%s" % (n, rc, log[-2000:]))
            evs = []
            for st in json.load(open(f))["states"]:
                ev = st["ev"]
                if ev["op"] != "none":
                    evs.append("<<" + ev["op"] + ", " + itf(ev.get("par", [])) + ", " + itf(ev["args"]) + ", " + itf(ev["res"][0] if ev.get("single") else ev["res"]) + ">>")
            os.unlink(f)
            return evs
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, range(runs)))
        with open(self.path(out), "a") as h:
            for r in rs:
                h.write("".join(x + "\n" for x in r))
        n = sum(map(len, rs))
        with self.lock:
            self.states += n
            self.distinct += len(set(x for r in rs for x in r))
            self.runs.append("Quint %s: %d simulated behaviours, %d transitions, invariants: %s" %
                             (name, runs, n, ", ".join(invariants) or "none"))
        return self.path(out)

    # ------------------------------------------------------------------ drivers
    def cc(self, src, obj, defs=(), opt="-O1", extra=(), timeout=850):
        cmd = [CXX] + BASE_FLAGS + [opt] + list(defs) + list(extra) + ["-c", os.path.join(DRIVERS, src), "-o", self.path(obj)]
        rc, log = sh(cmd, timeout, cwd=self.dir)
        if rc != 0 and "error:" not in log:
            raise Broken("compiler ended with %d on %s: %s" % (rc, src, log[-500:]))
        if rc != 0:
            raise BuildFailed(src + " " + " ".join(defs), log)
        return self.path(obj)

    def link(self, exe, objs, libs=()):
        rc, log = sh([CXX, "-o", self.path(exe)] + objs + list(libs), 200, cwd=self.dir)
        if rc != 0:
            raise BuildFailed("link " + exe, log)
        return self.path(exe)

    def build(self, exe, units, libs=(), jobs=8):
        """units: list of (source, defs[, opt]); compiled in parallel"""
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(self.cc, u[0], "%s_%d.o" % (exe, i), u[1], *(u[2:3])) for i, u in enumerate(units)]
            objs = [f.result() for f in fs]
        return self.link(exe, objs, libs)

    def replay(self, exe, cases, name=None, timeout=600, shards=1, group=None):
        """Run a driver over exported cases; disagreements are collected (not yet judged).
        group: regular expression whose first group names the lines that belong together."""
        files = [cases]
        if group:
            self.groups[exe] = (group, cases)
        if shards > 1:
            hs = [open("%s.%d" % (cases, i), "w") for i in range(shards)]
            g = re.compile(group) if group else None
            for i, line in enumerate(open(cases)):
                if g:
                    m = g.search(line)
                    i = int(hashlib.sha1((m.group(1) if m else "").encode()).hexdigest()[:8], 16)
                hs[i % shards].write(line)
            for h in hs:
                h.close()
            files = [h.name for h in hs]

        def one(f):
            rep = f + ".rep.json"
            rc, log = sh([exe, f, rep], timeout, cwd=self.dir)
            if rc != 0 or not os.path.exists(rep):
                return {"cases": 0, "total": 0, "counts": {}, "fails": 1,
                        "failures": ["driver\tdriver ended with %d: %s\t" % (rc, log[-500:].replace("\n", " "))], "failkeys": {"driver": 1}}
            return json.load(open(rep))
        with cf.ThreadPoolExecutor(8) as ex:
            reps = list(ex.map(one, files))
        with self.lock:
            n = 0
            for file, r in zip(files, reps):
                self.replayed += r["cases"]
                n += r["total"]
                for k, v in r["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                for f in r["failures"]:
                    k, d, c = (f.split("\t") + ["", ""])[:3]
                    self.fails.append((k, d, c, exe, file))
            self.compared += n
            self.runs.append("replay %s: %d transitions, %d comparisons against the library" %
                             (name or os.path.basename(cases), sum(r["cases"] for r in reps), n))
        self.sample(cases)
        if sum(r["cases"] for r in reps) == 0 and not self.fails:
            raise Broken("no case replayed for " + cases)
        return reps

    def sample(self, f, n=4):
        lines = []
        with open(f) as h:
            for i, line in enumerate(h):
                if i in (0, 101, 1009, 10007):
                    lines.append(line.strip()[:400])
        with self.lock:
            self.samples += lines[:n]

    def confirm(self):
        """Re-run every failing case alone, or failing that with all that ran before it in its process;
        only a reproducible disagreement counts."""
        out, again = [], {}
        bykey = {}
        for f in self.fails:
            bykey.setdefault((f[0], f[3]), []).append(f)
        for (k, exe), fs in bykey.items():
            for f in fs[:3]:
                if not f[2] or not exe:
                    out.append(f)
                    continue
                c = self.path("confirm.txt")
                with open(c, "w") as h:
                    if exe in self.groups:      # the lines that give the case its context
                        pat, cases = self.groups[exe]
                        m = re.search(pat, f[2])
                        for line in open(cases):
                            if m and line[:8].find("rep") >= 0 and m.group(1) in line:
                                h.write(line)
                    h.write(f[2] + "\n")
                rep = c + ".json"
                if os.path.exists(rep):
                    os.unlink(rep)
                rc, _ = sh([exe, c, rep], 120, cwd=self.dir)
                r = json.load(open(rep)) if rc == 0 and os.path.exists(rep) else {"fails": 1, "failkeys": {k: 1}}
                if not r["fails"] and len(f) > 4:
                    if f[4] not in again:
                        rep = f[4] + ".again.json"
                        rc, _ = sh([exe, f[4], rep], 300, cwd=self.dir)
                        again[f[4]] = json.load(open(rep))["failures"] if rc == 0 and os.path.exists(rep) else None
                    if again[f[4]] is None or any(x.split("\t")[0] == k for x in again[f[4]]):
                        r["fails"] = 1
                if r["fails"]:
                    out.append(f)
            out += fs[3:] if any(o[0] == k for o in out) else []
        return out

    # ------------------------------------------------------------------ verdict
    def is_known(self, f):
        for key, case, desc in self.known:
            if re.search(key, f[0]) and (not case or case in (f[2] + " " + f[1])):
                return desc
        return None

    def finish(self, rule=None):
        fails = self.confirm() if self.fails else []
        known, bad = {}, []
        for f in fails:
            d = self.is_known(f)
            if d:
                known[d] = known.get(d, 0) + 1
            else:
                bad.append(f)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {"states": self.distinct or self.states, "transitions": self.states,
                         "traces_validated_against_impl": self.replayed + self.traces,
                         "comparisons": self.compared,
                         "per_operation": dict(sorted(self.counts.items())),
                         "runs": self.runs, "samples": self.samples[:12] or ["(none)"]},
            "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        if self.exhaustive is not None:
            ev["coverage"]["exhaustive"] = self.exhaustive
        edir = os.path.join(VERIF, "build", "evidence-scratch") if os.environ.get("VERIF_SCRATCH") else os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        json.dump(ev, open(os.path.join(edir, self.pid + ".json"), "w"), indent=1)
        for d, n in known.items():
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.pid, d, n))
        for r in self.runs:
            print("  " + r)
        code = 0
        if bad:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            text = "\n".join("%s | %s | %s" % (b[0], b[1], b[2]) for b in bad)
            rp = os.path.join(rd, "%s-%s.txt" % (self.pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
            open(rp, "w").write("# property %s, tier %s, seed %d: disagreements between specification and library\n"
                                "# operation | what the library gave | exported transition <<op, parameters, operands, specified result>>\n"
                                % (self.pid, self.tier, self.seed) + text + "\n")
            for b in bad[:5]:
                print("  mismatch: %s | %s | %s" % (b[0], b[1][:300], b[2][:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            code = 1
        else:
            print("OK property=%s %d states, %d transitions replayed, %d comparisons, %.1fs" %
                  (self.pid, self.distinct or self.states, self.replayed + self.traces, self.compared, time.time() - self.t0))
        return code


def parallel(*fs):
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        return [r.result() for r in [ex.submit(f) for f in fs]]


def main(checks):
    pid = sys.argv[1]
    c = Check(pid)
    c.tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    code = 2
    try:
        for attempt in (0, 1):
            try:
                checks[pid](c)
                code = c.finish()
                break
            except BuildFailed as b:
                c.fails.append(("build", str(b) + " :: " + re.sub(r"\s+", " ", b.log)[:1500], "", None))
                code = c.finish()
                break
            except Broken as b:
                if attempt:
                    raise
                print("retrying: " + str(b)[:500])
                c.fails.clear()
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)
