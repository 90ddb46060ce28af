"""Common machinery of the checks: builds drivers from the current tree, runs scripts, runs TLC."""
import json, os, random, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBS = ["-lboost_coroutine", "-lboost_context", "-lboost_system", "-lboost_thread", "-lpthread"]
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=0",
            "UBSAN_OPTIONS": "halt_on_error=1:exitcode=67:print_stacktrace=0"}


class Broken(Exception):
    """The check itself cannot give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, what, files):
        self.what, self.files = what, files


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, ".build", "%s-%s" % (prop, self.tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, samples=[])
        self.models = {}
        self.assumptions = []
        self.pool = ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
        self.heavy = threading.Semaphore(8)
        self.known = known_findings(prop)
        self.known_hit = set()
        self.procs, self.over = set(), False

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, "/".join(map(str, salt))))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---- processes ------------------------------------------------------------------------------
    def spawn(self, cmd, timeout, cpu=None, **kw):
        """Runs a command to its end; (return code or "timeout", output).  cpu limits its own computing time,
        so that code which never ends is told from a busy machine."""
        def limit():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        with self.heavy:
            if self.over:
                raise Broken("stopped: another part of the check has found a violation")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limit if cpu else None, **kw)
            with self.lock:
                self.procs.add(p)
            try:
                out, _ = p.communicate(timeout=timeout)
                rc = p.returncode
                if cpu and rc == -24:
                    rc, out = "timeout", "no end after %d s of computing" % cpu
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                rc, out = "timeout", "no end after %d s" % timeout
            finally:
                with self.lock:
                    self.procs.discard(p)
            if self.over:
                raise Broken("stopped: another part of the check has found a violation")
        return rc, out

    def stop(self):
        with self.lock:
            self.over = True
            for p in self.procs:
                p.kill()

    # ---- building -----------------------------------------------------------------------------
    def build(self, driver, conf=None, opt="-O0", extra=(), asan=True, name=None):
        out = os.path.join(self.dir, name or "%s%s" % (driver, "" if conf is None else conf))
        cmd = ["clang++", "-std=c++1y", "-w", "-I" + REPO, "-I" + os.path.join(ROOT, "drivers"), opt, "-g0"]
        if conf is not None:
            cmd.append("-DCONF=%s" % conf)
        if asan:
            cmd += ["-fsanitize=address", "-mllvm", "-asan-stack=0"]
        cmd += list(extra) + [os.path.join(ROOT, "drivers", driver + ".cc"), "-o", out] + LIBS
        rc, text = self.spawn(cmd, 800)
        if rc != 0:
            raise Broken("driver %s (configuration %s) does not build:\n%s" % (driver, conf, text[-3000:]))
        return out

    # ---- running a driver -----------------------------------------------------------------------
    def drive(self, binary, script, name, cpu=None):
        """Runs script (list of lines); returns the path of the log.  A crash is a violation."""
        sp, lp = os.path.join(self.dir, name + ".script"), os.path.join(self.dir, name + ".ndjson")
        with open(sp, "w") as f:
            f.write("\n".join(script) + "\n")
        for attempt in (1, 2):
            env = dict(os.environ, **ASAN_ENV)
            cpu = cpu or self.n(120, 400)
            rc, text = self.spawn([binary, sp, lp], 6 * cpu, cpu, env=env, cwd=self.dir)
            if rc == 0:
                return lp
            if rc == "timeout":
                break
            if rc == 3:
                raise Broken("driver rejected its script %s: %s" % (sp, text[-500:]))
        ep = os.path.join(self.dir, name + ".stderr")
        with open(ep, "w") as f:
            f.write(text)
        n = 0
        if os.path.exists(lp):
            n = sum(1 for _ in open(lp))
        first = next((x for x in text.splitlines() if "ERROR" in x or "Assertion" in x or "runtime error" in x or "terminate" in x), text[:200])
        raise Violation("the code under test failed (%s) after %d events: %s" % (rc, n, first), [sp, lp, ep])

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg, name, env=None, workers=1, extra=(), timeout=850, mem="3g"):
        cp = os.path.join(self.dir, name + ".cfg")
        with open(cp, "w") as f:
            f.write(cfg)
        md = os.path.join(self.dir, name + ".md")
        os.makedirs(md, exist_ok=True)
        cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-cp", CP, "tlc2.TLC",
               "-config", cp, "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-nowarning", "-lncheck", "final"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            rc, text = self.spawn(cmd, timeout, cwd=SPEC, env=e)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        if rc == "timeout":
            raise Broken("TLC on %s (%s) ran out of time" % (module, name))
        op = os.path.join(self.dir, name + ".tlc")
        with open(op, "w") as f:
            f.write(text)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        return rc, text, op, gen, dist

    def model(self, module, cfg, name, workers=4, extra=(), env=None, **kw):
        """Model checking proper: the specification itself satisfies its invariants."""
        rc, out, op, gen, dist = self.tlc(module, cfg, name, workers=workers, extra=extra, env=env, **kw)
        if rc != 0 or "No error has been found" not in out and "-simulate" not in extra:
            raise Broken("model %s (%s) does not satisfy its own properties, see %s\n%s" % (module, name, op, out[-1500:]))
        with self.lock:
            self.models[name] = dict(module=module, states=dist, transitions=gen)
        return out

    def generate(self, module, cfg, name, extra=(), **kw):
        """Scripts printed by a generator specification: lines "SCRIPT;command;command..."."""
        out = self.model(module, cfg, name, workers=1, extra=extra, **kw)
        res = []
        for line in out.splitlines():
            i = line.find("SCRIPT;")
            if i >= 0:
                res.append(line[i + 7:].rstrip('"').split(";"))
        if not res:
            raise Broken("generator %s (%s) printed no script" % (module, name))
        return res

    def validate(self, module, log, constants, name, traces=1):
        """Trace checking: TLC accepts the log or says which event it refuses."""
        cfg = "INIT Init\nNEXT Next\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + \
              "".join("  %s = %s\n" % kv for kv in constants.items())
        for attempt in (1, 2):
            rc, out, op, gen, dist = self.tlc(module, cfg, name, env={"TRACE": log})
            if "ACCEPTED" in out:
                n = sum(1 for _ in open(log))
                with self.lock:
                    self.cov["traces_validated_against_impl"] += traces
                    self.cov["events"] += n
                return None
            rej = re.findall(r'<<"REJECTED", (\d+), "([^"]*)"', out)
            if rej:
                return int(rej[-1][0]), sorted({r[1] for r in rej if r[0] == rej[-1][0]}), op
            if "STOPPED" in out:
                m = re.search(r'<<"STOPPED", (\d+)', out)
                return int(m.group(1)), ["no transition of the specification"], op
            # an evaluation error: the event makes no sense in the specification's state (a value outside
            # of every domain, say); lack of memory or time is never an answer
            if attempt == 2 and "The behavior up to this point is" in out and not re.search(r"OutOfMemory|StackOverflow|heap space", out):
                m = re.findall(r"^State (\d+)", out, re.M)
                return int(m[-1]) if m else 1, ["meaningless in the state of the specification"], op
        raise Broken("TLC failed on %s: see %s\n%s" % (log, op, tail_error(out)))

    def conform(self, binary, scripts, module, constants, name):
        """Runs a batch of scripts (each from init to shutdown) in one process and validates the log."""
        lines = [x for s in scripts for x in s]
        log = self.drive(binary, lines, name)
        r = self.validate(module, log, constants, name, traces=len(scripts))
        if r is None:
            with self.lock:
                if len(self.cov["samples"]) < 3:
                    self.cov["samples"].append(dict(batch=name, first_commands=scripts[0][:12], events=open(log).read(600)))
            return
        l, conds, op = r
        small, slog = lines, log
        try:
            small, slog, l, conds = self.shrink(binary, scripts, l, log, module, constants, name, (l, conds))
        except Exception as ex:  # shrinking is a convenience
            self.log("shrinking failed:", ex)
        rp = os.path.join(self.dir, name + ".replay.script")
        with open(rp, "w") as f:
            f.write("\n".join(small) + "\n")
        evl = open(slog).read().splitlines()
        bad = evl[l - 1][:1500] if 0 < l <= len(evl) else ""
        raise Violation("event %d refused by %s (%s): %s" % (l, module, ", ".join(conds), bad), [rp, slog, op])

    def shrink(self, binary, scripts, l, log, module, constants, name, best, budget=25):
        """Greedy reduction of the failing script, re-running the real code and TLC each time."""
        t0 = time.time()
        ev = open(log).read().splitlines()
        inits = [i for i, x in enumerate(ev) if x.startswith('{"e":"init"') or x.startswith('{"e":"start"')]
        k = max(0, sum(1 for i in inits if i < l) - 1)
        cur = scripts[k] if len(inits) == len(scripts) else [x for s in scripts for x in s]
        state = dict(log=log, best=best)

        def fails(cand):
            try:
                lg = self.drive(binary, cand, name + ".shrink", cpu=20)
                r = self.validate(module, lg, constants, name + ".shrink", traces=0)
            except Exception:
                return False
            if r:
                state["best"] = (r[0], r[1])
            return r is not None
        if cur is not scripts[0] or len(scripts) > 1:
            if not fails(cur):
                return [x for s in scripts for x in s], log, best[0], best[1]
        elif not fails(cur):
            return cur, log, best[0], best[1]
        # drop everything after the failing event, then chunks
        size = max(1, len(cur) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i = 1
            changed = False
            while i < len(cur) and time.time() - t0 < budget:
                cand = cur[:i] + cur[i + size:]
                if fails(cand):
                    cur, changed = cand, True
                else:
                    i += size
            if size == 1 and not changed:
                break
            size = max(1, size // 2) if size > 1 else (1 if changed else 0)
        fails(cur)
        return cur, os.path.join(self.dir, name + ".shrink.ndjson"), state["best"][0], state["best"][1]

    # ---- running everything ---------------------------------------------------------------------
    def run(self, body):
        viol, err = None, None
        try:
            body(self)
        except Violation as v:
            viol = v
            self.stop()
        except Broken as b:
            err = str(b)
        except Exception as ex:
            import traceback
            err = traceback.format_exc()
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov["models"] = self.models
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2),
                  assumptions=self.assumptions, violations=1 if viol else 0)
        if viol:
            ev["coverage"]["violation"] = viol.what
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line in self.known_lines():
            print(line)
        if viol:
            print("violated:", viol.what)
            for x in viol.files:
                print("  file:", x)
            print("VIOLATION property=%s replay=%s" % (self.prop, viol.files[0]))
            return 1
        if err:
            print("ERROR (no answer): " + err)
            return 2
        for d in os.listdir(self.dir):
            shutil.rmtree(os.path.join(self.dir, d), ignore_errors=True) if os.path.isdir(os.path.join(self.dir, d)) else os.remove(os.path.join(self.dir, d))
        print("%s holds on everything explored: %d states, %d transitions, %d traces of the real code, %.1f s"
              % (self.prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], wall))
        return 0

    def known_lines(self):
        return ["KNOWN-FINDING: property=%s %s" % (self.prop, k) for k in sorted(self.known_hit)]

    def parallel(self, jobs):
        """jobs: list of (function, args). Raises the first Violation, else the first error."""
        fs = [self.pool.submit(f, *a) for f, a in jobs]
        viol = err = None
        for f in as_completed(fs):
            try:
                f.result()
            except Violation as v:
                if viol is None:
                    viol = v
                    for g in fs:
                        g.cancel()
                    self.stop()
            except BaseException as e:
                from concurrent.futures import CancelledError
                if not isinstance(e, CancelledError):
                    err = err or e
        if viol:
            raise viol
        if err:
            raise err


def tail_error(out):
    i = out.find("Error:")
    return out[i:i + 1800] if i >= 0 else out[-1500:]


def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res
