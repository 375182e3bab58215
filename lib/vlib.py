"""Shared machinery of the checks: build drivers from /repo, run TLC, validate traces, write evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STALL_CPU, STALL_WALL = 20, 100    # seconds a driver may go without recording an event
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed (model error, tool failure): error exit, never a violation."""


class Stop(Exception):
    """A violation is confirmed: no need to look further."""


class Rejection:
    def __init__(self, what, case=None, events=None, detail="", stage=""):
        self.what, self.case, self.events, self.detail, self.stage = what, case, events or [], detail, stage

    def as_dict(self):
        return {"what": self.what, "stage": self.stage, "case": self.case, "events": self.events,
                "detail": self.detail}


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0          # distinct states TLC found while model checking the specification
        self.transitions = 0     # transitions TLC generated while model checking the specification
        self.trace_events = 0    # events of implementation traces explained by TLC
        self.traces = 0          # implementation traces (cases) explained by TLC
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rejections = []
        self.known = []
        self.pool = cf.ThreadPoolExecutor(max_workers=NCPU)
        self._n = 0
        self.log_lines = []
        self.stop = threading.Event()
        self.procs = set()

    # ------------------------------------------------------------------ utilities
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, msg):
        line = "[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg)
        print(line, flush=True)

    def fresh(self, name):
        self._n += 1
        d = os.path.join(self.work, "%03d-%s" % (self._n, name))
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    # ------------------------------------------------------------------ building
    def compile(self, src, name=None, defs=(), std="c++17", san="address", opt="-O0", cxx="g++",
                flags=(), link=(), stage="build", runtime=None):
        """Compile a driver against /repo's working tree.  Returns the path, or None after recording a rejection
        when the library itself still compiles but this use of its public interface does not.
        runtime: a source that replaces the sanitizer's own runtime (compiled without instrumentation)."""
        src = src if os.path.isabs(src) else os.path.join(DRIVERS, src)
        name = name or os.path.splitext(os.path.basename(src))[0]
        d = self.fresh("build-" + name)
        out = os.path.join(d, name)
        cmd = [cxx, "-std=" + std, opt, "-g1", "-w", "-I", os.path.join(REPO, "include"), "-I", DRIVERS]
        if san:
            cmd += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
        if runtime:
            rt, obj = os.path.join(d, "runtime.o"), os.path.join(d, "driver.o")
            pr = subprocess.Popen([cxx, "-std=" + std, "-O2", "-g1", "-w", "-c", os.path.join(DRIVERS, runtime), "-o", rt],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            cmd += ["-D" + x for x in defs] + list(flags) + ["-c", src, "-o", obj]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            rout = pr.communicate()[0]
            if pr.returncode != 0:
                raise CheckError("the runtime does not compile:\n" + rout[:2000])
            if r.returncode == 0:
                k = subprocess.run([cxx, obj, rt, "-o", out] + list(link) + ["-pthread"], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace")
                if k.returncode != 0:
                    raise CheckError("linking %s failed:\n%s" % (name, k.stdout[:2000]))
                return out
        else:
            cmd += ["-D" + x for x in defs] + list(flags) + [src, "-o", out] + list(link) + ["-pthread"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0:
                return out
        triv = os.path.join(d, "triv.cpp")
        with open(triv, "w") as f:
            f.write('#include "efp.hpp"\nint main() { return 0; }\n')
        t = subprocess.run([cxx, "-std=" + std, "-w", "-fsyntax-only", "-I", os.path.join(REPO, "include"), triv],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if t.returncode != 0:
            raise CheckError("the library does not compile:\n" + t.stdout[:3000])
        errs = [l for l in r.stdout.splitlines() if "error" in l][:8]
        if not errs or any("internal compiler error" in l or "Killed" in l for l in errs):
            raise CheckError("compiler failure on %s:\n%s" % (src, r.stdout[:3000]))
        self.rejections.append(Rejection("public use of the library no longer compiles", case=os.path.basename(src),
                                         detail="\n".join(errs), stage=stage))
        return None

    def compile_async(self, *a, **kw):
        return self.pool.submit(self.compile, *a, **kw)

    def compile_all(self, jobs):
        """jobs: list of dicts of compile() arguments; returns the paths (None where rejected)."""
        return list(self.pool.map(lambda j: self.compile(**j), jobs))

    # ------------------------------------------------------------------ TLC
    def _java(self, mem):
        return ["java", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + self.work, "-Xss16m", "-Xmx" + mem, "-cp", JARS]

    def tlc(self, module, cfg, env=None, workers=1, extra=(), mem="3g", timeout=800, name=None, par=False):
        """Run TLC on spec/<module>.tla with the configuration text cfg.  Returns (returncode, output)."""
        d = self.fresh("tlc-" + (name or module))
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        java = self._java(mem)
        if workers != 1:
            java[1] = "-XX:+UseParallelGC"
        cmd = java + ["tlc2.TLC", "-config", "run.cfg", "-workers", str(workers), "-metadir",
                      os.path.join(d, "meta"), "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        log = os.path.join(d, "out.txt")
        with open(log, "w") as f:
            p = self._start(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                self._kill(p)
                rc = -9
            finally:
                self.procs.discard(p)
        with open(log, errors="replace") as f:
            out = f.read()
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return rc, out

    def model_check(self, module, cfg, env=None, workers=4, extra=(), mem="6g", timeout=800, name=None):
        """Exhaustive exploration of the specification.  Any error here is an error of the model."""
        rc, out = self.tlc(module, cfg, env, workers, extra, mem, timeout, name)
        if rc != 0:
            raise CheckError("TLC on %s failed (rc %s):\n%s" % (module, rc, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if not m:
            raise CheckError("TLC on %s gave no statistics:\n%s" % (module, out[-2000:]))
        gen, dist, left = int(m.group(1)), int(m.group(2)), int(m.group(3))
        if left != 0:
            raise CheckError("TLC on %s left %d states unexplored" % (module, left))
        self.transitions += gen
        self.states += dist
        self.extra.setdefault("models", []).append({"module": module, "cfg": name or module, "generated": gen,
                                                     "distinct": dist})
        return out

    def scripts(self, module, cfg, env=None, extra=(), mem="4g", timeout=600, name=None, simulate=None, depth=None,
                workers=1, count_states=True):
        """Behaviours generated by TLC: every line it prints that starts with S| is one script."""
        ex = list(extra)
        if simulate:
            ex += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 7919 + 13)]
        rc, out = self.tlc(module, cfg, env, workers, ex, mem, timeout, name)
        if rc != 0:
            raise CheckError("TLC generation from %s failed (rc %s):\n%s" % (module, rc, out[-3000:]))
        res = []
        for line in out.splitlines():
            if line.startswith('"S|'):
                res.append(line[3:-1].replace('\\"', '"').replace("\\\\", "\\"))
        if not res:
            raise CheckError("TLC generated no behaviours from %s:\n%s" % (module, out[-2000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if m and not simulate and count_states:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
            self.extra.setdefault("models", []).append({"module": module, "cfg": name or module,
                                                         "generated": int(m.group(1)), "distinct": int(m.group(2))})
        return res

    # ------------------------------------------------------------------ processes
    def _start(self, cmd, **kw):
        if self.stop.is_set():
            raise Stop()
        p = subprocess.Popen(cmd, start_new_session=True, **kw)
        self.procs.add(p)
        return p

    @staticmethod
    def _kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()

    def kill_all(self):
        self.stop.set()
        for p in list(self.procs):
            if p.poll() is None:
                self._kill(p)

    @staticmethod
    def _cpu(pid):
        try:
            with open("/proc/%d/stat" % pid) as f:
                x = f.read().rsplit(")", 1)[1].split()
            return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    @staticmethod
    def _rss(pid):
        try:
            with open("/proc/%d/statm" % pid) as f:
                return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
        except (OSError, IndexError, ValueError):
            return 0

    def _watch(self, p, trace, timeout):
        """Waits for a driver.  None, or why it was ended: it ran or slept for long without recording anything."""
        start = time.time()
        size, cpu0, seen = -1, 0.0, start
        step = 0.02
        while True:
            try:
                p.wait(timeout=step)
                return None
            except subprocess.TimeoutExpired:
                step = min(0.5, step * 1.5)
            if self.stop.is_set():
                self._kill(p)
                raise Stop()
            now, cpu = time.time(), self._cpu(p.pid)
            n = os.path.getsize(trace) if os.path.exists(trace) else 0
            if n != size:
                size, cpu0, seen = n, cpu, now
            if self._rss(p.pid) > 4 << 30:
                self._kill(p)
                return "no end to its use of memory"
            if cpu - cpu0 > STALL_CPU or now - seen > STALL_WALL or now - start > timeout:
                self._kill(p)
                return "no progress (%.0f s of CPU, %.0f s of time without an event)" % (cpu - cpu0, now - seen)

    # ------------------------------------------------------------------ running drivers
    def run_driver(self, binary, args=(), stdin_path=None, trace=None, timeout=240, env=None, cwd=None):
        """Runs a driver that writes ndjson to the file named by $TRACE_OUT.  A run that does not end by itself with
        exit code 0 gets a final `crash` event."""
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=67"
        e["TRACE_OUT"] = trace
        e["LC_ALL"] = "C.UTF-8"
        e.update(env or {})
        err = trace + ".err"
        with open(err, "w") as ef, open(stdin_path or os.devnull) as inp:
            p = self._start([binary] + [str(a) for a in args], stdin=inp, stdout=subprocess.DEVNULL, stderr=ef,
                            env=e, cwd=cwd or self.work)
            try:
                why = self._watch(p, trace, timeout)
                rc = -1 if why else p.returncode
                why = why or "exit code %s" % rc
            finally:
                self.procs.discard(p)
        if rc == 3:
            raise CheckError("driver %s does not understand its script %s: %s" % (binary, stdin_path, open(err).read()[:500]))
        if rc != 0:
            msg = ""
            with open(err, errors="replace") as f:
                for line in f:
                    if "ERROR:" in line or "runtime error" in line or "terminate called" in line or "what()" in line:
                        msg += line.strip()[:300] + " "
                        if len(msg) > 600:
                            break
            # drop an unfinished last line
            with open(trace, "ab+") as f:
                f.seek(0)
                data = f.read()
                if data and not data.endswith(b"\n"):
                    cut = data.rfind(b"\n") + 1
                    f.truncate(cut)
                f.seek(0, 2)
                f.write((json.dumps({"op": "crash", "why": why, "msg": msg}) + "\n").encode())
        return rc

    # ------------------------------------------------------------------ trace validation
    def validate_one(self, module, trace, cfg_extra="", mem="3g", timeout=800, env=None):
        """Returns None when TLC explains the whole trace, otherwise the 1-based number of the event it rejects."""
        e = {"TRACE": trace}
        e.update(env or {})
        spec = "" if "SPECIFICATION" in cfg_extra else "SPECIFICATION TraceSpec\n"
        cfg = spec + "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" + cfg_extra
        rc, out = self.tlc(module, cfg, e, 1, (), mem, timeout, "trace-" + module)
        m = re.search(r'<<"REJECTED_AT", (\d+)>>', out)
        if m:
            return int(m.group(1)), out
        if rc != 0:
            # An invariant of the specification broken by the observed behaviour
            mi = re.search(r"Invariant (\w+) is violated", out)
            if mi:
                ml = re.findall(r"/\\ l = (\d+)", out)
                return (int(ml[-1]) - 1 if ml else 1), out
            raise CheckError("TLC trace validation with %s failed (rc %s):\n%s" % (module, rc, out[-4000:]))
        return None, out

    def shard(self, scripts, n, name):
        """Split the scripts into n files of roughly equal size; returns [(path, scripts)]."""
        n = max(1, min(n, len(scripts)))
        d = self.fresh("scripts-" + name)
        buckets = [[] for _ in range(n)]
        sizes = [0] * n
        for s in scripts:
            k = sizes.index(min(sizes))
            buckets[k].append(s)
            sizes[k] += len(s) + 20
        res = []
        for k, b in enumerate(buckets):
            p = os.path.join(d, "s%02d.txt" % k)
            with open(p, "w") as f:
                f.write("".join(x + "\n" for x in b))
            res.append((p, b))
        return res

    def conform(self, binary, scripts, module, stage, args=(), shards=None, cfg_extra="", timeout=240, env=None,
                max_events=45000, tlc_env=None, count=True):
        """Replay scripts on the real code, validate the traces with TLC, record rejections (confirmed by a re-run)."""
        self.conform_many([dict(binary=binary, scripts=scripts, module=module, stage=stage, args=args, shards=shards,
                                cfg_extra=cfg_extra, timeout=timeout, env=env, max_events=max_events,
                                tlc_env=tlc_env, count=count)])

    def conform_many(self, jobs):
        """Like conform for several (binary, scripts, trace specification) at once; the binary may be a future."""
        todo = []
        for j in jobs:
            j = dict(j)
            b = j["binary"]
            b = b.result() if hasattr(b, "result") else b
            if b is None or not j["scripts"]:
                continue
            n = j.get("shards") or NCPU
            for path, cases in self.shard(j["scripts"], n, j["stage"]):
                todo.append((b, path, cases, j["module"], j["stage"], j.get("args", ()), j.get("cfg_extra", ""),
                             j.get("timeout") or 240, j.get("env"), j.get("max_events") or 45000, j.get("tlc_env"),
                             j.get("count", True)))

        def part(t):
            try:
                rej = self._conform_part(*t)
            except Stop:
                return
            if rej:
                self.rejections.append(rej)
                self.stop.set()
        list(self.pool.map(part, todo))
        if self.rejections:
            raise Stop()

    def _drive(self, binary, path, args, timeout, env, tag):
        trace = path + "." + tag + ".ndjson"
        if os.path.exists(trace):
            os.remove(trace)
        open(trace, "w").close()
        self.run_driver(binary, args, path, trace, timeout, env)
        return trace

    def _split(self, trace, max_events):
        """Cut a trace at `case` events into files TLC validates separately."""
        with open(trace) as f:
            lines = f.readlines()
        if len(lines) <= max_events:
            return [(trace, lines)]
        res, cur = [], []
        for ln in lines:
            if len(cur) >= max_events and ln.startswith('{"op":"case"'):
                res.append(cur)
                cur = []
            cur.append(ln)
        res.append(cur)
        out = []
        for k, c in enumerate(res):
            p = "%s.%d" % (trace, k)
            with open(p, "w") as f:
                f.writelines(c)
            out.append((p, c))
        os.remove(trace)
        return out

    def _conform_part(self, binary, path, cases, module, stage, args, cfg_extra, timeout, env, max_events, tlc_env, count):
        trace = self._drive(binary, path, args, timeout, env, "t1")
        for tpath, lines in self._split(trace, max_events):
            if not lines:
                continue
            bad, out = self.validate_one(module, tpath, cfg_extra, env=tlc_env)
            if bad is None:
                if count:
                    self.trace_events += len(lines)
                    self.traces += sum(1 for x in lines if x.startswith('{"op":"case"'))
                if len(self.samples) < 6:
                    self.samples.append({"stage": stage, "events": [x.strip()[:400] for x in lines[:6]]})
                os.remove(tpath)
                continue
            rej = self._confirm(binary, cases, module, stage, args, cfg_extra, timeout, env, lines, bad, tlc_env, path)
            if rej:
                return rej
        return None

    @staticmethod
    def _case_of(lines, bad):
        """(case number, events of that case up to the rejected one)"""
        bad = min(bad, len(lines))
        k = bad - 1
        while k > 0 and not lines[k].startswith('{"op":"case"'):
            k -= 1
        try:
            num = json.loads(lines[k]).get("k")
        except Exception:
            num = None
        return num, [x.strip() for x in lines[k:bad]]

    def _confirm(self, binary, cases, module, stage, args, cfg_extra, timeout, env, lines, bad, tlc_env, path):
        num, events = self._case_of(lines, bad)
        todo = []
        if isinstance(num, int) and 0 <= num < len(cases):
            todo.append([cases[num]])
        todo.append(cases)
        for i, cs in enumerate(todo):
            p = "%s.confirm%d" % (path, i)
            with open(p, "w") as f:
                f.write("".join(x + "\n" for x in cs))
            t2 = self._drive(binary, p, args, timeout, env, "t2")
            for tp, ls in self._split(t2, 10 ** 9 if len(cs) == 1 else 45000):
                if not ls:
                    continue
                b2, out = self.validate_one(module, tp, cfg_extra, env=tlc_env)
                if b2 is not None:
                    n2, ev2 = self._case_of(ls, b2)
                    case = cs[n2] if isinstance(n2, int) and 0 <= n2 < len(cs) else None
                    inv = re.search(r"Invariant (\w+) is violated", out)
                    return Rejection("the specification %s does not allow this behaviour of the code" % module, case, ev2[-60:],
                                     "rejected event: " + (ev2[-1] if ev2 else "(none: the trace is incomplete)")
                                     + (" (invariant %s)" % inv.group(1) if inv else ""), stage)
        self.log("note: a rejection in stage %s did not repeat and is not reported: %s" % (stage, events[-1][:500] if events else ""))
        return None

    # ------------------------------------------------------------------ finishing
    def finish(self, level="model_checking"):
        viol = len(self.rejections)
        replay = None
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, os.getpid()))
            with open(replay, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                           "rejections": [r.as_dict() for r in self.rejections]}, f, indent=1)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events_validated": self.trace_events,
               "samples": self.samples or [{"note": "no trace was accepted in this run"}]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.work, ignore_errors=True)
        self.log("states %d, transitions %d, traces %d, events %d" % (self.states, self.transitions, self.traces,
                                                                     self.trace_events))
        if viol:
            for r in self.rejections[:5]:
                print("  %s: %s\n    case: %s\n    %s" % (r.stage, r.what, str(r.case)[:300], r.detail[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay), flush=True)
            return 1
        print("OK property=%s" % self.pid, flush=True)
        return 0


def main(pid, explore):
    os.environ.setdefault("LC_ALL", "C.UTF-8")
    ctx = Ctx(pid)
    try:
        explore(ctx)
        rc = ctx.finish()
    except (CheckError, Stop) as e:
        ctx.kill_all()
        if ctx.rejections:
            rc = ctx.finish()
        else:
            print("CHECK ERROR (%s): %s" % (pid, e), flush=True)
            rc = 2
    ctx.kill_all()
    sys.stdout.flush()
    os._exit(rc)
