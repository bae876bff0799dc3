"""Shared by all checks: building, running phases, confirming rejections, evidence, replay files."""
import json, os, random, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, pipe
from pipe import Pipe, Case, ToolError

VERIF = build.VERIF
OUT = os.path.join(VERIF, "out")
DRVFLAGS = ["-std=c++17", "-O2", "-fopenmp", "-w"]


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class NoInstrument(Exception):
    """the library uses a construct of the OpenMP runtime that driver/sched.cpp does not provide"""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        os.makedirs(OUT, exist_ok=True)
        self.wd = tempfile.mkdtemp(prefix="%s-" % pid, dir=OUT)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], parts=[])
        self.notes = []
        self._drv = self._sdrv = None
        self.want_raw, self._raw = False, None        # a check of the transforms with the caller's work arrays sets want_raw

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- building
    def raw_object(self):
        """the part of the driver that knows FFT0 and DCT0: internal headers, so it is used only where it is needed"""
        if self._raw is None:
            try:
                if not self.want_raw:
                    raise build.BuildError("")
                self._raw = [build.compile_one(os.path.join(VERIF, "driver", "raw.cpp"), build.BASE + build.COMMON + ["-std=c++17"], "raw")], True
                build.link(build.lib_objects() + build.driver_objects(["drv.cpp", "alloc.cpp"], DRVFLAGS, "drv") + self._raw[0], os.path.join(self.wd, "rawtry"), ["-fopenmp", "-lpthread"] + build.WRAPFLAGS)
            except build.BuildError as e:
                self._raw = build.driver_objects(["noraw.cpp"], DRVFLAGS, "drv"), False
                if self.want_raw:
                    self.log("NOTE no FFT0/DCT0 as the driver knows them: their part is left out: %s" % str(e)[-400:])
                    self.notes.append("FFT0/DCT0 not found in the form the driver knows; their part was left out")
        return self._raw

    def driver(self):
        if not self._drv:
            lib = build.lib_objects()
            drv = build.driver_objects(["drv.cpp", "alloc.cpp"], DRVFLAGS, "drv")
            self._drv = build.link(lib + drv + self.raw_object()[0], os.path.join(self.wd, "drv"), ["-fopenmp", "-lpthread"] + build.WRAPFLAGS)
            self.log("driver built")
        return self._drv

    def sched_driver(self):
        """the same driver on instrumented library objects, with the runtime of driver/sched.cpp"""
        if not self._sdrv:
            lib = build.sched_objects()
            drv = build.driver_objects(["drv.cpp", "alloc.cpp", "sched.cpp"], ["-std=c++17", "-O2", "-DSCHED", "-fopenmp", "-w"], "sdrv")
            try:
                self._sdrv = build.link(lib + drv + self.raw_object()[0], os.path.join(self.wd, "sdrv"), ["-lpthread"] + build.SCHEDWRAPS)
            except build.BuildError as e:
                self.driver()                                   # the plain one must link
                raise NoInstrument(str(e)[-600:])
            self.log("instrumented driver built")
        return self._sdrv

    # -- model checking runs of the specification itself
    def model(self, spec, cfg, env=None, workers=8, name=None, timeout=800, heap="6g", extra=(), refuted=False):
        """model checking; refuted: the configuration leaves out something needed, and must have a counterexample"""
        rc, out = pipe.tlc(spec, cfg, self.wd, env, workers=workers, timeout=timeout, heap=heap, extra=extra)
        st, tr = pipe.tlc_stats(out)
        self.cov["states"] += st; self.cov["transitions"] += tr
        if refuted != (rc != 0) or (refuted and "is violated" not in out):
            raise ToolError("the specification itself fails: %s %s\n%s" % (spec, cfg, out[-3000:]))
        self.cov["parts"].append(dict(part=name or spec, kind="model checking of the specification" + (" (a counterexample is required and found)" if refuted else ""), states=st, transitions=tr))
        self.log("model %s: %d states" % (name or spec, st))
        return out

    # -- scripts against the real code
    def phase(self, name, cases, focus, jobs=None, parts=None, env=None, limit=None, sched=False):
        if not self.raw_object()[1]:
            cases = [x for x in cases if not any(s["e"] == "raw" for s in x.steps)]
        if not cases:
            return
        if sched:
            try:
                self.sched_driver()
            except NoInstrument as ex:
                self.log("NOTE phase %s left out, no instrumented driver: %s" % (name, ex))
                self.notes.append("phase %s left out: %s" % (name, ex))
                return
        e = dict(env or {})
        if limit:
            e["DRV_LIMIT"] = str(limit)
        p = Pipe(focus, self.wd, exe=self.sched_driver() if sched else self.driver(), env=e)
        jobs = jobs or pipe.JOBS
        t = time.time()
        rej = p.run(cases, parts=parts or jobs, jobs=jobs)
        s = p.stats
        self.cov["states"] += s["states"]; self.cov["transitions"] += s["transitions"]
        self.cov["traces_validated_against_impl"] += s["traces"]
        self.cov["parts"].append(dict(part=name, kind="conformance: elaborated by TLC, replayed in the library, trace validated by TLC",
                                      cases=len(cases), trace_lines=s["steps"], transforms=s["xforms"],
                                      largest_error_in_eps=s["maxr"], observations_bound=list(focus)))
        if sched:
            self.cov["parts"][-1].update({k: s.get(k, 0) for k in ("regions", "epochs", "preemptions")})
        c = self.rng.choice(cases)
        self.cov["samples"].append(dict(part=name, case=c.label, fill=c.fill, guard=c.guard, threads=c.thr, steps=c.steps[:8]))
        self.log("phase %s: %d cases, %d transforms, max error %d eps, %.1f s" % (name, len(cases), s["xforms"], s["maxr"], time.time() - t))
        for case, si, line, before in rej:
            self.confirm(name, case, focus, e, si, line, sched, before)

    def confirm(self, name, case, focus, env, si, line, sched, before):
        """a rejection counts only if it repeats: in a run of the case alone, or after the cases that came before it in its process"""
        tries = [[case], [case]]
        if case.grp is None:
            tries += [before[-k:] for k in (8, 64) if k < len(before)] + [before, before]
        for t in tries:
            p = Pipe(focus, self.wd, exe=self.sched_driver() if sched else self.driver(), env=env)
            r = p.run(t, parts=1, jobs=1)
            if r:
                case, si, line, before = r[0]
                rp = os.path.join(OUT, "replay-%s.json" % self.pid)
                cs = case.grp or before
                json.dump(dict(property=self.pid, part=name, focus=list(focus), env=env, sched=sched, together=case.grp is not None,
                               rejected_case=case.label, rejected_step=si, observed=line,
                               cases=[dict(fill=x.fill, guard=x.guard, thr=x.thr, label=x.label, steps=x.steps) for x in cs]), open(rp, "w"), indent=1)
                raise Violation("%s: %s: step %d %s: the specification does not allow %s" %
                                (name, case.label, si, json.dumps(case.steps[si])[:200] if si >= 0 else "", json.dumps(line)[:400]), rp)
        self.notes.append("a rejection did not repeat: %s step %d %s" % (case.label, si, json.dumps(line)[:1500]))
        self.log("NOTE: rejection did not repeat:", case.label, si, json.dumps(line)[:1500])

    def violation(self, what, data):
        rp = os.path.join(OUT, "replay-%s.json" % self.pid)
        d = dict(property=self.pid, what=what); d.update(data)
        json.dump(d, open(rp, "w"), indent=1, default=str)
        raise Violation(what, rp)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov, wall_s=round(time.time() - self.t0, 2))
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", "%s.json" % self.pid)
        json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
        os.replace(p + ".tmp", p)

    def run(self, fn):
        rc = 0
        try:
            fn(self)
            self.log("held on everything explored")
        except Violation as v:
            self.log("violation:", v.what)
            self.cov["violation"] = v.what
            print("VIOLATION property=%s replay=%s" % (self.pid, v.replay), flush=True)
            rc = 1
        except build.BuildError as e:
            print("BUILD ERROR", e, file=sys.stderr); rc = 3
        except ToolError as e:
            print("TOOL ERROR", e, file=sys.stderr); rc = 4
        except Exception:
            traceback.print_exc(); rc = 5
        finally:
            self.finish()
            os.environ.get("KEEP_WD") or shutil.rmtree(self.wd, ignore_errors=True)
        return rc


def load_cases(d):
    out = []
    for x in d["cases"]:
        c = Case(fill=x["fill"], guard=x["guard"], thr=x["thr"], label=x["label"])
        c.steps = x["steps"]
        out.append(c)
    if d.get("together"):
        for c in out:
            c.grp = out
    return out
