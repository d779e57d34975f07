#!/opt/venv/bin/python
"""Decides one property: python run.py ID [quick|thorough]

Exit 0: no violation within what was explored.  Exit 1 with a VIOLATION line:
a counterexample that was reproduced on the unmodified product.  Exit 2: no
answer.
"""
from __future__ import annotations

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.executable) != os.path.realpath(PY):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import multiprocessing as mp  # noqa: E402
import select  # noqa: E402
import subprocess  # noqa: E402
from multiprocessing.connection import wait  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Replayer:
    """Concrete runs in a fresh interpreter, one per hash seed."""

    def __init__(self, check):
        self.check = check
        self.procs = {}
        self.runs = 0

    def proc(self, seed):
        p = self.procs.get(seed)
        if p is None:
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.Popen([PY, os.path.join(HERE, "symex", "replay.py"), "--server", self.check],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 text=True, env=env, cwd=HERE)
            self.procs[seed] = p
        return p

    def run(self, shape, assignment, known=(), seed=0, timeout=60):
        p = self.proc(seed)
        self.runs += 1
        try:
            p.stdin.write(json.dumps(dict(check=self.check, shape=shape, assignment=assignment,
                                          known=list(known))) + "\n")
            p.stdin.flush()
            if not select.select([p.stdout], [], [], timeout)[0]:
                p.kill()
                del self.procs[seed]
                return dict(status="timeout", msg="", keys=[], observations=[], found=[])
            line = p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            self.procs.pop(seed, None)
            return dict(status="crash", msg="replay server died", keys=[], observations=[], found=[])
        return json.loads(line)

    def close(self):
        for p in self.procs.values():
            p.kill()


def load_known(check):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    doc = json.load(open(path, encoding="utf-8"))
    return {e["id"]: e for e in doc.get("known", []) if e["property"] == check}


class Run:
    def __init__(self, check, tier):
        self.check, self.tier = check, tier
        self.known = load_known(check)
        self.t0 = time.time()
        self.stats = {}
        self.covers = set()
        self.samples = []
        self.found = {}
        self.pending_cands = []
        self.unsupported = []
        self.errors = []
        self.unconfirmed = []
        self.violation = None
        self.incomplete = []
        self.rep = Replayer(check)
        self.mismatch = None
        self.eager_tasks = 0
        self.tried = {}
        self.outside_runs = {}
        self.outside_time = 0.0

    def log(self, *a):
        print(f"[{self.check} {time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    # -------------------------------------------------------- workers
    def start_workers(self):
        from symex.worker import worker_main

        ctx = mp.get_context("fork")
        self.conns, self.procs = [], []
        for _ in range(NPROC):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker_main, args=(b, self.check, tuple(self.known), self.tier), daemon=True)
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)
        for c in self.conns:
            try:
                m = c.recv()
            except EOFError:
                m = ("fail", "worker died")
            if m[0] != "ready":
                raise SystemError("worker start: " + m[1])
            self.funcs = m[2]

    def stop_workers(self):
        for p in self.procs:
            p.kill()

    # -------------------------------------------------------- violations
    def confirm(self, cand):
        """Replays a candidate; True if it is a violation of the real code."""
        shape = self.shapes[cand["shape"]]
        seeds = range(0, 12) if shape.get("setorder") else (0,)
        tries = [({k: v for k, v in cand["assignment"].items() if k != "#sha256"}, s) for s in seeds]
        if "#sha256" in cand["assignment"]:
            # colliding prefixes of digests exist but cannot be computed here: the
            # replay takes the digests the solver chose for these texts
            tries.append((cand["assignment"], 0))
        for assignment, seed in tries:
            r = self.rep.run(shape, assignment, self.known, seed)
            if r["status"] in ("violated", "exception"):
                self.violation = dict(check=self.check, shape=shape, assignment=assignment,
                                      hashseed=seed, key=cand["key"], msg=r["msg"] or cand["msg"])
                return True
            if r["status"] in ("crash", "timeout"):
                self.errors.append(f"replay {r['status']}: {r['msg'][-400:]}")
        return False

    def handle_cands(self, cands, queue):
        for c in cands:
            k = (c["shape"], c["key"], c["eager"])
            n = self.tried.get(k, 0)
            if n >= 40:
                continue
            self.tried[k] = n + 1
            if self.confirm(c):
                return True
            self.nlogged = getattr(self, "nlogged", 0) + 1
            if self.nlogged <= 3:
                self.log("candidate did not reproduce:", c["key"], c["msg"][:300], str(c["assignment"])[:400])
            if c["eager"] or c["pc"] is None:
                self.unconfirmed.append(c)
            elif self.eager_tasks < 400:
                self.eager_tasks += 1
                queue.append(dict(shape=c["shape"], prefix=[], model={}, eager=True, assume=c["pc"]))
        return False

    def outside(self, u):
        """A path that cannot be encoded: the real code is run at the point the
        solver chose for it.  True if that is a violation."""
        self.incomplete.append("paths left the encodable fragment (only one solver-chosen input "
                               "of each was run on the real code)")
        key = (u["shape"], u["msg"])
        n = self.outside_runs.get(key, 0)
        if n >= 25 or self.outside_time > 120:
            return False
        self.outside_runs[key] = n + 1
        if n == 0:
            self.log("not encodable:", u["msg"][:300])
        t = time.time()
        r = self.rep.run(self.shapes[u["shape"]], u["assignment"], self.known)
        self.outside_time += time.time() - t
        if r["status"] in ("violated", "exception"):
            self.violation = dict(check=self.check, shape=self.shapes[u["shape"]], assignment=u["assignment"],
                                  hashseed=0, key=(r["keys"] or ["exception"])[0], msg=r["msg"])
            return True
        return False

    # -------------------------------------------------------- exploration
    def explore(self, tasks, budget):
        """Runs tasks to completion or until the budget is used."""
        queue = list(tasks)
        idle = list(self.conns)
        busy = {}
        end = time.time() + budget
        done_tasks = 0
        lost = 0
        while (queue or busy) and self.violation is None:
            now = time.time()
            if now > end:
                break
            while idle and queue:
                c = idle.pop()
                t = queue.pop(0 if len(queue) < 4 * NPROC else -1)
                slice_s = 0.3 if len(queue) < 2 * NPROC else 2.0
                c.send((t, min(slice_s, max(0.1, end - now)), self.sample_every, 6))
                busy[c] = t
            for c in wait(list(busy), timeout=min(1.0, max(0.05, end - time.time()))):
                t = busy.pop(c)
                try:
                    m = c.recv()
                except EOFError:
                    self.errors.append("worker died")
                    lost += 1
                    continue
                idle.append(c)
                if m[0] == "error":
                    self.errors.append(m[1])
                    continue
                r = m[1]
                done_tasks += 1
                st = self.shape_stats.setdefault(t["shape"], {})
                for k, v in r.stats.items():
                    self.stats[k] = self.stats.get(k, 0) + v
                    st[k] = st.get(k, 0) + v
                self.covers |= {(t["shape"], x) for x in r.covers}
                for s, fid, a, key in r.found:
                    self.found.setdefault(fid, (s, a, key))
                if len(self.samples) < 3000:
                    self.samples.extend(r.samples)
                self.errors.extend(r.errors)
                queue.extend(r.more)
                if r.candidates:
                    if self.handle_cands(r.candidates, queue):
                        break
                for u in r.unsupported:
                    self.unsupported.append(u)
                    if not u["eager"] and self.eager_tasks < 400:
                        self.eager_tasks += 1
                        queue.append(dict(shape=u["shape"], prefix=[], model={}, eager=True, assume=u["pc"]))
                    elif self.outside(u):
                        break
            if self.errors and not queue and not busy:
                break
        left = len(queue) + len(busy)
        if left and self.violation is None:
            self.incomplete.append(f"time budget used, {left} open tasks")
        # drain
        for c in list(busy):
            if self.violation is None and c.poll(5.0):
                try:
                    m = c.recv()
                    if m[0] == "done":
                        for k, v in m[1].stats.items():
                            self.stats[k] = self.stats.get(k, 0) + v
                        if m[1].candidates:
                            self.handle_cands(m[1].candidates, [])
                        idle.append(c)
                        busy.pop(c)
                except EOFError:
                    pass
        return left == 0

    # -------------------------------------------------------- translator validation
    def validate(self, limit, seconds):
        import random

        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        s = list(self.samples)
        rnd.shuffle(s)
        t = time.time()
        n = bad = 0
        for x in s[:limit]:
            if time.time() - t > seconds:
                break
            r = self.rep.run(self.shapes[x["shape"]], x["assignment"], self.known)
            if r["status"] in ("violated", "exception"):
                self.violation = dict(check=self.check, shape=self.shapes[x["shape"]], assignment=x["assignment"],
                                      hashseed=0, key=(r["keys"] or ["exception"])[0], msg=r["msg"])
                self.log("found while validating a path model")
                return n
            want = json.loads(json.dumps(x["observations"], default=str))
            if r["status"] != "done" or r["observations"] != want:
                self.mismatch = self.mismatch or dict(
                    shape=x["shape"], assignment=x["assignment"], symbolic=want,
                    concrete=r["observations"], status=r["status"], msg=r["msg"])
                bad += 1
                if bad >= 40:
                    return n
                continue
            n += 1
        return n

    # -------------------------------------------------------- main
    def main(self):
        import importlib.util

        spec = importlib.util.spec_from_file_location(
            "checkinfo", os.path.join(HERE, "checks", f"{self.check}.py"))
        # the harness only imports the product inside scenario(): safe to load here
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        self.shapes = mod.SHAPES[self.tier] if self.tier in mod.SHAPES else mod.SHAPES["quick"]
        budgets = getattr(mod, "BUDGET", {})
        budget = budgets.get(self.tier, 150 if self.tier == "quick" else 2400)
        if os.environ.get("VERIF_BUDGET"):
            budget = float(os.environ["VERIF_BUDGET"])
        self.sample_every = getattr(mod, "SAMPLE_EVERY", 3)
        self.shape_stats = {}
        self.start_workers()
        complete = self.explore(
            [dict(shape=i, prefix=[], model={}) for i in range(len(self.shapes))], budget)
        validated = 0
        if self.violation is None:
            validated = self.validate(300 if self.tier == "quick" else 1500, 25 if self.tier == "quick" else 120)
        eager_rerun = False
        if self.violation is None and (self.mismatch or self.unconfirmed or self.errors):
            self.log("falling back to concretised exploration:",
                     json.dumps(self.mismatch, default=str)[:1500] if self.mismatch else "",
                     str(self.errors[:3])[:1500], str(self.unconfirmed[:1])[:800])
            if not os.environ.get("VERIF_NOFALLBACK"):
                eager_rerun = True
                self.fallback_reason = dict(mismatch=self.mismatch, errors=self.errors[:5],
                                            unconfirmed=self.unconfirmed[:3])
                self.mismatch, self.errors, self.unconfirmed = None, [], []
                self.samples = []
                self.stop_workers()
                self.start_workers()
                complete = self.explore(
                    [dict(shape=i, prefix=[], model={}, eager=True) for i in range(len(self.shapes))],
                    min(budget, 240 if self.tier == "quick" else 1200)) and complete
                if self.violation is None:
                    validated = self.validate(300, 25)
        self.stop_workers()
        wall = time.time() - self.t0
        missing = []
        if complete and not self.incomplete and self.violation is None:
            for i, sh in enumerate(self.shapes):
                for tag in sh.get("covers", getattr(mod, "COVERS", ())):
                    if (i, tag) not in self.covers and not any(j == i and x == tag for j, x in self.covers):
                        missing.append(f"{sh.get('name', i)}:{tag}")
        code = 0
        lines = []
        if self.violation is not None:
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.check}.json")
            json.dump(self.violation, open(path, "w", encoding="utf-8"), indent=1)
            lines.append(f"violated: {self.violation['key']}: {self.violation['msg'][:600]}")
            lines.append(f"input: {json.dumps(self.violation['assignment'])} shape: {json.dumps(self.violation['shape'], default=str)}")
            lines.append(f"VIOLATION property={self.check} replay={path}")
            code = 1
        else:
            for fid, (s, a, key) in sorted(self.found.items()):
                e = self.known[fid]
                lines.append(f"KNOWN-FINDING: property={self.check} {fid} {e['what']} (e.g. {json.dumps(a)})")
            if eager_rerun and (self.mismatch or self.errors or self.unconfirmed) and validated \
                    and not os.environ.get("VERIF_STRICT"):
                # the tree has code that the encoding gets wrong: every suspicion was run on the real
                # code without a violation; say so and claim nothing more
                if self.mismatch:
                    lines.append("NOTE encoding and real code disagree: " + json.dumps(self.mismatch, default=str)[:800])
                for e in self.errors[:3]:
                    lines.append("NOTE " + e[-800:])
                for u in self.unconfirmed[:3]:
                    lines.append("NOTE counterexample does not reproduce: " + u["msg"][:300])
                self.incomplete.append("parts of the code could not be encoded faithfully; solver-chosen inputs "
                                       "were run on the real code instead")
                self.mismatch, self.errors, self.unconfirmed = None, [], []
                missing = []
            if eager_rerun and missing and validated and not os.environ.get("VERIF_STRICT"):
                self.incomplete.append("parts of the code could not be encoded; not reached: " + ", ".join(missing[:20]))
                missing = []
            if self.mismatch or self.errors or self.unconfirmed or missing:
                code = 2
                if self.mismatch:
                    lines.append("ERROR encoding and real code disagree: " + json.dumps(self.mismatch, default=str)[:1500])
                for e in self.errors[:5]:
                    lines.append("ERROR " + e[-1500:])
                for u in self.unconfirmed[:3]:
                    lines.append("ERROR counterexample does not reproduce: " + json.dumps(
                        {k: v for k, v in u.items() if k != "pc"}, default=str)[:800])
                if missing:
                    lines.append("ERROR vacuous: never reached " + ", ".join(missing[:20]))
            for i in sorted(set(self.incomplete)):
                lines.append("INCOMPLETE " + i)
        self.evidence(mod, complete, validated, wall, eager_rerun, code)
        s = self.stats
        lines.append(
            f"{self.check} {self.tier}: paths={s.get('paths', 0)} (infeasible {s.get('infeasible', 0)}) "
            f"branches={s.get('branches', 0)} queries={s.get('queries', 0)} solver={s.get('solver_s', 0):.1f}s "
            f"obligations={s.get('obligations', 0)} traces_validated={validated} "
            f"exhaustive={complete and not self.incomplete} eager={'all' if eager_rerun else self.eager_tasks} "
            f"wall={wall:.1f}s exit={code}")
        if os.environ.get("VERIF_DETAIL"):
            for i, st in sorted(self.shape_stats.items()):
                lines.insert(0, f"  shape {i} {self.shapes[i].get('name', '')}: paths={st.get('paths')} "
                                f"queries={st.get('queries')} solver={st.get('solver_s', 0):.1f}")
        print("\n".join(lines), flush=True)
        self.rep.close()
        return code

    def evidence(self, mod, complete, validated, wall, eager_rerun, code):
        s = self.stats
        samples = []
        for x in self.samples[:200:40]:
            samples.append(dict(shape=self.shapes[x["shape"]].get("name", x["shape"]),
                                path_model=x["assignment"], observed=x["observations"]))
        if self.violation is not None:
            samples.append(self.violation)
        touched = getattr(mod, "FUNCTIONS", None)
        funcs = [f for f in self.funcs if any(f.startswith(p) for p in touched)] if touched else self.funcs
        doc = dict(
            property=self.check, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
            level="model_checking",
            coverage=dict(
                states=s.get("paths", 0), transitions=s.get("branches", 0),
                traces_validated_against_impl=validated, samples=samples or ["none"],
                exhaustive=bool(complete and not self.incomplete and not eager_rerun and code != 2),
                obligations=s.get("obligations", 0), obligations_decided_without_solver=s.get("trivial", 0),
                solver_queries=s.get("queries", 0), solver_seconds=round(s.get("solver_s", 0), 2),
                forks=s.get("forks", 0), infeasible_paths=s.get("infeasible", 0),
                strings_concretised=s.get("concretised", 0), paths_explored_concretised=self.eager_tasks,
                concretised_rerun=bool(eager_rerun), incomplete=sorted(set(self.incomplete)),
                functions_encoded=funcs, concrete_runs=self.rep.runs,
                shapes=[dict(bounds=sh, paths=self.shape_stats.get(i, {}).get("paths", 0),
                             queries=self.shape_stats.get(i, {}).get("queries", 0))
                        for i, sh in enumerate(self.shapes)],
                explanation=(mod.__doc__ or "").strip(),
                known_findings=sorted(self.found),
            ),
            assumptions=list(getattr(mod, "ASSUMPTIONS", ())) + COMMON_ASSUMPTIONS,
            wall_s=round(wall, 2), violations=1 if self.violation is not None else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(doc, open(os.path.join(HERE, "evidence", f"{self.check}.json"), "w", encoding="utf-8"),
                  indent=1, default=str)


COMMON_ASSUMPTIONS = [
    "bounds: exactly the shapes listed under coverage.shapes (string lengths, alphabets, list sizes); nothing is claimed outside them",
    "symbolic characters range over U+0000..U+07FF at most",
    "built-in hash() is treated as collision-free; SHA-256 (first eight hex digits) is treated as injective",
    "logging has no effect on the result; message texts are not part of the property",
    "trusted: CPython executing the instrumented source, the string/regex/JSON models in symex/, z3",
]


def main():
    check = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        code = Run(check, tier).main()
    except SystemError as e:
        print(f"ERROR {e}")
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
