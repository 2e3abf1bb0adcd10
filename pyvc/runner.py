"""Check driver: deductive obligations + bounded run-time contract checks of the real code, evidence, verdict."""

from __future__ import annotations

import contextlib
import hashlib
import inspect
import json
import math
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

import numpy as np

from . import engine, sym
from . import terms as tm
from .engine import ENGINE, explore, prove, refute
from .terms import Unsupported

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("PYVC_REPO", "/repo"))


class Mismatch(Exception):
    """A run-time contract clause is false on the real code."""


def halomod_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "halomod" or n.startswith("halomod.")) and m is not None]


def _short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class OutOfTime(BaseException):
    """the check's own time is used up"""


class ProofTimeout(BaseException):
    """the time of one proof is used up (not an ordinary Unsupported, which the prover itself may handle)"""


class Clock:
    """wall-clock budgets by SIGALRM: of the whole check (so that a hang still gets an answer) and of each obligation's proof"""

    def __init__(self, total, proof, proofs):
        self.end, self.proof, self.proof_left, self.inner = time.time() + total, proof, proofs, None
        signal.signal(signal.SIGALRM, self._fire)
        self._arm()

    def _arm(self):
        t = self.end if self.inner is None else min(self.end, self.inner)
        signal.setitimer(signal.ITIMER_REAL, max(t - time.time(), 0.01), 5.0)

    def _fire(self, *_):
        if time.time() >= self.end - 0.05:
            raise OutOfTime
        if self.inner is not None:
            raise ProofTimeout("time budget of the proof used up")

    @contextlib.contextmanager
    def proving(self):
        t = time.time()
        self.inner = t + max(min(self.proof, self.proof_left), 0.05)
        self._arm()
        try:
            yield
        finally:
            self.inner = None
            self.proof_left -= time.time() - t
            self._arm()

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Obl:
    def __init__(self, name, function):
        self.name, self.function = name, function
        self.status = "discharged"
        self.backends = {}
        self.vcs = 0
        self.detail = ""
        self.counterexample = None


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obls: list[Obl] = []
        self.functions = {}
        self.assumptions = []
        self.trusted = [
            "CPython executing the functions' own code objects on symbolic operands (pyvc.sym models numpy element-wise semantics)",
            "pyvc.terms canonical forms; z3",
            "machine arithmetic treated as real arithmetic; decimal literals read as the rationals they denote",
        ]
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.bounded = {}
        self.failures = []  # (case, idx, message, inputs)
        self.known_hits = []
        self.t0 = time.time()
        self.clock = None
        self.only = None
        self.known = load_known(pid)
        self.skipped = {}
        self.gaps = {}  # cases that name a private attribute the code no longer has

    # ---------------- deductive part
    def prove(self, name, run, post, hyps=(), ranges=None, function=None, allow_raise=(), extra=None, replay=None, maxpaths=engine.MAXPATHS):
        """as _prove; where a loop contract names locals the function no longer has, some assignment of its locals to these
        roles has to satisfy the whole contract (the contract is about the values, not about what they are called)"""
        args = (run, post, hyps, ranges, function, allow_raise)
        if self.only is not None or not (extra and (extra.get("loops") or extra.get("whiles"))):
            return self._prove(name, *args, extra, replay, maxpaths)
        n0, f0 = len(self.obls), dict(self.functions)
        tries = [60]

        def attempt(roles):
            del self.obls[n0:]
            self.functions.clear()
            self.functions.update(f0)
            self.missing = None
            cl = self._prove(name, *args, {**extra, "roles": roles}, replay, maxpaths)
            tries[0] -= 1
            if self.missing is None:
                return cl, all(o.status == "discharged" for o in cl.values())
            e = self.missing
            fn = next((getattr(m, e.fname) for m in halomod_modules() if inspect.isfunction(getattr(m, e.fname, None))), None)
            if fn is None:
                return cl, False
            have = roles.get(e.fname, {})
            for c in sym.role_candidates(inspect.unwrap(fn), e.kind, set(have.values()) | set(have)):
                if tries[0] <= 0:
                    break
                cl, ok = attempt({**roles, e.fname: {**have, e.role: c}})
                if ok:
                    return cl, True
            return cl, False

        first = attempt({})[0]
        return first

    def _prove(self, name, run, post, hyps=(), ranges=None, function=None, allow_raise=(), extra=None, replay=None, maxpaths=engine.MAXPATHS):
        """run(): executes real code symbolically inside a session.  post(result)-> {clause: goal term | (hyps, goal)}."""
        if self.only is not None:
            return
        ranges = ranges or {}
        fns = function if isinstance(function, (list, tuple)) else [function]
        for f in fns:
            if f:
                self.functions.setdefault(f, 0)
        clauses: dict[str, Obl] = {}
        t = time.time()
        try:
            with self.clock.proving() if self.clock else contextlib.nullcontext(), sym.session(halomod_modules(), extra), warnings.catch_warnings():
                warnings.simplefilter("ignore")

                def framed():
                    """run(), with the frame condition of every path: the arrays of the contract's inputs are not modified"""
                    sym.DIRTY.clear()
                    try:
                        return run()
                    finally:
                        for clause, h, new, old in sym.frame_close():
                            ENGINE.cur.side.append((list(ENGINE.cur.pc), {clause: (h, tm.eq(new, old))}))

                paths = explore(framed, hyps, maxpaths)
                if not paths:
                    raise Unsupported("no feasible path (contradictory precondition)")
                for pc, kind, val in paths:
                    if kind == "goals":
                        goals = val
                    elif kind == "raise":
                        if isinstance(val, tuple(allow_raise) or ()):
                            goals = {"raises": tm.TRUE}
                        else:
                            tb = "".join(traceback.format_exception(val)[-4:])
                            goals = {"no-exception": tm.FALSE}
                            o = clauses.setdefault("no-exception", Obl(f"{name}: no-exception", function))
                            o.detail = f"path raised {type(val).__name__}: {val}\n{tb}"
                    else:
                        old, ENGINE.cur = ENGINE.cur, engine._Ctx((), pc)
                        ENGINE.cur.nofork = True
                        try:
                            goals = post(val)
                        finally:
                            ENGINE.cur = old
                    for cl, goal in goals.items():
                        o = clauses.setdefault(cl, Obl(f"{name}: {cl}", function))
                        h = list(pc)
                        if isinstance(goal, tuple):
                            h += list(goal[0])
                            goal = goal[1]
                        o.vcs += 1
                        be = prove(h, goal)
                        if be:
                            o.backends[be] = o.backends.get(be, 0) + 1
                            continue
                        cex = refute(h, goal, ranges, seed=self.seed)
                        o.status = "refuted" if cex is not None else ("refuted" if o.status == "refuted" else "undischarged")
                        o.counterexample = o.counterexample or cex
                        o.detail = o.detail or f"goal not established: {_short(tm.show(goal), 1500)}\nunder: {_short(' & '.join(tm.show(x) for x in h), 800)}"
                        if cex is not None and replay is not None:
                            o.replay = replay
        except (Unsupported, ProofTimeout) as e:
            if isinstance(e, sym.MissingRole):
                self.missing = e
            o = Obl(f"{name}: within-verifier-reach", function)
            o.status = "undischarged"
            o.detail = f"unsupported construct: {e}\n" + "".join(traceback.format_exc().splitlines(True)[-12:])
            clauses["within-verifier-reach"] = o
        except Exception as e:  # postcondition code could not be applied to the result
            o = Obl(f"{name}: result-has-contract-shape", function)
            o.status = "undischarged"
            o.detail = "".join(traceback.format_exception(e)[-6:])
            clauses["shape"] = o
        for o in clauses.values():
            o.wall = time.time() - t
            self.obls.append(o)
            for f in fns:
                if f:
                    self.functions[f] += 1
        return clauses

    def lemma(self, name, goal, hyps=(), ranges=None):
        """A lemma over contracts (no code executed)."""
        if self.only is not None:
            return
        o = Obl(f"lemma {name}", None)
        o.vcs = 1
        try:
            with self.clock.proving() if self.clock else contextlib.nullcontext():
                be = prove(list(hyps), goal)
        except ProofTimeout:
            be = None
        if be:
            o.backends[be] = 1
        else:
            cex = refute(list(hyps), goal, ranges, seed=self.seed)
            o.status = "refuted" if cex else "undischarged"
            o.counterexample = cex
            o.detail = tm.show(goal)[:1500]
        self.obls.append(o)

    # ---------------- bounded run-time contracts
    def case(self, name, fn, n, rule="", jobs=1):
        """fn(rng, i, C) runs real code for generated input i and raises Mismatch when a contract clause is false."""
        if self.only is not None:
            if self.only["case"] != name:
                return
            idxs = [self.only["index"]]
        else:
            idxs = range(n)
        b = self.bounded.setdefault(name, {"cases": 0, "rule": rule, "skipped": 0})
        if jobs > 1 and len(idxs) > 1:
            return self._parallel(name, fn, idxs, b, jobs)
        for i in idxs:
            self._one(name, fn, i, b)
            if len(self.failures) >= 8:
                return

    def _one(self, name, fn, i, b):
        seed = int(hashlib.sha256(f"{self.pid}/{name}/{self.seed if self.only is None else self.only['seed']}/{i}".encode()).hexdigest()[:12], 16)
        rng = np.random.default_rng(seed)
        rec = Rec()
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                fn(rng, i, rec)
        except Mismatch as e:
            self._fail(name, i, str(e), rec)
        except Exception as e:
            tb = "".join(traceback.format_exception(e)[-5:])
            if _harness_gap(e):
                self.gaps.setdefault(name, f"{type(e).__name__}: {e}\n{tb}")
            else:
                self._fail(name, i, f"unexpected {type(e).__name__}: {e}\n{tb}", rec)
        self.evals += 1
        b["cases"] += 1
        if rec.inputs:
            key = hashlib.sha256(repr(sorted((k, _short(v, 2000)) for k, v in rec.inputs.items())).encode()).hexdigest()
            self.distinct.add((name, key))
            if len(self.samples) < 60 and b["cases"] <= 2:
                self.samples.append({"case": name, "inputs": {k: _short(v, 200) for k, v in rec.inputs.items()}})

    def _parallel(self, name, fn, idxs, b, jobs):
        """the cases of one rule in forked processes (same inputs and verdicts as in sequence)"""
        mp = multiprocessing.get_context("fork")
        jobs = min(jobs, len(idxs), os.cpu_count() or 1)

        def work(part, conn):
            w = Check(self.pid, self.tier, self.seed)
            w.known, w.only = self.known, None
            b2 = w.bounded.setdefault(name, {"cases": 0, "rule": "", "skipped": 0})
            for i in part:
                w._one(name, fn, i, b2)
                if len(w.failures) >= 8:
                    break
            conn.send((b2["cases"], w.evals, w.distinct, w.samples, w.failures, [(self.known.index(k), m) for k, m in w.known_hits], w.gaps))
            conn.close()

        ps = []
        for j in range(jobs):
            r, s = mp.Pipe(False)
            p = mp.Process(target=work, args=(list(idxs)[j::jobs], s), daemon=True)
            p.start()
            s.close()
            ps.append((p, r))
        for p, r in ps:
            try:
                cases, evals, distinct, samples, failures, hits, gaps = r.recv()
            except EOFError:
                raise RuntimeError(f"a worker of case {name!r} died") from None
            p.join()
            b["cases"] += cases
            self.evals += evals
            self.distinct |= distinct
            self.samples += samples[:2] if len(self.samples) < 60 else []
            self.failures += failures
            self.gaps = {**gaps, **self.gaps}
            self.known_hits += [(self.known[k], m) for k, m in hits]
        self.failures.sort(key=lambda f: (f[0], f[1]))

    def _fail(self, name, i, msg, rec):
        for k in self.known:
            if k.get("case") == name and all(_match(rec.inputs.get(a), b) for a, b in k.get("inputs", {}).items()) and k.get("message", "") in msg:
                self.known_hits.append((k, msg))
                return
        self.failures.append((name, i, msg, {k: _short(v, 1500) for k, v in rec.inputs.items()}))


def _harness_gap(e):
    """the case itself (not the code under test) used a private name, or the signature of a private function, that the
    code no longer has: says nothing about the property, so it is reported as an obligation that could not be decided"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not tb.tb_frame.f_code.co_filename.startswith(str(VERIF / "contracts")):
        return False
    private = lambda n: isinstance(n, str) and n.startswith("_") and not n.startswith("__")
    if isinstance(e, AttributeError):
        return private(e.name)
    if isinstance(e, ImportError):
        return private(getattr(e, "name_from", None))
    if isinstance(e, TypeError):
        g = re.match(r"([\w.<>]+)\(\) (got an unexpected|missing|takes|got multiple)", str(e))
        return bool(g) and private(g.group(1).split(".")[-1])
    return False


def _match(a, b):
    if isinstance(b, list):
        return a in b or repr(a) in b
    return a == b or repr(a) == b or str(a) == b


class Rec:
    """records the concrete inputs of a case and evaluates contract clauses"""

    def __init__(self):
        self.inputs = {}

    def rec(self, **kw):
        self.inputs.update(kw)

    def ok(self, cond, msg):
        if not bool(np.all(cond)):
            raise Mismatch(msg)

    def close(self, got, want, msg, rtol=1e-8, atol=0.0, equal_nan=False):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            try:
                got, want = np.broadcast_arrays(got, want)
            except ValueError:
                raise Mismatch(f"{msg}: shape {got.shape} instead of {want.shape}")
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= rtol * np.maximum(np.abs(want), np.abs(got)) + atol)
            bad &= ~(got == want)
            if equal_nan:
                bad &= ~(np.isnan(got) & np.isnan(want))
        if np.any(bad):
            j = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.shape else ()
            raise Mismatch(f"{msg}: got {got[j]!r}, contract requires {want[j]!r} (at index {tuple(int(x) for x in j)}; {int(bad.sum())}/{bad.size} elements differ)")

    def raises(self, exc, f, msg):
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Mismatch(f"{msg}: raised {type(e).__name__}: {e} instead")
        raise Mismatch(f"{msg}: nothing raised")


def load_known(pid):
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["findings"] if k["property"] == pid and k.get("status", "known") == "known"]


def finish(C: Check):
    """verdict + evidence; returns exit code"""
    outdir = VERIF / "evidence"
    outdir.mkdir(exist_ok=True)
    repdir = outdir / "replay"
    repdir.mkdir(exist_ok=True)
    for name, msg in C.gaps.items():
        o = Obl(f"bounded case {name}: applies to the current code", None)
        o.status, o.detail = "undischarged", msg
        C.obls.append(o)
    for o in C.obls:
        if o.status != "discharged":
            for k in C.known:
                if k.get("obligation") == o.name and o.status == k.get("obligation_status", "refuted"):
                    o.status = "known-finding"
                    C.known_hits.append((k, ""))
    bad = [o for o in C.obls if o.status not in ("discharged", "known-finding")]
    lines = []
    rc = 0
    n_viol = 0
    if C.failures:
        seen = set()
        for name, i, msg, inputs in C.failures:
            if name in seen:
                continue
            seen.add(name)
            p = repdir / f"{C.pid}-{name.replace('/', '_').replace(' ', '_')}.json"
            p.write_text(json.dumps({
                "property": C.pid, "case": name, "index": i, "seed": C.seed, "tier": C.tier, "message": msg, "inputs": inputs,
                "failed_obligations": [o.name for o in bad],
                "replay_cmd": f"cd /verif && /opt/venv/bin/python -m pyvc.run {C.pid} --replay {p}",
            }, indent=1))
            print(f"[{C.pid}] contract violated by the real code, case {name}#{i}: {_short(msg, 700)}")
            for o in bad[:6]:
                print(f"[{C.pid}] obligation not discharged: {o.name}")
            lines.append(f"VIOLATION property={C.pid} replay={p}")
            n_viol += 1
            rc = 1
    elif bad:
        p = repdir / f"{C.pid}-obligations.json"
        p.write_text(json.dumps({
            "property": C.pid,
            "failed_obligations": [{"obligation": o.name, "function": o.function, "status": o.status, "verifier_output": o.detail, "vc_counterexample": o.counterexample} for o in bad],
        }, indent=1, default=str))
        for o in bad[:10]:
            print(f"[{C.pid}] obligation {o.status}: {o.name}\n    {_short(o.detail, 600)}\n    cex: {_short(str(o.counterexample), 400)}")
        lines.append(f"VIOLATION property={C.pid} replay={p} no-failing-input-found")
        n_viol += 1
        rc = 1
    elif not C.obls and not C.evals:
        p = repdir / f"{C.pid}-vacuous.json"
        p.write_text("{}")
        lines.append(f"VIOLATION property={C.pid} replay={p} no-failing-input-found")
        rc = 1
    seenk = set()
    for k, msg in C.known_hits:
        if k["what"] not in seenk:
            seenk.add(k["what"])
            print(f"KNOWN-FINDING: property={C.pid} {k['what']}")
    be = {}
    for o in C.obls:
        for b, n in o.backends.items():
            be[b] = be.get(b, 0) + n
    level = manifest_level(C.pid)
    ev = {
        "property": C.pid, "tier": C.tier, "seed": C.seed, "level": level,
        "coverage": {
            "obligations": len(C.obls),
            "discharged": sum(o.status == "discharged" for o in C.obls),
            "verification_conditions": sum(o.vcs for o in C.obls),
            "discharged_by_backend": be,
            "checker_cmd": f"cd /verif && /opt/venv/bin/python -m pyvc.run {C.pid} --tier {C.tier}",
            "trusted_base": C.trusted,
            "functions_under_contract": sorted(C.functions),
            "paths_explored": ENGINE.paths,
            "z3_queries": ENGINE.z3_calls,
            "solver_time_s": round(ENGINE.solver_time, 2),
            "undischarged": [o.name for o in bad],
            "failing_as_recorded_in_known_findings": [o.name for o in C.obls if o.status == "known-finding"],
            "obligation_names": [o.name for o in C.obls],
            "evaluations": C.evals,
            "distinct_nontrivial": len(C.distinct),
            "rule": "bounded run-time contract checks of the real code (never counted as proved): seeded generators per case; a case is non-trivial when it recorded inputs, distinct by the recorded inputs",
            "bounded_cases": C.bounded,
            "samples": C.samples[:12],
        },
        "assumptions": C.assumptions,
        "violations": n_viol,
        "wall_s": round(time.time() - C.t0, 2),
    }
    (outdir / f"{C.pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"[{C.pid}] obligations {ev['coverage']['discharged']}/{len(C.obls)} discharged ({be}), {C.evals} bounded run-time contract evaluations, {ev['wall_s']} s")
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return rc


def manifest_level(pid):
    try:
        for c in json.loads((VERIF / "MANIFEST.json").read_text())["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"
