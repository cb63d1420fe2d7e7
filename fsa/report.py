"""Obligation bookkeeping, evidence and verdicts."""
from __future__ import annotations

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """Collects the obligations of one property."""

    def __init__(self, pid, P, tier="quick"):
        self.pid = pid
        self.P = P
        self.tier = tier
        self.obs = []  # (key, status, where, message)
        self.undecided = []
        self.functions = set()
        self.events = 0
        self.runs = 0
        self.steps = 0
        self.notes = []

    def ob(self, key, ok, where="", msg=""):
        """one obligation: key identifies rule + construct (no line numbers)."""
        self.obs.append((key, "ok" if ok else "fail", str(where), msg))
        return ok

    def undec(self, key, reason):
        self.undecided.append((key, reason))

    def absorb(self, scn):
        I = scn.I
        self.functions |= I.analysed
        self.events += len(I.events)
        self.steps += I.steps
        self.runs += 1

    def pmap(self, f, items, jobs=8):
        """f(sub_ctx, item) for every item, in forked worker processes."""
        items = list(items)
        jobs = max(1, min(jobs, os.cpu_count() or 1, len(items)))
        if jobs == 1:
            for it in items:
                f(self, it)
            return []
        import pickle

        todo = list(enumerate(items))
        running = {}
        out = [None] * len(items)
        import select

        while todo or running:
            while todo and len(running) < jobs:
                i, it = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        c = Ctx(self.pid, self.P, self.tier)
                        ret = f(c, it)
                        data = pickle.dumps(("ok", c.obs, c.undecided, c.functions, c.events, c.runs, c.steps, c.notes, ret))
                    except BaseException:
                        import traceback

                        data = pickle.dumps(("err", traceback.format_exc()))
                    with os.fdopen(w, "wb") as fh:
                        fh.write(data)
                    os._exit(0)
                os.close(w)
                running[r] = (pid, i, [])
            ready, _, _ = select.select(list(running), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                pid, i, buf = running[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                data = b"".join(buf)
                if not data:
                    raise RuntimeError(f"worker for {items[i]!r} died")
                out[i] = pickle.loads(data)
        rets = []
        for o in out:
            if o[0] == "err":
                if "AnchorError" in o[1].splitlines()[-1]:
                    from .program import AnchorError

                    raise AnchorError(o[1])
                if os.environ.get("FSA_STRICT"):
                    raise RuntimeError(o[1])
                self.undecided.append((f"item {str(items[out.index(o)])[:80]}", "the analysis met a form it does not model: " + o[1].strip().splitlines()[-1][:160]))
                continue
            _, obs, und, fns, ev, runs, steps, notes, ret = o
            self.obs += obs
            self.undecided += und
            self.functions |= fns
            self.events += ev
            self.runs += runs
            self.steps += steps
            self.notes += notes
            rets.append(ret)
        return rets

    def need(self, what, n, least):
        from .program import AnchorError

        if n < least:
            raise AnchorError(f"{what}: {n} instances found, at least {least} confirmed by hand")

    @property
    def failures(self):
        return [o for o in self.obs if o[1] == "fail"]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def finish(ctx: Ctx, explanation, assumptions, t0, seed):
    # merge duplicates: an obligation fails if any of its instances fails
    merged = {}
    for key, status, where, msg in ctx.obs:
        m = merged.get(key)
        if m is None or (m[0] == "ok" and status == "fail"):
            merged[key] = (status, where, msg)
    fails = [(k, w, m) for k, (s, w, m) in merged.items() if s == "fail"]
    kf = [f for f in known_findings() if f["property"] == ctx.pid]
    known, new = [], []
    for k, w, m in fails:
        hit = next((f for f in kf if f["key"] == k), None)
        (known if hit else new).append((k, w, m, hit))
    samples = [f"{k} :: {w}" for k, (s, w, m) in list(merged.items())[:: max(1, len(merged) // 12)]][:14]
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": len(merged),
            "discharged": len(merged) - len(fails),
            "obligation_instances": len(ctx.obs),
            "undecided": [f"{k}: {r}" for k, r in ctx.undecided][:60],
            "abstract_runs": ctx.runs,
            "call_sites_and_effects": ctx.events,
            "statements_interpreted": ctx.steps,
            "functions_analysed": len(ctx.functions),
            "modules": len(ctx.P.modules),
            "classes": len(ctx.P.classes),
            "source_digest": ctx.P.digest,
            "samples": samples,
            "failed": [f"{k} :: {w} :: {m}" for k, w, m in fails],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, w, m, hit in known:
        print(f"KNOWN-FINDING: property={ctx.pid} {hit.get('what') or k}")
    if new:
        rp = os.path.join(VERIF, "evidence", ctx.pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, w, m, _ in new:
                f.write(f"rule instance: {k}\n  at: {w}\n  {m}\n")
        for k, w, m, _ in new:
            print(f"  {k}\n     at {w}\n     {m}")
        print(f"VIOLATION property={ctx.pid} replay={rp}")
        return 1
    print(f"OK property={ctx.pid} obligations={len(merged)} undecided={len(ctx.undecided)} runs={ctx.runs} functions={len(ctx.functions)} wall={time.time()-t0:.1f}s")
    return 0
