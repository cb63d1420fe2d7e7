"""P13: callbacks run once per hook point, in order, and their state is used."""
from .trainscn import *

EXPLANATION = (
    "The training loop of every trainer class is evaluated abstractly for two epochs of two batches with two opaque callbacks (loops over literal sequences unrolled; training steps, validation steps and checkpoint writes opaque but recorded), without gradient accumulation, with accumulation over two batches, with and without validation data, and with no callbacks. The recorded order of callback and step calls must be the documented one and each of them must receive the state returned by the call before it; the returned state must come from the last one. "
    "No class may call a hook outside these points."
)
ASSUMPTIONS = ["a callback is an arbitrary object whose three hooks take and return a state", "with gradient accumulation a hook point is the end of each accumulated group of batches"]

HOOKS = ("training_epoch_start", "training_step_end", "training_epoch_end")


def strip(v):
    while v.k in ("lane", "batched") or v.k == "app" and v.a[0] in ("batched", "lane"):
        v = v.a[0] if v.k != "app" else v.a[1][0]
    return v


def uses(r, x, tok):
    """the state x is tok, or was made from it and from no earlier one that tok does not contain."""
    I = r.s.I
    for y in members(x):
        y = strip(y)
        if y == tok:
            continue
        y2 = I.models.reify(I, y, r.end, 8)
        if not (tok == y2 or tok in set(sub(y2))):
            return False
    return True


def expected(epochs, batches, ncb, gas):
    out = []
    for e in range(epochs):
        out += [("cb", "training_epoch_start", i) for i in range(ncb)]
        for b in range(batches):
            out.append(("step", b))
            if not gas or (b + 1) % gas == 0:
                out += [("cb", "training_step_end", i) for i in range(ncb)]
        out += [("cb", "training_epoch_end", i) for i in range(ncb)]
    return out


def check(ctx, c, name, **kw):
    r = TrainRun(ctx.P, c, **kw)
    ctx.absorb(r.s)
    k = f"{c.name}:{name}"
    w = r.f.qual
    if r.v is None:
        ctx.ob(k, False, w, "train never returns")
        return
    tl = r.timeline()
    gas = kw.get("gas")
    want = expected(EPOCHS, BATCHES, len(r.cbs), gas)
    got, cur = [], r.state
    conds0 = None
    for kind, b, res, cd in tl:
        if kind == "cb":
            if b.name not in HOOKS:
                continue
            got.append(("cb", b.name, r.cbs.index(b.target)))
            a = b.args[0] if b.args else dict(b.kw or {}).get("state", UNDEF)
            ctx.ob(f"{k}:{b.name}:state", uses(r, a, cur), w, f"`{b.name}` receives {str(a)[:120]}, not the current state {str(cur)[:120]}")
            ctx.ob(f"{k}:{b.name}:arguments", len(b.args) + len(dict(b.kw or {})) == 1, w, f"`{b.name}` is called with other than the state")
            cur = res
            extra = [z for z, _ in cd if not (z.k == "app" and z.a[0] == "loop")]
            ctx.ob(f"{k}:{b.name}:always", not any(mentions(z, "CB") or mentions(z, "AUX") for z in extra), w, f"`{b.name}` runs only under {[str(z)[:60] for z in extra]}")
        elif kind == "step":
            bt = b.get("batch", UNDEF)
            i = [j for j, x in enumerate(r.batches) if x in set(sub(bt)) or x == bt]
            got.append(("step", i[0] if len(i) == 1 else str(bt)[:40]))
            ctx.ob(f"{k}:training_step:state", uses(r, b["state"], cur), w, f"the training step starts from {str(b['state'])[:120]}, not from the state the callbacks returned, {str(cur)[:120]}")
            cur = res
        elif kind in ("val", "save"):
            x = b.get("state", UNDEF)
            ctx.ob(f"{k}:{kind}:state", uses(r, x, cur), w, f"{'validation' if kind == 'val' else 'a checkpoint'} uses {str(x)[:120]}, not the current state {str(cur)[:120]}")
    ctx.ob(f"{k}:order", got == want, w, diff(got, want))
    res = r.v.a[0][0] if r.v.k == "tuple" else r.v
    ctx.ob(f"{k}:returned", uses(r, res, cur), w, f"the returned state {str(res)[:120]} is not the one the last callback returned")


def diff(got, want):
    i = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
    f = lambda s: f"{s[1]} of callback {s[2]}" if s[0] == "cb" else f"training step on batch {s[1]}"
    return f"call {i}: expected {f(want[i]) if i < len(want) else 'nothing'}, found {f(got[i]) if i < len(got) else 'nothing'}"


def job(ctx, c):
    check(ctx, c, "plain")
    check(ctx, c, "validation off", val=False)
    check(ctx, c, "accumulation", gas=2)
    check(ctx, c, "accumulation of one", gas=1)
    check(ctx, c, "no callbacks", ncb=0)
    check(ctx, c, "one callback", ncb=1)


def run(ctx):
    ts = trainers(ctx.P)
    ctx.need("trainer classes", len(ts), 9)
    ctx.pmap(job, ts)
    # the base callback passes the state on
    cb = ctx.P.cls("Callback")
    for h in HOOKS:
        a = Api(ctx.P)
        a.build(cb)
        d, f = cb.lookup(h)
        ctx.ob(f"Callback.{h}", isinstance(f, FuncInfo), cb.qual, f"the documented hook `{h}` does not exist")
        if isinstance(f, FuncInfo):
            v, ev, end = a.call(h, f, ())
            ctx.absorb(a.s)
            ctx.ob(f"Callback.{h}:default", v is not None and str(v) == "$arg.state", f.qual, f"the default hook returns {str(v)[:80]} instead of the state it is given")
