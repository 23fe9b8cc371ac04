"""C05: a batch computes what its elements compute alone, however it is partitioned."""
import copy

import numpy as np

from fsim import core, env, ops, world

PROPERTY, LEVEL, FAKE_JEIG = "C05", "exploration", False
TOL, TOL_GRAD = 1e-7, 1e-5
GROUPS = {"stack": lambda n: "lat" if n in ("u", "v") else (n if n in ("wl", "k") else n[-1])}
FLEX = ("stack", "sops", "pml", "farfield", "fieldamps")


def runs(tier):
    return 800 if tier == "quick" else 6000


def budget(tier):
    return 60 if tier == "quick" else 1500


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)


def group(op, name):
    if op["op"] in ("stack", "sops", "scan"):
        if name in ("u", "v"):
            return "lat"
        return name if name in ("wl", "k") else "L" + name[-1]
    if name in ("u", "v"):
        return "lat"
    if op["op"] == "fieldamps" and name in ("ex", "ey", "hx", "hy"):
        return "fields"
    return name


def gen(r, i):
    op = ops.gen_class(r, i, vec=0.12)
    if op["op"] in ("stack", "sops") and r.random() < 0.25:
        op["blat"] = True
    shape = [2, 2] if r.random() < (0.9 if i % 8 in (1, 4, 5) else 0.05) else [2]
    big = r.random() < 0.07
    if big:
        shape = [int(r.choice([3, 5, 7, 17, 33]))]
    n = int(np.prod(shape))
    elems = [int(x) for x in r.permutation(max(20, n))[:n]]
    modes = {}
    if op["op"] in FLEX and not op.get("blat") and r.random() < 0.6:
        names = ops._element(op, 0)
        groups = sorted({group(op, x) for x in names})
        choices = ["full", "none", "ones"] if len(shape) == 1 else ["full", "ax0", "ax1", "none"]
        full = {"stack": ["wl"], "sops": ["k"], "pml": ["eps"], "farfield": ["flux"], "fieldamps": ["fields"]}[op["op"]]
        for g in groups:
            modes[g] = "full" if g in full else str(r.choice(choices))
        if op["op"] == "fieldamps":
            modes["wl"] = "full"
        if op["op"] in ("farfield", "fieldamps"):
            for g in modes:
                if modes[g] in ("ax0", "ax1"):
                    modes[g] = "full"
    plan = []
    for _ in range(int(r.integers(1, 3))):
        kind = str(r.choice(["chunk", "chunk", "vmap" if i % 8 in (2, 3, 6, 7) or r.random() < 0.2 else "chunk", "lead1", "full"]))
        m = int(r.choice([1, 2])) if kind != "chunk" else int(r.choice([1, 2, n]))
        plan.append({"kind": kind, "idx": [int(x) for x in r.integers(0, n, size=m)] if kind != "full" else list(range(n))})
    names = sorted(ops._element(op, 0))

    def contents():
        poison = None
        if r.random() < 0.45:
            poison = {"name": str(r.choice(names)), "elem": int(r.integers(0, n)), "value": str(r.choice(["nan", "inf", "nan1"]))}
        judge = None
        if n > 4:
            judge = sorted({0, n - 1} | {int(x) for x in r.integers(0, n, size=2)})
        return poison, judge

    poison, judge = contents()
    spec = {"op": op, "shape": shape, "elems": elems, "modes": modes, "plan": plan, "poison": poison, "judge": judge}
    # Rounds: the same structure and partition with other contents and another poison.
    rounds = []
    for _ in range(0 if big else int(r.integers(1, 4))):
        poison, _ = contents()
        rounds.append({"seed": int(r.integers(0, 10**6)), "elems": [int(x) for x in r.permutation(20)[:n]], "poison": poison,
                       "alike": str(r.choice(["no", "same", "close"])) if op["op"] in ("stack", "scan", "sops", "grad", "vector") else "no"})
    spec["rounds"] = rounds
    if (i // 8) % 3 == 1 and not big:
        # Depth: the operation compiled once and fed many contents.
        spec["rounds"], spec["poison"] = [], None
        spec["deep"] = [int(x) for x in r.integers(0, 10**9, size=150)]
        spec["plan"] = [c for c in spec["plan"] if c["kind"] != "full"][:1] if r.random() < 0.4 else []
    return spec


def deep_spec(spec, seed):
    """The contents of one deep round."""
    r = world.rng_of("deep", seed)
    out = {k: v for k, v in spec.items() if k not in ("rounds", "deep")}
    op = dict(spec["op"], seed=int(r.integers(0, 10**9)))
    for k in ("alike", "wild"):
        op.pop(k, None)
    if op["op"] in ("stack", "scan", "sops", "grad", "vector"):
        x = r.random()
        if x < 0.45:
            op["alike"] = ["same", "close", "near"][int(r.integers(0, 3))]
        if op["op"] not in ("grad", "vector") and r.random() < 0.4:
            op["wild"] = True
    if "t" in op:
        op["t"] = [float(np.round(x, 4)) for x in r.uniform(0.05, 0.6, size=len(op["t"]))]
        if r.random() < 0.3:
            op["t"][int(r.integers(0, len(op["t"])))] = float(r.choice([0.0, 1e-9, 1e-3, 5.0, 60.0]))
    n = int(np.prod(spec["shape"]))
    names = sorted(ops._element(op, 0))
    out["op"], out["elems"] = op, [int(x) for x in r.permutation(20)[:n]]
    if r.random() < 0.2:
        out["elems"][0] = 0
    if r.random() < 0.3:
        out["poison"] = {"name": str(r.choice(names)), "elem": int(r.integers(0, n)), "value": str(r.choice(["nan", "inf", "nan1"]))}
    return out


def execute_deep(spec, ctx):
    import jax
    fm = ctx.fm
    objs = ops.objects(fm, spec["op"])
    static = spec["op"]

    def fn(t, A):
        return ops.call(fm, dict(static, t=list(t)) if "t" in static else static, objs, A)

    f = jax.jit(fn)
    for seed in spec["deep"]:
        q = deep_spec(spec, seed)
        ctx.probe("deep-round")
        out = execute_round(q, ctx, lambda o, A: f(tuple(o.get("t", ())), A))
        if out:
            out["detail"] += f" (compiled, contents {seed})"
            return out
    return None


def round_spec(spec, q):
    """The specification of one round."""
    out = {k: v for k, v in spec.items() if k != "rounds"}
    out["op"] = dict(spec["op"], seed=q["seed"])
    out["op"].pop("alike", None)
    if q["alike"] != "no":
        out["op"]["alike"] = q["alike"]
    out["elems"], out["poison"] = q["elems"], q["poison"]
    return out


def nontrivial(spec):
    return len(spec["plan"]) > 0


def element_ids(spec, name, idx):
    """Element id of array `name` at flat batch position idx, honouring broadcasting."""
    mode = spec["modes"].get(group(spec["op"], name), "full")
    shape = spec["shape"]
    if mode in ("none", "ones"):
        return spec["elems"][0]
    if mode == "full" or len(shape) == 1:
        return spec["elems"][idx]
    i, j = np.unravel_index(idx, shape)
    return spec["elems"][int(i)] if mode == "ax0" else spec["elems"][int(j)]


def alone(spec, idx):
    op = spec["op"]
    cache = {}
    out = {}
    for name in ops._element(op, 0):
        e = element_ids(spec, name, idx)
        if e not in cache:
            cache[e] = ops._element(op, e)
        out[name] = cache[e][name]
    return out


def poison_array(a, value):
    a = np.array(a)
    if not np.issubdtype(a.dtype, np.inexact):
        return a
    if value == "nan1" and a.size > 1:
        a.flat[a.size // 2] = np.nan
    else:
        a[...] = np.inf if value == "inf" else np.nan
    return a


def poisoned(spec):
    """Flat positions whose inputs contain the poisoned value."""
    p = spec["poison"]
    if not p:
        return set()
    n = int(np.prod(spec["shape"]))
    target = element_ids(spec, p["name"], p["elem"])
    return {i for i in range(n) if element_ids(spec, p["name"], i) == target}


def data(spec, idx, mode_shape):
    """Batched arrays for flat positions idx. mode_shape: "full" keeps the broadcast
    structure of the specification; otherwise every array is fully batched."""
    op = spec["op"]
    p = spec["poison"]
    bad = poisoned(spec)
    per = []
    for i in idx:
        a = alone(spec, i)
        if p and i in bad:
            a[p["name"]] = poison_array(a[p["name"]], p["value"])
        per.append(a)
    out = {}
    shape = spec["shape"]
    for name in per[0]:
        stacked = np.stack([q[name] for q in per])
        core_shape = stacked.shape[1:]
        if mode_shape == "full":
            mode = spec["modes"].get(group(op, name), "full")
            full = stacked.reshape(tuple(shape) + core_shape)
            if mode == "none":
                out[name] = full[(0,) * len(shape)]
            elif mode == "ones":
                out[name] = full[:1]
            elif mode == "ax0":
                out[name] = full[:, :1]
            elif mode == "ax1":
                out[name] = full[:1]
            else:
                out[name] = full
        elif mode_shape == "lead1":
            out[name] = stacked[None]
        else:
            out[name] = stacked
    return out


def execute(spec, ctx):
    if spec.get("deep"):
        return execute_deep(spec, ctx)
    out = execute_round(spec, ctx)
    for q in spec.get("rounds", ()):
        if out:
            break
        ctx.probe("round-with-other-contents")
        out = execute_round(round_spec(spec, q), ctx)
    return out


def execute_round(spec, ctx, compiled=None):
    import jax
    fm, op = ctx.fm, spec["op"]
    if compiled:
        call = lambda A: compiled(op, A)
    else:
        objs = ops.objects(fm, op)
        call = lambda A: ops.call(fm, op, objs, A)
    n = int(np.prod(spec["shape"]))
    bad = poisoned(spec)
    tol = TOL_GRAD if op["op"] == "grad" else TOL
    refs = {}

    def ref(i):
        if i not in refs:
            refs[i] = ops.to_np(call(ops.jx(alone(spec, i))))
        return refs[i]

    todo = [{"kind": "full", "idx": list(range(n))}] + spec["plan"]
    for c in todo:
        idx = c["idx"]
        ctx.steps += 1
        kind = c["kind"]
        if kind == "full" and op["op"] == "grad":
            got = call(ops.jx(data(spec, idx, "flat")))
            lead = lambda v, j: v[j]
        elif kind == "full":
            got = call(ops.jx(data(spec, idx, "full")))
            lead = lambda v, j: v[tuple(np.unravel_index(j, spec["shape"]))]
        elif kind == "vmap":
            A = ops.jx(data(spec, idx, "flat"))
            dyn = lambda B: {k: v for k, v in call(B).items() if not k.endswith("!")}
            got = jax.vmap(dyn)(A)
            lead = lambda v, j: v[j]
        elif kind == "lead1":
            got = call(ops.jx(data(spec, idx, "lead1")))
            lead = lambda v, j: v[0, j]
        else:
            got = call(ops.jx(data(spec, idx, "flat")))
            lead = lambda v, j: v[j]
        got = ops.to_np(got)
        ctx.fault("partition-" + kind)
        if len(set(idx)) < len(idx):
            ctx.fault("duplicated-element")
        for j, i in enumerate(idx):
            if spec.get("judge") and i not in spec["judge"]:
                continue
            if i in bad:
                ctx.fault("poisoned-element-" + spec["poison"]["value"])
                continue
            r = ref(i)
            sub = {}
            for k, v in got.items():
                sub[k] = v if k.endswith("!") else lead(v, j)
            r = {k: v for k, v in r.items() if k in sub or not k.endswith("!")}
            e, name = ops.compare(sub, r, tol)
            ctx.dev(op["op"], e)
            if e > tol:
                return core.violation(f"batch-differs:{op['op']}:{name.split()[0]}" + (":poisoned" if bad else ""),
                                      f"{op['op']} result {name} of element {i} differs by {e:.3g} between call kind={kind} idx={idx} (shape {spec['shape']}) and the element alone; poisoned positions {sorted(bad)}")
    ctx.state(op["op"], op.get("fam"), spec["shape"], sorted(spec["modes"].items()), [(c["kind"], c["idx"]) for c in spec["plan"]], str(spec["poison"]))
    if spec["modes"] and len(spec["shape"]) == 2:
        ctx.probe("mutually-broadcast-batch")
    return None


def shrink(spec):
    d = spec.get("deep")
    if d:
        if len(d) > 1:
            for part in (d[:len(d) // 2], d[len(d) // 2:]):
                s = copy.deepcopy(spec); s["deep"] = part; yield s
        else:
            yield dict(deep_spec(spec, d[0]), rounds=[])
            s = copy.deepcopy(spec); s["plan"] = []; yield s
        return
    for i, q in enumerate(spec.get("rounds", ())):
        s = round_spec(spec, q); s["rounds"] = []; yield copy.deepcopy(s)
    for i in range(len(spec.get("rounds", ()))):
        s = copy.deepcopy(spec); del s["rounds"][i]; yield s
    if spec["poison"]:
        s = copy.deepcopy(spec); s["poison"] = None; yield s
    for i in range(len(spec["plan"])):
        s = copy.deepcopy(spec); del s["plan"][i]; yield s
    for g, m in spec["modes"].items():
        if m != "full":
            s = copy.deepcopy(spec); s["modes"][g] = "full"; yield s
    for i, c in enumerate(spec["plan"]):
        if len(c["idx"]) > 1 and c["kind"] != "full":
            s = copy.deepcopy(spec); s["plan"][i]["idx"] = c["idx"][:-1]; yield s
    op = spec["op"]
    if op.get("expmod"):
        s = copy.deepcopy(spec); s["op"].pop("expmod"); yield s
    if op["op"] == "stack" and len(op.get("want", [])) > 1:
        for w in op["want"]:
            if w != "waves":
                s = copy.deepcopy(spec); s["op"]["want"] = [x for x in op["want"] if x != w]; yield s
    if len(spec["shape"]) == 1 and spec["shape"][0] > 2 and not spec.get("rounds") and all(max(c["idx"]) < 2 or c["kind"] == "full" for c in spec["plan"]) and (not spec["poison"] or spec["poison"]["elem"] < 2):
        s = copy.deepcopy(spec); s["shape"] = [2]; s["elems"] = s["elems"][:2]; s["judge"] = None
        for c in s["plan"]:
            c["idx"] = [x for x in c["idx"] if x < 2]
        yield s


RULE = ("one run = one operation of the public interface on 2-4 (in 7% of runs 3-33) random elements, computed as one batch (with random "
        "broadcast structure) and as 1-3 random chunks (reordered, duplicated, vectorised, extra axes), each element "
        "compared with the same element alone; possibly one element poisoned by non-finite input; repeated for up to two rounds of other contents; every run is non-trivial")
STATES = "distinct (operation, lattice family, batch shape, broadcast structure, partition plan, poison) tuples"
COMPONENTS = {"real": ["all of fmmax on jax/CPU, real LAPACK eigensolver"], "stub": []}
ASSUMPTIONS = ["relative tolerance 1e-7 (1e-5 for gradients) against the largest magnitude of each result of the element",
               "element results are compared through quantities that do not depend on mode labelling"]
