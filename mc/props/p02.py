"""Tree-based arithmetic against dense arithmetic."""
import itertools

import numpy as np
import tensap

from .. import ref, tbt

ID = "P02"
BOUNDS = {
    "quick": "all labelled trees with 2..4 leaves (3 node numberings to order 3), all active-leaf patterns (of both "
             "operands: equal, all, none, complement), rank patterns over {1,2,3}, 3 shape patterns, root rank 1..2; every "
             "arithmetic operation once, and all pairs of operations on orders 2..3",
    "thorough": "as quick with all rank patterns and shapes on order 4, order 5 with one pattern, pairs of operations on "
                "order 4 and triples on orders 2..3",
}


def cases(tier):
    q = tier == "quick"
    for c in tbt.active_cases((2, 3), ("bfs", "pre", "post")):
        yield dict(c, kind="ops", pats=[[p, s, rr] for p, s in ((0, 0), (1, 1), (2, 3), (4, 0), (4, 1)) for rr in (1, 2)])
    for c in tbt.active_cases((4,), ("bfs",) if q else ("bfs", "post")):
        yield dict(c, kind="ops", pats=[[1, 0, 1], [4, 1, 2]] if q else
                   [[p, s, rr] for p in (0, 1, 2, 4, 5) for s in (0, 1) for rr in (1, 2)])
    if not q:
        for t in ref.all_trees(range(5)):
            for act in ([1] * 5, [0] * 5, [1, 0, 1, 0, 1], [0, 1, 1, 0, 0]):
                yield {"t": t, "num": "bfs", "act": act, "kind": "ops", "pats": [[1, 0, 1]]}
    for c in tbt.active_cases((2, 3), ("pre",)):
        yield dict(c, kind="chain", depth=2 if q else 3, pats=[[1, 0, 1], [2, 1, 2]])
    if not q:
        for c in tbt.active_cases((4,), ("pre",)):
            yield dict(c, kind="chain", depth=2, pats=[[1, 2, 1]])


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def had(a, b):
    return a * b


def blockdiag(a, b):
    out = np.zeros(tuple(x + y for x, y in zip(a.shape, b.shape)))
    out[tuple(slice(0, x) for x in a.shape)] = a
    out[tuple(slice(x, None) for x in a.shape)] = b
    return out


def run_ops(case, ctx):
    d = len(case["act"])
    for p, s, rr in case["pats"]:
        A = tbt.make(case, p, s, rr, tag=0)
        a = ref.tbt_dense(A)
        acts = [case["act"]]
        for o in ([1] * d, [0] * d, [1 - x for x in case["act"]]):
            if o not in acts:
                acts.append(o)
        with ctx.step("ranks#%s shape#%s root-rank %s" % (p, s, rr)):
            ctx.trace()
            with ctx.op("neg", pure=[A], sig="neg"):
                tbt.check(ctx, -A, -a, "neg")
            for c in (-3, 0, np.float64(0.5)):
                with ctx.op("A*c", c, pure=[A], sig="scalar-mul"):
                    tbt.check(ctx, A * c, a * c, "scalar-mul")
                with ctx.op("c*A", c, pure=[A], sig="scalar-rmul"):
                    tbt.check(ctx, c * A, a * c, "scalar-rmul")
                if c:
                    with ctx.op("A/c", c, pure=[A], sig="div"):
                        tbt.check(ctx, A / c, a / c, "div")
            for m in (1, 2, 3) if rr > 1 else ():
                W = ref.gen((m, rr), 5)
                with ctx.op("W*A", m, pure=[A, W], sig="matrix-rmul"):
                    R = W * A
                    w = np.tensordot(a, W, (a.ndim - 1, 1))
                    tbt.check(ctx, R, w[..., 0] if m == 1 else w, "matrix-rmul")
            for dims in [None] + list(ref.subsets(d, 1)):
                with ctx.op("reduce_sum", dims, pure=[A]):
                    R = A.reduce_sum(None if dims is None else list(dims))
                    w = a.sum(tuple(range(d)) if dims is None else dims)
                    if dims is None or len(dims) == d:
                        ctx.close(np.squeeze(ref.dense(R)), w, "reduce_sum")
                    else:
                        tbt.check(ctx, R, w, "reduce_sum")
            for p2, act in [(p, acts[0])] + [(3, x) for x in acts]:
                B = tbt.make(case, p2, s, rr, tag=1, act=act)
                b = ref.tbt_dense(B)
                same = "" if act == case["act"] else "-mixed"
                with ctx.op("A+B", act, pure=[A, B], sig="add" + same):
                    tbt.check(ctx, A + B, a + b, "add" + same)
                with ctx.op("A-B", act, pure=[A, B], sig="sub" + same):
                    tbt.check(ctx, A - B, a - b, "sub" + same)
                with ctx.op("A*B", act, pure=[A, B], sig="hadamard" + same):
                    tbt.check(ctx, A * B, a * b, "hadamard" + same)
                s2 = [2 if k % 2 else 1 for k in range(d)]
                K = tbt.make(case, p2, s2, rr, tag=2, act=act)
                k = ref.tbt_dense(K)
                with ctx.op("kron", act, pure=[A, K], sig="kron" + same):
                    tbt.check(ctx, A.kron(K), np.kron(a, k), "kron" + same)
                with ctx.op("cat", act, pure=[A, K], sig="cat" + same):
                    tbt.check(ctx, A.cat(K), blockdiag(a, k), "cat" + same)
            with ctx.op("A+A", pure=[A], sig="add-self"):
                tbt.check(ctx, A + A, 2 * a, "add-self")
            with ctx.op("A-A", pure=[A], sig="sub-self"):
                tbt.check(ctx, A - A, 0 * a, "sub-self")
            with ctx.op("hadamard_product", pure=[A], sig="hadamard-self"):
                tbt.check(ctx, A.hadamard_product(A), a * a, "hadamard-self")


def run_chain(case, ctx):
    d = len(case["act"])
    for p, s, rr in case["pats"]:
        B = tbt.make(case, 2, s, rr, tag=1)
        b = ref.tbt_dense(B)
        A = tbt.make(case, p, s, rr, tag=0)
        ops = {
            "+B": lambda x, y: (x + B, y + b),
            "B-": lambda x, y: (B - x, b - y),
            "+self": lambda x, y: (x + x, 2 * y),
            "*self": lambda x, y: (x * x, y * y),
            "*B": lambda x, y: (x * B, y * b),
            "neg": lambda x, y: (-x, -y),
            "*-2": lambda x, y: (x * -2, -2 * y),
            "/4": lambda x, y: (x / 4, y / 4),
        }
        if rr > 1:
            W = ref.gen((rr, rr), 9)
            W1 = ref.gen((1, rr), 8)
            ops["W1*"] = lambda x, y: (W1 * x, np.tensordot(y, W1[0], (y.ndim - 1, 0))) if y.ndim > d else (x, y)
            ops["W*"] = lambda x, y: (W * x, np.tensordot(y, W, (y.ndim - 1, 1)))
        frontier = [(A, ref.tbt_dense(A), [])]
        A0, B0 = ref.tbt_dense(A), ref.tbt_dense(B)
        for _ in range(case["depth"]):
            new = []
            for x, y, h in frontier:
                for name, f in ops.items():
                    if "B" in name and y.ndim != b.ndim or name == "W*" and y.ndim == d:
                        continue
                    with ctx.step("%s p=%s s=%s rr=%s" % (h, p, s, rr)), ctx.op(name, pure=[x], sig="chain:" + name):
                        x2, y2 = f(x, y)
                        if tbt.check(ctx, x2, y2, "chain:" + name, scale=max(1, np.max(np.abs(y2))) * 10):
                            new.append((x2, y2, h + [name]))
                        ctx.trace()
            frontier = new
        ctx.close(ref.tbt_dense(A), A0, "chain/aliasing", msg="first operand after the chain")
        ctx.close(ref.tbt_dense(B), B0, "chain/aliasing", msg="second operand after the chain")
        if d > 1:
            ctx.outcome(A0)
