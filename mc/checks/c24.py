"""C24: matrices of operators obey matrix algebra and never change their operands."""
import itertools

import numpy as np

MODES = ["py"]
CHUNK = 4
BIN = ["S+S", "S+a", "a+S", "S*k", "k*S", "S*1", "1*S", "S+0", "0+S", "S@S", "S@a", "a@S", "S@x", "copy", "T", "item", "block"]
INPLACE = ["+=S", "+=a", "*=k", "*=1", "@=S", "@=a"]


def bounds(tier):
    return {
        "classes": ["SM1", "SM1to2", "SM1to3", "SM2", "SM3"],
        "expressions": "all sequences of " + ("4" if tier == "thorough" else "3")
        + " operations over 17 pure and 6 in-place operators (neutral elements 1 and 0 included), on two operands",
    }


def jobs(tier, mode):
    depth = 4 if tier == "thorough" else 3
    for cls in ("SM1", "SM2", "SM3", "SM1to2", "SM1to3"):
        for a in BIN + INPLACE:
            yield {"cls": cls, "first": a, "depth": depth}


def make(cls, k):
    import conmech.struct.stiffness_matrix as sm

    c = getattr(sm, cls)
    n = 2
    rows, cols = {"SM1": (n, n), "SM2": (2 * n, 2 * n), "SM3": (3 * n, 3 * n), "SM1to2": (n, 2 * n), "SM1to3": (n, 3 * n)}[cls]
    data = (np.arange(rows * cols, dtype=float).reshape(rows, cols) % 7 - 3 + k) * 0.5
    return c, data


def run(job, ctx):
    from conmech.struct.stiffness_matrix import StiffnessMatrix

    ctx.sample(job)
    cls = job["cls"]
    square = "to" not in cls
    ops = [o for o in BIN + INPLACE if square or o not in ("S@S", "@=S", "@=a", "a@S", "S@a", "block")]
    if job["first"] not in ops:
        return
    for rest in itertools.product(ops, repeat=job["depth"] - 1):
        seq = (job["first"],) + rest
        C, da = make(cls, 0)
        _, db = make(cls, 1)
        arr = db.T.copy() if not square else db + 1.0
        if not square:
            arr = db + 1.0
        A, B = C(da.copy()), C(db.copy())
        wa = da.copy()
        keep = [(B, db.copy()), (arr, arr.copy())]
        for op in seq:
            wb = db
            S = A
            if op == "S+S":
                R, want = S + B, wa + wb
            elif op == "S+a":
                R, want = S + 1.5, wa + 1.5
            elif op == "a+S":
                R, want = 2.0 + S, wa + 2.0
            elif op == "S*k":
                R, want = S * 0.5, wa * 0.5
            elif op == "k*S":
                R, want = -2.0 * S, wa * -2.0
            elif op == "S*1":
                R, want = S * 1.0, wa.copy()
            elif op == "1*S":
                R, want = 1 * S, wa.copy()
            elif op == "S+0":
                R, want = S + 0.0, wa.copy()
            elif op == "0+S":
                R, want = 0 + S, wa.copy()
            elif op == "copy":
                R, want = S.copy(), wa.copy()
            elif op in ("S@S", "S@a", "a@S", "S@x", "T", "item", "block"):
                x = np.arange(wa.shape[1], dtype=float) - 1
                if op == "S@S":
                    got, want = S @ B, wa @ wb
                elif op == "S@a":
                    got, want = S @ arr, wa @ arr
                elif op == "a@S":
                    got, want = S.__rmatmul__(arr), arr @ wa
                elif op == "S@x":
                    got, want = S @ x, wa @ x
                elif op == "T":
                    got, want = S.T, wa.T
                elif op == "item":
                    got, want = S[1:, 0], wa[1:, 0]
                else:
                    if cls == "SM1":
                        continue
                    d = int(cls[-1])
                    n = wa.shape[0] // d
                    got = S.SM1
                    ctx.check(type(got).__name__ == "SM1", "class of a block")
                    got, want = got.data, wa[:n, :n]
                ctx.close(got, want, f"result of {op}", 1e-9, seq=seq, scale=1.0)
                ctx.step()
                continue
            elif op in INPLACE:
                ident = A
                if op == "+=S":
                    A += B
                    wa = wa + wb
                elif op == "+=a":
                    A += arr
                    wa = wa + arr
                elif op == "*=k":
                    A *= 0.5
                    wa = wa * 0.5
                elif op == "*=1":
                    A *= 1.0
                elif op == "@=S":
                    A @= B
                    wa = wa @ wb
                else:
                    A @= arr
                    wa = wa @ arr
                ctx.check(A is ident, "an in-place operator made another matrix", seq=seq)
                ctx.close(A.data, wa, f"result of {op}", 1e-9, seq=seq)
                ctx.step()
                continue
            ctx.check(type(R) is C, f"class of the result of {op}", seq=seq)
            ctx.check(isinstance(R, StiffnessMatrix) and R is not S, f"{op} returned its operand", seq=seq)
            ctx.close(R.data, want, f"result of {op}", 1e-9, seq=seq)
            ctx.close(A.data, wa, f"operand of {op}", 0.0, seq=seq)
            ctx.check(not np.shares_memory(R.data, A.data), f"the result of {op} shares its operand", seq=seq)
            keep.append((A, wa.copy()))
            A, wa = R, want
            ctx.step()
        for M, w in keep:
            ctx.close(getattr(M, "data", M) if not isinstance(M, np.ndarray) else M, w, "matrix used before", 0.0, seq=seq)
        ctx.close(A.data, wa, "matrix in the end", 1e-9, seq=seq)
        ctx.trace()
        ctx.state((cls, wa))
        ctx.outcome(wa)
    # different spaces do not mix
    import conmech.struct.stiffness_matrix as sm

    for o in ("SM1", "SM2", "SM3", "SM1to2", "SM1to3"):
        C, da = make(cls, 0)
        D = getattr(sm, o)
        if o == cls:
            continue
        for f in (lambda a, b: a + b, lambda a, b: a.__iadd__(b)):
            a, b = C(da.copy()), D(da.copy())
            try:
                f(a, b)
                ctx.fail("operators between different spaces were added", first=cls, second=o)
            except (AssertionError, TypeError, ValueError):
                pass
            ctx.close(a.data, da, "operand of a refused sum", 0.0)
            ctx.trace()
