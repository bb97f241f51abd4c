"""Operators of the specification language.

Every contract clause in /verif/specs is written once, with these operators.
They work on plain Python values (when a clause is evaluated natively, under
PyPy, on a run of the real code) and on z3 terms (when the clause is an
obligation of the verifier).  No clause is written twice.
"""
try:
    import z3
except ImportError:  # PyPy: native evaluation only
    z3 = None


def sym(x):
    return z3 is not None and isinstance(x, z3.ExprRef)


def anysym(xs):
    if z3 is None:
        return False
    for x in xs:
        if isinstance(x, z3.ExprRef):
            return True
    return False


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    rest = []
    for x in xs:
        if sym(x):
            rest.append(x)
        elif not x:
            return False
    if not rest:
        return True
    return z3.And(*rest) if len(rest) > 1 else rest[0]


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    rest = []
    for x in xs:
        if sym(x):
            rest.append(x)
        elif x:
            return True
    if not rest:
        return False
    return z3.Or(*rest) if len(rest) > 1 else rest[0]


def Not(x):
    if sym(x):
        return z3.Not(x)
    return not x


def Implies(a, b):
    if not sym(a):
        return b if a else True
    if not sym(b):
        return True if b else z3.Not(a)
    return z3.Implies(a, b)


def Iff(a, b):
    if not sym(a) and not sym(b):
        return bool(a) == bool(b)
    if not sym(a):
        return b if a else Not(b)
    if not sym(b):
        return a if b else Not(a)
    return a == b


def Ite(c, a, b):
    if not sym(c):
        return a if c else b
    if not sym(a) and not sym(b) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) and not sym(b):
        a, b = z3.BoolVal(a), z3.BoolVal(bool(b))
    return z3.If(c, lift(a), lift(b))


def lift(x):
    if sym(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    raise TypeError("cannot lift %r" % (x,))


def B2I(x):
    """bool to int"""
    if sym(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return int(bool(x))


def Sum(xs):
    xs = list(xs)
    conc = 0
    rest = []
    for x in xs:
        if sym(x):
            rest.append(x)
        else:
            conc += x
    if not rest:
        return conc
    if conc:
        rest.append(z3.IntVal(conc))
    return z3.Sum(rest) if len(rest) > 1 else rest[0]


def Count(xs):
    return Sum(B2I(x) for x in xs)


def Max(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if not anysym(xs):
        return max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r


def Min(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if not anysym(xs):
        return min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x < r, x, r)
    return r


def Abs(x):
    if sym(x):
        return Ite(x < 0, -x, x)
    return abs(x)


def Eq(a, b):
    """equality of values; bools compare with bools, ints with ints"""
    if sym(a) or sym(b):
        return lift(a) == lift(b)
    return a == b


def Sel(xs, i):
    """xs[i], i possibly symbolic with 0 <= i < len(xs)"""
    if not sym(i):
        return xs[i]
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = Ite(i == k, xs[k], r)
    return r


def DivK(x, k, kmax):
    """floor(x / k) for 1 <= k <= kmax; x >= 0"""
    if not sym(k):
        return x / k if sym(x) else x // k
    r = _div(x, kmax)
    for c in range(kmax - 1, 0, -1):
        r = Ite(k == c, _div(x, c), r)
    return r


def _div(x, c):
    if c == 1:
        return x
    if sym(x):
        return x / z3.IntVal(c)
    return x // c
