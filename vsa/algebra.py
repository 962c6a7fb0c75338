"""Polynomials over terms, with the identities of the integer division."""

from .terms import const, is_const


class Poly:
    """polynomial {monomial (sorted tuple of atoms): coefficient}"""

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}

    def __add__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for k, v in self.d.items():
            for k2, v2 in o.d.items():
                m = tuple(sorted(k + k2, key=repr))
                r[m] = r.get(m, 0) + v * v2
        return Poly(r)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def is_zero(self):
        return not self.d

    def atoms(self):
        return {a for k in self.d for a in k}

    def const(self):
        """value if the polynomial is a constant"""
        if not self.d:
            return 0
        if list(self.d) == [()]:
            return self.d[()]
        return None

    def subst(self, atom, poly):
        r = Poly()
        for k, v in self.d.items():
            m = Poly({(): v})
            for a in k:
                m = m * (poly if a == atom else Poly({(a,): 1}))
            r = r + m
        return r

    def coef(self, atom):
        """(coefficient polynomial of atom, rest) if of degree <= 1 in atom"""
        c, rest = {}, {}
        for k, v in self.d.items():
            n = k.count(atom)
            if n == 0:
                rest[k] = v
            elif n == 1:
                m = list(k)
                m.remove(atom)
                c[tuple(m)] = c.get(tuple(m), 0) + v
            else:
                return None
        return Poly(c), Poly(rest)

    def __repr__(self):
        return f"Poly({self.d})"


def K(n):
    return Poly({(): n})


def A(t):
    return Poly({(t,): 1})


def poly(t, rewrite=None):
    """polynomial form of a term; rewrite(term) -> Poly or None for atoms"""
    if rewrite is not None:
        r = rewrite(t)
        if r is not None:
            return r
    if is_const(t) and isinstance(t[1], bool):
        return K(int(t[1]))
    if is_const(t) and isinstance(t[1], (int, float)):
        return K(t[1])
    if t[0] == "op" and t[1] in ("+", "-", "*"):
        a, b = poly(t[2], rewrite), poly(t[3], rewrite)
        return a + b if t[1] == "+" else a - b if t[1] == "-" else a * b
    if t[0] == "op" and t[1] == "/" and is_const(t[3]) and isinstance(
        t[3][1], (int, float)
    ) and t[3][1]:
        return poly(t[2], rewrite) * K(1 / t[3][1])
    if t[0] == "op" and t[1] == "**" and is_const(t[3]) and t[3][1] in (1, 2, 3):
        a = poly(t[2], rewrite)
        r = a
        for _ in range(t[3][1] - 1):
            r = r * a
        return r
    if t[0] == "neg":
        return -poly(t[1], rewrite)
    if t[0] == "call" and t[1] == ("ext", "int") and len(t[2]) == 1 and not t[3]:
        return poly(t[2][0], rewrite)
    return A(t)


def divmod_identity(p, n, q, r, parts):
    """replace q*parts by n - r (n == q*parts + r)"""
    res = Poly()
    for k, v in p.d.items():
        if q in k and parts in k:
            m = list(k)
            m.remove(q)
            m.remove(parts)
            res = res + Poly({tuple(m): v}) * (A(n) - A(r))
        else:
            res = res + Poly({k: v})
    return res


__all__ = ["A", "K", "Poly", "poly", "divmod_identity", "const"]
