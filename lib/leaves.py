"""Component-wise view of the state containers: every leaf (matrix, quaternion or
scalar) of a class, with one fresh symbolic index per container level."""
from util import *


def leaves(I, cls, depth=0):
    """[(relative path, type, label, [(index atom, container path)])]"""
    k = tinfo(cls)
    out = []
    if k[0] in ("mat", "quat", "flt", "int"):
        return [((), cls, "", [])]
    if k[0] in ("vec", "arr"):
        a = ("v", ("ix", depth))
        mark_int(a)
        for rel, ty, lab, ixs in leaves(I, k[1], depth + 1):
            out.append(((("[", Poly.atom(a)),) + rel, ty, "[%s]" % "ijk"[depth] + lab, [(a, 0)] + [(x, d + 1) for x, d in ixs]))
        return out
    r = I.P.classes.get(cls)
    if r is None or depth > 3:
        return []
    for f in r["fields"]:
        for rel, ty, lab, ixs in leaves(I, f["t"], depth):
            out.append((((".", f["n"]),) + rel, ty, "." + f["n"] + lab, [(x, d + 1) for x, d in ixs]))
    return out


def bind_indices(I, st, base, rel, ixs, at=None):
    """declare every index of the leaf to lie inside the container it indexes in `base`"""
    for a, d in ixs:
        p = base + rel[:d] + ((".", "#size"),)
        n = I.num(I.read(st, p, "unsigned long"))
        I.bounds[aid(a)] = n
