"""A small vocabulary to say what a value should be: Ref walks the fields of the
classes (following pointers) and yields the symbol of the initial value there."""
from absint import *


class Missing(Exception):
    pass


class Ref:
    def __init__(self, I, path, ty):
        self.I, self.path, self.ty = I, path, ty

    def _obj(self):
        k = tinfo(self.ty)
        if k[0] == "ptr":
            return Ref(self.I, (("D", ("in", self.path)),), k[1])
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        o = self._obj()
        for c, f in self.I.P.all_fields(o.ty):
            if f["n"] == n:
                return Ref(self.I, o.path + ((".", n),), f["t"])
        raise Missing("%s has no field %s" % (o.ty, n))

    def __getitem__(self, i):
        k = tinfo(self.ty)
        if k[0] == "mat":
            return self.v.e[i]
        if k[0] not in ("vec", "arr", "ptr"):
            raise Missing("%s is not a sequence" % self.ty)
        if type(i) is int:
            i = C(i)
        base = self.path if k[0] != "ptr" else (("D", ("in", self.path)),)
        return Ref(self.I, base + (("[", i),), k[1])

    @property
    def size(self):
        return self.I.sym(("in", self.path + ((".", "#size"),)), "int")

    @property
    def v(self):
        return self.I.sym(("in", self.path), self.ty)

    @property
    def f(self):
        """truth of a boolean field"""
        return self.I.sym(("in", self.path), "bool")


def handle(I, name, cls):
    return Ref(I, (("D", ("in", (("P", name),))),), cls)


def param(I, name, ty="double"):
    return I.sym(("in", (("P", name),)), ty)
