"""Random values for the schema model."""
from zt import *
from model import Bad, has_nan, num_bits, choice_member


class Misfit(Exception):
    """This choice of values leads to something unspecified; try again."""


WORDS = ['', 'a', 'zserio', 'hé', '日本', 'x' * 20, '\x00', '😀z', 'ok\n']


class Vals:
    def __init__(self, rng, max_len=5, depth=4, style=None):
        self.rng, self.max_len, self.depth = rng, max_len, depth
        self.window = None
        self.junk = {}
        self.with_junk = False

    # ---- scalars
    def int_in(self, lo, hi):
        r = self.rng
        if self.window is not None:
            base, width = self.window
            span = hi - lo + 1
            v = lo + (base % span) + r.randint(-width, width)
            return min(hi, max(lo, v))
        k = r.random()
        if k < 0.35:
            return min(hi, max(lo, r.randint(-3, 9)))
        if k < 0.55:
            return r.choice([lo, hi, max(lo, hi - 1), min(hi, lo + 1), max(lo, min(hi, 0))])
        if k < 0.75:
            b = r.randint(0, max(1, hi.bit_length()))
            v = (1 << b) + r.randint(-1, 1)
            if lo < 0 and r.random() < 0.5:
                v = -v
            return min(hi, max(lo, v))
        return r.randint(lo, hi)

    def prim(self, ty, obj, idx, role=None):
        r, k = self.rng, ty.kind
        if is_int(ty):
            if ty.dyn is not None:
                n = num_bits(ty, obj, idx)
                lo, hi = (0, 2**n - 1) if k == 'u' else (-2**(n - 1), 2**(n - 1) - 1)
            else:
                lo, hi = int_range(ty)
            if role:
                if role[0] == 'set':
                    return r.choice(role[1])
                return r.randint(max(lo, role[1]), min(hi, role[2]))
            return self.int_in(lo, hi)
        if k == 'bool':
            return r.random() < 0.5
        if k == 'f16':
            while True:
                v = r.choice([r.getrandbits(16), r.choice([0, 0x8000, 0x3c00, 0x7c00, 0xfc00, 1, 0x3ff, 0x400, 0x7bff])])
                if not (v & 0x7c00 == 0x7c00 and v & 0x3ff):
                    return v
        if k == 'f32':
            return r.choice([r.getrandbits(32), r.choice([0, 0x80000000, 0x3f800000, 0x7f800000, 1, 0x7fc00000])])
        if k == 'f64':
            return r.choice([r.getrandbits(64), r.choice([0, 1 << 63, 0x3ff << 52, 0x7ff << 52, 1])])
        if k == 'string':
            return r.choice(WORDS) + ''.join(r.choice('abcXYZ 09_é') for _ in range(r.choice([0, 1, 3, 130 if r.random() < .1 else 7])))
        if k == 'bytes':
            return bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 5])))
        if k == 'extern':
            n = r.choice([0, 1, 7, 8, 9, 13, 16, 31, r.randint(0, 70)])
            return (n, r.getrandbits(n) if n else 0)
        raise AssertionError(k)

    def value(self, use, obj, idx, depth, role=None):
        ty = use.ty
        if isinstance(ty, Compound):
            params = {p.name: ev_as(a, obj, p.use.ty, idx) for p, a in zip(ty.params, use.args)}
            return self.obj(ty, params, depth)
        if ty.__class__ is Enum:
            if role and role[0] == 'set':
                return self.rng.choice(role[1])
            return self.rng.randrange(len(ty.items))
        if ty.__class__ is Bitmask:
            v = 0
            for x in ty.values():
                if self.rng.random() < 0.4:
                    v |= x
            return v
        return self.prim(ty, obj, idx, role)

    def params(self, decl):
        """Parameters for an object at the top level."""
        out = {}
        for p in decl.params:
            out[p.name] = self.value(p.use, None, None, self.depth, getattr(p, 'role', None))
        return out

    def field(self, f, o, depth):
        if f.arr:
            if f.arr[0] == 'auto':
                if depth <= 0:
                    n = 0
                elif f.packed and self.rng.random() < 0.4:
                    n = self.rng.randint(0, 4 * self.max_len)
                else:
                    n = self.rng.choice([0, 1, 2, self.rng.randint(0, self.max_len)])
            else:
                n = f.arr[1].ev(o)
                if not 0 <= n <= 70:
                    raise Misfit('array length')
            old = self.window
            if (f.packed or self.window is not None) and self.rng.random() < 0.75:
                self.window = (self.rng.getrandbits(64), self.rng.choice([0, 0, 1, 3, 20, 300]))
            try:
                return [self.value(f.use, o, i, depth - 1, f.role) for i in range(n)]
            finally:
                self.window = old
        return self.value(f.use, o, None, depth - 1, f.role)

    def obj(self, decl, params, depth):
        o = Obj(decl, params)
        if depth < -4:
            raise Misfit('too deep')
        if isinstance(decl, Union):
            f = self.rng.choice(decl.fields)
            o.sel = f.name
            o.vals[f.name] = self.field(f, o, depth)
        elif isinstance(decl, Choice):
            try:
                f = choice_member(decl, o)
            except Bad:
                raise Misfit('selector')
            if f:
                o.vals[f.name] = self.field(f, o, depth)
        else:
            for f in decl.fields:
                if f.opt == 'optional':
                    if self.rng.random() < 0.4 or depth <= 0:
                        continue
                elif f.opt is not None and not f.opt.ev(o):
                    continue
                o.vals[f.name] = self.field(f, o, depth)
        if self.with_junk:
            for f in decl.members():
                if f.name not in o.vals and f.opt != 'optional' and self.rng.random() < 0.5 and not isinstance(f.use.ty, Compound):
                    try:
                        x = self.field(f, o, 0)
                        if not has_nan(f.use, x):  # the object may become an argument
                            self.junk[(id(o), f.name)] = x
                    except (Unspec, Misfit, Bad):
                        pass
        return o

    def top(self, decl, tries=40):
        for _ in range(tries):
            try:
                self.junk = {}
                return self.obj(decl, self.params(decl), self.depth)
            except (Misfit, Unspec):
                pass
        return None
