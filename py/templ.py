"""Turns compounds of a generated schema into instances of templates.

The model keeps the compounds as they are (expanded by hand, so to speak); only the source text changes: some types of a compound are
replaced by the parameters of a template, and the places which use the compound name an instance of that template. Siblings are
further instances, with other types in the places of the parameters."""
import copy
import re
import gen
import model
import split
from zt import *

PARAMS = ['T', 'ELEM', 'TYPE', 'Key', 'VAL', 'U', 'T1', 'T2', 'ITEM_T']
SHORT = [''.join(x) for n in (1, 2, 3) for x in __import__('itertools').product('QR', repeat=n)] + ['Q1', 'R2', 'Q1R', 'Q_R']


def make_templ(rng, sect):
    p = dict(sect.get('gen', {}))
    if p.get('short'):      # names that make equal names when put together
        p['tnames'] = SHORT
    while True:
        s = gen.Gen(rng, gen.profile(**p)).build()
        t = Lift(rng, s, p)
        t.run()
        if not s.insts:
            continue
        if not p.get('split'):
            t.sync()
            return s
        for _ in range(20):
            o = split.attempt(rng, s, p)
            if o is not None:
                o.insts = s.insts
                o.features |= s.features
                t.sync()
                return o


def key(u):
    return u.ty.name if isinstance(u.ty, Prim) else id(u.ty)


def clone_use(u):
    """The same type, as an argument of a template (values are not passed there)."""
    c = Use(u.ty, u.text)
    c.targs = [clone_use(a) for a in u.targs]
    return c


def uses_of(d):
    """(Use, place) of a compound: place is a Field, or None for parameters and functions."""
    out = [(p.use, None) for p in d.params] + [(f.use, f) for f in d.members()] + [(f.use, None) for f in d.funcs]
    return out


def deep(us):
    for u, f in us:
        yield u, f, None, 0
        yield from deep_args(u, f)


def deep_args(u, f):
    for k, a in enumerate(u.targs):
        yield a, f, u, k
        yield from deep_args(a, f)


class Lift:
    def __init__(self, rng, schema, prof):
        self.r, self.s, self.p = rng, schema, prof
        self.pkg = schema.packages[0]
        self.used = {re.sub('_', '', d.name.lower()) for d in self.pkg.decls}
        self.texts = None

    def chance(self, k, default):
        return self.r.random() < self.p.get(k, default)

    def fresh(self, pool):
        g = gen.Gen.__new__(gen.Gen)
        g.r, g.p = self.r, dict(self.p, p_kw=0)
        return g.fresh(pool, self.used)

    def order(self):
        """Compounds, used ones first."""
        out = []

        def visit(d):
            if d in out:
                return
            for u, _ in uses_of(d):
                if isinstance(u.ty, Compound):
                    visit(u.ty)
            out.append(d)
        for d in self.pkg.decls:
            if isinstance(d, Compound):
                visit(d)
        return out

    # ---- what may stand in the place of a parameter
    def free(self, d, f):
        """No expression refers to field f of d."""
        n = len(re.findall(r'\b%s\b' % re.escape(f.name), d.emit()))
        return n == 1 and not re.search(r'\.\s*%s\b' % re.escape(f.name), self.s.text() + d.emit())

    def can(self, t, k, u):
        """Whether parameter k of template t may be u."""
        d = t.proto
        if key(u) == key(t.args[k]):
            return True
        for pos, f, outer, i in deep(uses_of(d)):
            if pos.var != t.tparams[k]:
                continue
            if f is None or f.init is not None or f.constraint or f.role:
                return False
            if outer is not None:
                if outer.ty in self.fixed or not self.can(outer.ty.inst_of, i, u):
                    return False
                if f.packed and not model.has_packable(u.ty):
                    return False
            elif self.free(d, f):
                if f.packed and not packable_leaf(u.ty):
                    return False
            else:
                a, b = t.args[k].ty, u.ty
                if not is_int(a) or not is_int(b) or f.name in offset_fields(d) or promote(static_int(a)) != promote(static_int(b)):
                    return False
                (la, ha), (lb, hb) = int_range(a), int_range(b)
                if lb < la or hb > ha:
                    return False
        return True

    def instance(self, t, us):
        """The instance of t for these arguments, or None."""
        ks = tuple(key(u) for u in us)
        if ks in t.insts:
            return t.insts[ks]
        if not all(self.can(t, k, u) for k, u in enumerate(us)):
            return None
        d = t.proto
        c = copy.copy(d)
        c.name = self.fresh(gen.TNAMES)

        def sub(u):
            n = Use(u.ty, u.text, u.args)
            if u.var:
                a = us[t.tparams.index(u.var)]
                n = clone_use(a)
                n.args = list(u.args)
                return n
            n.targs = [sub(a) for a in u.targs]
            if n.targs:
                n.ty = self.instance(u.ty.inst_of, n.targs)
                if n.ty is None:
                    raise KeyError
            return n

        def field(f):
            g = f.copy()
            g.use = sub(f.use)
            return g
        try:
            c.params = [Param(x.name, sub(x.use)) for x in d.params]
            c.funcs = [Func(x.name, sub(x.use), x.expr) for x in d.funcs]
            if isinstance(d, Choice):
                c.cases = [(l, f and field(f)) for l, f in d.cases]
                c.default = field(d.default) if isinstance(d.default, Field) else d.default
            else:
                c.fields = [field(f) for f in d.fields]
        except KeyError:
            return None
        c.inst_of, c.named, c.args = t, None, [clone_use(u) for u in us]
        t.insts[ks] = c
        self.s.insts.append(c)
        self.form(c)
        return c

    def form(self, c):
        """How the instance is made: by a declaration, or by the places which use it."""
        x = self.r.random()
        must = c in self.fixed and self.p.get('split')
        u = Use(c, c.inst_of.name)
        u.targs = [clone_use(a) for a in c.args]
        if x < 0.35 or c in self.aliased or (must and x < 0.7):
            c.named = Instantiate(self.pkg, c.name, u)
        elif x < 0.5 or must:
            c.named = Subtype(self.pkg, c.name, u)
        if c.named:
            self.pkg.decls.insert(self.r.randrange(len(self.pkg.decls) + 1), c.named)

    def use(self, c, args=()):
        """Text which refers to the instance."""
        if c.named and (c in self.fixed and self.p.get('split') or self.r.random() < 0.7):
            return Use(c, c.name, args)
        u = Use(c, c.inst_of.name, args)
        u.targs = [clone_use(a) for a in c.args]
        return u

    def some_type(self, done):
        """A type for a parameter."""
        k = self.r.random()
        if k < 0.45:
            names = self.p.get('prims', gen.DEFAULT['prims'])
            n = self.r.choice(names)
            if n in ('bit', 'int'):
                n += ':%d' % self.r.choice([1, 5, 8, 16, 33])
            return Use(prim(n))
        if k < 0.75:
            c = [d for d in self.pkg.decls if d.kind in ('enum', 'bitmask') or d.kind == 'subtype' and not isinstance(d.use.ty, Compound)]
            if c:
                d = self.r.choice(c)
                return Use(d.use.ty, d.name) if d.kind == 'subtype' else Use(d)
        c = [d for d in done if not d.params]
        if c:
            d = self.r.choice(c)
            return self.use(d) if d.inst_of else Use(d)
        return None

    # ---- making templates
    def run(self):
        order = self.order()
        self.fixed = {u.ty for d in order for u, f in uses_of(d) if f is None and isinstance(u.ty, Compound)}
        self.aliased = {d.use.ty for d in self.pkg.decls if d.kind == 'subtype'}
        for i, d in enumerate(order):
            if self.chance('p_tmpl', 0.7):
                self.lift(d, order[:i], order[i + 1:])
        self.s.features = set(self.s.features)

    def lift(self, d, done, later):
        t = Template(self.pkg, self.fresh(gen.TNAMES), d)
        names = [n for n in PARAMS if n not in {x.name for x in self.pkg.decls} and n not in split.words(d.emit())]
        self.r.shuffle(names)
        for _ in range(self.r.choice([1, 1, 1, 2, 2, 3])):
            pos = {}
            seen = set()
            for u, f, outer, i in deep(uses_of(d)):
                # nothing below a place that is a parameter already
                if id(u) in seen or u.var:
                    seen |= {id(x) for x, *_ in deep_args(u, f)}
                    continue
                if u.args or isinstance(u.ty, Prim) and u.ty.dyn is not None or isinstance(u.ty, Compound) and u.ty.params:
                    continue
                pos.setdefault(u.tytext(), []).append((u, f))
            if not pos:
                break
            # rather places where several types are possible
            ks = sorted(pos)
            good = [k for k in ks if any(f is not None for _, f in pos[k])]
            k = self.r.choice(good or ks)
            c = pos[k]
            some = c if self.r.random() < 0.5 else self.r.sample(c, self.r.randint(1, len(c)))
            v = names.pop()
            t.tparams.append(v)
            t.args.append(clone_use(some[0][0]))
            for u, _ in some:
                u.var = v
        if not t.tparams:
            return
        if len(t.tparams) > 1 and self.r.random() < 0.5:        # in any order
            o = list(range(len(t.tparams)))
            self.r.shuffle(o)
            t.tparams, t.args = [t.tparams[i] for i in o], [t.args[i] for i in o]
        # a parameter may have ended up within a type that is a parameter now
        live = set(re.findall(r'\w+', re.sub(r'^[^{]*', lambda m: m.group(0).replace('<%s>' % ', '.join(t.tparams), '', 1), t.emit(), count=1)))
        keep = [i for i, v in enumerate(t.tparams) if v in live]
        t.tparams, t.args = [t.tparams[i] for i in keep], [t.args[i] for i in keep]
        self.pkg.decls[self.pkg.decls.index(d)] = t
        self.s.insts.append(d)
        d.inst_of, d.args = t, t.args
        t.insts[tuple(key(u) for u in t.args)] = d
        self.form(d)
        used = False
        users = []
        for o in later:
            for u, f, outer, i in deep(uses_of(o)):
                if u.ty is d and not u.var:
                    users.append((u, f, outer, o))
        if not users and not d.named:
            d.named = Instantiate(self.pkg, d.name, self.use(d))
            self.pkg.decls.append(d.named)
        for u, f, outer, o in users:
            if u.text == d.name:        # (not through a subtype)
                self.point(u, d)
        self.s.features.add('template')
        # siblings
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            us = []
            for k in range(len(t.tparams)):
                n = clone_use(t.args[k])
                if self.r.random() < 0.8:
                    for _ in range(12):
                        x = self.some_type(done)
                        if x is not None and self.can(t, k, x):
                            n = x
                            break
                us.append(n)
            c = self.instance(t, us)
            if c is None:
                continue
            placed = False
            if d not in self.fixed:
                for u, f, outer, o in users:
                    if f is not None and outer is None and u.ty is d and self.r.random() < 0.4 \
                            and not (f.packed and not model.has_packable(c)) and f.use is u and self.aliased.isdisjoint([d]):
                        self.point(u, c)
                        placed = True
            if not placed or self.r.random() < 0.3:
                placed |= self.append(c, later)
            if c is not d and placed:
                self.s.features.add('several instances')
            if not placed and not c.named and c is not d:
                c.named = Instantiate(self.pkg, c.name, self.use(c))
                self.pkg.decls.append(c.named)
        # the original may have lost all its users
        if not d.named and not any(u.ty is d for o in later for u, *_ in deep(uses_of(o))):
            if not self.append(d, later):
                d.named = Instantiate(self.pkg, d.name, self.use(d))
                self.pkg.decls.append(d.named)

    def point(self, u, c):
        n = self.use(c)
        u.ty, u.text, u.targs = c, n.text, n.targs

    def append(self, c, later):
        """A new field of type c in one of the structures."""
        ss = [o for o in later if isinstance(o, Struct)]
        if not ss:
            return False
        o = self.r.choice(ss)
        args = []
        for x in c.params:
            ty = x.use.ty
            if isinstance(ty, Prim) and ty.kind == 'bool':
                args.append(lit(self.r.random() < 0.5))
            elif is_int(ty) and ty.dyn is None:
                args.append(lit(self.r.randint(0, min(5, int_range(ty)[1]))))
            else:
                return False
        if args and isinstance(c, Choice) and c.default is None:
            return False
        have = {re.sub('_', '', x.name.lower()) for x in o.params + o.fields + o.funcs}
        names = [n for n in gen.FNAMES if re.sub('_', '', n.lower()) not in have]
        f = Field(self.r.choice(names), self.use(c, args))
        if self.r.random() < 0.35:
            f.arr = ('auto',)
            f.packed = self.r.random() < 0.4 and model.has_packable(c)
        elif self.r.random() < 0.2:
            f.opt = 'optional'
        o.fields.append(f)
        return True

    def sync(self):
        """Names and packages of the instances follow their declarations."""
        seen = set()

        def visit(d):
            if d not in seen:
                seen.add(d)
                for u, f in uses_of(d):
                    if isinstance(u.ty, Compound):
                        visit(u.ty)
        for d in self.s.compounds():
            if d.named or not d.inst_of:
                visit(d)
        mark_holders(list(seen))
        self.s.insts[:] = [d for d in self.s.insts if d in seen]
        for c in self.s.insts:
            if c.named:
                c.pkg, c.shown = c.named.pkg, c.named.shown
            n = sum(1 for a in c.args if isinstance(a.ty, Compound))
            if n:
                self.s.features.add('compound as template argument')
            if any(a.targs for a in c.args):
                self.s.features.add('instance as template argument')
            self.s.features.add('named instance' if c.named else 'implicit instance')
