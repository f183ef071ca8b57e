"""Spreads the declarations of a generated schema over several packages, with imports, equal names and qualified names.

Rules of the language for an unqualified name: own package, then imports of that single name, then wildcard imports; two candidates
of equal rank are an error; imports are not transitive; a qualified name needs an import which covers it."""
import re
from gen import Gen, profile
from zt import *

TREES = [['geo', 'geo.util', 'geo.util.base2', 'lib1', 'ext.core'],
         ['a1.b', 'a1.c', 'a1', 'b', 'c'],
         ['common', 'common.types', 'app.model', 'app', 'types'],
         ['x.y.z', 'x.y', 'x', 'y.z', 'z'],
         ['main_pkg', 'side.one', 'side.two', 'side.one.deep', 'other']]


def words(t):
    return set(re.findall(r'[A-Za-z_]\w*', t))


def make_split(rng, sect):
    while True:
        p = dict(sect.get('gen', {}))
        s = Gen(rng, profile(**p)).build()
        for _ in range(20):
            t = attempt(rng, s, p)
            if t is not None:
                return t


def visible(pkgs, src, shown):
    """The declaration an unqualified name denotes in package src: None, or 'ambiguous'."""
    own = [d for d in src.decls if d.label() == shown]
    # (an import of a single name next to one of its entire package does not count as one)
    single = [d for q, n in src.imp if n == shown and (q, '*') not in src.imp for d in q.decls if d.label() == shown]
    if own:
        return own[0] if not single else 'ambiguous'
    if single:
        return single[0] if len(single) == 1 else 'ambiguous'
    wild = [d for q, n in src.imp if n == '*' for d in q.decls if d.label() == shown]
    return wild[0] if len(wild) == 1 else 'ambiguous' if wild else None


def members(decls):
    """The names declared within types."""
    out = set()
    for d in decls:
        d = getattr(d, 'proto', d)
        if isinstance(d, Compound):
            out |= {x.name for x in d.params + d.members() + d.funcs}
        elif isinstance(d, Enum):
            out |= {x[0] for x in d.items}
    return out


def attempt(rng, s, p):
    decls = [d for q in s.packages for d in q.decls]
    tree = list(rng.choice(TREES))
    rng.shuffle(tree)
    pkgs = [Package(n) for n in tree[:rng.randint(2, 5)]]
    for q in pkgs:
        q.imp = []
    for d in decls:
        d.shown = None
        d.pkg = rng.choice(pkgs)
        d.pkg.decls.append(d)
    names = {d.name: d for d in decls}
    if names.keys() & members(decls):
        return None     # (the text does not tell which is meant)
    need = {d: [names[w] for w in sorted(words(d.emit()) & set(names)) if names[w] is not d] for d in decls}
    # the same name in several packages
    pool = list(decls)
    rng.shuffle(pool)
    for d in pool:
        if rng.random() < 0.5:
            c = [x for x in decls if x.pkg is not d.pkg and (x.kind == 'const') == (d.kind == 'const')]
            if c:
                n = rng.choice(c).label()
                if all(x is d or x.label() != n for x in d.pkg.decls):
                    d.shown = n
    # module names must not collide with those of packages below
    for d in decls:
        if any(q.name.startswith(d.pkg.name + '.' + d.label().lower()) for q in pkgs):
            return None
    quals = {}
    used = set()
    for q in pkgs:
        refs = []
        for d in q.decls:
            refs += [x for x in need[d] if x.pkg is not q and x not in refs]
        rng.shuffle(refs)
        text = '\n'.join(d.emit() for d in q.decls)
        for x in refs:
            style = rng.random()
            if (x.pkg, '*') in q.imp and rng.random() < 0.7:
                pass
            elif style < 0.5:
                q.imp.append((x.pkg, '*'))
            else:
                q.imp.append((x.pkg, x.label()))
        for x in pkgs:      # imports that are not needed
            if x is not q and rng.random() < 0.2:
                q.imp.append((x, '*' if rng.random() < 0.6 or not x.decls else rng.choice(x.decls).label()))
        rng.shuffle(q.imp)
        q.imp = list(dict.fromkeys(q.imp))
        for x in refs:
            got = visible(pkgs, q, x.label())
            typ = x.kind != 'const' and not re.search(r'\b%s\.' % x.name, text)
            if got is not x and typ:
                quals[q, x] = True
                used.add('qualified of need')
            elif got is not x and got is None:
                q.imp.append((x.pkg, x.label()))
            elif got is not x:
                # a more specific import, if nothing speaks against it
                q.imp.append((x.pkg, x.label()))
            elif typ and rng.random() < 0.15:
                quals[q, x] = True
        q.imp = list(dict.fromkeys(q.imp))
    # all names of all packages once more, by the rules
    for q in pkgs:
        for d in q.decls:
            for x in need[d]:
                if (q, x) in quals:
                    if not any(r is x.pkg and n in ('*', x.label()) for r, n in q.imp):
                        return None
                elif visible(pkgs, q, x.label()) is not x:
                    return None
        for r, n in q.imp:      # an import of a single symbol that the package declares itself is an error
            if n != '*' and any(d.label() == n for d in q.decls):
                return None
        singles = [n for r, n in q.imp if n != '*']
        if len(set(singles)) != len(singles):
            return None
        q.rename = {x.name: (x.pkg.name + '.' if (q, x) in quals else '') + x.label() for x in decls
                    if x.label() != x.name and x.pkg is q or any(x in need[d] for d in q.decls) and ((q, x) in quals or x.label() != x.name)}
        q.imports = ['%s.%s' % (r.name, n) for r, n in q.imp]
    out = Schema()
    out.packages = [q for q in pkgs if q.decls]
    for q in pkgs:
        q.imports = ['%s.%s' % (r.name, n) for r, n in q.imp if r.decls]
    if len(out.packages) < 2:
        return None
    kinds = {'equal names'} if any(d.shown for d in decls) else set()
    kinds |= {'qualified name'} if quals else set()
    for q in pkgs:
        for r, n in q.imp:
            kinds.add('wildcard import' if n == '*' else 'single import')
    out.features = kinds | used
    return out
