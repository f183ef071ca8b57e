"""Rust code that connects the generated types of a schema to the glue crate (building values, dumping them, calling them)."""
import re
from zt import *


def words(n):
    n = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n)
    return [w for w in n.split('_') if w]


RESERVED = {'type': 'z_type', 'struct': 'z_struct', 'self': 'z_self'}


KEYWORDS = """abstract as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in
let loop macro match mod move mut override priv pub ref return self static struct super trait true try type typeof unsafe unsized use
virtual where while yield""".split()
USED = """BitReader BitWriter Box Default DeltaContext From Option PackingContextNode PartialEq Result String TryFrom Vec
ZserioPackableObject""".split()


def snake(n):
    n = RESERVED.get(n.lower(), n)
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n).lower()
    s = re.sub(r'([a-z])([0-9])', r'\1_\2', s)
    s = re.sub(r'([0-9])([a-z])', r'\1_\2', s)
    return 'z_' + s if s in KEYWORDS else s


def pascal(n):
    n = RESERVED.get(n.lower(), n)
    return ''.join(w[0].upper() + w[1:].lower() for w in words(n))


def type_name(n):
    n = pascal(n)
    return 'Z' + n if n in USED else n


def rust_path(root, pkg, name):
    mods = [snake(p) for p in pkg.name.split('.')]
    return '::'.join(['crate'] + ([root] if root else []) + mods + [name])


def rust_int(ty):
    b = static_int(ty)
    return '%s%d' % ('i' if b[2] else 'u', b[1])


class Glue:
    """Glue for one schema whose generated code is the module `root`."""

    def __init__(self, schema, root):
        self.schema, self.root = schema, root
        self.types = []     # compound declarations, in registry order
        self.consts = []
        self.code = []
        # template instances without a name of their own: their names are found in the generated code (see build.resolve)
        self.implicit = [d for d in schema.insts]
        for d in schema.decls():
            if d.kind == 'enum':
                self.enum(d)
            elif d.kind == 'bitmask':
                self.bitmask(d)
            elif isinstance(d, Compound):
                self.compound(d)
                self.types.append(d)
            elif d.kind == 'const':
                self.consts.append(d)

    def path(self, d):
        if d in self.implicit:
            return '@@P%d@@' % self.implicit.index(d)
        return rust_path(self.root, d.pkg, type_name(d.label()))

    def enum(self, d):
        p = self.path(d)
        arms = ''.join('%d => %s::%s, ' % (i, p, pascal(n)) for i, (n, _, _) in enumerate(d.items))
        back = ''.join('%s::%s => %d, ' % (p, pascal(n), i) for i, (n, _, _) in enumerate(d.items))
        self.code.append('''impl G for %s {
    fn b(&mut self, t: &mut Tok) { *self = match t.num::<u32>() { %s_ => panic!("GLUE: enum item") }; }
    fn d(&self, o: &mut String) { let i: u32 = match self { %s }; G::d(&i, o) }
}
''' % (p, arms, back))

    def bitmask(self, d):
        p = self.path(d)
        self.code.append('''impl G for %s {
    fn b(&mut self, t: &mut Tok) { let v: %s = t.num(); *self = %s::from(v); }
    fn d(&self, o: &mut String) { G::d(&self.bits(), o) }
}
''' % (p, rust_int(d.base.ty), p))

    def compound(self, d):
        p = self.path(d)
        b, o, pa, fs = [], [], [], []
        for x in d.params:
            n = snake(x.name)
            b.append('G::b(&mut self.%s, t);' % n)
            pa.append('G::b(&mut self.%s, t);' % n)
            o.append('G::d(&self.%s, o);' % n)
        if isinstance(d, Union):
            s = self.path(d) + 'Selector'
            if d not in self.implicit:
                s = rust_path(self.root, d.pkg, '') + '%s::%sSelector' % (snake(d.label()), type_name(d.label()))
            arms = ''.join('%d => %s::%s, ' % (i, s, pascal(f.name)) for i, f in enumerate(d.fields))
            back = ''.join('%s::%s => %d, ' % (s, pascal(f.name), i) for i, f in enumerate(d.fields))
            b.append('self.union_selector = match t.num::<u32>() { %s_ => panic!("GLUE: union member") };' % arms)
            o.append('let i: u32 = match self.union_selector { %s }; G::d(&i, o);' % back)
        for f in d.members():
            n = snake(f.name)
            if isinstance(d, (Choice, Union)) or f.opt not in (None, 'optional'):
                b.append('t.member(&mut self.%s);' % n)
                o.append('member(&self.%s, o);' % n)
            else:
                b.append('G::b(&mut self.%s, t);' % n)
                o.append('G::d(&self.%s, o);' % n)
        for i, f in enumerate(d.funcs):
            fs.append('%d => { G::d(&self.%s(), o); true }' % (i, snake(f.name)))
        if d in self.implicit:
            self.code.append('//@@BEGIN %d\n' % self.implicit.index(d))
        self.code.append('''impl G for %s {
    fn b(&mut self, t: &mut Tok) { %s }
    fn d(&self, o: &mut String) { %s }
}
impl C for %s {
    fn p(&mut self, t: &mut Tok) { %s }
    fn f(&self, i: usize, o: &mut String) -> bool { match i { %s _ => false } }
}
''' % (p, '\n'.join(b), '\n'.join(o), p, '\n'.join(pa), ', '.join(fs) + (',' if fs else '')))
        if d in self.implicit:
            self.code.append('//@@END\n')

    def walk(self):
        """How to find the names of the implicit instances: nodes are compounds (path or None, number of the instance or None), with
        the members to follow."""
        if not self.implicit:
            return None
        nodes = []
        for d in self.types:
            es = [[snake(x.name), self.types.index(x.use.ty)] for x in d.params + list(d.members()) if isinstance(x.use.ty, Compound)]
            path = None
            if not d.inst_of or d.named:
                path = rust_path(self.root, d.pkg, '') + '%s::%s' % (snake(d.label()), type_name(d.label()))
            nodes.append([path, self.implicit.index(d) if d in self.implicit else None, es])
        return nodes

    def text(self):
        return ''.join(self.code)

    def news(self):
        return ['new::<%s>' % self.path(d) for d in self.types]

    def const_fns(self):
        return ['|o: &mut String| G::d(&%s, o)' % rust_path(self.root, c.pkg, RESERVED.get(c.label().lower(), c.label()).upper()) for c in self.consts]
