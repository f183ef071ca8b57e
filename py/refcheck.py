"""Differential validation of the Python model against the reference zserio implementation (when it is installed).
refcheck.run(schema, [Obj...], workdir) -> list of problems."""
import json, os, re, shutil, subprocess, sys
from zt import *
import model

VENV = '/opt/vp/venv/bin'


def available():
    return os.path.exists(VENV + '/zserio')


def snake(n):
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n)
    return s.lower()


def jval(use, v):
    ty = use.ty
    if isinstance(ty, Compound):
        return jobj(v)
    if ty.__class__ is Enum:
        return {'e': [ty.pkg.name, ty.label(), v]}
    if ty.__class__ is Bitmask:
        return {'b': [ty.pkg.name, ty.label(), v]}
    k = ty.kind
    if k in ('f16', 'f32', 'f64'):
        return {'f': [k, v]}
    if k == 'bytes':
        return {'y': v.hex()}
    if k == 'extern':
        n, x = v
        p = -n % 8
        return {'x': [n, (x << p).to_bytes((n + p) // 8, 'big').hex()]}
    return v


def jobj(o):
    d = o.decl
    return {'o': [d.pkg.name, d.label(), [jval(p.use, o.params[p.name]) for p in d.params],
                  [[snake(f.name), [jval(f.use, x) for x in o.vals[f.name]] if f.arr else jval(f.use, o.vals[f.name])]
                   for f in d.members() if o.vals.get(f.name) is not None]]}


DRIVER = r'''
import sys, json, struct, importlib
sys.path.insert(0, sys.argv[1])
import zserio
mods = {}
def mod(p):
    if p not in mods:
        mods[p] = importlib.import_module('top.' + p + '.api')
    return mods[p]
def conv(j):
    if isinstance(j, list): return [conv(x) for x in j]
    if not isinstance(j, dict): return j
    (k, v), = j.items()
    if k == 'e': return list(getattr(mod(v[0]), v[1]))[v[2]]
    if k == 'b': return getattr(mod(v[0]), v[1]).from_value(v[2])
    if k == 'f':
        f, b = v
        return {'f16': lambda: struct.unpack('>e', struct.pack('>H', b)), 'f32': lambda: struct.unpack('>f', struct.pack('>I', b)),
                'f64': lambda: struct.unpack('>d', struct.pack('>Q', b))}[f]()[0]
    if k == 'y': return bytearray(bytes.fromhex(v))
    if k == 'x': return zserio.BitBuffer(bytes.fromhex(v[1]), v[0])
    pkg, name, params, fields = v
    o = getattr(mod(pkg), name)(*[conv(p) for p in params])
    for n, x in fields:
        setattr(o, n, conv(x))
    return o
for line in open(sys.argv[2]):
    try:
        j = json.loads(line)
        if 'rd' in j:
            pkg, name, params, data, n = j['rd']
            o = getattr(mod(pkg), name).from_reader(zserio.BitStreamReader(bytes.fromhex(data), n), *[conv(p) for p in params])
        else:
            o = conv(j)
        if hasattr(o, 'initialize_offsets'): o.initialize_offsets(0)
        w = zserio.BitStreamWriter()
        o.write(w)
        size = o.bitsizeof(0)
        funcs = []
        print(json.dumps({'ok': w.byte_array.hex(), 'n': w.bitposition, 'size': size}))
    except Exception as e:
        print(json.dumps({'err': type(e).__name__ + ': ' + str(e)}))
'''


def masked(o):
    out = []
    def walk(o):
        off = offset_fields(o.decl)
        for f in o.decl.members():
            v = o.vals.get(f.name)
            if f.name in off:
                continue
            if isinstance(f.use.ty, Compound) and v is not None:
                for x in (v if f.arr else [v]):
                    walk(x)
            else:
                r = []
                model.field_toks(f, o, r, None)
                out.extend(r)
    walk(o)
    return out


def run(schema, objs, work):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + '/src')
    for p in schema.packages:
        fn = os.path.join(work, 'src', p.path())
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        open(fn, 'w').write(p.emit())
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    env['PATH'] = VENV + ':' + env['PATH']
    main = schema.packages[-1].path()
    if len(schema.packages) > 1:
        main = 'mainall.zs'
        open(work + '/src/' + main, 'w').write('package mainall;\n' + ''.join('import %s.*;\n' % p.name for p in schema.packages))
    c = subprocess.run([VENV + '/zserio', main, '-src', work + '/src', '-python', work + '/out', '-setTopLevelPackage', 'top',
                        '-withoutCrossExtensionCheck', '-allowImplicitArrays'], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work)
    if c.returncode:
        return [('compile', c.stdout)]
    open(work + '/d.py', 'w').write(DRIVER)
    with open(work + '/cases', 'w') as f:
        for o in objs:
            if schema.insts:     # (the names of instances are the generator's affair: let it decode the object)
                w = model.encode(o)
                d = o.decl
                f.write(json.dumps({'rd': [d.pkg.name, d.label(), [jval(p.use, o.params[p.name]) for p in d.params], w.bytes().hex(), w.n]}) + '\n')
                continue
            f.write(json.dumps(jobj(o)) + '\n')
    r = subprocess.run([VENV + '/python', work + '/d.py', work + '/out', work + '/cases'], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, cwd=work)
    if r.returncode:
        return [('driver', r.stderr)]
    probs = []
    for o, l in zip(objs, r.stdout.splitlines()):
        j = json.loads(l)
        if 'err' in j:
            probs.append(('ref-error', j['err'], o))
            continue
        try:
            q, p = model.decode(o.decl, o.params, bytes.fromhex(j['ok']))
        except Exception as e:
            probs.append(('undecodable', repr(e), o, j))
            continue
        w = model.encode(q)
        if p != j['n'] or w.n != j['n'] or w.bytes().hex() != j['ok'] or masked(q) != masked(o):
            probs.append(('mismatch', '%d %d %s\n%s' % (p, j['n'], w.bytes().hex(), j['ok']), o, j))
        elif j['size'] != w.n:
            probs.append(('ref-size', j['size'], o))
    return probs
