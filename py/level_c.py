"""Level C: the generator itself. One schema is given to it several times, in ways that must not matter (another process, another order
of the directory entries, a used output directory, the command line instead of the library, other white space and comments); the files
must be the same, byte for byte, and must compile below every root module."""
import json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build, common, level_b
from common import ROOT, TARGET, CheckError

REPO = '/repo'
LIMIT = 60      # seconds for one run of the generator


def tools():
    t = os.path.join(TARGET, 'cli')
    common.cargo_build(REPO, t, ['-p', 'zserio-rs-build', '-p', 'rust-zserio', '--bins'], {'CARGO_PROFILE_DEV_DEBUG': '0'})
    return os.path.join(t, 'debug')


# ------------------------------------------------------------------------------------------- equivalent inputs
TOKEN = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|@\w+|[A-Za-z_]\w*|\d[\w.]*(?:(?<=[eE])[+-]\d+\w*)?|\.\d\w*|
    &&|\|\||==|!=|<=|>=|<<|>>|.''', re.S | re.X)
COMMENTS = ['/* x */', '/* */', '/* " */', "/* it's */", '/* { ; */', '// line\n', '//\n', '// /* \n', '// "unterminated\n', '/* // */', '/** doc @param x */',
            '/** struct Fake { uint8 a; }; */', '/*! **markdown** !*/', '/* \u00e4\u00f6\u20ac */', '/* multi\n * line */', '/***/', '/* ** */',
            '/**\n * Documentation.\n *\n * @see Other\n */']
SPACE = [' ', '\n', '\t', '\r\n', '\f', '  ', '\n\n', ' \t ']


def decorate(rng, text):
    """The same tokens with other white space and comments between them."""
    toks = TOKEN.findall(text)
    assert ''.join(toks) == text
    p = rng.choice([0.02, 0.1, 0.4])
    out = ''
    for i, t in enumerate(toks):
        if t.isspace():
            out += rng.choice(SPACE) if rng.random() < p and not (i and toks[i - 1].startswith('//')) else t
            continue
        # '>>' of nested template arguments may be two tokens: nothing is put between them
        if rng.random() < p and not (i and toks[i - 1][-1:] in '<>&|=!/' and t[:1] in '<>&|=!/'):
            out += rng.choice(SPACE) + rng.choice(COMMENTS) + rng.choice(SPACE) if rng.random() < 0.6 else rng.choice(SPACE)
        out += t
    if rng.random() < 0.3:
        out = rng.choice(COMMENTS) + '\n' + out
    if rng.random() < 0.3:
        out += rng.choice(COMMENTS)
    return out


DECOYS = {'README.md': 'struct {', 'notes.zs.bak': 'package nothing;', 'zs': '%%', 'old.zst': 'x', 'x.zserio~': '{', 'sub/empty.txt': ''}


def put_tree(rng, d, files, variant):
    """Writes the sources; what the variant changes must not matter."""
    items = list(files.items())
    if variant:
        rng.shuffle(items)
        if variant.get('decoys'):
            items += list(DECOYS.items())
            rng.shuffle(items)
    os.makedirs(d)
    for p, t in items:
        if variant.get('text') and p not in DECOYS:
            t = decorate(rng, t)
        if variant.get('ext') and p.endswith('.zs'):
            p = p[:-3] + rng.choice(['.zs', '.zserio', '.ZS', '.Zs'])
        fn = os.path.join(d, p)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, 'w', newline='') as f:
            f.write(t)


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for n in fs:
            fn = os.path.join(p, n)
            with open(fn, 'rb') as f:
                out[os.path.relpath(fn, d)] = f.read()
    return out


def differ(a, b, stale=()):
    """None, or how the outputs differ; stale: files which were there before."""
    for p in sorted(set(a) | set(b)):
        if p not in b:
            return 'the file %s is missing' % p
        if p not in a:
            if p in stale:
                continue
            return 'there is an additional file %s' % p
        if a[p] != b[p]:
            x, y = a[p].decode('utf-8', 'replace').split('\n'), b[p].decode('utf-8', 'replace').split('\n')
            for i, (l, m) in enumerate(zip(x + [''] * len(y), y + [''] * len(x))):
                if l != m:
                    return 'line %d of %s is\n  %s\ninstead of\n  %s' % (i + 1, p, m[:300], l[:300])
            return 'the file %s differs' % p
    return None


# ------------------------------------------------------------------------------------------- one schema
class GenCase:
    """files, seed: everything else follows from them."""

    def __init__(self, files, seed, features=()):
        self.files, self.seed, self.features = files, seed, set(features)
        self.labels = set()

    def to_json(self):
        return {'files': self.files, 'seed': self.seed}


ROOTS = ['', '', 'gen', 'a::b', 'root_module', 'x1::y2::z3', 'api']


def run_cmd(argv, cwd, env=None):
    try:
        p = subprocess.run(argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=LIMIT,
                           env=dict(os.environ, RUST_BACKTRACE='0', **(env or {})))
        return p.returncode, p.stdout.decode('utf-8', 'replace')[-1500:]
    except subprocess.TimeoutExpired:
        return 'timeout', 'no end within %d s' % LIMIT


def examine(case, exes, work, fast):
    """Returns a list of (aspect, evaluated things); raises level_b.Fail."""
    rng = random.Random(case.seed)
    schemac, bindir, libs = exes
    done = []
    root = rng.choice(ROOTS)
    case.labels.add('root of %d modules' % len([x for x in root.split('::') if x]))
    if len(case.files) > 1:
        case.labels.add('several packages')
    a, b = os.path.join(work, 'a'), os.path.join(fast, 'b')
    put_tree(rng, a, case.files, {})
    # the reference: the library, into a directory that does not exist yet
    out1 = os.path.join(work, 'o', 'one')

    def library(src, out, what):
        m = build.run_schemac(schemac, [(src, out, root)], 1, LIMIT)[0]
        if m is not None:
            raise level_b.Fail('%s: the generator fails: %s' % (what, m[:800]))
        return tree(out)
    t1 = library(a, out1, 'through the library')
    top = 'lib.rs' if not root else 'mod.rs'
    if top not in t1 or (set(t1) & {'lib.rs', 'mod.rs'}) != {top}:
        raise level_b.Fail('the top-level file %s is missing, or there is another one: %s' % (top, sorted(t1)[:10]))
    done.append('library')

    # the command line, other order of directory entries, other text
    variant = {'decoys': rng.random() < 0.4, 'ext': rng.random() < 0.3, 'text': rng.random() < 0.7}
    put_tree(rng, b, case.files, variant)
    case.labels |= {'other ' + k for k, v in variant.items() if v} | {'other order'}
    tool = rng.choice(['zserio-rs-build', 'zserio-rs-build', 'rust-zserio'])
    case.labels.add(tool)

    def cli(src, out, what, env=None):
        form = rng.randrange(4)
        o = [['-o', out], ['-o=' + out], ['--out', out], ['--out=' + out]][form]
        ro = [['-r', root], ['--root=' + root], ['--root', root], ['-r=' + root]][rng.randrange(4)] if root or rng.random() < 0.5 else []
        if root == '' and ro and '=' in ro[0]:
            ro = ['--root', '']
        v = rng.choice([[], [], ['-v'], ['-vv'], ['-vvv']])
        parts = [o, ro, v, [src]]
        rng.shuffle(parts)
        argv = [os.path.join(bindir, tool)] + [x for p in parts for x in p]
        rc, text = run_cmd(argv, work, dict(env or {}, PATH=bindir + ':' + os.environ.get('PATH', '')))
        if rc != 0:
            raise level_b.Fail('%s: %s ends with %s\n%s' % (what, ' '.join(argv), rc, text[-800:]))
        return tree(os.path.join(work, out))
    d = differ(t1, cli(rng.choice([b, b + '/', os.path.join(b, '.')]), rng.choice(['o/two', os.path.join(work, 'o/two'), './o/two/']),
                       'on the command line'))
    if d is None:
        # the relative or absolute output directory is the same
        d = differ(t1, tree(os.path.join(work, 'o', 'two')))
    if d:
        raise level_b.Fail('the command line %sgives other files than the library: %s' % (
            '(and %s) ' % ', '.join('other ' + k for k, v in variant.items() if v) if any(variant.values()) else '', d))
    done.append('command line')

    # a directory that holds something already
    out3 = os.path.join(work, 'o', 'three')
    kind = rng.choice(['longer', 'garbage', 'same', 'other root'])
    case.labels.add('used directory: ' + kind)
    stale = set()
    if kind == 'other root':
        build.run_schemac(schemac, [(a, out3, 'other' if not root else '')], 1, LIMIT)
    else:
        for p, c in t1.items():
            fn = os.path.join(out3, p)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            if kind == 'same' or rng.random() < 0.8:
                with open(fn, 'wb') as f:
                    f.write(c + b'\n// more\n' * rng.choice([1, 50]) if kind == 'longer' else b'garbage' if kind == 'garbage' else c)
        os.makedirs(os.path.join(out3, 'old_package'), exist_ok=True)
        for p in ('old_package/mod.rs', 'zz_unused.rs', 'notes.txt'):
            with open(os.path.join(out3, p), 'w') as f:
                f.write('pub mod missing;\n')
    stale = tree(out3)
    t3 = library(b, out3, 'again') if rng.random() < 0.5 else cli(b, out3, 'again, on the command line')
    d = differ(t1, t3, stale)
    if d:
        raise level_b.Fail('into a directory which held files (%s): %s' % (kind, d))
    for p in stale:
        if p not in t1 and t3.get(p) != stale[p]:
            raise level_b.Fail('the file %s of the output directory, which is not part of the schema, has changed' % p)
    done.append('used directory')

    # once more, in yet another order
    c = os.path.join(fast, 'c')
    put_tree(rng, c, dict(reversed(list(case.files.items()))), {'text': False})
    d = differ(t1, library(c, os.path.join(work, 'o', 'four'), 'again'))
    if d:
        raise level_b.Fail('generating again gives other files: %s' % d)
    done.append('again')

    # the code compiles where it belongs
    mods = [x for x in root.split('::') if x]
    if not mods:
        src = os.path.join(out1, 'lib.rs')
    else:
        crate = os.path.join(work, 'crate')
        os.makedirs(crate)
        shutil.copytree(out1, os.path.join(crate, *mods))
        src = os.path.join(crate, 'lib.rs')
        inner = '#[path = "%s"] pub mod %s;' % (os.path.join(crate, *mods, 'mod.rs'), mods[-1])
        for m in reversed(mods[:-1]):
            inner = 'pub mod %s { %s }' % (m, inner)
        with open(src, 'w') as f:
            f.write(inner + '\n')
    rc, text = run_cmd(['rustc', '--edition', '2021', '--crate-type', 'rlib', '--crate-name', 'generated', '--emit', 'metadata', '-A', 'warnings',
                        '-o', os.path.join(work, 'lib.rmeta'), src] + libs, work)
    if rc != 0:
        raise level_b.Fail('the generated code does not compile with the root module %r:\n%s' % (root, first_error(text)))
    done.append('compiles')
    return done


def first_error(text):
    k = text.find('error')
    return text[k if k >= 0 else 0:][:900]


def attempt(case, exes):
    """None or what is wrong."""
    work = level_b.scratch_dir()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    fast = tempfile.mkdtemp(prefix='verif-', dir=base)
    try:
        case.done = examine(case, exes, work, fast)
        return None
    except level_b.Fail as e:
        return str(e).replace(work, 'WORK').replace(fast, 'FAST')
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(fast, ignore_errors=True)


def exes():
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build.prepare), ex.submit(tools)
        return a.result(), b.result(), build.libs()


def repo_schemas():
    """The schemas of the repository itself."""
    d = os.path.join(REPO, 'tests', 'reference_modules')
    return {p: t.decode() for p, t in tree(d).items() if p.endswith('.zs')}


def run(r, plan):
    tier = 0 if r.tier == 'quick' else 1
    x = exes()
    todo = []
    for sect in plan['trees']:
        for i in range(sect['n'][tier]):
            todo.append((i / sect['n'][tier], '%s/%d/%s/%d' % (r.prop, r.seed, sect['name'], i), sect))
    for i in range(2):
        todo += [(0.5, '%s/%d/repo/%d' % (r.prop, r.seed, i), {'files': repo_schemas}), (0.9, '%s/%d/none/%d' % (r.prop, r.seed, i), {'files': dict})]
    todo.sort(key=lambda t: t[0])
    t_end = time.time() + plan.get('seconds', (200, 3000))[tier]
    want = set(plan['labels'])
    bad = []

    def one(t):
        _, seed, sect = t
        if time.time() > t_end or len(bad) > 3:
            return None
        rng = random.Random(seed)
        if 'files' in sect:
            case = GenCase(sect['files'](), seed + '/run')
            case.schema = None
        else:
            s = sect['make'](rng, sect)
            files = {p.path(): p.emit() for p in s.packages}
            if rng.random() < 0.15:
                n = rng.choice(['empty1', 'nothing.here', s.packages[0].name + '.blank2'])
                files.setdefault(n.replace('.', '/') + '.zs', 'package %s;\n' % n)
            case = GenCase(files, seed + '/run', s.features)
            case.schema = s
        m = attempt(case, x)
        return case, m
    with ThreadPoolExecutor(build.JOBS) as ex:
        for res in ex.map(one, todo):
            if res is None:
                r.parts['stopped_early'] = True
                continue
            case, m = res
            r.evaluations += len(case.done) if m is None else 1
            labels = case.labels | case.features
            for l in labels:
                r.label(l)
            if m is None and want & labels:
                r.nontrivial += 1
                if r.nontrivial % 23 == 1:
                    r.samples.append({'labels': sorted(labels), 'compared': case.done, 'packages': sorted(case.files),
                                      'schema': '\n'.join(case.files.values())[:400]})
            if m is not None:
                bad.append((case, m))
    for case, m in bad[:2]:
        case, m = shrink(case, m, x)
        r.failures.append({'kind': 'tree', 'case': case.to_json(), 'message': '%s\n%s' % (
            m, '\n'.join('// %s\n%s' % f for f in case.files.items())[:3000])})
    r.parts['generated_schemas'] = len(todo)


def shrink(case, m, x, budget=60):
    """Smaller schemas with the same kind of failure. (Chance may decide about it: each is tried several times.)"""
    t_end = time.time() + budget
    key = re.sub(r'\W.*', '', m[:60])[:20]
    while case.schema is not None and time.time() < t_end:
        cand = []
        for v in level_b.variants(case.schema, ''):
            if v is not None:
                c = GenCase({p.path(): p.emit() for p in v.packages}, case.seed)
                c.schema = v
                cand.append(c)
        cand = cand[:32]

        def one(c):
            for _ in range(2):
                y = attempt(c, x)
                if y is not None:
                    return y
        with ThreadPoolExecutor(build.JOBS) as ex:
            res = list(ex.map(one, cand))
        ok = [(c, y) for c, y in zip(cand, res) if y is not None and y.startswith(m[:25])]
        if not ok:
            break
        case, m = min(ok, key=lambda t: sum(map(len, t[0].files.values())))
    return case, m


def replay(d):
    x = exes()
    for _ in range(5):
        m = attempt(GenCase(d['case']['files'], d['case']['seed']), x)
        if m:
            print(m)
            return 1
    print('as expected, five times')
    return 0
