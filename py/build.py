"""From schemas to running programs: schema sources -> schemac (the generator under test) -> rustc -> processes."""
import json, os, re, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import common, glue
from common import ROOT, TARGET, CheckError

JOBS = 8
_lib = None


def libs():
    """Builds the runtime crate and the glue crate; returns rustc arguments to link against them."""
    global _lib
    if _lib is None:
        t = os.path.join(TARGET, 'gen')
        _, out = common.cargo_build(os.path.join(ROOT, 'glue'), t, ['--message-format=json'], {'CARGO_PROFILE_DEV_DEBUG': '0'})
        a = {}
        for l in out.splitlines():
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('reason') == 'compiler-artifact' and j['target']['name'] in ('zserio', 'glue'):
                    for f in j['filenames']:
                        if f.endswith('.rlib'):
                            a[j['target']['name']] = f
        if set(a) != {'zserio', 'glue'}:
            raise CheckError('glue did not build\n' + out[-3000:])
        _lib = ['-L', 'dependency=' + os.path.join(t, 'debug', 'deps'), '--extern', 'zserio=' + a['zserio'], '--extern', 'glue=' + a['glue']]
    return _lib


def schemac():
    t = os.path.join(TARGET, 'schemac')
    common.cargo_build(os.path.join(ROOT, 'schemac'), t, env={'CARGO_PROFILE_DEV_DEBUG': '0'})
    return os.path.join(t, 'debug', 'schemac')


def prepare():
    """Both builds at once."""
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(libs), ex.submit(schemac)
        a.result()
        return b.result()


class Unit:
    """One schema: its sources (path -> text), glue code and what became of it."""

    def __init__(self, files, glue_code, news, consts, root, walk=None):
        self.files, self.glue_code, self.news, self.consts, self.root, self.walk = files, glue_code, news, consts, root, walk
        self.error = None       # (stage, message): 'generator' or 'rustc'
        self.bin = None

    @staticmethod
    def of(schema, root):
        g = glue.Glue(schema, root)
        u = Unit({p.path(): p.emit() for p in schema.packages}, g.text(), g.news(), g.const_fns(), root, g.walk())
        u.g = g
        return u

    def to_json(self):
        return {'files': self.files, 'glue': self.glue_code, 'news': self.news, 'consts': self.consts, 'root': self.root, 'walk': self.walk}

    @staticmethod
    def from_json(d):
        return Unit(d['files'], d['glue'], d['news'], d['consts'], d['root'], d.get('walk'))

    def follow(self, path):
        """The type at the end of a chain of type aliases."""
        for _ in range(20):
            parts = path.split('::')
            try:
                with open(os.path.join(self.out, *parts[2:-1]) + '.rs') as f:
                    m = re.search(r'\bpub\s+type\s+%s\s*=\s*(crate(?:::\w+)+)\s*;' % re.escape(parts[-1]), f.read())
            except OSError:
                return path
            if not m:
                return path
            path = m.group(1)
        return path

    def resolve(self):
        """The glue code and constructors, with the names the generator gave to the instances of templates (which are found by
        following the fields of the types whose names are known)."""
        if not self.walk:
            return self.glue_code, self.news
        paths = {}
        todo = [(i, n[0]) for i, n in enumerate(self.walk) if n[0]]
        seen = set(todo)
        while todo:
            i, path = todo.pop(0)
            _, inst, edges = self.walk[i]
            if inst is not None:
                paths.setdefault(inst, []).append(path)
            fn = os.path.join(self.out, *path.split('::')[2:-1]) + '.rs'
            try:
                with open(fn) as f:
                    text = f.read()
            except OSError:
                continue
            for field, j in edges:
                m = re.search(r'\bpub\s+(?:r#)?%s\s*:\s*([^,;]*)' % re.escape(field), text)
                m = m and re.findall(r'\bcrate(?:::\w+)+', m.group(1))
                to = m and self.follow(m[-1])
                if to and (j, to) not in seen:
                    seen.add((j, to))
                    todo.append((j, to))
        blocks = {}

        def block(m):
            out = ''
            for p in paths.get(int(m.group(1)), []):
                b = m.group(2).replace('@@P%s@@' % m.group(1), p)
                if b not in blocks:
                    blocks[b] = True
                    out += b
            return out
        code = re.sub(r'//@@BEGIN (\d+)\n(.*?)//@@END\n', block, self.glue_code, flags=re.S)
        news = [re.sub(r'@@P(\d+)@@', lambda m: paths.get(int(m.group(1)), ['crate::%s::the_name_of_an_instance_was_not_found' % self.root])[0], n)
                for n in self.news]
        return code, news


def write_files(d, files):
    for p, t in files.items():
        fn = os.path.join(d, p)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, 'w') as f:
            f.write(t)


def run_schemac(exe, lines, threads=JOBS, timeout=300):
    """Runs the generator on (schema dir, out dir, root) lines; returns {index: None or message}."""
    lst = os.path.join(os.path.dirname(lines[0][0].rstrip('/')), 'schemac-%d-%d.txt' % (os.getpid(), threading.get_ident()))
    with open(lst, 'w') as f:
        f.write(''.join('\t'.join(l) + '\n' for l in lines))
    try:
        p = subprocess.run([exe, lst, str(threads)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        out, rc, err = (e.stdout or b'').decode('utf-8', 'replace'), 'timeout', ''
    os.unlink(lst)
    res, started = {}, set()
    for l in out.splitlines():
        k, i, *m = l.split(' ', 2)
        if k == 'START':
            started.add(int(i))
        elif k == 'OK':
            res[int(i)] = None
        elif k == 'PANIC':
            res[int(i)] = m[0] if m else '?'
    missing = [i for i in range(len(lines)) if i not in res]
    if missing:
        if len(lines) == 1:
            res[0] = 'the generator did not finish within %d s' % timeout if rc == 'timeout' else 'the generator died with %s: %s' % (rc, err[-300:])
        else:
            for i in missing:
                res[i] = run_schemac(exe, [lines[i]], 1, 60)[0]
    return res


class World:
    """A set of units built into programs."""

    def __init__(self, units, work, per_bin=None):
        self.units, self.work = units, work
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        exe = prepare()
        n = len(units)
        per = per_bin or max(1, min(12, -(-n // JOBS)))
        self.bins = []
        lines = []
        for k in range(0, n, per):
            b = Bin(self, k // per, units[k:k + per])
            self.bins.append(b)
            for u in b.units:
                write_files(os.path.join(work, 'zs', u.root), u.files)
                u.out = os.path.join(b.dir, u.root)
                os.makedirs(b.dir, exist_ok=True)
                lines.append((os.path.join(work, 'zs', u.root), u.out, u.root))
        if not lines:
            return
        for i, m in run_schemac(exe, lines).items():
            if m is not None:
                units[i].error = ('generator', m)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(Bin.compile, self.bins))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def run(self, jobs, timeout=120):
        """jobs: list of (unit, command text with type index local to the unit as '{ty}'). Returns list of output lines / markers."""
        per = {}
        for i, (u, cmd) in enumerate(jobs):
            per.setdefault(u.bin.k, []).append((i, u, cmd))
        out = [None] * len(jobs)

        def one(k):
            b = self.bins[k]
            js = per[k]
            res = b.run([c for _, _, c in js], timeout)
            for (i, _, _), r in zip(js, res):
                out[i] = r
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, per))
        return out


def plain_errors(err):
    out = []
    for l in err.splitlines():
        if l.startswith('{'):
            j = json.loads(l)
            if j.get('level') == 'error':
                out.append(j.get('rendered') or j['message'])
    return ''.join(out) or err


class Bin:
    def __init__(self, world, k, units):
        self.world, self.k, self.units = world, k, units
        self.dir = os.path.join(world.work, 'b%d' % k)
        self.exe = os.path.join(world.work, 'bin%d' % k)
        for u in units:
            u.bin = self

    def compile(self):
        for attempt in range(6):
            us = [u for u in self.units if not u.error]
            if not us:
                return
            p = self.rustc(us)
            if p.returncode == 0:
                return
            bad = {}
            for l in p.stderr.splitlines():
                if not l.startswith('{'):
                    continue
                j = json.loads(l)
                if j.get('level') != 'error':
                    continue
                for s in j.get('spans', []) + [s for c in j.get('children', []) for s in c.get('spans', [])]:
                    m = re.match(r'.*/b%d/(?:glue_)?(\w+?)(?:\.rs|/.*)$' % self.k, s['file_name'])
                    if m and m.group(1) != 'main':
                        bad.setdefault(m.group(1), []).append(j.get('rendered') or j['message'])
                    elif s['file_name'].endswith('main.rs'):
                        for t in s.get('text', []):
                            for n in re.findall(r'\b(?:crate::|glue_)(u\d+)::', t['text']):
                                bad.setdefault(n, []).append(j.get('rendered') or j['message'])
            hit = False
            for u in us:
                if u.root in bad:
                    u.error = ('rustc', ''.join(bad[u.root])[:4000])
                    hit = True
            if not hit:
                # could not tell which unit is to blame: one program each
                for u in us:
                    q = self.rustc([u])
                    if q.returncode:
                        u.error = ('rustc', plain_errors(q.stderr)[:4000])
                        hit = True
                if not hit:
                    raise CheckError('rustc failed for a reason that cannot be attributed\n' + p.stderr[-3000:])

    def rustc(self, us):
        nt = nc = 0
        for u in us:
            u.ty0, u.k0 = nt, nc
            code, u.names = u.resolve()
            nt += len(u.news)
            nc += len(u.consts)
            with open(os.path.join(self.dir, 'glue_%s.rs' % u.root), 'w') as f:
                f.write('use glue::*;\n' + code)
        main = '#![allow(warnings)]\nuse glue::*;\n'
        main += ''.join('pub mod %s;\nmod glue_%s;\n' % (u.root, u.root) for u in us)
        main += 'fn main() {\n    let types: Vec<New> = vec![\n%s];\n' % ''.join(n + ',\n' for u in us for n in u.names)
        main += '    let consts: Vec<fn(&mut String)> = vec![\n%s];\n    glue::main(&types, &consts);\n}\n' % ''.join(
            n + ',\n' for u in us for n in u.consts)
        src = os.path.join(self.dir, 'main.rs')
        with open(src, 'w') as f:
            f.write(main)
        return subprocess.run(['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'debuginfo=0', '-C', 'opt-level=0', '-C', 'codegen-units=4',
                               '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-C', 'link-arg=-Wl,--strip-debug',
                               '--error-format=json', '-o', self.exe, src] + libs(),
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.world.work)

    def run(self, cmds, timeout):
        cmds = list(cmds)
        res = []
        tries = 0
        while len(res) < len(cmds):
            rest = cmds[len(res):]
            base = '%s-%d' % (self.exe, threading.get_ident())
            fin, fout = base + '.in', base + '.out'
            with open(fin, 'w') as f:
                f.write('\n'.join(rest) + '\n')
            with open(fin) as i, open(fout, 'w') as o:
                try:
                    p = subprocess.run([self.exe], stdin=i, stdout=o, stderr=subprocess.PIPE, timeout=timeout)
                    rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
                except subprocess.TimeoutExpired:
                    rc, err = 'timeout', ''
            with open(fout) as f:
                t = f.read()
            got = t.split('\n')[:-1]
            os.unlink(fin)
            os.unlink(fout)
            res += got[:len(rest)]
            if len(res) < len(cmds):
                if rc == 77 or rc == 0:
                    raise CheckError('glue error on %r\n%s' % (cmds[len(res)][:2000], err[-2000:]))
                res.append('!dead %s %s' % ('timeout' if rc == 'timeout' else rc, (err if len(err) < 500 else err[:250] + ' … ' + err[-250:]).replace('\n', ' ')))
                tries += 1
                if rc == 'timeout' or tries > 20:
                    res += ['!skipped'] * (len(cmds) - len(res))
        return res
