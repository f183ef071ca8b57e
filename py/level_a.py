"""Level A: the runtime crate (crates/zserio) driven directly by the proptest harness in /verif/rt."""
import json, os, shutil, subprocess, tempfile
import common
from common import ROOT, TARGET

CRATE = os.path.join(ROOT, 'rt')


def build():
    common.cargo_build(CRATE, os.path.join(TARGET, 'rt'))
    return os.path.join(TARGET, 'rt', 'debug', 'rt')


def run(r, cases):
    exe = build()
    tmp = tempfile.mkdtemp(prefix='rt-')
    try:
        out = os.path.join(tmp, 'out.json')
        p = subprocess.run([exe, 'run', r.prop, str(r.seed), str(cases), out], env=dict(os.environ, RT_SCRATCH=tmp),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3000)
        if p.returncode:
            if p.returncode in (-6, -11, -4):   # abort, segmentation fault: the code under test took the process down
                r.failures.append({'kind': 'rt-abort', 'message': 'the process was killed by signal %d\n%s' % (
                    -p.returncode, p.stdout[-2000:]), 'seed': r.seed, 'cases': cases})
                r.evaluations += 1
                return
            raise common.CheckError('rt ended with %d\n%s' % (p.returncode, p.stdout[-3000:]))
        with open(out) as f:
            d = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r.evaluations += d['evaluations']
    r.nontrivial += d['nontrivial']
    for k, v in d['labels'].items():
        r.label(k, v)
    r.samples += d['samples'][:15]
    r.parts['runtime'] = {'evaluations': d['evaluations'], 'distinct_nontrivial': d['nontrivial']}
    for f in d['failures']:
        r.failures.append({'kind': 'rt', 'test': f['test'], 'message': f['message'], 'value': f['value']})


def replay(path):
    exe = build()
    tmp = tempfile.mkdtemp(prefix='rt-')
    try:
        return subprocess.run([exe, 'replay', path], env=dict(os.environ, RT_SCRATCH=tmp)).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
