"""Shared by all checks: building, results, evidence, known findings, replays."""
import hashlib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, 'target')
REPLAYS = os.path.join(ROOT, 'replays')
WORK = os.path.join(ROOT, 'work')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class CheckError(Exception):
    """The check could not do its work (not a verdict about the code)."""


class Result:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.evaluations = 0
        self.nontrivial = 0
        self.labels = {}
        self.samples = []
        self.failures = []      # dicts with 'kind', 'message' and what a replay needs
        self.parts = {}         # extra counters for the evidence
        self.known = []         # KNOWN-FINDING texts

    def label(self, k, n=1):
        self.labels[k] = self.labels.get(k, 0) + n


def cargo_build(crate, target, args=(), env=None, check=True, jobs=None):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTFLAGS=os.environ.get('RUSTFLAGS', '') + ' -Awarnings', CARGO_INCREMENTAL='0')
    e.update(env or {})
    cmd = ['cargo', 'build', '--offline', *args]
    p = subprocess.run(cmd, cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode:
        raise CheckError('cargo build failed in %s\n%s' % (crate, p.stdout[-6000:]))
    return p.returncode, p.stdout


def save_replay(prop, data):
    os.makedirs(REPLAYS, exist_ok=True)
    text = json.dumps(data, indent=1, sort_keys=True)
    name = '%s-%s.json' % (prop, hashlib.sha256(text.encode()).hexdigest()[:12])
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        f.write(text)
    return path


def finish(r, plan, wall):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {
        'property': r.prop, 'tier': r.tier, 'seed': r.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': r.evaluations,
            'distinct_nontrivial': r.nontrivial,
            'rule': plan['rule'],
            'samples': r.samples[:40],
            'labels': dict(sorted(r.labels.items())),
            **r.parts,
        },
        'assumptions': plan.get('assumptions', []),
        'violations': len(r.failures),
        'wall_s': round(wall, 2),
    }
    with open(os.path.join(ROOT, 'evidence', r.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in r.known:
        print('KNOWN-FINDING: property=%s %s' % (r.prop, k))
    for f in r.failures:
        f = dict(f, property=r.prop)
        path = save_replay(r.prop, f)
        print('VIOLATION property=%s replay=%s' % (r.prop, path))
        print('  ' + f['message'][:1500].replace('\n', '\n  '))
    if r.evaluations == 0:
        raise CheckError('nothing was explored')
    print('%s: %d evaluations, %d non-trivial, %d violations, %.1f s' % (
        r.prop, r.evaluations, r.nontrivial, len(r.failures), wall))
    return 1 if r.failures else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d['kind'] == 'rt':
        import level_a
        return level_a.replay(path)
    if d['kind'] == 'tree':
        import level_c
        return level_c.replay(d)
    import level_b
    return level_b.replay(d)
