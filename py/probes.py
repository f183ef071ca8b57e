"""Known findings: small fixed schemas, each with a program that fails as long as the defect is there. They are listed in known_findings.txt
("known: property=<id> probe=<name> <what fails>") and live in probes/<name>/: the schema and, where compiling it is not enough, main.rs."""
import os, re, shutil, tempfile
import build, common, level_b, level_c

DIR = os.path.join(common.ROOT, 'probes')


def listed(prop):
    with open(common.KNOWN) as f:
        return [m.groups() for m in re.finditer(r'^known: property=(\S+) probe=(\S+) (.*)$', f.read(), re.M) if m.group(1) == prop]


def fails(name, cli, libs):
    """None if the probe succeeds, or the stage at which it fails."""
    work = level_b.scratch_dir()
    try:
        src = os.path.join(work, 's')
        shutil.copytree(os.path.join(DIR, name), src, ignore=shutil.ignore_patterns('*.rs'))
        rc, _ = level_c.run_cmd([os.path.join(cli, 'zserio-rs-build'), '-o', os.path.join(work, 'o'), src], work)
        if rc != 0:
            return 'generator'
        main = os.path.join(DIR, name, 'main.rs')
        rustc = ['rustc', '--edition', '2021', '-A', 'warnings', '-C', 'debuginfo=0', '-C', 'overflow-checks=on'] + libs
        rc, _ = level_c.run_cmd(rustc + ['--crate-type', 'rlib', '--crate-name', 'generated', '--emit', 'link' if os.path.exists(main) else 'metadata',
                                         '-o', os.path.join(work, 'libgenerated.rlib'), os.path.join(work, 'o', 'lib.rs')], work)
        if rc != 0:
            return 'rustc'
        if not os.path.exists(main):
            return None
        rc, text = level_c.run_cmd(rustc + ['--extern', 'generated=' + os.path.join(work, 'libgenerated.rlib'), '-o', os.path.join(work, 'x'), main], work)
        if rc != 0:
            print('note: the program of the probe %s does not compile any more\n%s' % (name, text[-1500:]))
            return None
        rc, _ = level_c.run_cmd([os.path.join(work, 'x')], work)
        return None if rc == 0 else 'run'
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(r):
    todo = listed(r.prop)
    if not todo:
        return
    _, cli, libs = level_c.exes()
    for _, name, text in todo:
        if fails(name, cli, libs):
            r.known.append(text)
    r.parts['known_findings_probed'] = len(todo)
