"""Planted bugs: writes /verif/seeded/<id>/ from the definitions in tools/seed_defs/*.py.
usage: seeds.py gen [ID...] | try ID...   (try: apply to /repo, build, stable tests, demo, check, undo)"""
import glob, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDS = {}
INC = ['Tools', 'Particles', 'Physics/Fields/EMField', 'Physics/ParticlePushers', 'Physics/Processes', 'IO/Input', 'IO/Output', '.', 'Python']


def seed(sid, prop, edits, needs, breaks, demo=None, sources=(), flags='', script=None, link=''):
    """edits: [(file under Source, old, new)]"""
    SEEDS[sid] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, sources=list(sources), flags=flags, script=script, link=link)


HDF5 = '$(pkg-config --cflags --libs hdf5-serial 2>/dev/null || echo -I/usr/include/hdf5/serial -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5)'


def demo_sh(s):
    if s['script']:
        return s['script']
    return '''#!/bin/bash
# run with cwd = the repository; exit 0 when the code behaves
R=$(pwd); D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
INC="%s"
g++ -std=gnu++17 -O1 -w %s $INC -I/usr/include/hdf5/serial "$D/demo.cpp" %s -o "$T/demo" %s || exit 3
cd "$T" && QED_TABLES_PATH="$R/Tables" timeout 120 ./demo
''' % (' '.join('-I$R/Source/%s' % i for i in INC), s['flags'], ' '.join('$R/Source/%s' % x for x in s['sources']), s['link'])


def gen(sid):
    s = SEEDS[sid]
    d = '%s/seeded/%s' % (ROOT, sid)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(['git', '-C', REPO, 'worktree', 'prune'])
        w = t + '/w'
        subprocess.run('git -C %s archive HEAD Source | tar x -C %s' % (REPO, t), shell=True, check=True)
        subprocess.run('cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x' % t, shell=True, check=True)
        for f, old, new in s['edits']:
            p = '%s/Source/%s' % (t, f)
            txt = open(p).read()
            if txt.count(old) != 1:     # same text, different blanks
                import re
                m = re.findall(r'\s*'.join(map(re.escape, old.split())), txt)
                assert len(m) == 1, (sid, f, len(m), old)
                lead, tail = old[:len(old) - len(old.lstrip())], old[len(old.rstrip()):]
                old, new = m[0], new[len(lead):len(new) - len(tail)]
            open(p, 'w').write(txt.replace(old, new))
        diff = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True).stdout
        assert diff
    open(d + '/patch.diff', 'w').write(diff)
    if s['demo']:
        open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(demo_sh(s))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # changed lines must be lines of the original
    fixed = subprocess.run(['git', '-C', REPO, 'diff', '-U0', '70e79be', 'HEAD'], capture_output=True, text=True).stdout
    added = {l[1:].strip() for l in fixed.split('\n') if l.startswith('+') and not l.startswith('+++')}
    for l in diff.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() in added:
            print(sid, 'WARNING changes a line of a fix:', l)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def dotry(sid, full=True):
    d = '%s/seeded/%s' % (ROOT, sid)
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + '/s')
    for f in glob.glob(t + '/s/*.diff') + [t + '/s/meta.json']:
        os.unlink(f)
    out = [sid, prop]
    r = sh('bash %s/s/demo.sh' % t, cwd=REPO)
    out.append('demo clean %d' % r.returncode)
    if r.returncode:
        print(r.stdout[-800:], r.stderr[-1500:])
    a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    if a.returncode:
        print(sid, 'does not apply', a.stderr)
        return
    try:
        if full:
            b = sh('bash /opt/vp/build.sh')
            out.append('build %d' % b.returncode)
            sh('bash /opt/vp/test.sh %s/o.json' % t)
            try:
                j = json.load(open(t + '/o.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))['stable']
                ok = [x for x in j.get('passed', [])]
                miss = [x for x in base if x not in ok]
                out.append('tests ok' if not miss else 'TESTS FAIL %s' % miss)
            except Exception as e:
                out.append('tests? %r' % e)
        r = sh('bash %s/s/demo.sh' % t, cwd=REPO)
        out.append('demo patched %d' % r.returncode)
        if r.returncode == 3 or r.returncode == 0:
            print(r.stdout[-500:], r.stderr[-800:])
        c = sh('./check %s' % prop, cwd=ROOT, env=dict(os.environ, QV_MUT='1'))
        out.append('check %d: %s' % (c.returncode, ' | '.join(c.stdout.strip().split('\n')[-2:])))
    finally:
        sh('git -C %s checkout -- .' % REPO)
        shutil.rmtree(t)
    print(' ; '.join(out), flush=True)


for f in sorted(glob.glob(ROOT + '/tools/seed_defs/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(SEEDS)
    for i in ids:
        if sys.argv[1] == 'gen':
            gen(i)
        else:
            dotry(i, sys.argv[1] == 'try')
