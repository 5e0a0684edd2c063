"""Loading of LLVM IR dumps (see irdump/irdump.cpp)."""
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QV_REPO', '/repo')
CLANG = '/usr/bin/clang++'
SRC = REPO + '/Source'
INC = ['-I' + SRC] + ['-I%s/%s' % (SRC, d) for d in (
    'IO/Output', 'IO/Input', 'Tools', 'Particles', 'Physics/Fields/EMField', 'Physics/Processes',
    'Physics/ParticlePushers', 'Physics/Fields/RadiationField', 'Python')] + ['-I/usr/include/hdf5/serial', '-I' + VERIF + '/drivers']
MPIINC = ['-DUSEMPI', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
IRFLAGS = ['-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-ffp-contract=off', '-emit-llvm', '-c', '-w', '-DQV_SYMBOLIC']


def irdump_exe():
    exe = VERIF + '/irdump/irdump'
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(VERIF + '/irdump/irdump.cpp'):
        fl = subprocess.check_output(['llvm-config', '--cxxflags'], text=True).split()
        lib = subprocess.check_output(['llvm-config', '--libdir'], text=True).strip()
        tmp = exe + '.%d' % os.getpid()
        subprocess.check_call([CLANG] + fl + ['-O1', VERIF + '/irdump/irdump.cpp', '-o', tmp, '-L' + lib, '-lLLVM-18'])
        os.replace(tmp, exe)
    return exe


class Fn:
    __slots__ = ('name', 'dem', 'args', 'loops', 'blocks', 'entry', 'mod', 'defined', 'file', 'line', 'ret', 'short')


class BuildError(Exception):
    pass


class Mod:
    pass


def compile_one(src, tmp, flags):
    base = os.path.join(tmp, src.replace('/', '_'))
    p = subprocess.run([CLANG] + IRFLAGS + flags + [src, '-o', base + '.bc'], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s does not compile:\n%s' % (src, p.stderr[:4000]))
    p = subprocess.run([irdump_exe(), base + '.bc', base + '.json'], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('irdump failed on %s:\n%s' % (src, p.stderr[:2000]))
    with open(base + '.json') as f:
        return src, json.load(f)


class Program:
    def __init__(self, sources, flags=()):
        self.fns = {}
        self.replace = {}      # demangled name -> driver function standing for its contract
        self.globals = {}
        self.structs = {}
        self.mods = []
        irdump_exe()
        with tempfile.TemporaryDirectory(prefix='qv_') as tmp:
            with ThreadPoolExecutor(8) as ex:
                dumps = list(ex.map(lambda s: compile_one(s, tmp, INC + list(flags)), sources))
        for src, d in dumps:
            self.add(src, d)

    def add(self, src, d):
        m = Mod()
        m.src = src
        m.idx = len(self.mods)
        m.local = {}
        m.glocal = {}
        self.mods.append(m)
        self.structs.update(d['structs'])
        for name, f in d['functions'].items():
            fn = Fn()
            fn.name = name
            fn.dem = f['dem']
            fn.args = f['args']
            fn.ret = f['ret']
            fn.mod = m
            fn.file = f.get('file', '')
            fn.line = f.get('line', 0)
            fn.defined = 'blocks' in f
            if fn.defined:
                fn.blocks = {b['id']: b['ins'] for b in f['blocks']}
                fn.entry = f['blocks'][0]['id']
                fn.loops = {l['header']: (set(l['blocks']), l['parent']) for l in f['loops']}
            fn.short = fn.dem.split('(')[0]
            if f['linkage'] in (7, 8):
                fn.name = '%s@%d' % (name, m.idx)
                m.local[name] = fn
            elif fn.defined:
                self.fns.setdefault(name, fn)
            else:
                m.local.setdefault('decl:' + name, fn)
        for name, target in d['aliases'].items():
            f = m.local.get(target) or self.fns.get(target)
            if f is not None and f.defined:
                self.fns.setdefault(name, f)
        for name, g in d['globals'].items():
            g['mod'] = m
            g['name'] = '%s@%d' % (name, m.idx)
            if 'init' in g and not name.startswith('.str'):
                self.globals.setdefault(name, g)
            m.glocal[name] = g

    def fn(self, mod, name):
        f = mod.local.get(name) if mod else None
        if f is None:
            f = self.fns.get(name)
        if f is None and mod:
            f = mod.local.get('decl:' + name)
        return f

    def glob(self, mod, name):
        g = mod.glocal.get(name) if mod else None
        if g is not None and (name.startswith('.') or 'init' not in g or name.startswith('_ZL')):
            if 'init' in g:
                return g
        return self.globals.get(name) or g
