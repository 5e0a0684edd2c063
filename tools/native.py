"""Development aid: run the cases of a property's drivers natively on random inputs (validates the drivers themselves)."""
import glob, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from qedv import run
pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 20000
only = sys.argv[3] if len(sys.argv) > 3 else None
for drv in sorted(glob.glob(run.VERIF + '/drivers/%s.cpp' % pid) + glob.glob(run.VERIF + '/drivers/%s_*.cpp' % pid)):
    d = run.directives(drv)
    if d['nonative']:
        continue
    with tempfile.TemporaryDirectory(prefix='qvn_') as tmp:
        exe, err = run.build_native(drv, d, tmp)
        if not exe:
            print(drv, 'native build failed', err)
            continue
        cases = subprocess.run([exe], capture_output=True, text=True).stdout.split()
        for c in cases:
            if only and c != only:
                continue
            rc, out = run.native_trial(exe, c, 7, 0, n, None, 200)
            print(c, rc, out[:1500].strip())
