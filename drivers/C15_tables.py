"""C15: the shipped table files meet the preconditions of the sampling contracts (every entry is examined)."""
import math


def numbers(path):
    return [float(x) for x in open(path).read().split()]


def rising(x, strict=True):
    return all(a < b if strict else a <= b for a, b in zip(x, x[1:]))


def obligations(repo):
    t = lambda n: numbers(repo + '/Tables/' + n + '.table')
    for name in ('hsokolov', 'pairprod'):
        k = t(name)
        n = int(k[0])
        yield name + ': complete, axis strictly rising', n >= 2 and len(k) == 1 + 2 * n and rising(k[1::2])
    k, c = t('ksi_sokolov'), t('chimin')
    ne, nc, lo, hi = int(k[0]), int(k[1]), k[2], k[3]
    rows = [k[4 + i * nc:4 + (i + 1) * nc] for i in range(ne)]
    eta = [lo + i * (hi - lo) / (ne - 1) for i in range(ne)]
    yield 'ksi_sokolov: complete', ne >= 3 and nc >= 2 and lo < hi and len(k) == 4 + ne * nc and len(c) >= ne
    yield 'ksi_sokolov: every row is a cumulative distribution ending at one', all(rising(r, False) and r[0] < r[1] and r[0] >= 0 and r[-1] == 1 for r in rows)
    yield 'chimin: positive and below half of eta in every row', all(0 < c[i] and math.log10(c[i]) < eta[i] - math.log10(2) for i in range(ne))
    k, e, x = t('e_split'), t('epsilon'), t('log_chi')
    n = int(k[0])
    yield 'e_split: complete', n >= 3 and len(k) == 1 + n * n and len(e) >= n and len(x) >= n
    yield 'e_split: every row is a cumulative distribution ending at one', all(rising(k[1 + i * n:1 + (i + 1) * n], False) and k[1 + i * n] >= 0 and abs(k[(i + 1) * n] - 1) < 1e-12 for i in range(n))
    yield 'epsilon, log_chi: strictly rising, epsilon within (0, 1]', rising(e[:n]) and rising(x[:n]) and e[0] > 0 and e[n - 1] < 1 + 1e-9
