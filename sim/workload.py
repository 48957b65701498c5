"""Seeded workload pieces shared by the properties."""
import random

MACHINES = {
    '/work/m.yml': ['machine', {'v': 0}],
    '/work/n.yml': ['machine', {'v': 1, 'clock': 2.7}],
    '/work/mach2/m.yml': ['machine', {'v': 2}],
    '/work/c.yml': ['machine', {'v': 3, 'cl': 128}],
}
K1 = ['copy', 'scale', 'triad', '1d3pt', 'sum', 'f3']
# kernel: text, constants, dimensions
KERN = {
    'uxx': ("""double u1[M][N][N];
double d1[M][N][N];
double xx[M][N][N], xy[M][N][N], xz[M][N][N];
double c1, c2, d, dth;
for(int k=2; k<M-2; k++) {
    for(int j=2; j<N-2; j++) {
        for(int i=2; i<N-2; i++) {
            d = 0.25*(d1[k][j][i] + d1[k][j-1][i] + d1[k-1][j][i] + d1[k-1][j-1][i]);
            u1[k][j][i] = u1[k][j][i] + (dth/d)
             * ( c1*(xx[k][j][i] - xx[k][j][i-1]) + c2*(xx[k][j][i+1] - xx[k][j][i-2])
               + c1*(xy[k][j+1][i] - xy[k][j-1][i]) + c2*(xy[k][j+1][i] - xy[k][j-2][i])
               + c1*(xz[k][j][i] - xz[k-1][j][i]) + c2*(xz[k+1][j][i] - xz[k-2][j][i]));
}}}
""", ('M', 'N'), 3),
    'matvec': ("""double a[N][M];
double b[N];
double c[N];
for(int j=0; j<M; ++j) {
    for(int i=0; i<N; ++i) {
        c[i] += a[i][j] * b[i];
    }
}
""", ('M', 'N'), 2),
    'lin': ("""double a[M*N];
double b[M*N];
double s;
for(int j=1; j<M-1; ++j)
    for(int i=1; i<N-1; ++i)
        b[j*N+i] = ( a[j*N+i-1] + a[j*N+i+1] + a[(j-1)*N+i] + a[(j+1)*N+i]) * s;
""", ('M', 'N'), 2),
    'varcoef': ("""double a[M][N][N];
double b[M][N][N];
double cN[M][N][N], cS[M][N][N], cW[M][N][N], cE[M][N][N], cF[M][N][N], cB[M][N][N], s;
for(int k=1; k<M-1; ++k)
    for(int j=1; j<N-1; ++j)
        for(int i=1; i<N-1; ++i)
            b[k][j][i] = ( cW[k][j][i]*a[k][j][i-1] + cE[k][j][i]*a[k][j][i+1]
                         + cN[k][j][i]*a[k][j-1][i] + cS[k][j][i]*a[k][j+1][i]
                         + cB[k][j][i]*a[k-1][j][i] + cF[k][j][i]*a[k+1][j][i]) * s;
""", ('M', 'N'), 3),
    'kahan': ("""double a[N];
double b[N];
double c, sum, prod, t, y;
for(int i=0; i<N; ++i) {
    prod = a[i]*b[i];
    y = prod-c;
    t = sum+y;
    c = (t-sum)-y;
    sum = t;
}
""", ('N',), 1),
    'box': ("""double a[L][M][N];
double b[L][M][N], w[L][M][N];
double s, q;
for(int k=1; k<L-1; ++k)
    for(int j=1; j<M-1; ++j)
        for(int i=1; i<N-1; ++i)
            b[k][j][i] = s*(a[k-1][j-1][i] + a[k+1][j+1][i] + a[k][j][i-1]) + q*w[k][j][i]*b[k][j][i];
""", ('L', 'M', 'N'), 3),
}
def describe(arrays, loops, sources, dests, flops):
    l = ['code: >', '    see below', 'arrays:']
    for n, t, dim in arrays:
        l += ['    %s:' % n, "        type: !!python/tuple ['%s',]" % t, '        dimension: %s' % dim]
    l.append('loops:')
    for i, a, b in loops:
        l += ['    -', '        index: %s' % i, '        start: %s' % a, '        stop: %s' % b, '        step: 1']
    for t, d in (('data sources', sources), ('data destinations', dests)):
        l.append(t + ':')
        for n in d:
            l += ['    %s:' % n] + ['        - %s' % x for x in d[n]]
    l.append('flops:')
    l += ['    "%s": %d' % f for f in flops]
    return '\n'.join(l) + '\n'


# kernel descriptions (--kernel-description): text, constants, dimensions
DESC = {
    'd2d5pt': (describe([('a', 'double', '[M, N]'), ('b', 'double', '[M, N]'), ('s', 'double', 'null')],
                        [('j', '1', 'M-1'), ('i', '1', 'N-1')],
                        {'a': ['[j, i-1]', '[j, i+1]', '[j-1, i]', '[j+1, i]'], 's': ['null']}, {'b': ['[j, i]']},
                        [('+', 3), ('*', 1)]), ('M', 'N'), 2),
    'dtriad': (describe([(x, 'double', '[N]') for x in 'dcba'], [('i', '0', 'N')],
                        {'b': ['[i]'], 'd': ['[i]'], 'c': ['[i]']}, {'a': ['[i]']}, [('*', 1), ('+', 1)]), ('N',), 1),
    'd3pt': (describe([('u', 'float', '[N]'), ('v', 'float', '[N]')], [('i', '2', 'N-2')],
                      {'v': ['[i-2]', '[i+2]', '[i+1]', '[i]'], 'u': ['[i]']}, {'u': ['[i]', '[i-1]']},
                      [('+', 4), ('/', 1)]), ('N',), 1),
    'dbox': (describe([('b', 'double', '[L, M, N]'), ('a', 'double', '[L, M, N]'), ('w', 'double', '[L, M, N]')],
                      [('k', '1', 'L-1'), ('j', '1', 'M-1'), ('i', '1', 'N-1')],
                      {'a': ['[k-1, j-1, i]', '[k+1, j+1, i]', '[k, j, i-1]', '[k, j, i]', '[k, j-1, i+1]'],
                       'w': ['[k, j, i]'], 'b': ['[k, j, i]']}, {'b': ['[k, j, i]']},
                      [('*', 3), ('+', 4)]), ('L', 'M', 'N'), 3),
}
SIZES = {1: [100, 200, 640, 1000, 4000], 2: [16, 24, 40, 64, 100], 3: [8, 10, 12, 16, 20, 24]}
# (model options, uses the compiler, relative cost)
MODELS = [
    (['LC'], 1), (['ECMData'], 2), (['RooflineFLOP'], 2), (['ECMCPU'], 3), (['ECM'], 4),
    (['RooflineASM'], 3), (['Benchmark'], 3),
]


def model_names(rng, heavy=True, pool=None):
    pool = pool or ['LC', 'ECMData', 'RooflineFLOP', 'ECMCPU', 'ECM', 'RooflineASM', 'Benchmark']
    return rng.choice(pool)


def consts(kern, rng, n=None):
    if kern == 'const':
        return []
    n = n or rng.choice([200, 400, 640, 1000])
    if kern == '2d5pt':
        d = ['-D', 'N', str(n // 8)], ['-D', 'M', str(rng.choice([16, 24]))]
        return d[0] + d[1] if rng.random() < 0.5 else d[1] + d[0]
    return ['-D', 'N', str(n)]


def cli_args(rng, machine, kpath, kern, model=None, compiler=None, flags=None, predictor=None,
             cores=None, incore=None, incr=None, n=None, verbose=None, extra=(), block=None):
    models = [model] if isinstance(model, str) else (model or [model_names(rng)])
    a = ['-m', machine]
    for m in models:
        a += ['-p', m]
    a += consts(kern, rng, n)
    if compiler:
        a += ['-C', compiler]
    if flags:
        a += ['--compiler-flags=' + flags]
    if predictor:
        a += ['-P', predictor]
    if cores and cores > 1:
        a += ['-c', str(cores)]
    if incore:
        a += ['-i', incore]
    if incr is not None:
        a += ['--pointer-increment', str(incr)]
    if block is not None:
        a += ['--asm-block', str(block)]
    if 'Benchmark' in models and '-N' not in extra and '--no-phenoecm' not in extra and rng.random() < 0.5:
        a += ['--no-phenoecm']
    if verbose:
        a += ['-v'] * verbose
    a += list(extra)
    a.append(kpath)
    return a


def random_cli(rng, name, machines, kpath, kern, models=None, same=None, spread=1.0):
    """A kerncraft invocation; with *spread* 0 all optional settings are left at the default."""
    o = {}
    if rng.random() < 0.35 * spread:
        o['compiler'] = rng.choice(['gcc', 'clang'])
    if rng.random() < 0.25 * spread:
        o['flags'] = rng.choice(['-O2', '-O1 -mavx', '-O3 -march=native'])
    if rng.random() < 0.4:
        o['predictor'] = 'LC'
    if rng.random() < 0.25 * spread:
        o['cores'] = rng.choice([2, 3])
    if rng.random() < 0.25 * spread:
        o['incore'] = rng.choice(['OSACA', 'IACA', 'IACA', 'LLVM-MCA', 'LLVM-MCA'])
    if rng.random() < 0.15 * spread:
        o['incr'] = rng.choice([16, 32, 64])
        if rng.random() < 0.4:
            o['block'] = rng.choice([0, 1])
    if rng.random() < 0.15:
        o['verbose'] = 1
    m = rng.choice(machines)
    model = rng.choice(models) if models else None
    return {'name': name, 'module': 'kerncraft.kerncraft',
            'args': cli_args(rng, m, kpath, kern, model=model, **o)}


def interactive(rng, sp, k, block=None, incr=None):
    """Let the user of *sp* choose the block and sometimes the increment, everybody in a home of his own."""
    a = sp['args']
    for j in range(len(a) - 1, -1, -1):
        if a[j] in ('--asm-block', '--pointer-increment'):
            del a[j:j + 2]
    ask = rng.random()
    text = ''
    if ask < 0.85:
        a[-1:-1] = ['--asm-block', 'manual']
        text = block or rng.choice(['.L6\n', '.L4\n', '\n', 'bogus\n.L6\n', '.L6 \n.L4\n'])
    if incr not in (None, 'manual') and ask < 0.85:
        a[-1:-1] = ['--pointer-increment', incr]
    elif ask >= 0.85 or incr == 'manual' or rng.random() < 0.4:
        a[-1:-1] = ['--pointer-increment', 'manual']
        text += rng.choice(['16\n', '24\n', '32\n', 'x\n-8\n', '64\n'])
    else:
        a[-1:-1] = ['--pointer-increment', rng.choice(['8', '16', '32'])]
    sp['stdin'] = text
    sp['env'] = dict(sp.get('env') or {}, HOME='/home/u%d' % k)
    return sp


def policy(rng):
    r = rng.random()
    if r < 0.35:
        return {'kind': 'uniform'}
    if r < 0.75:
        return {'kind': 'sticky', 'p': rng.choice([0.02, 0.05, 0.1, 0.3])}
    return {'kind': 'pct', 'depth': rng.choice([1, 2, 3, 5]), 'len': rng.choice([200, 400, 800])}
