"""The checks, one function per property."""
import random

from envs import shape

CHECKS = {}
TECH = {}
NA = {}
NOTE = {}
DEFAULT_NOTE = ('Every recorded execution of the real code is a behaviour of the TLA+ specification, checked event by event '
                'by TLC; executions are drawn by TLC from the specification or enumerated by the driver. Assurance is limited '
                'to the explored parameter shapes, programs and inputs; trusted: TLC, the event projection of the Go driver.')


# Design models: checked exhaustively by TLC together with the property (module, configuration,
# expected result; 'ok' or the invariant that a deliberately broken variant violates; tier).
MODELS = {
    'P04': [('MC_Rotate', 'MC_Rotate.cfg', 'ok', 'q'), ('MC_Rotate', 'MC_Rotate_F3.cfg', 'ok', 'q'), ('MC_Rotate', 'MC_Rotate_B.cfg', 'ok', 'q'),
            ('MC_Rotate', 'MC_Rotate_bad.cfg', 'Absorbed', 'q'), ('MC_Rotate', 'MC_Rotate_L.cfg', 'ok', 't'), ('MC_Window', 'MC_Window.cfg', 'ok', 'q')],
    'P06': [('MC_Alias', 'MC_Alias.cfg', 'ok', 'q'), ('MC_Alias', 'MC_Alias_bad.cfg', 'InPlace', 'q')],
    'P10': [('MC_Gadget', 'MC_Gadget.cfg', 'ok', 'q'), ('MC_Gadget', 'MC_Gadget_L.cfg', 'ok', 't')],
    'P12': [('MC_Stream', 'MC_Stream.cfg', 'ok', 'q')],
    'P14': [('MC_Sampler', 'MC_Sampler.cfg', 'ok', 'q'), ('MC_Sampler', 'MC_Sampler_W.cfg', 'ok', 'q'), ('MC_Sampler', 'MC_Sampler_bad.cfg', 'NoReuse', 'q')],
    'P16': [('MC_KeyGen', 'MC_KeyGen.cfg', 'ok', 'q'), ('MC_KeyGen', 'MC_KeyGenL.cfg', 'ok', 't')],
    'P17': [('MC_Share', 'MC_Share.cfg', 'ok', 'q'), ('MC_Share', 'MC_Share_bad.cfg', 'AsAlone', 'q')],
    'P20': [('MC_Parties', 'MC_Parties.cfg', 'ok', 'q'), ('MC_Parties', 'MC_Parties_L.cfg', 'ok', 't')],
    'P21': [('MC_Parties', 'MC_Parties.cfg', 'ok', 'q')],
    'P23': [('MC_Window', 'MC_Window.cfg', 'ok', 'q')],
    'P24': [('MC_Trace', 'MC_Trace.cfg', 'ok', 'q'), ('MC_Trace', 'MC_Trace_Up.cfg', 'ok', 'q'), ('MC_Trace', 'MC_Trace_L.cfg', 'ok', 't')],
    'P25': [('MC_Trace', 'MC_Trace.cfg', 'ok', 'q')],
    'P26': [('MC_FHEW', 'MC_FHEW.cfg', 'ok', 'q'), ('MC_FHEW', 'MC_FHEW_L.cfg', 'ok', 't')],
    'P29': [('MC_Window', 'MC_Window.cfg', 'ok', 'q'), ('MC_Window', 'MC_Window_bad.cfg', 'Right', 'q')],
    'P30': [('MC_Codec', 'MC_Codec.cfg', 'ok', 'q')],
    'P31': [('MC_Sampler', 'MC_Sampler.cfg', 'ok', 'q'), ('MC_Sampler', 'MC_Sampler_bad.cfg', 'NoReuse', 'q')],
}


def models(c, pid):
    for m, cfg, expect, tier in MODELS.get(pid, ()):
        if tier == 'q' or c.tier == 'thorough':
            c.model(m, cfg=cfg, expect=expect, workers=2)


def check(pid, level='model_checking', rule=''):
    def deco(fn):
        def run(c):
            c.par(lambda: models(c, pid), lambda: fn(c))
        CHECKS[pid] = (run, level, rule)
        return fn
    return deco


def mcfg(c, sh, groups, slots, alias=True, evk=False, bits=False, reenc='lwe', refrun=False, public=False,
         gpbase=None, gplevel=None, kind='core', **kw):
    rng = c.rng
    L, S = ('lwe', 'lweS') if sh['order'] == 0 else ('lweL', 'lwe')
    assert len({x for x, _ in slots}) == len(slots)
    sl, ksg = [], []
    p, N = (4 if bits else sh['p']), sh['N']
    for nme, cls in slots:
        cls = {'L': L, 'S': S}.get(cls, cls)
        if cls in ('glwe', 'fglwe', 'gk1', 'gk2'):
            v = [rng.randrange(p) for _ in range(N)]
        elif cls in ('fglev', 'fggsw', 'funi', 'mlev'):
            v = [0] * N
            for _ in range(3):
                v[rng.randrange(N)] = rng.choice([-1, 1, 2])
            if nme.endswith('c'):
                v = [rng.choice([-1, 2, 3])] + [0] * (N - 1)
        elif cls == 'fggswb':
            v = [1 if nme.endswith('1') else 0] + [0] * (N - 1)
        elif cls in ('tens', 'cggsw'):
            v = [0] * N
        elif cls == 'mlwe':
            v = [0] * kw['lutcount']
        elif cls in ('lev', 'gsw'):
            v = [rng.choice([-2, -1, 2, 3])]
        elif cls == 'rot' or cls[:2] in ('kk', 'gg'):
            v = [0]
        elif bits:
            v = [rng.choice([1, 2 * p - 1])]
        else:
            v = [rng.randrange(p)]
        sl.append(dict(n=nme, c=cls, v=v, i=rng.randrange(kw['parties']) if kw.get('parties') else 0))
        f = kw.get('foreign', {}).get(cls)
        ksg.append(f or [1, 1, 1])
    d = dict(kind=kind, shape=sh, p=p, N=N, L=L, S=S, slots=sl, groups=groups, alias=alias, evk=evk, bits=bits,
             refrun=refrun, refeq=True, public=public, reenc=reenc,
             reop={'lwe': 'EncryptLWE', 'glwe': 'EncryptGLWE'}[reenc] if not bits else 'EncryptLWEBool',
             gpbase=gpbase or sh['brbase'], gplevel=gplevel or sh['brlevel'])
    kw.pop('foreign', None)
    d.update(lutcount=1, gals=[1], obase=1, olevel=1, san=[1, 1, 1, 1], window=1, skstd=1)
    d.update(conc=0, parties=0, regs=[], dregs=[], rbase=1, rlevel=1, abase=1, alevel=1)
    d.update(kw, ksg=ksg)
    return d


def mkcfg(c, sh, K, groups, slots, regs=None, dregs=None, relin=None, acc=None, **kw):
    """A multi-key machine: K parties, those in regs / dregs registered with the evaluator / decryptor from the start."""
    rb, rl = relin or ((8, 5) if sh['logq'] == 64 else (4, 6))
    ab, al = acc or ((6, 5) if sh['logq'] == 64 else (4, 5))
    subset = lambda: sorted(c.rng.sample(range(K), c.rng.randrange(K + 1)))
    return mcfg(c, sh, groups, slots, kind='mk', parties=K, regs=subset() if regs is None else regs, dregs=subset() if dregs is None else dregs,
                rbase=rb, rlevel=rl, abase=ab, alevel=al, public=sh['order'] == 0, **kw)


def S(pre, cls, n):
    return [('%s%d' % (pre, i), cls) for i in range(n)]


@check('P01', rule='encryptions of every form (secret/public, new/dirty destination) on long-lived encryptors; every row of every ciphertext carries the exact phase, decided word by word by EncTrace.tla')
def p01(c):
    c.simple('encdec', 'EncTrace', shards=8)
    c.par(lambda: c.simple('encdec', 'EncTrace', name='encdec2', shards=8, seed=c.seed + 1000003), lambda: c.simple('preglwe', 'PresetTrace', shards=2))


@check('P02', rule='programs of LWE linear operations drawn by TLC from the machine specification; every event is a spec step')
def p02(c):
    n, d = c.pick(60, 600), c.pick(40, 80)
    shs = [shape('a64', N=16), shape('b32', logq=32, N=16), shape('c64k2', rank=2, N=16, order=1, p=16), shape('d32k3', logq=32, rank=3, N=16, p=4, order=1)]
    c.par(*[lambda sh=sh: c.machine(sh['name'], mcfg(c, sh, ['lwe', 'enclwe'], S('L', 'lwe', 5)), n, d) for sh in shs])


@check('P03', rule='programs of GLWE / FFT-GLWE operations drawn by TLC from the machine specification; every event is a spec step')
def p03(c):
    n, d = c.pick(60, 500), c.pick(40, 60)
    shs = [shape('a64', N=16), shape('b32', logq=32, N=16, rank=2), shape('c64k3', rank=3, N=32, order=1, p=4), shape('d32', logq=32, N=64, p=8)]
    sl = S('G', 'glwe', 4) + S('F', 'fglwe', 3) + S('L', 'L', 2)
    c.par(*[lambda sh=sh: c.machine(sh['name'], mcfg(c, sh, ['glwe', 'fft', 'conv', 'ext', 'encglwe'], sl, reenc='glwe'), n, d) for sh in shs],
          lambda: c.simple('preglwe', 'PresetTrace', shards=2))


def pbs_shapes():
    return [
        shape('blk64'),
        shape('orig64', dim=4, block=1, N=64),
        shape('ext64', N=16, lut=64, p=4),
        shape('ext1blk', dim=4, N=16, lut=32, p=8),
        shape('ord1k2', logq=32, rank=2, N=32, order=1, p=4),
        shape('blk3', dim=9, block=3, N=64, p=7, order=1),
        shape('extk2', logq=32, rank=2, N=32, lut=64, dim=6, block=2, p=8, order=1),
        shape('one1', dim=4, block=4, N=32, p=5, logq=32),
        shape('ext1b1', dim=3, block=1, N=32, lut=128, p=16, order=0),
        shape('ext8', dim=8, block=4, N=16, lut=128, p=25),
        shape('ext16k2', dim=4, block=2, N=16, rank=2, lut=256, p=64, order=1),
        shape('ext3', dim=6, block=3, N=16, lut=48, p=12, order=1),
        shape('ext4b1', logq=32, dim=4, block=1, N=16, lut=64, p=9),
        shape('tight', dim=4, block=4, N=64, p=15),
        shape('eqdim', dim=32, block=16, rank=1, N=32, p=4),
        shape('extk3', dim=4, block=2, rank=3, N=16, lut=32, p=8, order=1),
        shape('origk3', logq=32, dim=3, block=1, rank=3, N=32, p=4),
        shape('large', dim=6, block=3, N=4096, p=64, brbase=12, brlevel=4, order=1),
    ]


@check('P04', rule='bootstrap / blind-rotate chains drawn by TLC from the machine specification; every event is a spec step; rotations of arbitrary tables by arbitrary ciphertexts are exact, entry by entry (RotTrace.tla)')
def p04(c):
    n, d = c.pick(16, 300), c.pick(40, 60)
    def run(sh):
        sl = S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2)
        g = ['boot', 'boot', 'brot', 'lwe', 'ks']
        c.machine(sh['name'], mcfg(c, sh, g, sl, evk=True), n, d, shards=1)
    c.par(*[lambda sh=sh: run(sh) for sh in pbs_shapes()], lambda: c.simple('rotstd', 'RotTrace', shards=4), lambda: c.simple('preuint', 'PresetTrace', shards=2))


@check('P05', rule='random circuits of boolean gates over encrypted bits drawn by TLC from the machine specification')
def p05(c):
    n, d = c.pick(16, 250), c.pick(50, 80)
    shs = [shape('bin64', p=4, N=32, dim=8, block=4), shape('bin32', logq=32, p=4, dim=8, block=2, N=64),
           shape('bin32o1', logq=32, p=4, dim=9, block=3, N=64, order=1), shape('bink2', p=4, rank=2, N=32, dim=12, block=4, order=1),
           shape('binorg', p=4, N=64, dim=5, block=1), shape('binext', logq=32, p=4, N=16, lut=64, dim=6, block=3)]
    def run(sh):
        pub = sh['order'] == 0
        g = ['gate', 'encbit'] + (['pencbit'] if pub else [])
        c.machine(sh['name'], mcfg(c, sh, g, S('B', 'lwe', 6), evk=True, bits=True, public=pub), n, d, shards=1)
    c.par(lambda: c.simple('bits', 'EncTrace', shards=2), lambda: c.simple('prebin', 'PresetTrace', shards=2), *[lambda sh=sh: run(sh) for sh in shs])


def all_slots():
    return (S('L', 'lwe', 3) + S('G', 'glwe', 3) + S('F', 'fglwe', 2) + [('V0', 'lev'), ('W0', 'gsw'), ('W1', 'gsw')]
            + [('U0', 'fglev'), ('Q0', 'fggsw'), ('Q1c', 'fggsw'), ('C0', 'fggswb'), ('C1', 'fggswb')])


def prod_shapes():
    return [shape('p64', p=7, N=32, brbase=8, brlevel=5), shape('p32k2', logq=32, p=5, N=16, rank=2, brbase=5, brlevel=5, order=1),
            shape('p64k3', p=3, N=16, rank=3, brbase=12, brlevel=3, dim=10, block=5), shape('p32', logq=32, p=3, N=64, brbase=3, brlevel=9),
            shape('p64l1', p=5, N=16, dim=6, block=1, brbase=22, brlevel=1, order=1), shape('p64b1', p=5, N=32, dim=6, block=1, brbase=1, brlevel=40)]


@check('P09', rule='programs of gadget products, external products and CMux drawn by TLC from the machine specification')
def p09(c):
    n, d = c.pick(40, 500), c.pick(40, 60)
    c.par(*[lambda sh=sh: c.machine(sh['name'], mcfg(c, sh, ['gplwe', 'gplwe', 'gpglwe', 'gpglwe', 'conv'], all_slots(), reenc='glwe'), n, d, shards=1)
            for sh in prod_shapes()], lambda: c.simple('preglwe', 'PresetTrace', shards=2))


def foreign(sh, i=0):
    """Key-switching keys of a shape: class -> [base, level, input dimension or rank]."""
    D = sh['rank'] * sh['N'] if sh['order'] == 0 else sh['dim']
    b = 2 if sh['logq'] == 32 else 3
    return {'kk0': [2 * b, 4, D], 'kk1': [b, 7, max(1, D // 3 + i)], 'kk2': [4 * b, 2, D + 5 + 7 * i],
            'gg0': [2 * b, 4, sh['rank']], 'gg1': [2 * b + 1, 4, 1 if sh['rank'] > 1 else 2], 'gg2': [b, 6, sh['rank'] + 1 + i]}


KSLOTS = [('k0', 'kk0'), ('k1', 'kk1'), ('k2', 'kk2'), ('g0', 'gg0'), ('g1', 'gg1'), ('g2', 'gg2')]


@check('P08', rule='programs of key switches (foreign keys of smaller/equal/larger dimension and rank, default bootstrap key switch) drawn by TLC')
def p08(c):
    n, d = c.pick(40, 500), c.pick(40, 60)
    shs = [shape('k64', N=32), shape('k32o1', logq=32, N=32, order=1, p=4, dim=9, block=3), shape('k64k2', N=16, rank=2, order=1, p=4, kslevel=2, ksbase=16),
           shape('k32k3', logq=32, N=16, rank=3, p=4, kslevel=10, ksbase=2, dim=12), shape('keq', N=32, dim=32, block=8, p=16)]
    sl = S('L', 'lwe', 3) + S('G', 'glwe', 3) + S('P', 'lk1', 2) + S('Q', 'lk2', 2) + S('U', 'gk1', 2) + S('V', 'gk2', 2) + S('Y', 'L', 3) + S('X', 'S', 2) + KSLOTS
    def run(i, sh):
        c.machine(sh['name'], mcfg(c, sh, ['ksw', 'ksw', 'ks', 'ext', 'glwe', 'lwe'], sl, evk=True, reenc='glwe', foreign=foreign(sh, i)), n, d, shards=2)
    c.par(*[lambda i=i, sh=sh: run(i, sh) for i, sh in enumerate(shs)])


def wide_jobs(c, n, d, **kw):
    """Machines of the extension schemes and of several parties, for the properties that concern every operation."""
    def xt(sh, k, g, sl, **k2):
        return lambda: c.machine('x-' + sh['name'], mcfg(c, sh, g, sl, evk=True, kind=k, **k2, **kw), n, d, shards=1)
    def mk(sh, K, g, sl, **k2):
        return lambda: c.machine('x-' + sh['name'], mkcfg(c, sh, K, mkg(sh, *g), sl, evk=True, **k2, **kw), n, d, shards=1)
    return [
        xt(shape('v64', N=32, p=8), 'bfv', ['bfv', 'bfv', 'glwe', 'ext'], S('G', 'glwe', 4) + S('T', 'tens', 2) + S('Y', 'L', 2), rbase=8, rlevel=5, abase=8, alevel=5, gals=odd(c, 32, 5), reenc='glwe'),
        xt(shape('v64k2', N=16, rank=2, p=4, order=1), 'bfv', ['bfv', 'bfv', 'glwe', 'ext'], S('G', 'glwe', 4) + S('T', 'tens', 2) + S('Y', 'L', 2), rbase=6, rlevel=7, abase=10, alevel=4, gals=odd(c, 16, 5), reenc='glwe'),
        xt(shape('y4p3', dim=4, block=4, N=128, p=3), 'mlut', ['mlut', 'mlut', 'lwe'], S('L', 'lwe', 4) + S('W', 'mlwe', 2), lutcount=4),
        xt(shape('y2k2', logq=32, dim=4, block=2, rank=2, N=64, p=4, order=1), 'mlut', ['mlut', 'mlut', 'lwe'], S('L', 'lwe', 4) + S('W', 'mlwe', 2), lutcount=2),
        xt(shape('z2', dim=4, block=2, N=64, p=2, brbase=10, brlevel=5), 'cb', ['cb', 'cb', 'lwe', 'bfvpack', 'mlut', 'conv', 'ext'], S('L', 'lwe', 3) + S('Z', 'cggsw', 2) + S('G', 'glwe', 3) + S('F', 'fglwe', 1) + S('W', 'mlwe', 1),
           lutcount=2, rbase=12, rlevel=4, abase=12, alevel=4, obase=8, olevel=3, gals=[(64 >> i) + 1 for i in range(6)]),
        xt(shape('f3o1', dim=5, block=1, N=256, p=4, order=1), 'fhew', ['boot', 'boot', 'brot', 'lwe', 'ks'], S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2), window=3, skstd=0.8),
        mk(shape('q2', dim=4, block=2, N=64, p=4, brlevel=5), 2, ['mkboot', 'mkbrot', 'lwe', 'ks', 'mkencl'], S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2)),
        mk(shape('q3o1', dim=4, block=4, N=64, p=4, brlevel=5, order=1), 3, ['mkboot', 'mkbrot', 'lwe', 'ks', 'mkencl'], S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2)),
        mk(shape('x3', N=16, p=3, brbase=10, brlevel=4), 3, ['mkprod', 'mkprod', 'mkglwe', 'mkfft', 'mkconv'], S('G', 'glwe', 5) + S('F', 'fglwe', 2) + S('U', 'funi', 6) + S('M', 'mlev', 6), reenc='glwe'),
        mk(shape('qb2', dim=4, block=2, N=64, p=4, brlevel=5), 2, ['gate', 'pargate', 'mkbit'], S('B', 'lwe', 6), bits=True),
    ]


@check('P06', rule='programs whose destinations overlap operands (all overlap patterns), drawn by TLC from the machine specification')
def p06(c):
    n, d = c.pick(24, 300), c.pick(40, 60)
    sl = all_slots() + [('k0', 'kk0'), ('g0', 'gg0')]
    def run(sh, g, bits=False, **k):
        c.machine(sh['name'] + '-' + g[0], mcfg(c, sh, g, S('L', 'lwe', 4) if bits else k.pop('sl', sl), evk=True, bits=bits, foreign=foreign(sh), reenc='lwe' if bits else k.pop('re', 'glwe')), n, d, shards=1)
    sh1, sh2 = shape('p64', p=7, N=32, brlevel=5), shape('p32k2', logq=32, p=5, N=16, rank=2, brbase=5, brlevel=5, order=1)
    c.par(*wide_jobs(c, c.pick(10, 150), d), lambda: c.simple('overlap', 'CallTrace', shards=2), lambda: run(sh1, ['gplwe', 'gpglwe', 'conv', 'glwe', 'fft', 'ksw0']), lambda: run(sh2, ['gplwe', 'gpglwe', 'conv', 'glwe', 'fft', 'ksw0']),
          lambda: run(shape('a64', p=4, N=32), ['lwe', 'boot'], sl=S('L', 'lwe', 4), re='lwe'),
          lambda: run(shape('b32', p=4, N=64, logq=32, order=1, dim=6, block=1), ['lwe', 'boot'], sl=S('L', 'lwe', 4), re='lwe'),
          lambda: run(shape('bin64', p=4), ['gate'], bits=True), lambda: run(shape('bin32o1', logq=32, p=4, dim=9, block=3, N=64, order=1), ['gate'], bits=True))


@check('P07', rule='random histories drawn by TLC; each operation is repeated on a brand-new evaluator with a dirty destination and must agree bit for bit; every slot and key is fingerprinted')
def p07(c):
    n, d = c.pick(24, 250), c.pick(40, 60)
    sl = all_slots() + S('X', 'S', 2) + S('Y', 'L', 2) + S('R', 'rot', 1) + S('fa', 'lk1', 1) + S('fb', 'lk2', 1) + S('fc', 'gk1', 1) + S('fd', 'gk2', 1) + KSLOTS
    g = ['lwe', 'glwe', 'fft', 'conv', 'ext', 'ks', 'boot', 'brot', 'gplwe', 'gpglwe', 'ksw']
    def run(sh):
        c.machine(sh['name'], mcfg(c, sh, g, sl, evk=True, reenc='glwe', refrun=True, foreign=foreign(sh)), n, d, shards=2)
    shs = [shape('h64', p=4, N=32, brlevel=5), shape('h32k2', logq=32, p=4, N=32, rank=2, brbase=5, brlevel=5, order=1, dim=6, block=1), shape('hext', N=16, lut=64, p=4, brlevel=5)]
    def bits(sh):
        c.machine(sh['name'], mcfg(c, sh, ['gate'], S('B', 'lwe', 5), evk=True, bits=True, refrun=True), n, d, shards=1)
    c.par(*([lambda i=i: c.simple('hist', 'CallTrace', name='hist%d' % i, shards=2, seed=c.seed + 1000003 * i) for i in range(c.pick(2, 8))] + wide_jobs(c, c.pick(10, 120), d, refrun=True) + [lambda: c.simple('registry', 'RegTrace', shards=2)] + [lambda sh=sh: run(sh) for sh in shs] + [lambda: bits(shape('bin64', p=4)), lambda: bits(shape('bin32o1', logq=32, p=4, dim=9, block=3, N=64, order=1))]))


VARIANTS = ['default', 'purego', 'nosimd', 'noavx2', 'nofma']


@check('P33', rule='measured errors of modulus switching, key switching and blind rotation over shapes where each source of error dominates; each group of a thousand has the reported deviation; totals and failure probabilities follow from the parts (EstTrace.tla)')
def p33(c):
    c.simple('est', 'EstTrace', shards=4)


@check('P32', rule='number helpers over 11 integer types at boundary and random values; vector helpers over lengths, offsets, overlaps and types; every event satisfies the definition in NumTrace.tla')
def p32(c):
    # the vector helpers have three sources (assembly, its tails, plain Go): each is a definition to meet
    c.par(lambda: c.simple('num', 'NumTrace', shards=4), lambda: c.simple('vec', 'NumTrace', shards=3),
          lambda: c.simple('vec', 'NumTrace', variant='purego', shards=2), lambda: c.simple('vec', 'NumTrace', variant='nosimd', shards=2))


@check('P19', rule='every function of the polynomial evaluator in all calling forms over ranks, types, overlaps and boundary coefficients; every result equals the ring element computed in PolyTrace.tla')
def p19(c):
    c.simple('poly', 'PolyTrace', shards=8)


@check('P18', rule='the same specification accepts the traces of every back end: AVX2+FMA, AVX2 without FMA, no AVX2, no CPU extensions, purego build')
def p18(c):
    sh = [shape('be64', N=32, brlevel=5, p=4), shape('be32', logq=32, N=16, lut=32, p=4, dim=6, block=2)]
    def one(v):
        c.par(lambda: c.simple('vec', 'NumTrace', variant=v, shards=2), lambda: c.simple('poly', 'PolyTrace', variant=v, shards=c.pick(3, 6)),
              lambda: c.simple('dcmp', 'CodecTrace', variant=v, shards=c.pick(1, 3)), lambda: c.simple('rotstd', 'RotTrace', variant=v, shards=1),
              *[lambda s=s: c.machine(s['name'] + v, mcfg(c, s, ['lwe', 'glwe', 'boot', 'fft', 'gpglwe'], all_slots(), evk=True, reenc='glwe'), c.pick(8, 80), 40, shards=1, variant=v)
                for s in sh])
    c.par(*[lambda v=v: one(v) for v in VARIANTS])


@check('P10', rule='gadget decompositions of boundary and random words for every gadget shape, scalar / polynomial / Fourier, on fresh and reused decomposers; digits, recomposition and closeness decided by CodecTrace.tla')
def p10(c):
    c.simple('dcmp', 'CodecTrace', shards=6)
    c.simple('dcmp', 'CodecTrace', name='dcmp2', shards=6, seed=c.seed + 1000003)


@check('P29', rule='every entry of generated look-up tables (all forms, sizes, extensions, moduli, dirty destinations) equals the value CodecTrace.tla assigns to that phase')
def p29(c):
    c.simple('lut', 'CodecTrace', shards=4)
    c.simple('lut', 'CodecTrace', name='lut2', shards=4, seed=c.seed + 1000003)


@check('P30', rule='encodings of boundary and random integers for every modulus/scale equal (m mod p)*scale; decodings equal the rounding quotient modulo p, exact big integers in TLA+')
def p30(c):
    c.simple('enc', 'CodecTrace', shards=8)


@check('P11', rule='mixed streams of every serializable type and shape written and read in random interleavings, chunkings and receiver states; each step is a step of the FIFO stream specification')
def p11(c):
    c.simple('serial', 'SerialTrace', shards=4)
    c.par(*[lambda i=i: c.simple('serial', 'SerialTrace', name='serial%d' % i, shards=2, seed=c.seed + 1000003 * i) for i in range(1, c.pick(4, 12))])


@check('P12', rule='streams failing at every structural byte position and at random ones, on write (error or silent short write) and on read; counts and errors decided by the stream specification')
def p12(c):
    c.par(*[lambda i=i: c.simple('fault', 'SerialTrace', name='fault%d' % i, shards=4, seed=c.seed + 1000003 * i) for i in range(c.pick(3, 8))])


@check('P28', rule='random histories of new/copy/copy-into/mutate/clear/decode over every copyable type; values, storage disjointness and key views after every step decided by the heap specification')
def p28(c):
    c.simple('copies', 'CopyTrace', shards=4)
    c.par(lambda: c.simple('registry', 'RegTrace', shards=2), *[lambda i=i: c.simple('copies', 'CopyTrace', name='copies%d' % i, shards=2, seed=c.seed + 1000003 * i) for i in range(1, c.pick(4, 12))])


@check('P13', rule='literals of every scheme mutated to boundary values: verdict, every derived quantity and the recovered literal are the ones ParamTrace.tla computes from the literal; every With method; every preset')
def p13(c):
    c.simple('params', 'ParamTrace', shards=8)
    c.par(*[lambda i=i: c.simple('params', 'ParamTrace', name='params%d' % i, shards=4, seed=c.seed + 1000003 * i) for i in range(1, c.pick(2, 4))])


@check('P14', rule='every sampler created repeatedly from the same and from different seeds, its stream consumed in random call sequences; common reference strings of parties; equality pattern of all outputs decided by StreamTrace.tla')
def p14(c):
    c.simple('stream', 'StreamTrace', shards=4)
    c.par(*[lambda i=i: c.simple('stream', 'StreamTrace', name='stream%d' % i, shards=2, seed=c.seed + 1000003 * i) for i in range(1, c.pick(3, 12))])


@check('P15', rule='histograms of every sampler at many parameters and of every position of thousands of secret keys within ten standard deviations of the exact expectation in SampleTrace.tla; structure of every key view exact')
def p15(c):
    c.par(lambda: c.simple('support', 'SampleTrace', shards=4), lambda: c.simple('secret', 'SampleTrace', shards=4),
          lambda: c.simple('support', 'SampleTrace', name='support1', shards=4, seed=c.seed + 1000003))


@check('P16', rule='every row of evaluation keys generated by every sequential and parallel generator (1, 2, 3, 8 processors, random GOMAXPROCS, race detector): complete, in place, content computed by KeyTrace.tla; worker pool model checked for all schedules')
def p16(c):
    vs = ['default', 'cpu1', 'cpu2', 'cpu3', 'race']
    c.par(lambda: c.simple('preuint', 'PresetTrace', variant='cpu3', shards=2),
          *[lambda v=v: c.simple('keygen', 'KeyTrace', name='keygen-' + v, variant=v, shards=4) for v in vs])


@check('P31', rule='every mask word and noise vector of all ciphertexts and keys of runs mixing encryptors, copies, public encryptors and parallel generators is new (FreshTrace.tla); measured noise has the requested deviation')
def p31(c):
    c.simple('fresh', 'FreshTrace', shards=4)
    c.par(*[lambda i=i: c.simple('fresh', 'FreshTrace', name='fresh%d' % i, shards=4, seed=c.seed + 1000003 * i) for i in range(1, c.pick(2, 6))])


def mkg(sh, *g):
    """Adds the public-key groups where the parameters allow public-key encryption."""
    return list(g) + [{'mkencl': 'mkpencl', 'mkencg': 'mkpencg', 'mkbit': 'mkpbit'}[x] for x in g if x in ('mkencl', 'mkencg', 'mkbit') and sh['order'] == 0]


@check('P20', rule='programs of several parties encrypting, embedding, joining, registering and decrypting, drawn by TLC from the multi-key machine; every event is a spec step; every row of uni-encryptions decided by KeyTrace.tla')
def p20(c):
    n, d = c.pick(30, 400), c.pick(40, 60)
    shs = [(shape('m1', N=16), 1), (shape('m2', N=16, order=1, p=4), 2), (shape('m3b32', logq=32, N=16, p=4), 3), (shape('m4', N=32, p=16), 4), (shape('m5o1', N=16, order=1, logq=32, p=3), 5)]
    def run(sh, K):
        sl = S('G', 'glwe', 4) + S('F', 'fglwe', 3) + S('L', 'lwe', 3) + (S('Y', 'L', 2) if sh['order'] else [])
        c.machine(sh['name'], mkcfg(c, sh, K, mkg(sh, 'mkencl', 'mkencg', 'lwe', 'mkglwe', 'mkfft', 'mkconv', 'ext'), sl, reenc='glwe'), n, d, shards=1)
    c.par(lambda: c.simple('uni', 'KeyTrace', shards=4), lambda: c.simple('registry', 'RegTrace', shards=2), *[lambda sh=sh, K=K: run(sh, K) for sh, K in shs])


def mkboot_shapes():
    return [(shape('q1', dim=4, block=2, N=32, p=4, brlevel=5), 1), (shape('q2', dim=4, block=2, N=64, p=4, brlevel=5, order=1), 2),
            (shape('q3', dim=4, block=4, N=64, p=4, brlevel=5), 3), (shape('q2b1', dim=3, block=1, N=64, p=4, brlevel=5), 2),
            (shape('q4', dim=6, block=6, N=64, p=3, brlevel=5, order=1), 4)]


@check('P21', rule='joint bootstraps, blind rotations, key switches and gates of several parties under random registration histories, sequential and parallel forms, drawn by TLC from the multi-key machine; exact joint rotations of arbitrary tables (RotTrace.tla)')
def p21(c):
    n, d = c.pick(12, 200), c.pick(40, 60)
    def run(sh, K):
        sl = S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2)
        c.machine(sh['name'], mkcfg(c, sh, K, mkg(sh, 'mkboot', 'mkboot', 'mkbrot', 'lwe', 'ks', 'mkencl'), sl, evk=True, refrun=True), n, d, shards=2)
    def bits(sh, K):
        c.machine(sh['name'], mkcfg(c, sh, K, mkg(sh, 'gate', 'pargate', 'mkbit'), S('B', 'lwe', 6), evk=True, bits=True, refrun=True), n, d, shards=2)
    c.par(*([lambda: c.simple('premk', 'PresetTrace', shards=1)] + [lambda sh=sh, K=K: run(sh, K) for sh, K in mkboot_shapes()] +
            [lambda: bits(shape('qb2', dim=4, block=2, N=64, p=4, brlevel=5), 2), lambda: bits(shape('qb3', dim=4, block=4, N=64, p=4, brlevel=5, order=1), 3), lambda: c.simple('rotmk', 'RotTrace', shards=3), lambda: c.simple('registry', 'RegTrace', shards=2)]))


@check('P22', rule='hybrid and external products by the uni-encryptions and Lev encryptions of every party under partial registration, drawn by TLC from the multi-key machine')
def p22(c):
    n, d = c.pick(30, 400), c.pick(40, 60)
    shs = [(shape('x1', N=16, p=4, brlevel=5), 1), (shape('x2', N=32, p=4, order=1, brlevel=5), 2), (shape('x3', N=16, p=3, brbase=10, brlevel=4), 3), (shape('x4', N=16, p=3, brlevel=5), 4),
           (shape('x32', logq=32, N=16, p=3, brbase=4, brlevel=6), 2)]
    def run(sh, K):
        sl = S('G', 'glwe', 5) + S('U', 'funi', 2 * K) + S('M', 'mlev', 2 * K)
        c.machine(sh['name'], mkcfg(c, sh, K, ['mkprod', 'mkprod', 'mkglwe'], sl, evk=True, reenc='glwe', refrun=True), n, d, shards=1)
    c.par(lambda: c.simple('registry', 'RegTrace', shards=2), *[lambda sh=sh, K=K: run(sh, K) for sh, K in shs])


@check('P17', rule='an evaluator/encryptor with a history and its safe copies (and copies of copies) run programs drawn by TLC in concurrent goroutines, with and without the race detector; every goroutine trace is, alone, a behaviour of the sequential machine')
def p17(c):
    n, d, W = c.pick(10, 120), c.pick(24, 40), 4
    one = dict(regs=None)
    def run(sh, g, sl, variant, bits=False, **k):
        c.machine(sh['name'] + variant, mcfg(c, sh, g, sl, evk=True, bits=bits, conc=W, foreign=foreign(sh), public=sh['order'] == 0, **k), n, d, shards=1, variant=variant)
    def mk(sh, K, g, sl, variant, **k):
        c.machine(sh['name'] + variant, mkcfg(c, sh, K, mkg(sh, *g), sl, evk=True, conc=W, **k), n, d, shards=1, variant=variant)
    full = all_slots() + S('X', 'S', 2) + S('Y', 'L', 2) + S('R', 'rot', 1) + S('fa', 'lk1', 1) + S('fb', 'lk2', 1) + S('fc', 'gk1', 1) + S('fd', 'gk2', 1) + KSLOTS
    G = ['lwe', 'glwe', 'fft', 'conv', 'ext', 'ks', 'boot', 'brot', 'gplwe', 'gpglwe', 'ksw', 'enclwe', 'encglwe']
    jobs = []
    for v in ['race', 'default']:
        jobs.append(lambda v=v: c.simple('conc', 'CallTrace', name='conc-' + v, variant=v, shards=2))
        jobs.append(lambda v=v: c.simple('registry', 'RegTrace', name='registry-' + v, variant=v, shards=2))
        jobs.append(lambda v=v: c.simple('conckg', 'KeyTrace', name='conckg-' + v, variant=v, shards=c.pick(3, 4)))
        for sh, k, g, sl, kw in [(shape('v64', N=32, p=8), 'bfv', ['bfv', 'bfv', 'glwe', 'ext'], S('G', 'glwe', 4) + S('T', 'tens', 2) + S('Y', 'L', 2), dict(rbase=8, rlevel=5, abase=8, alevel=5, gals=[3, -1, 5])),
                                 (shape('y2', dim=4, block=2, N=64, p=4), 'mlut', ['mlut', 'lwe'], S('L', 'lwe', 4) + S('W', 'mlwe', 2), dict(lutcount=2)),
                                 (shape('z2', dim=4, block=2, N=64, p=2, brbase=10, brlevel=5), 'cb', ['cb', 'lwe', 'bfvpack', 'mlut', 'conv', 'ext'],
                                  S('L', 'lwe', 3) + S('Z', 'cggsw', 2) + S('G', 'glwe', 3) + S('F', 'fglwe', 1) + S('W', 'mlwe', 1),
                                  dict(lutcount=2, rbase=12, rlevel=4, abase=12, alevel=4, obase=8, olevel=3, gals=[(64 >> i) + 1 for i in range(6)])),
                                 (shape('f3o1', dim=5, block=1, N=256, p=4, order=1), 'fhew', ['boot', 'brot', 'lwe', 'ks', 'enclwe'], S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2), dict(window=3, skstd=0.8)),
                                 (shape('s64', dim=4, block=2, N=64, p=4), 'san', ['san', 'lwe', 'glwe', 'enclwe', 'boot', 'ext'], S('L', 'lwe', 4) + S('G', 'glwe', 3), dict(san=[2, 3, 2, 12]))]:
            jobs.append(lambda v=v, sh=sh, k=k, g=g, sl=sl, kw=kw: c.machine(sh['name'] + v, mcfg(c, sh, g, sl, evk=True, kind=k, conc=W, reenc='glwe' if k in ('bfv', 'san') else 'lwe', **kw), c.pick(5, 100), d, shards=1, variant=v))
        pub = lambda sh, a, b: a + (b if sh['order'] == 0 else [])
        for sh in [shape('h64', p=4, N=32, brlevel=5), shape('h32k2', logq=32, p=4, N=32, rank=2, brbase=5, brlevel=5, order=1, dim=6, block=1), shape('hext', N=16, lut=64, p=4, brlevel=5)]:
            jobs.append(lambda sh=sh, v=v: run(sh, pub(sh, G, ['penclwe', 'pencglwe']), full, v, reenc='glwe'))
        for sh in [shape('bin64', p=4), shape('bin32o1', logq=32, p=4, dim=9, block=3, N=64, order=1)]:
            jobs.append(lambda sh=sh, v=v: run(sh, pub(sh, ['gate', 'encbit'], ['pencbit']), S('B', 'lwe', 5), v, bits=True))
        jobs.append(lambda v=v: mk(shape('q2', dim=4, block=2, N=64, p=4, brlevel=5), 2, ['mkboot', 'mkbrot', 'lwe', 'ks', 'mkencl', 'mkprod', 'mkglwe', 'mkfft', 'mkconv'], S('G', 'glwe', 3) + S('F', 'fglwe', 2) + S('U', 'funi', 2) + S('M', 'mlev', 2) + S('L', 'lwe', 3) + S('X', 'S', 2) + S('R', 'rot', 1), v, reenc='glwe'))
        jobs.append(lambda v=v: mk(shape('qb3', dim=4, block=4, N=64, p=4, brlevel=5, order=1), 3, ['gate', 'pargate', 'mkbit'], S('B', 'lwe', 5), v, bits=True))
    c.par(*jobs)


def odd(c, N, n):
    """Automorphism indices: small, large, negative and beyond 2N."""
    g = [3, 5, -1, 2 * N - 1, N + 1, -5, 2 * N + 3, 1 - 4 * N]
    return c.rng.sample(g, min(n, len(g))) + [2 * c.rng.randrange(-2 * N, 2 * N) + 1]


@check('P23', rule='many-LUT bootstraps of every tuple size drawn by TLC, results picked, recombined and bootstrapped again (the vector itself as input included); every event is a spec step; exact rotations of arbitrary tables (RotTrace.tla)')
def p23(c):
    n, d = c.pick(16, 250), c.pick(40, 60)
    # LUTSize > LUTCount * p * (blocks + 2)
    shs = [(shape('y2', dim=4, block=2, N=64, p=4), 2), (shape('y4o1', dim=4, block=4, N=128, p=4, order=1), 4), (shape('y8b1', dim=2, block=1, N=256, p=4), 8),
           (shape('y2k2', logq=32, dim=4, block=2, rank=2, N=64, p=4, order=1), 2), (shape('y4p3', dim=4, block=4, N=128, p=3), 4), (shape('y2p5', logq=32, dim=6, block=3, N=128, p=5), 2),
           (shape('y1', dim=6, block=2, N=64, p=7, order=1), 1), (shape('y16', dim=2, block=2, N=256, p=2), 16)]
    def run(sh, k):
        sl = S('L', 'lwe', 4) + S('W', 'mlwe', 2)
        c.machine(sh['name'], mcfg(c, sh, ['mlut', 'mlut', 'lwe'], sl, evk=True, kind='mlut', lutcount=k, refrun=True), n, d, shards=1)
    c.par(lambda: c.simple('rotmany', 'RotTrace', shards=3), lambda: c.simple('premany', 'PresetTrace', shards=1), *[lambda sh=sh, k=k: run(sh, k) for sh, k in shs])


@check('P24', rule='programs interleaving tensor, relinearization, multiplication, permutation, packing and linear operations drawn by TLC; every event is a step of the message ring')
def p24(c):
    n, d = c.pick(30, 400), c.pick(40, 60)
    shs = [(shape('v64', N=32, p=8), (8, 5), (8, 5)), (shape('v64k2', N=16, rank=2, p=4, order=1), (6, 7), (10, 4)), (shape('v32', logq=32, N=16, p=2), (4, 6), (4, 6)),
           (shape('v64k3', N=16, rank=3, p=4, dim=10, block=5), (10, 4), (5, 8)), (shape('v64p3', N=32, p=3), (8, 5), (8, 5)), (shape('v64n', N=64, p=16), (4, 12), (12, 4))]
    def run(sh, rel, gal):
        sl = S('G', 'glwe', 4) + S('T', 'tens', 2) + S('Y', 'L', 2)
        c.machine(sh['name'], mcfg(c, sh, ['bfv', 'bfv', 'glwe', 'ext'], sl, kind='bfv', rbase=rel[0], rlevel=rel[1], abase=gal[0], alevel=gal[1],
                  gals=odd(c, sh['N'], 5), reenc='glwe', refrun=True), n, d, shards=1)
    c.par(lambda: c.simple('prebfv', 'PresetTrace', shards=1), *[lambda sh=sh, r=r, g=g: run(sh, r, g) for sh, r, g in shs])


@check('P25', rule='circuit bootstraps used as selectors and multipliers in programs drawn by TLC, interleaved with many-LUT, packing and external products of the same evaluator; every row of every produced GGSW ciphertext has the exact phase up to the noise bound')
def p25(c):
    n, d = c.pick(12, 200), c.pick(30, 50)
    # output gadget, many-LUT count; the output level is smaller than, equal to and larger than the count, and not a multiple of it
    shs = [(shape('z2', dim=4, block=2, N=64, p=2, brbase=10, brlevel=5), 2, (8, 3)), (shape('z4o1', dim=4, block=4, N=128, p=2, brbase=10, brlevel=5, order=1), 4, (8, 3)),
           (shape('z1b1', dim=3, block=1, N=64, p=4, brbase=12, brlevel=4), 1, (6, 4)), (shape('z2k2', dim=4, block=2, rank=2, N=64, p=2, brbase=10, brlevel=5, order=1), 2, (7, 4)),
           (shape('z4p3', dim=2, block=2, N=128, p=3, brbase=10, brlevel=5), 4, (5, 5))]
    def run(sh, k, out):
        sl = S('L', 'lwe', 3) + S('Z', 'cggsw', 2) + S('G', 'glwe', 3) + S('F', 'fglwe', 1) + S('W', 'mlwe', 1)
        c.machine(sh['name'], mcfg(c, sh, ['cb', 'cb', 'lwe', 'bfvpack', 'mlut', 'conv'] + (['ext'] if sh['order'] == 0 else []), sl + ([] if sh['order'] == 0 else S('Y', 'L', 1)), evk=True, kind='cb', lutcount=k, rbase=12, rlevel=4, abase=12, alevel=4,
                  obase=out[0], olevel=out[1], gals=[(sh['N'] >> i) + 1 for i in range(5)], reenc='lwe', refrun=True), n, d, shards=1)
    c.par(lambda: c.simple('precb', 'PresetTrace', shards=1), *[lambda sh=sh, k=k, o=o: run(sh, k, o) for sh, k, o in shs])


@check('P26', rule='bootstraps and blind rotations with Gaussian keys, every window size, sequentially and in parallel generated keys, drawn by TLC from the machine specification; exact rotations of arbitrary tables for arbitrary integer keys (RotTrace.tla)')
def p26(c):
    n, d = c.pick(12, 200), c.pick(40, 60)
    shs = [(shape('f1', dim=4, block=1, N=128, p=2), 1, 0.7), (shape('f3o1', dim=5, block=1, N=256, p=4, order=1), 3, 0.8), (shape('f10', dim=4, block=1, N=128, p=3), 10, 0.8),
           (shape('f32', logq=32, dim=4, block=1, N=128, p=2, brbase=4, brlevel=6, order=1), 5, 0.7), (shape('fk2', dim=3, block=1, rank=2, N=64, p=2, order=1), 4, 0.6), (shape('fw', dim=3, block=1, N=64, p=2), 40, 0.6)]
    def run(sh, w, std):
        sl = S('L', 'L', 3) + S('X', 'S', 3) + S('R', 'rot', 2)
        c.machine(sh['name'], mcfg(c, sh, ['boot', 'boot', 'brot', 'lwe', 'ks'], sl, evk=True, kind='fhew', window=w, skstd=std, refrun=True), n, d, shards=1)
    c.par(lambda: c.simple('rotfhew', 'RotTrace', shards=3), lambda: c.simple('prefhew', 'PresetTrace', shards=1), *[lambda sh=sh, w=w, s=s: run(sh, w, s) for sh, w, s in shs])


@check('P27', rule='re-randomizations and sanitized bootstraps drawn by TLC: message, noise, and a mask never seen before; histograms of the discrete Gaussian sampler at many centres and widths')
def p27(c):
    n, d = c.pick(20, 300), c.pick(40, 60)
    shs = [(shape('s64', dim=4, block=2, N=64, p=4), [2, 3, 2, 12]), (shape('s32', logq=32, dim=4, block=4, N=64, p=2, brbase=4, brlevel=6), [1, 2, 1, 4]),
           (shape('s64p3', dim=6, block=3, N=64, p=3), [4, 10, 3, 20]), (shape('s64b1', dim=3, block=1, N=64, p=4), [0, 5, 5, 14])]
    def run(sh, sd):
        c.machine(sh['name'], mcfg(c, sh, ['san', 'lwe', 'glwe', 'enclwe', 'boot', 'ext'], S('L', 'lwe', 4) + S('G', 'glwe', 3), evk=True, kind='san', san=sd, reenc='glwe'), n, d, shards=1)
    c.par(lambda: c.simple('cdt', 'SampleTrace', shards=3), lambda: c.simple('presan', 'PresetTrace', shards=1), lambda: c.simple('sanprobe', 'SampleTrace', shards=1), *[lambda sh=sh, sd=sd: run(sh, sd) for sh, sd in shs])
