"""C24: the arithmetic helpers: vectors of lanes, rounding, integers; calculations enumerated by TLC, replayed in three builds."""
import random
from vf import *

V1 = 'SmearX SmearY SmearZ SmearW LoadSmearScalar Load LoadUnaligned LoadScalar Store StoreUnaligned StoreX StoreY StoreZ StoreW Store3D Negate Neg Fsgn Fnsgn NonzeroFsgn NonzeroFnsgn HorizontalSum3D'
V2 = 'Shuffle0123 Shuffle3210 Shuffle1302 Min Max MinScalar MaxScalar Add Plus AddScalar Sub Minus SubScalar Mul Star MulScalar Div Slash DivScalar MaskCmpeq MaskCmplt MaskCmpgt SelectLess CmpeqScalar CmpltScalar CmpgtScalar CmpltAny3D CmpgtAny3D Dot3D Dot4D PlaneDotPoint3D Project3D Reject3D Cross3D'
V3 = 'Madd MaddScalar Nmsub NmsubScalar'
R_ALL = 'Floor Ceil FloorScalar CeilScalar FloorCeil FloorCeilScalar MathFloor MathCeil MathFloorCeil MathFrac'
R_SMALL = 'TruncateConvert Fabs Fnabs MathFsgn MathFnsgn MathNonzeroFsgn MathNonzeroFnsgn FminZero FmaxZero Saturate Fmin2 Fmax2 Fmin3 Fmax3 Fmin4 Fmax4 Clamp'
R_POS = 'PositiveFloor PositiveCeil PositiveFloorScalar PositiveCeilScalar PositiveFloorCeil PositiveFloorCeilScalar MathPositiveFloor MathPositiveCeil MathPositiveFloorCeil MathPositiveFrac'
R_NEG = R_POS.replace('Positive', 'Negative')
MATH = 'MathFloor MathCeil MathFloorCeil MathFrac MathPositiveFloor'
LAWS = ('Laws', 'Emitted')


def table(kind, *groups):
    return {o: (n, kind) for n, names in groups for o in names.split()}


def fours(xs):
    xs = list(xs)
    return {tuple((xs[i:i + 4] + xs[:3])[:4]) for i in range(0, len(xs), 4)}


def bits(v, n):
    return tuple(v >> (n - 1 - i) & 1 for i in range(n))


def models(q, r):
    few = [(1, 2, 3, 4), (-5, 6, -7, 8), (0, 0, 0, 0), (3, 3, 3, 3), (-1, 0, 1, 0), (100, -20, 3, -1000), (2, 1, 4, 3), (0, 5, 0, -5), (1, 2, 3, 5), (-1, -2, -3, -4), (1, 7, 3, 4)]
    many = few + [tuple(r.randrange(-1000, 1001) for _ in range(4)) for _ in range(10 if q else 120)]
    yield 'unary', 1, table('vector', (1, V1)), set(many)
    yield 'binary', 1, table('vector', (2, V2)), {tuple(max(-120, min(120, x)) for x in v) for v in (many if q else many[:70])}
    yield 'ternary', 1, table('vector', (3, V3)), set(few if q else many[:30])
    yield 'transform', 1, table('vector', (4, 'TransformVector3D')), set(few[:4] + few[5:7] if q else few)
    yield 'transform-point', 1, table('vector', (5, 'TransformPoint3D')), {(1, 2, 3, 4), (-5, 6, -7, 8), (9, 0, -11, 13)} | (set() if q else {(20, -30, 40, 7)})
    grid = list(range(-100, 101)) if q else list(range(-4000, 4001))
    top = 1 << 23
    for scale, xs in ((8, grid), (16, [r.randrange(-(1 << 23), 1 << 23) for _ in range(200 if q else 4000)]),
                      (2, [s * (top + d) for s in (1, -1) for d in range(-20, 0)] + [r.randrange(-top, top) for _ in range(100)]),
                      (1, [s * (top // k + d) for s in (1, -1) for k in (1, 2) for d in range(-12, 1)])):
        name = 'eighths' if scale == 8 else 'scale%d' % scale
        shuffled = xs[:]
        r.shuffle(shuffled)
        yield name, scale, table('rounding', (1, R_ALL + ' ' + R_SMALL)), fours(xs) | fours(shuffled)
        yield name + '-positive', scale, table('rounding', (1, R_POS)), fours([x for x in shuffled if x >= 0])
        yield name + '-negative', scale, table('rounding', (1, R_NEG)), fours([x for x in shuffled if x <= 0])
    yield 'nearest', 8, table('rounding', (1, 'ConvertInt32')), fours([x for x in grid if x % 8 != 4])
    large = [s * (top * k + d * k) for s in (1, -1) for k in (1, 2, 16, 64) for d in range(0, 4)]
    yield 'large', 1, table('rounding', (1, R_ALL + ' Fabs Fnabs MathFsgn FminZero FmaxZero Saturate Fmin2 Fmax2 Fmin4 Fmax4 Clamp')), fours(large)
    pats = {(0, 255, 85, 170), (255, 255, 255, 255), (0, 0, 0, 0), (1, 2, 4, 8), (128, 64, 32, 16), (204, 51, 15, 240)} | {tuple(r.randrange(256) for _ in range(4)) for _ in range(3 if q else 30)}
    yield 'patterns', 1, table('patterns', (2, 'And Andc Or Xor Ampersand Bar Hat'), (3, 'Select')), pats
    yield 'int32', 1, table('ints', (1, 'Int32StoreX Int32StoreY Int32StoreZ Int32StoreW Int32PackSaturate'), (2, 'Int32PackSaturate2 Int32Add Int32Sub')), \
        {(1, -2, 3, -4), (32767, 32768, -32768, -32769), (1000000000, -1000000000, 65535, 65536), (0, 0, 0, 1), (-1, 32766, -32767, 1 << 20)} | {tuple(r.randrange(-(1 << 30), 1 << 30) for _ in range(4)) for _ in range(6 if q else 60)}
    yield 'int32-float', 1, table('ints', (1, 'Int32ConvertFloat')), {(1, -2, 3, -4), (1 << 24, -(1 << 24), (1 << 24) - 1, 0), (1 << 30, -(1 << 30), 255, 77)}
    yield 'int16', 1, table('ints', (1, 'Int16Load Int16LoadUnaligned Int16PackSaturate Int16PackUnsignedSaturate Int16Deinterleave')), \
        {(1, -2, 3, -4, 5, -6, 7, -8), (127, 128, 255, 256, -128, -129, -1, 0), (32767, -32768, 129, 254, 257, -127, 126, 1000)} | {tuple(r.randrange(-400, 400) for _ in range(8)) for _ in range(10 if q else 100)}
    yield 'uint16', 1, table('ints', (1, 'UInt16Load UInt16LoadUnaligned Int16UnpackA Int16UnpackB UInt16UnpackA UInt16UnpackB')), \
        {(1, 2, 3, 4, 5, 6, 7, 8), (0, 32767, 32768, 65535, 65534, 255, 256, 257)} | {tuple(r.randrange(65536) for _ in range(8)) for _ in range(10 if q else 100)}
    yield 'int8', 1, table('ints', (1, 'Int8Load Int8LoadUnaligned')), {tuple(range(-8, 8)), (127, -128) * 8, tuple(r.randrange(-128, 128) for _ in range(16))}
    yield 'uint8', 1, table('ints', (1, 'UInt8Load UInt8LoadUnaligned Int8UnpackA Int8UnpackB UInt8UnpackA UInt8UnpackB'), (2, 'Int8MergeA Int8MergeB UInt8MergeA UInt8MergeB')), \
        {tuple(range(16)), tuple(range(240, 256)), (127, 128) * 8} | {tuple(r.randrange(256) for _ in range(16)) for _ in range(6 if q else 40)}
    edge = [-(1 << 31) + 1, -(1 << 30), -65536, -100, -2, -1, 0, 1, 2, 100, 65536, (1 << 30) - 1, (1 << 31) - 1]
    yield 'integers', 1, table('basic', (1, 'Abs IMin IMax MinZero MaxZero Sgn Exchange ExchangeSelf')), {(a, b) for a in edge for b in edge}
    yield 'least', 1, table('basic', (1, 'IMin IMax MinZero MaxZero Sgn Exchange ExchangeSelf')), {(-(1 << 31), b) for b in edge} | {(b, -(1 << 31)) for b in edge}
    yield 'cyclic', 1, table('basic', (1, 'IncMod7 DecMod7')), {(a, 0) for a in range(7)}
    yield 'limited', 1, table('basic', (1, 'OverflowZero')), {(a, b) for a in edge for b in edge if abs(a - b) < 1 << 31}
    words = {1 << k for k in range(32)} | {(1 << k) - 1 for k in range(1, 33)} | {(1 << k) + 1 for k in range(1, 32)} | {r.getrandbits(k) | 1 for k in range(1, 33) for _ in range(3 if q else 40)}
    yield 'words', 1, table('bits', (1, 'Cntlz IntLog2 Pow2Floor')), {bits(v, 32) for v in words}
    yield 'zero', 1, table('bits', (1, 'Cntlz IntLog2')), {bits(0, 32)}
    yield 'powers', 1, table('bits', (1, 'Pow2Ceil')), {bits(v, 32) for v in words if v <= 1 << 31}
    top = 1 << 64
    wide = {0, 1, top - 1, top // 2 + 1, top // 2 - 1, 1 << 31, 1 << 32, top - (1 << 31), top - (1 << 32), (1 << 32) - 1, 1 << 40, top - (1 << 40)} | {r.getrandbits(64) for _ in range(6 if q else 60)}
    yield 'wide', 1, table('bits', (1, 'Abs64 Sgn64 MinZero64 MaxZero64'), (2, 'Min64 Max64')), {bits(v, 64) for v in wide}
    yield 'least-wide', 1, table('bits', (1, 'Sgn64 MinZero64 MaxZero64'), (2, 'Min64 Max64')), {bits(v, 64) for v in (top // 2, 0, 1, top - 1)}
    yield 'roots', 1, table('roots', (1, 'VecSqrt VecSqrtScalar Sqrt VecInverseSqrt VecInverseSqrtScalar InverseSqrt')), fours(range(1, 1000 if q else 2000))
    yield 'root-zero', 1, table('roots', (1, 'VecSqrt VecSqrtScalar Sqrt')), {(0, 1, 0, 4), (9, 0, 0, 0), (0, 0, 0, 0)}
    e1 = 'ExvSmearX ExvSmearY ExvSmearZ ExvSmearW ExvSmearVecLo ExvSmearVecHi ExvLoad ExvStore ExvLoadSmearScalar ExvStoreX ExvStoreY ExvStoreZ ExvStoreW'
    yield 'eight', 1, table('vector', (1, e1), (2, 'ExvMul ExvStar'), (3, 'ExvMadd')), {tuple(range(1, 9)), (-5, 6, -7, 8, 100, -3, 0, 11), (0, 1, 0, -1, 2, 2, 3, 9), (9, 8, 7, 6, 5, 4, 3, 2)}
    yield 'eight-of-two', 1, table('vector', (2, 'ExvFloat')), set(few)


def answer(op, res, out):
    """None when the driver's answer is the result of the specification"""
    if 'outside' in out or 'floats' in out or 'wide' in out:
        return out
    try:
        got = [float(x) for x in out.split(',') if x]
    except ValueError:
        return out
    if len(got) < len(res):
        return out
    for g, e in zip(got, res):
        if not (e[0] <= g <= e[1] if isinstance(e, list) else g == e):
            return out
    return None


def run(ctx):
    q = ctx.quick()
    r = random.Random(SEED + 24)
    avx = 'avx' in open('/proc/cpuinfo').read()
    builds = [('vector instructions', lambda: build(ctx, 'lanes', ['lanes_driver.cpp'], opt='-O1')),
              ('optimised', lambda: build(ctx, 'lanes2', ['lanes_driver.cpp'], opt='-O2', san=False)),
              ('no vector instructions', lambda: build(ctx, 'lanes3', ['lanes_driver.cpp'], opt='-O2', defines=['TERATHON_NO_SIMD=1']))]
    if avx:
        builds.append(('wide vectors', lambda: build(ctx, 'lanes4', ['lanes_driver.cpp'], opt='-O2', flags=['-mavx'])))
    ms = list(models(q, r))

    def model(m):
        name, scale, ops, args = m
        t = run_tlc(ctx, 'Lanes', consts={'Scale': scale, 'Ops': ops, 'Args': args}, invariants=LAWS, workers=1, name='lanes-' + name)
        ctx.count('calculations', len(t.vectors))
        return scale, t.vectors
    rs = parallel([b for _, b in builds] + [lambda m=m: model(m) for m in ms], n=8)
    exes, vectors = rs[:len(builds)], rs[len(builds):]
    jobs = [('%s %d %s' % (op, scale, ' '.join(','.join(map(str, a)) for a in xs)), op, res) for scale, vs in vectors for op, xs, res in vs]
    jobs += [('Constants 1 0', 'Constants', [0] * 4 + [1 << 31] * 4 + [0x3F812345] * 4 + [0x7F812345] * 4), ('IntConstants 1 0', 'IntConstants', [0] * 48 + [128] * 16),
             ('ExvConstants 1 0', 'ExvConstants', [0] * 8 + [1 << 31] * 8)]
    ctx.log('%d calculations from %d models' % (len(jobs), len(ms)))
    asked = {j[1] for j in jobs}
    for (name, _), exe in zip(builds, exes):
        outs = run_parallel(ctx, exe, [j[0] for j in jobs])
        missing = set()
        for (line, op, res), out in zip(jobs, outs):
            if out == 'none':
                missing.add(op)
                continue
            bad = out.why if isinstance(out, Crash) else None if out is None else answer(op, res, out)
            if bad is not None:
                raise Violation('%s (%s): %s, must be %s' % (line, name, bad, res), {'command': line, 'build': name, 'expected': res, 'observed': bad})
            ctx.traces += 1
        ctx.cover.setdefault('operations', {})[name] = len(asked - missing)
    for j in jobs[::max(1, len(jobs) // 6)]:
        ctx.sample({'command': j[0], 'answer': j[2]})
