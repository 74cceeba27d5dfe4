"""C22: texts that display floats; C25: elementary functions. Recorded from the code, judged in TLA+ (Display.tla, Elementary.tla)."""
import random
from vf import *
from write_check import eval_recs


def fbits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def flt(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def hexdigits(b):
    return [int(c, 16) for c in '%08x' % b]


def is_float(x):
    return flt(fbits(x)) == x


def displayed(q, r):
    """Floats to display: every exponent, decimal boundaries, runs of nines and zeros, limits."""
    out = [0, 1, 2, 0x007fffff, 0x00400000, 0x00800000, 0x00800001, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7f800001, 0x7fffffff, 0x3f800000, 0x38d1b716, 0x38d1b717, 0x38d1b718, 0x47c34fff, 0x47c35000, 0x47c35001]
    for e in range(1, 255):
        out += [e << 23, (e << 23) + 1, (e << 23) | 0x7fffff] + [(e << 23) | r.randrange(1 << 23) for _ in range(3 if q else 60)]
    for k in range(-44, 39):
        for m in (1, 1.5, 2, 5, 9, 9.9, 9.99, 9.999, 9.9999, 9.99999, 9.999999, 1.0001, 1.00001, 1.000001, 1.1, 1.2345678):
            x = float('%ge%d' % (m, k)) if m * 10.0 ** k < 3.4e38 else 1.0
            b = fbits(x)
            out += [b] + ([b - 1, b + 1] if b > 1 and (q is False or m in (1, 9.9999)) else [])
    for _ in range(600 if q else 20000):
        # few digits, then zeros or nines
        d = r.randrange(1, 6)
        x = r.randrange(10 ** d) / 10 ** r.randrange(0, 6) + r.choice([0, 1, -1]) * r.choice([1e-3, 1e-4, 1e-5, 3e-6, 1e-6, 1e-7])
        out.append(fbits(abs(x)))
    for _ in range(600 if q else 20000):
        out.append(fbits(r.randrange(1, 1 << r.randrange(1, 25)) / (1 << r.randrange(0, 24))))
    for _ in range(800 if q else 30000):
        out.append(fbits(10.0 ** r.uniform(-4.1, 5.1)))
    out = sorted(set(out))
    return out + [b | 1 << 31 for b in out[::4]] + [0x80000000, 0xff800000, 0xffc00000]


def run_display(ctx):
    q = ctx.quick()
    r = random.Random(SEED + 22)
    builds = [('with vector instructions', build(ctx, 'float', ['float_driver.cpp'], opt='-O1')), ('without', build(ctx, 'float2', ['float_driver.cpp'], opt='-O2', san=False, defines=['TERATHON_NO_SIMD=1']))]
    floats = displayed(q, r)
    for name, exe in builds:
        bs = floats if exe == builds[0][1] else floats[::5]
        lines = ['D %08x' % b for b in bs]
        outs = run_parallel(ctx, exe, lines)
        recs, keep = [], []
        for b, line, o in zip(bs, lines, outs):
            f = o.split(' ') if isinstance(o, str) else []
            if len(f) != 3 or '0' in f[1] or 'length' in o:
                raise Violation('displaying the float %r (%s): %s' % (flt(b), name, o if isinstance(o, str) else o and o.why), {'command': line, 'observed': str(o)})
            text, cuts = bytes.fromhex(f[0]), [bytes.fromhex(c) for c in f[2].split(',')]
            if any(len(c) > k for k, c in enumerate(cuts)):
                raise Violation('displaying the float %r in limited space: %s' % (flt(b), cuts), {'command': line, 'observed': o})
            recs.append({'cut': False, 'bits': hexdigits(b), 'max': 40, 'text': list(text)})
            keep.append((line, text, flt(b)))
            if q and r.random() < .8 and b & 0x7f800000 not in (0, 0x7f800000):
                continue
            for m, c in enumerate(cuts):
                if b'e' not in text:
                    recs.append({'cut': True, 'bits': hexdigits(b), 'max': m, 'text': list(c)})
                    keep.append((line, c, flt(b)))
        vs = eval_recs(ctx, 'Display', recs)
        for rec, v, (line, text, x) in zip(recs, vs, keep):
            if not v:
                raise Violation('the float %r is displayed as %r%s (%s)' % (x, text.decode('latin1'), ' in limited space' if rec['cut'] else '', name), {'command': line, 'observed': text.hex()})
        ctx.traces += len(recs)
        ctx.count('texts_judged_in_TLA', len(recs))
        ctx.log('%d texts of floats are good (%s)' % (len(recs), name))
        for k in range(0, len(keep), len(keep) // 4):
            ctx.sample({'float': repr(keep[k][2]), 'text': keep[k][1].decode('latin1')})
    # non-vacuity: texts of other floats are refused
    neg = []
    for rec in [x for x in recs if not x['cut'] and 1 < x['bits'][0] % 8 < 7][::3]:
        t = bytes(rec['text'])
        for a, b in ((b'.', b'1.'), (b'e', b'1e'), (b'.', b''), (b'.', b'.0'), (b'.', b'.5')):
            w = t.replace(a, b, 1)
            if a in t and abs(float(w) - float(t)) > abs(float(t)) * .0001 + .0001:
                neg.append({'cut': False, 'bits': rec['bits'], 'max': 40, 'text': list(w)})
    if any(eval_recs(ctx, 'Display', neg)):
        raise TlcError('the specification accepts wrong texts')
    ctx.count('wrong_texts_refused_by_specification', len(neg))


INF, NAN = float('inf'), float('nan')


def calculations(q, r):
    out = []
    n = 150 if q else 3000

    def put(op, x, *more, **kw):
        b = [fbits(v) for v in (x,) + more]
        out.append((op, b, kw))
    angles = [0.0, -0.0, 1e-6, -1e-6, 1.0, 1.5707964, 3.1415927, 4.712389, 6.2831855, 0.7853982, 0.0245, 0.0246, 1000, -1000, 511.5]
    angles += [k * 6.283185307179586 / 256 + d for k in range(0, 257) for d in ((.012,) if q and k % 8 else (-1e-4, 1e-4, 0.012))]
    angles += [r.uniform(-7, 7) for _ in range(n)] + [r.uniform(-1000, 1000) for _ in range(n)]
    for x in angles:
        for op in ('Sin', 'Cos', 'CosSin'):
            put(op, x)
        y = abs(x) % 3.141592653589793
        if abs(x) <= 100 and abs(y - 1.5707963) > .05:
            put('Tan', x)
    for x in [0.0, 1.0, -1.0, .5, -.5, .7071068, .99999994, -.99999994, 1e-7, .9, -.9] + [r.uniform(-1, 1) for _ in range(n)]:
        put('Arcsin', x)
        put('Arccos', x)
    for x in [0.0, 1.0, -1.0, 1e-9, 1e6, -1e6, .015625, 1.0000001, .99999994] + [k / 64 + d for k in range(65) for d in (-.001, .001)] + [r.uniform(-1, 1) for _ in range(n)] + [r.choice((1, -1)) * 10 ** r.uniform(-3, 4) for _ in range(n)]:
        put('Arctan', x)
    for y, x in [(0.0, 1.0), (0.0, -1.0), (1.0, 0.0), (-1.0, 0.0)] + [(s * 2.0, t * 3.0) for s in (1, -1) for t in (1, -1)] + [(r.uniform(-9, 9), r.uniform(-9, 9)) for _ in range(n)]:
        put('Arctan2', y, x)
    for x in [0.0, 1.0, -1.0, 88.0, -87.0, .5, -.5, 1e-7, -1e-7, 10.0, 20.0] + [k + .37 for k in range(-87, 88)] + [float(k) for k in range(-86, 88, 5 if q else 1)] + [r.uniform(-87, 88.5) for _ in range(n)] + [r.uniform(-2, 2) for _ in range(n)]:
        put('Exp', x)
    for x in [1.0, 2.0, .5, 10.0, 1e38, 1.2e-38, 3.4e38, 1.0000001, .99999994, 2.7182817] + [2.0 ** k for k in range(-126, 128, 9 if q else 1)] + [10 ** r.uniform(-37, 38) for _ in range(n)] + [r.uniform(.4, 2.5) for _ in range(n)]:
        put('Log', x)
    for n16 in sorted({1, 2, 8, 15, 16, 17, 24, 32, 33, 48, 64, 160} | {r.randrange(1, 1000) for _ in range(n // 10)}):
        for k in range(-5, 6):
            put('Pow', n16 / 16, float(k), n=n16, k=k)
    for op, x, want in [('Log', 0.0, 'MinusInfinite'), ('Log', -1.0, 'NaN'), ('Log', -1e-3, 'NaN'), ('Exp', 89.5, 'Infinite'), ('Exp', 1000.0, 'Infinite'), ('Exp', -100.0, 'Zero'), ('Exp', -1e6, 'Zero'), ('Exp', 1e6, 'Infinite')]:
        put(op, x, want=want)
    put('Arctan2', 0.0, 0.0, want='Zero')
    return out


def constants():
    """name of a constant -> how it is judged"""
    out = {'infinity': ('Infinite', 0, 0), 'minus_infinity': ('MinusInfinite', 0, 0), 'min_float': ('Least', 0, 0), 'max_float': ('Greatest', 0, 0),
           'ln_2': ('LogOf', 2, 0), 'ln_10': ('LogOf', 10, 0), 'ln_256': ('LogOf', 256, 0), 'one_over_ln_2': ('OverLog', 0, 0), 'one_over_ln_10': ('OverLog', 0, 0)}
    word = {'one': 1, 'two': 2, 'three': 3, 'four': 4}
    for base, unit in (('tau', 2), ('pi', 1)):
        for name in ('%s two_%s four_%s three_%s_over_2 three_%s_over_4 three_%s_over_8 %s_over_2 %s_over_3 two_%s_over_3 four_%s_over_3 %s_over_4 %s_over_6 %s_over_8 %s_over_12 %s_over_16 %s_over_20 %s_over_24 %s_over_40' .replace('%s', base)).split():
            if name in ('four_tau', 'three_tau_over_2', 'four_tau_over_3', 'tau_over_20', 'three_pi_over_8', 'pi_over_16', 'pi_over_24', 'pi_over_40'):
                continue
            top, _, bottom = name.partition('_over_')
            out[name] = ('PiTimes', unit * word.get(top.split('_')[0], 1), int(bottom or 1))
        for name in ('one_over_%s two_over_%s four_over_%s one_over_two_%s one_over_four_%s'.replace('%s', base)).split():
            if name in ('one_over_four_tau', 'two_over_pi', 'four_over_pi'):
                continue
            top, _, bottom = name.partition('_over_')
            out[name] = ('OverPi', word[top], unit * word.get(bottom.split('_')[0], 1))
    for n, ks in ((2, (1, 2, 3)), (3, (1, 2, 3))):
        for k in ks:
            out['sqrt_%d' % n + ('_over_%d' % k if k > 1 else '')] = ('Root', n, k)
    return out


def run_elementary(ctx):
    q = ctx.quick()
    r = random.Random(SEED + 25)
    bl = [('with vector instructions', lambda: build(ctx, 'float', ['float_driver.cpp'], opt='-O1')), ('optimised', lambda: build(ctx, 'float3', ['float_driver.cpp'], opt='-O2', san=False)),
          ('without vector instructions', lambda: build(ctx, 'float2', ['float_driver.cpp'], opt='-O2', san=False, defines=['TERATHON_NO_SIMD=1']))]
    exes = parallel([b for _, b in bl])
    calcs = calculations(q, r)
    seen, recs, keep = {}, [], []
    for (name, _), exe in zip(bl, exes):
        lines = ['E %s %s' % (op, ' '.join('%08x' % x for x in b)) for op, b, _ in calcs]
        outs = run_parallel(ctx, exe, lines)
        for (op, b, kw), line, o in zip(calcs, lines, outs):
            if not isinstance(o, str) or '?' in o:
                raise Violation('%s (%s): %s' % (line, name, o and o.why), {'command': line, 'observed': str(o)})
            fs = o.split(' ')
            for part, f in zip(('Cos', 'Sin') if op == 'CosSin' else (kw.get('want', op),), fs):
                ctx.traces += 1
                key = (line, part, f)
                if key in seen:
                    continue
                seen[key] = 1
                rec = {'op': part, 'x': hexdigits(b[0]), 'x2': hexdigits(b[0]), 'res': hexdigits(int(f, 16)), 'n': kw.get('n', 0), 'k': kw.get('k', 0)}
                if op == 'Arctan2':
                    rec['x'], rec['x2'] = hexdigits(b[0]), hexdigits(b[1])
                recs.append(rec)
                keep.append((line, name, part, [flt(v) for v in b], flt(int(f, 16))))
        cs = constants()
        lines = ['K ' + c for c in sorted(cs)]
        vals = dict(zip(sorted(cs), run_parallel(ctx, exe, lines)))
        for c, o in sorted(vals.items()):
            if not isinstance(o, str) or '?' in o:
                raise Violation('the constant %s (%s): %s' % (c, name, o), {'command': 'K ' + c})
            part, n, k = cs[c]
            if ('K', c, o) not in seen:
                seen['K', c, o] = 1
                recs.append({'op': part, 'x': hexdigits(int(vals[c[9:]], 16)) if part == 'OverLog' else hexdigits(0), 'x2': hexdigits(0), 'res': hexdigits(int(o, 16)), 'n': n, 'k': k})
                keep.append(('K ' + c, name, part, [flt(int(o, 16))], flt(int(o, 16))))
    vs = eval_recs(ctx, 'Elementary', recs)
    for rec, v, (line, name, part, xs, y) in zip(recs, vs, keep):
        if not v:
            raise Violation('%s%s is %r (%s)' % (line.split(' ')[1], tuple(xs), y, name), {'command': line, 'build': name, 'observed': repr(y)})
    ctx.count('results_judged_in_TLA', len(recs))
    ctx.log('%d different results of %d calculations in three builds are near enough' % (len(recs), len(calcs)))
    for k in range(0, len(keep), max(1, len(keep) // 8)):
        ctx.sample({'calculation': keep[k][0], 'arguments': repr(keep[k][3]), 'result': repr(keep[k][4])})
    ctx.count('constants', len(constants()))
    # non-vacuity: results that are 2 parts in 10^5 off are refused
    neg = []
    for rec, (line, name, part, xs, y) in list(zip(recs, keep))[::5]:
        if part not in ('Infinite', 'MinusInfinite', 'NaN', 'Zero', 'Arcsin', 'Arccos') and abs(y) > .1 and abs(xs[0]) < 60:
            if part == 'Log' and abs(y) < 1:
                continue
            w = y * 1.0005
            neg.append(dict(rec, res=hexdigits(fbits(w))))
            if abs(y) < 3.1 or part != 'Arctan2':
                neg.append(dict(rec, res=hexdigits(fbits(-y))))
    bad = [n for n, v in zip(neg, eval_recs(ctx, 'Elementary', neg)) if v]
    if bad:
        raise TlcError('the specification accepts a wrong result: %s' % bad[0])
    ctx.count('wrong_results_refused_by_specification', len(neg))
