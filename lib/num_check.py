"""C03: literals and doubles through the real code, judged by exact arithmetic in TLA+ (Decimal.tla)."""
import random
from fractions import Fraction
from decimal import Decimal, getcontext, localcontext
from vf import *
import text_check as T
from write_check import eval_recs

getcontext().prec = 2000


def dbl(bits):
    return struct.unpack('<d', struct.pack('<Q', bits))[0]


def bits_of(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def exact(fr):
    """Exact decimal literal of a dyadic rational."""
    n, d = fr.numerator, fr.denominator
    k = d.bit_length() - 1
    n *= 5 ** k
    s = str(n)
    if k == 0:
        return s
    if len(s) <= k:
        s = '0' * (k - len(s) + 1) + s
    return s[:-k] + '.' + s[-k:]


def interesting_bits(r, n):
    out = [0, 1, 2, 3, 0x000fffffffffffff, 0x0010000000000000, 0x0010000000000001, 0x0020000000000000, 0x7fefffffffffffff, 0x7feffffffffffffe,
           0x3ff0000000000000, 0x3fefffffffffffff, 0x3ff0000000000001, 0x4340000000000000, 0x4330000000000000, 0x433fffffffffffff, 0x3fb999999999999a,
           0x4024000000000000, 0x7fe0000000000000, 0x0008000000000000, 0x41dfffffffc00000, 0x43e0000000000000, 0x44b52d02c7e14af6, 0x44b52d02c7e14af7]
    for e in range(0, 2047, 37):
        out += [e << 52, (e << 52) | 1, (e << 52) | 0xfffffffffffff]
    while len(out) < n:
        out.append(r.randrange(0, 0x7ff0000000000000))
    return out[:max(n, 60)]


def midpoint_literals(r, n):
    """Exact midpoints between neighbours and literals just beside them."""
    out = []
    for b in interesting_bits(r, n):
        lo, hi = Fraction(dbl(b)), (Fraction(dbl(b + 1)) if b + 1 < 0x7ff0000000000000 else Fraction(2) ** 1024)
        s = exact((lo + hi) / 2)
        out.append(s)
        if '.' in s:
            out.append(s + '1')
            out.append(s + '0000000000000001')
            out.append(s[:-1] + str(int(s[-1]) - 1) + '9' if s[-1] != '0' else s)
        else:
            out.append(s + '.0000000001')
            out.append(str(int(s) - 1) + '.999999999999')
        # the same in exponent notation
        digits = s.replace('.', '').lstrip('0')
        if digits:
            frac = len(s.split('.')[1]) if '.' in s else 0
            out.append('%s.%se%d' % (digits[0], digits[1:] or '0', len(digits) - 1 - frac))
    return out


def literals(ctx, r):
    out = ['0', '-0', '0.0', '-0.0', '0e0', '-0e-5', '0e99999999999', '1', '-1', '10', '0.1', '-0.1', '1e308', '1e309', '-1e309', '1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308',
           '179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880',
           '179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042879.99999',
           '4.9e-324', '2.4703282292062327e-324', '2.4703282292062328e-324', '2.5e-324', '1e-400', '-1e-400', '1e-99999999999', '1e99999999999', '123456789012345678901234567890', '9007199254740993', '9007199254740992', '9007199254740991', '9007199254740993.0000001',
           '2.2250738585072011e-308', '2.2250738585072012e-308', '2.2250738585072014e-308', '6.631236846766476e-316', '1.00000000000000011102230246251565404236316680908203125', '1.00000000000000011102230246251565404236316680908203124', '1.00000000000000011102230246251565404236316680908203126',
           '1E5', '1E+5', '1e-5', '1.5E-10', '100000000000000000000000', '1e22', '1e23', '1e24', '8.5e22', '0.000001', '1.0e000005', '3.' + '0' * 300 + '1', '0.' + '0' * 400 + '1', '1' + '0' * 330, '1' + '0' * 300 + '.5', '0.' + '0' * 320 + '5' * 40 + 'e10']
    out += midpoint_literals(r, ctx.pick(260, 3000))
    for _ in range(ctx.pick(700, 20000)):
        out.append(T.rnd_number(r).decode())
    for b in interesting_bits(r, ctx.pick(200, 2000)):
        out.append(repr(dbl(b)).replace('+', '+'))
    out = [x if x[0] != '.' else '0' + x for x in out]
    res = []
    for x in out:
        res.append(x)
        if r.random() < .3 and x[0] != '-':
            res.append('-' + x)
    return [x for x in res if 'inf' not in x and 'nan' not in x]


def hexdigits(h):
    return [int(c, 16) for c in h]


def run(ctx):
    r = random.Random(SEED * 17 + 3)
    exe = build(ctx, 'num', ['num_driver.cpp'])
    # 1. literals: the parser's double is the nearest one
    lits = literals(ctx, r)
    lines = ['L ' + l.encode().hex() for l in lits]
    outs = run_parallel(ctx, exe, lines)
    recs, keep = [], []
    for l, o, line in zip(lits, outs, lines):
        if isinstance(o, Crash) or o is None or len(o) != 16:
            raise Violation('literal %s: %s' % (l[:100], o), {'command': line, 'observed': str(o)})
        recs.append({'lit': list(l.encode()), 'bits': hexdigits(o)})
        keep.append((l, o, line))
    vs = eval_recs(ctx, 'EvalNum', recs)
    for (l, o, line), v in zip(keep, vs):
        if not v:
            raise Violation('the literal %s is read as the double %s, which is not the nearest one (that is %s)' % (l[:120], o, num_bits(l)), {'command': line, 'observed': o, 'expected': num_bits(l)})
        if num_bits(l) != o:
            raise TlcError('Decimal.tla accepts %s for %s, python says %s' % (o, l, num_bits(l)))
    ctx.traces += len(recs)
    ctx.count('literals_judged_in_TLA', len(recs))
    ctx.sample({'literal': lits[len(lits) // 2][:60], 'double': keep[len(lits) // 2][1]})
    ctx.log('%d literals are read to the nearest double' % len(recs))
    # non-vacuity: neighbours are refused by the specification
    neg = []
    for rec in recs[::max(1, len(recs) // 150)]:
        b = int(''.join('%x' % d for d in rec['bits']), 16)
        if b & 0x7fffffffffffffff:
            for nb in (b + 1, b - 1):
                neg.append({'lit': rec['lit'], 'bits': hexdigits('%016x' % nb)})
    vs = eval_recs(ctx, 'EvalNum', neg, jobs=4)
    if any(vs):
        raise TlcError('the specification accepts two doubles for one literal')
    ctx.count('wrong_doubles_refused_by_specification', len(neg))
    # 2. doubles: the literal written is a JSON number whose nearest double is the one written
    dbls = interesting_bits(r, ctx.pick(1200, 20000))
    dbls = dbls + [b | 1 << 63 for b in dbls[::3]]
    lines = ['D %016x' % b for b in dbls]
    outs = run_parallel(ctx, exe, lines, per_args=True)
    recs, keep, texts = [], [], []
    for b, o, line in zip(dbls, outs, lines):
        if isinstance(o, Crash) or o is None:
            raise Violation('writing %016x: %s' % (b, o), {'command': line})
        st, text, st2, back, arr = o.split(' ')
        if st != 'kOk' or st2 != 'kOk' or back != '%016x' % b or arr != 'ok':
            raise Violation('double %016x written as %r and read back as %s (%s %s, in an array: %s)' % (b, bytes.fromhex(text)[:60], back, st, st2, arr), {'command': line, 'observed': o})
        texts.append(bytes.fromhex(text))
        recs.append({'lit': list(bytes.fromhex(text)), 'bits': hexdigits('%016x' % b)})
        keep.append(line)
    reps = T.evaluate(ctx, [t + b'\0' for t in texts])
    for t, rep, line in zip(texts, reps, keep):
        if rep[0] != 'kOk' or rep[3][0] != 'n' or bytes(rep[3][1]) != t:
            raise Violation('a double is written as %r, which is not a JSON number' % t, {'command': line})
    vs = eval_recs(ctx, 'EvalNum', recs)
    for rec, v, line in zip(recs, vs, keep):
        if not v:
            raise Violation('a double is written as %r, which denotes another one' % bytes(rec['lit']), {'command': line})
    ctx.traces += len(recs)
    ctx.count('doubles_written', len(recs))
    ctx.sample({'double': '%016x' % dbls[77], 'written': texts[77].decode()})
    # 3. in bulk, with python's exact conversion (agrees with Decimal.tla on everything above)
    n = ctx.pick(60000, 1000000)
    lits = [T.rnd_number(r).decode() for _ in range(n // 2)] + [repr(dbl(r.randrange(0x7ff0000000000000))) for _ in range(n // 2)]
    lines = ['L ' + l.encode().hex() for l in lits]
    outs = run_parallel(ctx, exe, lines)
    for l, o, line in zip(lits, outs, lines):
        if o != num_bits(l):
            raise Violation('the literal %s is read as %s, the nearest double is %s' % (l, o, num_bits(l)), {'command': line, 'observed': str(o), 'expected': num_bits(l)})
    bs = [r.randrange(0x7ff0000000000000) | (r.randrange(2) << 63) for _ in range(ctx.pick(16000, 300000))]
    lines = ['D %016x' % b for b in bs]
    outs = run_parallel(ctx, exe, lines, per_args=True)
    for b, o, line in zip(bs, outs, lines):
        f = o.split(' ') if isinstance(o, str) else []
        if len(f) != 5 or f[0] != 'kOk' or f[2] != 'kOk' or f[3] != '%016x' % b or f[4] != 'ok':
            raise Violation('double %016x does not survive writing and reading: %s' % (b, o), {'command': line, 'observed': str(o)})
    ctx.count('bulk_literals', len(lits))
    ctx.count('bulk_doubles', len(bs))
