"""C10, C11, C12: programs with generated structures, bound to documents enumerated by TLC and at random."""
import random
from vf import *
import text_check as T
from write_check import eval_recs, ordered, finite

# Types: ['str',flavour] ['num'] ['bool'] ['null'] ['arr',flavour,T] ['map',flavour,T] ['rec',id,style,fields]; a field is [how,name,T,default data]
NAMES = [b'a', b'b', b'ab', b'', b'price$', b'x y', b'q"q', b'\xc3\xa9t\xc3\xa9', b'\\', b'line\nfeed', b'B', b'name', b'a1', b'value', b'\xf0\x9f\x98\x80', b'b\x7f', b'zz', b'data', b'k1', b'k10', b'k2', b'end']
TS, STD = 0, 1


def copyable(t):
    if t[0] == 'arr':
        return copyable(t[2])
    if t[0] == 'map':
        return t[1] == STD and copyable(t[2])
    if t[0] == 'rec':
        return all(copyable(f[2]) for f in t[3])
    return True


def fresh(t):
    k = t[0]
    return {'str': ['s', []], 'num': ['n', [48]], 'bool': ['b', 0], 'null': ['z'], 'arr': ['a', []], 'map': ['m', []]}[k] if k != 'rec' else ['r', [f[3] for f in t[3]]]


class Gen:
    def __init__(self, seed, std=True):
        self.r, self.n, self.recs, self.std = random.Random(seed), 0, [], std

    def fl(self):
        return self.r.choice([TS, STD]) if self.std else TS

    def leaf(self):
        return self.r.choice([['str', self.fl()], ['str', self.fl()], ['num'], ['num'], ['bool'], ['null']])

    def rec(self, depth, style, pool=None):
        names = pool or self.r.sample(NAMES, len(NAMES))
        fs = []
        for _ in range(self.r.choice([1, 2, 3, 3, 4, 5])):
            how = self.r.choice(['req', 'req', 'opt'])
            if depth > 0 and self.r.random() < .12 and len(names) > 8:
                half = [names.pop() for _ in range(4)]
                t = self.rec(0, 'free', half)
                fs.append(['emb', b'', t, fresh(t)])
                continue
            if not names:
                break
            t = self.type(depth - 1, True)
            d = fresh(t)
            if t[0] == 'num' and self.r.random() < .7:
                d = ['n', list(b'-7.5')]
            elif t[0] == 'bool' and self.r.random() < .5:
                d = ['b', 1]
            elif t[0] == 'str' and self.r.random() < .7:
                d = ['s', list(b'dflt')]
            fs.append([how, names.pop(), t, d])
        self.n += 1
        t = ['rec', self.n, style, fs]
        self.recs.append(t)
        return t

    def type(self, depth, field=False, elem=False):
        """elem: the type must be copyable; field: a structure must have free functions."""
        for _ in range(100):
            t = self.type1(depth, field)
            if not elem or copyable(t):
                return t
        return ['num']

    def type1(self, depth, field):
        k = self.r.random()
        if depth <= 0 or k < .3:
            return self.leaf()
        if k < .55:
            return ['arr', self.fl(), self.type(depth - 1, False, True)]
        if k < .78:
            return ['map', self.fl(), self.type(depth - 1)]
        return self.rec(depth - 1, 'free' if field else self.r.choice(['free', 'mem', 'memp', 'plain']))


def cpp(t):
    k = t[0]
    if k == 'str':
        return ['TS::String<>', 'std::string'][t[1]]
    if k in ('num', 'bool', 'null'):
        return {'num': 'double', 'bool': 'bool', 'null': 'Json::Null'}[k]
    if k == 'arr':
        return ['TS::Array<%s>', 'std::vector<%s>'][t[1]] % cpp(t[2])
    if k == 'map':
        return ['Json::ObjectMap<%s>', 'std::map<std::string, %s>'][t[1]] % cpp(t[2])
    return 'user::R%d' % t[1]


def lit(b):
    return '"' + ''.join('\\%03o' % c for c in b) + '"'


def emit_rec(t):
    _, n, style, fs = t
    mem = style in ('mem', 'memp')
    o = ['struct R%d' % n if style != 'memp' else 'class R%d' % n, '{']
    for i, (how, name, ft, d) in enumerate(fs):
        init = ''
        if ft[0] == 'num':
            init = ' = ' + bytes(d[1]).decode()
        elif ft[0] == 'bool':
            init = ' = ' + ('true' if d[1] else 'false')
        elif ft[0] == 'str' and d[1]:
            init = ' { %s }' % lit(bytes(d[1]))
        o.append('    %s f%d%s;' % (cpp(ft), i, init))
    if style == 'memp':
        o.append('public:')
    o.append('    int untouched = 42;')

    def proto(obj):
        p = []
        for i, (how, name, ft, d) in enumerate(fs):
            if how == 'opt':
                p.append('Json::optional')
            if how != 'emb':
                p.append(lit(name))
            p.append(obj + 'f%d' % i)
        return ', '.join(p)
    if mem:
        o.append('#define PROTO%d %s' % (n, proto('')))
        o.append('    DEFINE_JSON4C4_MEMBER_FUNCTIONS( PROTO%d )' % n)
    o.append('    void load_(vh::Reader& r) { using vh::load; r.want(\'(\'); %s r.want(\')\'); untouched = 4711; }' % ' '.join('load(f%d, r);' % i for i in range(len(fs))))
    o.append('    void show_(std::string& s) const { using vh::show; s += "("; %s s += ")"; }' % ' '.join('show(f%d, s);' % i for i in range(len(fs))))
    o.append('};')
    if style == 'plain':
        for f, q, c in (('Deserialize', 'const ', ''), ('Validate', 'const ', 'const '), ('Serialize', '', 'const ')):
            o.append('inline Json::Status %s( %sJson::Value* value, %sR%d& object ) noexcept { return Json::%sProto( value, %s ); }' % (f, q, c, n, f, proto('object.')))
    elif not mem:
        o.append('#define PROTO%d %s' % (n, proto('object.')))
        o.append('DEFINE_JSON4C4_FUNCTIONS( R%d, PROTO%d )' % (n, n))
    o.append('inline void load(R%d& x, vh::Reader& r) { x.load_(r); }' % n)
    o.append('inline void show(const R%d& x, std::string& s) { x.show_(s); }' % n)
    return '\n'.join(o)


def deps(t, out):
    if t[0] in ('arr', 'map'):
        deps(t[2], out)
    elif t[0] == 'rec':
        for f in t[3]:
            deps(f[2], out)
        if t not in out:
            out.append(t)
    return out


def emit_file(types, idx, reg='Register'):
    recs = []
    for k in idx:
        deps(types[k], recs)
    o = ['#include "bind.h"', '// generated', 'namespace user', '{', 'namespace Json = C4::Json;', 'namespace TS = Terathon;']
    # the functions of structures are declared after the classes they use
    o += [emit_rec(t) for t in recs]
    o.append('}')
    o += ['static vh::%s<%s> r%d(%d);' % (reg, cpp(types[k]), k, k) for k in idx]
    return '\n'.join(o) + '\n'


def tt(t):
    """The type as the specification sees it."""
    k = t[0]
    if k in ('arr', 'map'):
        return [k, tt(t[2])]
    if k == 'rec':
        return ['rec', [[f[0], list(f[1]), tt(f[2]), f[3]] for f in t[3]]]
    return [k]


def base_types(g, std=True):
    fl = (TS, STD) if std else (TS,)
    out = []
    leaves = [['str', TS]] + ([['str', STD]] if std else []) + [['num'], ['bool'], ['null']]
    out += leaves
    for f in fl:
        for l in leaves:
            out.append(['arr', f, l])
            out.append(['map', f, l])
    for f in fl:
        for h in fl:
            out += [['arr', f, ['arr', h, ['num']]], ['map', f, ['arr', h, ['str', TS]]], ['map', f, ['map', h, ['bool']]]]
            if h == STD:
                out.append(['arr', f, ['map', h, ['num']]])
    for style in ('free', 'mem', 'memp', 'plain'):
        out.append(['rec', 0, style, [['req', b'a', ['num'], ['n', [48]]], ['opt', b'b', ['str', fl[-1]], ['s', list(b'dflt')]], ['req', b'c', ['bool'], ['b', 0]]]])
        for f in fl:
            e = ['rec', 0, style, [['opt', b'o', ['num'], ['n', list(b'-7.5')]], ['req', b'r', ['str', TS], ['s', []]]]]
            out += [['arr', f, e], ['map', f, e]]
    inner = ['rec', 0, 'free', [['req', b'p', ['num'], ['n', [48]]], ['opt', b'q', ['bool'], ['b', 1]]]]
    out.append(['rec', 0, 'free', [['req', b'n', inner, fresh(inner)], ['opt', b'm', inner, fresh(inner)], ['emb', b'', inner, fresh(inner)], ['opt', b'l', ['arr', TS, inner], ['a', []]]]])
    out.append(['rec', 0, 'mem', [['opt', b'n', inner, fresh(inner)], ['opt', b'm', ['map', TS, inner], ['m', []]], ['req', b'z', ['null'], ['z']]]])

    def number(t):
        if t[0] in ('arr', 'map'):
            return [t[0], t[1], number(t[2])]
        if t[0] == 'rec':
            g.n += 1
            n = g.n
            return ['rec', n, t[2], [[f[0], f[1], number(f[2]), f[3]] for f in t[3]]]
        return t
    return [number(t) for t in out]


def make_types(count, seed, std=True, first=0):
    g = Gen(seed, std)
    g.n = first
    types = base_types(g, std)
    while len(types) < count:
        t = g.type(3)
        if t[0] in ('rec', 'map', 'arr') and size(t) < 40:
            types.append(t)
    return types


def size(t):
    if t[0] in ('arr', 'map'):
        return 1 + 2 * size(t[2])
    if t[0] == 'rec':
        return 1 + sum(size(f[2]) for f in t[3])
    return 1


def build_program(ctx, types, name='bind', files=16, main='bind_main.cpp', reg='Register', extra=(), **kw):
    d = ctx.scratch.sub('src-' + name)
    src = [main] + list(extra)
    for k in range(files):
        idx = list(range(k, len(types), files))
        if idx:
            p = os.path.join(d, 'g%d.cpp' % k)
            open(p, 'w').write(emit_file(types, idx, reg))
            src.append(p)
    return build(ctx, name, src, **kw)


def text(v):
    t = v[0]
    if t == 's':
        return quote(v[1])
    if t == 'n':
        return bytes(v[1])
    if t == 'b':
        return b'true' if v[1] else b'false'
    if t == 'z':
        return b'null'
    if t == 'a':
        return b'[' + b','.join(text(x) for x in v[1]) + b']'
    return b'{' + b','.join(quote(k) + b':' + text(x) for k, x in v[1]) + b'}'


def quote(bs):
    return b'"' + b''.join(b'\\u%04x' % c if c < 32 or c in (34, 92) else bytes([c]) for c in bs) + b'"'


def data(v):
    """Data in the text form of harness/bind.h."""
    t = v[0]
    if t == 'r':
        return '(' + ''.join(data(x) for x in v[1]) + ')'
    if t == 'a':
        return '[' + ''.join(data(x) for x in v[1]) + ']'
    if t == 'm':
        return '{' + ''.join('k' + bytes(k).hex() + '.' + data(x) for k, x in v[1]) + '}'
    return canon(v)


STRS = [b'', b'a', b'text', b'with "quotes"', b'\\', b'\n\t\x01', b'\xc3\xa9', b'\xf0\x9f\x98\x80', b'x' * 70, b'0', b'null', b'sixteen bytes !!', b'fifteen bytes !']
NUMS = [b'0', b'1', b'-1', b'2.5', b'-0.0', b'1e300', b'5e-324', b'0.1', b'123456789012', b'-7.5', b'1e-7', b'9007199254740993', b'1e999', b'-1e999']


def rnd_data(r, t, d=3):
    k = t[0]
    if k == 'str':
        return ['s', list(r.choice(STRS))]
    if k == 'num':
        return ['n', list(r.choice(NUMS))]
    if k == 'bool':
        return ['b', r.randrange(2)]
    if k == 'null':
        return ['z']
    if k == 'arr':
        return ['a', [rnd_data(r, t[2], d - 1) for _ in range(r.choice([0, 1, 2, 3, 5, 17] if d > 1 else [0, 1, 2]))]]
    if k == 'map':
        if d > 2 and r.random() < .15:
            return ['m', [[list(x), rnd_data(r, t[2], 0)] for x in sorted(b'key%d' % (j * 7 % 41) for j in range(r.choice([20, 33, 41])))]]
        ks = sorted(set(r.sample(NAMES, r.choice([0, 1, 2, 3, 5, 9] if d > 1 else [0, 1, 2]))))
        return ['m', [[list(x), rnd_data(r, t[2], d - 1)] for x in ks]]
    return ['r', [rnd_data(r, f[2], d) for f in t[3]]]


BIG = [31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4097]


def big_data(r, t, n, d=0):
    """Data with a string of n bytes, a sequence or map of n elements, or a name of n bytes in it (where the type has room for it)."""
    k = t[0]
    if k == 'str':
        return ['s', list((b'0123456789abcdef' * (n // 16 + 1))[:n])]
    if k in ('arr', 'map'):
        c = n if d == 0 and n < (1500 if k == 'arr' else 300) and t[2][0] in ('num', 'bool', 'null') and r.random() < .6 else 2
        xs = [big_data(r, t[2], n if i == 1 or t[2][0] not in ('str', 'arr', 'map', 'rec') else 3, d + 1) for i in range(c)]
        if k == 'arr':
            return ['a', xs]
        ks = [b'k%05d' % j for j in range(c)]
        if c == 2:
            ks[1] += b'n' * r.choice([n, n - len(ks[1]), 3])
        return ['m', [[list(x), v] for x, v in zip(ks, xs)]]
    if k == 'rec':
        return ['r', [big_data(r, f[2], n if i == len(t[3]) - 1 or r.random() < .4 else 5, d + 1) for i, f in enumerate(t[3])]]
    return rnd_data(r, t)


def doc_of(t, v):
    """A document for the data, not necessarily as the library would write it."""
    k = t[0]
    if k == 'arr':
        return ['a', [doc_of(t[2], x) for x in v[1]]]
    if k == 'map':
        return ['o', [[n, doc_of(t[2], x)] for n, x in v[1]]]
    if k == 'rec':
        o = []
        for f, x in zip(t[3], v[1]):
            if f[0] == 'emb':
                o += doc_of(f[2], x)[1]
            else:
                o.append([list(f[1]), doc_of(f[2], x)])
        return ['o', o]
    return v


ANY = [['s', []], ['s', [49]], ['n', [48]], ['n', [49]], ['b', 0], ['b', 1], ['z'], ['a', []], ['o', []], ['a', [['n', [49]]]], ['o', [[[97], ['n', [49]]]]]]


def perturb(r, v, p):
    """Changes a document here and there."""
    if r.random() < p:
        return r.choice(ANY)
    if v[0] == 'a':
        xs = [perturb(r, x, p) for x in v[1]]
        if r.random() < p:
            xs.append(r.choice(ANY))
        return ['a', xs]
    if v[0] == 'o':
        ms = [[k, perturb(r, x, p)] for k, x in v[1] if r.random() >= p]
        if r.random() < .4:
            r.shuffle(ms)
        if r.random() < 2 * p:
            n = list(r.choice(NAMES))
            if n not in [m[0] for m in ms]:
                ms.insert(r.randrange(len(ms) + 1), [n, r.choice(ANY)])
        return ['o', ms]
    return v


def cases(ctx, types):
    """Documents and data enumerated by TLC around every type, and random ones."""
    loads, stores = [], []
    groups = [list(range(k, len(types), 8)) for k in range(8)]

    def gen(idx):
        r = run_tlc(ctx, 'GenBinding', consts={'Types': [tt(types[k]) for k in idx], 'Wide': ctx.pick(4, 6)}, invariants=('Laws', 'Emitted'), workers=1, name='gen%d' % idx[0], heap='2g')
        return [(idx[k - 1], w, x) for k, w, x in r.vectors]
    got = [v for vs in parallel([lambda i=i: gen(i) for i in groups], n=8) for v in vs]
    per = {}
    for v in got:
        per.setdefault((v[0], v[1]), []).append(v[2])
    r = random.Random(SEED * 77 + 3)
    cap = ctx.pick(120, 2000)
    for (k, w), xs in sorted(per.items()):
        xs = sorted(xs, key=repr)
        if len(xs) > cap:
            xs = r.sample(xs, cap)
        for x in xs:
            if w == 'doc':
                loads.append((k, x, rnd_data(r, types[k])))
            else:
                stores.append((k, x))
    ctx.count('documents_enumerated', sum(len(x) for (k, w), x in per.items() if w == 'doc'))
    ctx.count('data_enumerated', sum(len(x) for (k, w), x in per.items() if w == 'data'))
    n = ctx.pick(40, 600)
    for k, t in enumerate(types):
        for j in range(n):
            v = rnd_data(r, t)
            loads.append((k, perturb(r, doc_of(t, v), r.choice([0, 0, .03, .1])), rnd_data(r, t)))
            if j % 3 == 0:
                stores.append((k, v))
    # strings, sequences, maps and names of many sizes
    for k, t in enumerate(types[:len(base_types(Gen(0))) + ctx.pick(4, 60)]):
        for n in (r.sample(BIG, 6) + [257, 1000] if ctx.quick() else BIG):
            v = big_data(r, t, n)
            if len(text(doc_of(t, v))) < 30000:
                loads.append((k, doc_of(t, v), rnd_data(r, t)))
                stores.append((k, v))
                ctx.count('large_data', 1)
    return loads, stores


def expected(ctx, types, loads, stores):
    recs = [{'op': 'load', 't': k + 1, 'd': d, 'old': o} for k, d, o in loads] + [{'op': 'store', 't': k + 1, 'd': prior(i) or ['z'], 'old': v} for i, (k, v) in enumerate(stores)]
    vs = eval_recs(ctx, 'EvalBinding', recs, {'Types': [tt(t) for t in types]})
    return vs[:len(loads)], vs[len(loads):]


N = lambda x: ['n', list(x)]
S = lambda x: ['s', list(x)]
# the documents that exist before data are serialised; 0 stands for none
PRIORS = [0, ['o', [[list(b'a'), ['a', [N(b'1'), N(b'2')]]], [list(b'x'), ['o', [[list(b'a'), ['z']]]]]]], ['a', [N(b'1'), N(b'2'), N(b'3')]], S(b's'), ['a', []], ['o', []],
          ['a', [['a', [N(b'1')]], S(b'a'), ['o', [[list(b'b'), N(b'2')]]], ['z'], ['a', []], ['b', 1], N(b'7'), N(b'8'), N(b'9')]],
          ['o', [[list(b''), N(b'1')], [list(b'a'), S(b'b')], [list(b'b'), ['a', []]], [list(b'c'), ['o', [[list(b'd'), ['z']]]]], [list(b'zz'), ['b', 0]]]], ['b', 1], ['z'], N(b'-2.5')]


def prior(i):
    return PRIORS[i % len(PRIORS)]


def lines_for(loads, stores, r=None):
    ls = ['L %d %s %s' % (k, data(o), (text(d) + b'\0').hex()) for k, d, o in loads]
    ss = ['S %d %s %s' % (k, data(v), (text(prior(i)) + b'\0').hex() if prior(i) else '') for i, (k, v) in enumerate(stores)]
    return ls, ss


def judge_load(t, d, old, exp, out):
    """None if the answer is as specified, otherwise (property, what)."""
    if isinstance(out, Crash):
        return 'both', 'crash: ' + out.why
    if out == 'reject':
        return None
    v, s, got, flags = out.split(' ')
    sts, want = exp
    if v not in sts:
        return 'C10', 'validation reports %s, must be %s' % (v, ' or '.join(sorted(sts)))
    if s != v and not (len(sts) > 1 and s in sts):
        return 'C10', 'validation reports %s and deserialising %s' % (v, s)
    if 'changed-the-object' in flags or 'document-changed' in flags:
        return 'both', flags
    if s == 'kOk':
        if got != data(want):
            return 'C11', 'delivered %s, must be %s' % (got[:300], data(want)[:300])
        if flags != 'ok':
            return 'C11', flags
    return None


def judge_store(t, v, exp, out):
    if isinstance(out, Crash):
        return 'C12', 'crash: ' + out.why
    s, doc, txt, val, d, y1, d2, y2, s3, doc3, flags = out.split(' ')
    want, back, onto = exp
    if s != 'kOk':
        return 'C12', 'serialising reports ' + s
    if doc != canon(want):
        return 'C12', 'the document is %s, must be %s' % (doc[:300], canon(want)[:300])
    if val != 'kOk':
        return 'C12', 'the document does not validate: ' + val
    if d != 'kOk' or y1 != data(back):
        return 'C12', 'deserialised again: %s %s' % (d, y1[:300])
    if not finite(want):
        if d2 != 'kOk' or y2 != 'none':
            return 'C12', 'a non-finite number was written to a file'
    elif d2 != 'kOk' or y2 != data(back):
        return 'C12', 'read back from a file: %s %s' % (d2, y2[:300])
    if s3 != 'none' and (s3, doc3) != (onto[0], canon(onto[1])):
        return 'C12', 'serialised onto a value that exists: %s %s, must be %s %s' % (s3, doc3[:300], onto[0], canon(onto[1])[:300])
    if flags != 'ok':
        return 'C12', flags
    return None


def run(ctx):
    types = make_types(ctx.pick(110, 260), SEED * 13 + 1)
    exe, (loads, stores) = parallel([lambda: build_program(ctx, types), lambda: cases(ctx, types)], n=2)
    if ctx.prop == 'C12':
        loads = []
    else:
        stores = []
    ctx.log('%d structures compiled; %d documents, %d data' % (len(types), len(loads), len(stores)))
    el, es = expected(ctx, types, loads, stores)
    ls, ss = lines_for(loads, stores)
    outs = run_parallel(ctx, exe, ls + ss, per_args=True)
    ol, os_ = outs[:len(ls)], outs[len(ls):]
    nfit = 0
    for (k, d, o), e, line, out in zip(loads, el, ls, ol):
        if out is None:
            continue
        nfit += e[0] == ['kOk']
        j = judge_load(types[k], d, o, e, out)
        if j and j[0] in (ctx.prop, 'both'):
            raise Violation('document %r for %s: %s' % (text(d)[:300], describe(types[k]), j[1]), {'command': line, 'type': tt(types[k]), 'cpp': describe(types[k]), 'observed': str(out), 'what': j[1]})
    reads = []
    for (k, v), e, line, out in zip(stores, es, ss, os_):
        if out is None:
            continue
        j = judge_store(types[k], v, e, out)
        if j:
            raise Violation('data %s of %s: %s' % (data(v)[:300], describe(types[k]), j[1]), {'command': line, 'type': tt(types[k]), 'observed': str(out), 'what': j[1]})
        if finite(e[0]):
            reads.append((k, v, e, line, bytes.fromhex(out.split(' ')[2])))
    if reads:
        # the order of the members, as the specification reads the written text
        small = [x for x in reads if len(x[4]) < 1500]
        for (k, v, e, line, w), rep in zip(small, T.evaluate(ctx, [x[4] + b'\0' for x in small])):
            if rep[0] != 'kOk' or ordered(rep[3]) != ordered(e[0]):
                raise Violation('data %s of %s is written as %r' % (data(v)[:300], describe(types[k]), w[:300]), {'command': line, 'written': w.hex()})
        ctx.count('written_documents_read_by_specification', len(small))
    ctx.traces += len(ls) + len(ss)
    ctx.count('structures', len(types))
    ctx.count('fitting_documents', nfit)
    for x in (ls + ss)[:: max(1, len(ls + ss) // 8)]:
        ctx.sample(x[:200])
    if loads and not 0.1 * len(loads) < nfit < 0.9 * len(loads):
        raise TlcError('one-sided documents: %d of %d fit' % (nfit, len(loads)))


def describe(t):
    if t[0] == 'rec':
        return '%s struct { %s }' % (t[2], '; '.join('%s "%s" %s' % (f[0], f[1].decode('latin-1'), describe(f[2])) for f in t[3]))
    if t[0] in ('arr', 'map'):
        return {('arr', 0): 'Array<%s>', ('arr', 1): 'vector<%s>', ('map', 0): 'ObjectMap<%s>', ('map', 1): 'std::map<%s>'}[t[0], t[1]] % describe(t[2])
    return cpp(t)
