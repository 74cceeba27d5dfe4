"""C21: the library built in every configuration answers as the specification says."""
import random
from vf import *
import text_check as T
import bind_check as B
import doc_check as D

STD_ON, STD_OFF = [], ['JSON4C4_DISABLE_STD_SUPPORT']


def without_std(t):
    """The same type without the standard library's containers."""
    if t[0] == 'str':
        return ['str', B.TS]
    if t[0] in ('arr', 'map'):
        return [t[0], B.TS, without_std(t[2])]
    if t[0] == 'rec':
        return [t[0], t[1], t[2], [[f[0], f[1], without_std(f[2]), f[3]] for f in t[3]]]
    return t


def possible(t):
    if t[0] == 'arr':
        return B.copyable(t[2]) and possible(t[2])
    if t[0] == 'map':
        return possible(t[2])
    if t[0] == 'rec':
        return all(possible(f[2]) for f in t[3])
    return True


def configurations(quick):
    if quick:
        return [('g++', '-O0', True, True), ('g++', '-O2', False, True), ('g++', '-O3', True, False), ('g++', '-O1', False, False),
                ('clang++', '-O0', False, False), ('clang++', '-O2', True, False), ('clang++', '-O3', False, True)]
    return [(c, o, s, e) for c in ('g++', 'clang++') for o in ('-O0', '-O1', '-O2', '-O3', '-Os') for s in (True, False) for e in (True, False)]


def run(ctx):
    r = random.Random(SEED * 5 + 21)
    pool = B.make_types(ctx.pick(130, 260), SEED + 21, first=100)
    types = list(D.TYPES)
    for t in r.sample(pool, len(pool)):
        if len(types) < ctx.pick(26, 90) and possible(without_std(t)) and B.size(t) < 20:
            types.append(t)
    off = [without_std(t) for t in types]

    # what every configuration is asked
    def questions():
        a = D.model(ctx, 2, workers=2)
        b = D.model(ctx, 10, ctx.pick(800, 12000))
        loads, stores = B.cases(ctx, types)
        loads = r.sample(loads, min(len(loads), ctx.pick(1500, 12000)))
        stores = r.sample(stores, min(len(stores), ctx.pick(800, 6000)))
        el, es = B.expected(ctx, types, loads, stores)
        texts = [t + b'\0' for t in T.random_texts(ctx.pick(1200, 12000), SEED * 1000 + 21)] + [t + b'\0' for t in T.long_texts(random.Random(SEED)) if len(t) < 1200]
        texts += [b'', b'\0', b'1', b'[1', b'"abc', b'"\\u12', b'tru', b'-', b'1e', b'{"a"', b'\xf0\x90', b'1\0x', b'1\0\0']
        et = T.evaluate(ctx, texts)
        hs = [(h, o) for h, o in a.vectors] + b.vectors[:ctx.pick(1500, 20000)]
        return hs, loads, stores, el, es, texts, et

    def make(k, cfg):
        cxx, opt, std, exc = cfg
        name = '%s%s-%s-%s' % (cxx, opt, 'std' if std else 'nostd', 'exceptions' if exc else 'noexceptions')
        try:
            return name, B.build_program(ctx, types if std else off, 'conf%d' % k, 4, 'conf_main.cpp', 'RegisterAll', cxx=cxx, opt=opt, san=False, flags=[] if exc else ['-fno-exceptions'], defines=STD_ON if std else STD_OFF)
        except BuildError as e:
            raise Violation('configuration %s does not compile' % name, {'configuration': name, 'compiler': str(e)})
    cfgs = configurations(ctx.quick())
    res = parallel([questions] + [lambda k=k, c=c: make(k, c) for k, c in enumerate(cfgs)], n=3)
    hs, loads, stores, el, es, texts, et = res[0]
    ls, ss = B.lines_for(loads, stores)
    wr = ['H pb:%s|wi:%d:%d' % (t.hex(), i % 5, [32, 9, 10, 13][i % 4]) for i, t in enumerate(texts) if et[i][0] == 'kOk']
    lines = ['H ' + D.ops_line(h) for h, o in hs] + ls + ss + ['H pb:' + t.hex() for t in texts] + wr
    ctx.log('%d configurations of %d types compiled; %d questions each' % (len(cfgs), len(types), len(lines)))
    n1, n2, n3, n4 = len(hs), len(hs) + len(ls), len(hs) + len(ls) + len(ss), len(hs) + len(ls) + len(ss) + len(texts)
    written, first = {}, {}
    for (name, exe), cfg in zip(res[1:], cfgs):
        outs = run_parallel(ctx, exe, lines, per_args=True)

        def bad(i, msg):
            raise Violation('configuration %s: %s' % (name, msg), {'configuration': name, 'command': lines[i][:100000], 'observed': str(outs[i])[:5000], 'what': msg})
        for i, out in enumerate(outs):
            if out is None:
                continue
            if i < n1:
                w = D.judge(hs[i][0], hs[i][1], out, written)
                w = w and 'history %s: %s' % (hs[i][0], w)
            elif i < n2:
                k, d, o = loads[i - n1]
                w = B.judge_load(types[k], d, o, el[i - n1], out)
                w = w and 'document %r for %s: %s' % (B.text(d)[:300], B.describe(types[k]), w[1])
            elif i < n3:
                k, v = stores[i - n2]
                w = B.judge_store(types[k], v, es[i - n2], out)
                w = w and 'data %s of %s: %s' % (B.data(v)[:300], B.describe(types[k]), w[1])
            elif i < n4:
                w, e = None, et[i - n3]
                if isinstance(out, Crash):
                    w = out.why
                elif out.split('|')[0].split(' ')[:4] != [e[0], str(e[1]), str(e[2]), canon(e[3])] and not texts[i - n3] == b'':
                    w = 'reading %r gives %s, must be %s %d %d %s' % (texts[i - n3][:100], out[:200], e[0], e[1], e[2], canon(e[3])[:200])
            else:
                w = None
                if isinstance(out, Crash):
                    w = out.why
                elif first.setdefault(i, (name, out))[1] != out:
                    w = 'writes %s, but configuration %s writes %s' % (out[-300:], first[i][0], first[i][1][-300:])
            if w:
                bad(i, w)
        ctx.traces += len(lines)
    D.judge_written(ctx, written)
    ctx.count('configurations', len(cfgs))
    ctx.count('questions', len(lines))
    for l in lines[::max(1, len(lines) // 8)]:
        ctx.sample(l[:200])
