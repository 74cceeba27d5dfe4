"""C07: documents are written by the real code, and the files are read by the specification."""
import random
from vf import *
import text_check as T


def ordered(v):
    t = v[0]
    if t == 'a':
        return '[' + ''.join(ordered(x) for x in v[1]) + ']'
    if t == 'o':
        return '{' + ''.join('k' + bytes(k).hex() + '.' + ordered(x) for k, x in v[1]) + '}'
    return canon(v)


def finite(v):
    if v[0] == 'n':
        return float(bytes(v[1]).decode()) not in (float('inf'), float('-inf'))
    if v[0] == 'a':
        return all(finite(x) for x in v[1])
    if v[0] == 'o':
        return all(finite(x[1]) for x in v[1])
    return True


def eval_recs(ctx, module, recs, consts=None, jobs=8, heap='2g', name=None, spec='Spec'):
    """Lets TLC evaluate a module's verdict for every record of a list (split over several processes)."""
    n = max(1, (len(recs) + jobs - 1) // jobs)
    parts = [recs[k::jobs] for k in range(jobs) if recs[k::jobs]]

    def one(p):
        f = ''.join(json.dumps(r) + '\n' for r in p)
        r = run_tlc(ctx, module, consts=dict({'File': 'in.ndjson'}, **(consts or {})), files={'in.ndjson': f}, workers=1, heap=heap, name=name or module, spec=spec)
        exp = {i: v for i, v in r.vectors}
        if len(exp) != len(p):
            raise TlcError('%s: %d of %d evaluated' % (module, len(exp), len(p)))
        return [exp[i + 1] for i in range(len(p))]
    rs = parallel([lambda p=p: one(p) for p in parts], n=jobs)
    out = [None] * len(recs)
    for k, r in enumerate(rs):
        out[k::jobs] = r
    return out


def pieces(quick):
    """Documents that exercise every character in strings and names, in packs."""
    out = []
    units = [b'\\u%04x' % c for c in range(1, 65536) if not 0xd800 <= c < 0xe000]
    step = 1 if not quick else 7
    sel = units[:0x300] + units[0x300::step]
    for k in range(0, len(sel), 150):
        out.append(b'["' + b'","'.join(sel[k:k + 150]) + b'"]')
    for k in range(0, 0x300, 100):
        out.append(b'{' + b','.join(b'"x%s":%d' % (u, i) for i, u in enumerate(units[k:k + 100])) + b'}')
    astral = [chr(c) for c in list(range(0x10000, 0x110000, 4099 if quick else 97)) + [0x10000, 0x10ffff, 0x1ffff, 0x20000]]
    for k in range(0, len(astral), 100):
        out.append(b'["' + '","'.join(astral[k:k + 100]).encode() + b'"]')
    out += [b'[]', b'{}', b'""', b'[[]]', b'[{}]', b'{"":[]}', b'{"a":{}}', b'null', b'true', b'false', b'0', b'-0', b'[null,true,false]', b'{"":""}', b'[[],[],{}]',
            b'[' * 40 + b']' * 40, b'{"a":' * 30 + b'1' + b'}' * 30, b'{"b":1,"a":2,"c":3,"B":4,"":5}', b'"\xed\xa0\x80"', b'"\\ud800"', b'"\\udc00x"']
    out += [b'[1e999]', b'-1e999', b'{"a":[1,{"b":1e400}]}', b'[1,2,1e309,3]', b'1.7976931348623157e308', b'[5e-324,-5e-324,2.2250738585072014e-308]']
    return out


def run(ctx):
    exe = build(ctx, 'json', ['json_driver.cpp'])
    docs = {}

    def cb(nm, r):
        for t, rep in r.vectors:
            if rep[0] == 'kOk':
                o = ordered(rep[3])
                with ctx.lock:
                    docs.setdefault(o, bytes(t))
    T.generate(ctx, names=['struct2', 'names', 'nest', 'escapes', 'bytes', 'utf8'], cb=cb)
    texts = sorted(docs.values())
    r = random.Random(SEED * 31 + 7)
    r.shuffle(texts)
    texts = texts[:ctx.pick(2500, 20000)]
    ctx.log('%d documents from the specification' % len(texts))
    texts += pieces(ctx.quick())
    texts += [t for t in T.random_texts(ctx.pick(1200, 15000), SEED * 1000 + 7, 900)]
    texts += [t for t in T.long_texts(r) if len(t) < 1200]
    exp = T.evaluate(ctx, [t + b'\0' for t in texts])
    jobs = []
    for t, e in zip(texts, exp):
        if e[0] == 'kOk':
            w, ch = r.choice([(2, 32), (2, 32), (0, 32), (1, 9), (4, 32), (3, 32), (1, 32), (2, 9), (8, 32), (2, 13), (1, 10), (17, 32)])
            if len(t) > 400 and w > 4:
                w = 2
            jobs.append((t, e[3], w, ch))
    # wide indentation, long strings and names, many elements
    wide = [(t, w, ch) for w in (254, 255, 256, 257, 300, 1000, 4097) for ch in (32, 9) for t in (b'[]', b'7', b'[[1],{"a":[]}]', b'{"a":{"b":null},"c":[2,3]}')]
    wide += [(t, w, 32) for w in (32768, 65535, 65536, 65537, 100000) for t in (b'{}', b'""', b'[1]', b'{"a":[]}')]
    wide += [(b'[' * 60 + b']' * 60, 5, 32), (b'{"a":' * 50 + b'[]' + b'}' * 50, 7, 9), (b'[' * 130 + b'1' + b']' * 130, 2, 32)]
    for n in (255, 256, 4095, 4096, 20000):
        wide += [(b'"' + b'x' * n + b'"', 2, 32), (b'{"' + b'y' * n + b'":[true]}', 2, 32), (b'["","' + b'z' * n + b'\\u0001"]', 1, 32)]
    for n in (256, 2000) + (() if ctx.quick() else (6000,)):
        wide += [(b'[' + b','.join(b'%d' % (i % 7) for i in range(n)) + b']', 1, 32), (b'{' + b','.join(b'"k%d":%d' % (i * 7919 % 100003, i % 7) for i in range(n // 4)) + b'}', 0, 32)]
    for (t, w, ch), e in zip(wide, T.evaluate(ctx, [t + b'\0' for t, w, ch in wide])):
        jobs.append((t, e[3], w, ch))
    ctx.count('wide_or_large_documents', len(wide))
    lines = ['W %d %d %s' % (w, ch, (t + b'\0').hex()) for t, v, w, ch in jobs]
    outs = run_parallel(ctx, exe, lines, per_args=True)
    recs, idx = [], []
    for k, ((t, v, w, ch), o, line) in enumerate(zip(jobs, outs, lines)):
        def bad(msg):
            raise Violation('document %r written with %d x chr(%d): %s' % (t[:200], w, ch, msg), {'command': line, 'observed': str(o)[:4000], 'what': msg})
        if o is None:
            continue
        if isinstance(o, Crash):
            bad('crash: ' + o.why)
        f = o.split(' ')
        if f[0] == 'reject':
            continue        # a matter of C01
        st, hexout, before, after, rr, d2, again = f
        if before != canon(v):
            continue        # a matter of C02
        if before != after:
            bad('writing changed the document')
        if not finite(v):
            if st == 'kOk':
                bad('a non-finite number was written')
            ctx.count('nonfinite_refused')
            continue
        if st != 'kOk':
            bad('refused with ' + st)
        if rr != 'kOk':
            bad('the library cannot read it back: ' + rr)
        if d2 != before:
            bad('the library reads back %s' % d2[:300])
        if again != 'same':
            bad('writing the re-read document again gives different bytes (%s)' % again)
        recs.append({'out': list(bytes.fromhex(hexout)), 'width': w, 'char': ch})
        idx.append(k)
    ctx.log('%d files written, the specification reads them' % len(recs))
    vs = eval_recs(ctx, 'Layout', recs, {'MaxDepth': 1024})
    for k, rec, (rep, lay, mem) in zip(idx, recs, vs):
        t, v, w, ch = jobs[k]
        what = None
        if rep[0] != 'kOk':
            what = 'the file is not a JSON text: %s at %d:%d' % tuple(rep[:3])
        elif ordered(rep[3]) != ordered(v):
            what = 'the file denotes %s, the document is %s' % (ordered(rep[3])[:300], ordered(v)[:300])
        elif not mem:
            what = 'a member is written twice'
        elif not lay and ch in (32, 9, 13):
            what = 'lines are not indented by their depth'
        if what:
            raise Violation('document %r written with %d x chr(%d): %s; file %r' % (t[:150], w, ch, what, bytes(rec['out'])[:200]), {'command': lines[k], 'what': what})
    ctx.traces += len(recs)
    if recs:
        k = idx[len(idx) // 3]
        ctx.sample({'text': jobs[k][0][:80].decode('latin-1'), 'written': bytes(recs[len(idx) // 3]['out'])[:120].decode('latin-1')})
    ctx.count('files_read_by_specification', len(recs))
    # non-vacuity: damaged files are told apart by the specification
    dmg = []
    for rec in recs[:: max(1, len(recs) // 40)]:
        o = rec['out']
        if len(o) > 6:
            dmg.append(dict(rec, out=o[:-1]))
    if dmg:
        vs = eval_recs(ctx, 'Layout', dmg, {'MaxDepth': 1024}, jobs=2)
        n = sum(1 for rep, lay, mem in vs if rep[0] != 'kOk')
        ctx.count('damaged_files_rejected_by_specification', n)
        if n == 0:
            raise TlcError('no damaged file was rejected: the check is vacuous')
