"""C04: every enumerator has its own text and is read back from that text."""
import re
from flow import Engine, subterms, const_int
from report import Check, Broken
from apimodel import uncast, show

UNKNOWN = ('str', '\x01 no such value')


def enum_of(P, t):
    t = re.sub(r'^const |[&* ]', '', t)
    return t if t in P.enums else next((e for e in P.enums if e.endswith('::' + t) or t.endswith('::' + e)), None)


def is_text(t):
    return bool(re.search(r'\bTXString\b|basic_string|\bchar \*', t)) and '**' not in t


def converters(P):
    """enum type (or 'bool') -> (functions to text, functions from text)"""
    r = {}
    for k, f in P.funcs.items():
        if not f.get('body') or f.get('lambda'):
            continue
        ps = f['p']
        ens = [(i, enum_of(P, p['t'])) for i, p in enumerate(ps) if enum_of(P, p['t'])]
        if is_text(f['ret']) and len(ps) == 1:
            t = ens[0][1] if ens else ('bool' if ps[0]['t'] == 'bool' and f['q'].startswith('SceneData::') else None)
            if t:
                r.setdefault((family(f['n'], t), t), ([], []))[0].append(k)
        outs = [(i, e) for i, e in ens if '&' in ps[i]['t'] and 'const' not in ps[i]['t']]
        if not outs and f['q'].startswith('SceneData::GdtfConverter'):
            outs = [(i, 'bool') for i, p in enumerate(ps) if p['t'] == 'bool &']
        if len(outs) == 1 and ps and is_text(ps[0]['t']) and len(ps) <= 3 and not any(is_text(p['t']) for p in ps[1:]):
            t = outs[0][1]
            r.setdefault((family(f['n'], t), t), ([], []))[1].append((k, outs[0][0]))
    return r


def family(n, t):
    """an enum type may have several spellings in the file; they are told apart by the name of the converter"""
    return n if t == 'bool' else ''


class Hooks:
    def __init__(self, P):
        self.P = P
        self.errors = []
        self.compared = {}

    def on_call(self, eng, st, e, obj, argv, argl):
        n = e.get('n', '')
        cls = e.get('cls') or ''
        if n in ('operator==', 'operator!=', 'EqualNoCase', 'Equal', 'compare'):
            a = [obj] + list(argv) if obj and len(argv) == 1 else list(argv)
            if len(a) == 2:
                vs = set()
                for x in a[0]:
                    for y in a[1]:
                        x, y = text(x), text(y)
                        if x is None or y is None:
                            return None
                        exact = n == 'Equal' or 'TXString' not in str(e.get('cls')) + str(e.get('pt')) + str(eng.P.funcs.get(e.get('fn'), {}).get('q'))
                        eq = x == y if exact else x.lower() == y.lower()
                        for c in (x, y):
                            self.compared.setdefault(c, eng.where(e))
                        vs.add(('int', int(eq == (n != 'operator!=')), 'b'))
                return frozenset(vs)
        if n in ('IsEmpty', 'empty') and obj and all(text(x) is not None for x in obj):
            return frozenset(('int', int(text(x) == ''), 'b') for x in obj)
        if re.search(r'AddError|ParsingError|push_back$', n) and ('Error' in n or 'Error' in cls or any('Error' in show(o) for o in obj or ())):
            self.errors.append((n, eng.where(e)))
        return None


def text(t):
    t = uncast(t)
    if t[0] == 'str':
        return t[1]
    if t[0] == 'ctor' and len(t) > 2:
        args = [x for x in t[2:]]
        args = list(args[0]) if len(args) == 1 and isinstance(args[0], tuple) and args[0] and isinstance(args[0][0], (tuple, frozenset)) else args
        if len(args) == 1:
            x = args[0]
            if isinstance(x, frozenset):
                x = next(iter(x)) if len(x) == 1 else ('?',)
            return text(x) if isinstance(x, tuple) and x else None
        if not args:
            return ''
    return None


def inline(eng, key, call):
    f = eng.P.funcs[key]
    return 'GSString' not in f['file'] and not f['n'].startswith('operator') and 'AddError' not in f['n'] and 'GdtfError' not in f['file'] and len(eng.stack) < 4 and '/repo/src' in f['file'] or f['q'].startswith('SceneData::GdtfConverter')


def run_const(P, key, i, val):
    h = Hooks(P)
    eng = Engine(P, h, inline)
    args = [None] * len(P.funcs[key]['p'])
    args[i] = val
    ex, vals, _, fr = eng.run(key, args=args)
    return h, eng, ex, vals, fr


def run(P, tier):
    C = Check('C04', 'every enumerator of an enumeration that is saved as text is written as a text of its own, and reading that text gives the enumerator back without reporting an error',
              'constant propagation of every enumerator through the writer and of its text through the reader')
    conv = converters(P)
    for (fam, t), (to, frm) in sorted(conv.items()):
        if not to or not frm:
            continue
        values = [('enum', v['q'], v['v']) if t != 'bool' else ('int', v['v'], 'b') for v in enumerators(P, t)]
        for k in to:
            f = P.funcs[k]
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            texts = {}
            short = '%s(%s)' % (f['n'], t.split('::')[-1])
            for v in values:
                h, eng, ex, vals, fr = run_const(P, k, 0, v)
                ts = {text(x) for x in vals or ()}
                vn = vname(v)
                if None in ts or not ts:
                    C.skip('written', '%s/%s' % (short, vn), 'the text of %s is %s' % (vn, [show(x)[:60] for x in vals or ()][:2]))
                    continue
                ok = len(ts) == 1
                C.ob('written', '%s/%s' % (short, vn), ok, where, '' if ok else '%s can become %s' % (vn, ' or '.join(sorted(map(repr, ts)))))
                if ok:
                    texts[v] = ts.pop()
            for v, x in texts.items():
                vn = vname(v)
                for k2, oi in frm:
                    f2 = P.funcs[k2]
                    w2 = '%s:%s' % (f2['file'].split('/repo/')[-1], f2['l'])
                    h, eng, ex, vals, fr = run_const(P, k2, 0, ('str', x))
                    if ex is None:
                        C.ob('read', '%s/%s' % (short, vn), False, w2, '%s never returns for %r' % (f2['n'], x))
                        continue
                    got = eng.read(('param', oi, f2['p'][oi]['n']), ex)
                    ints = {const_int(g) for g in got}
                    if not got or any(not isinstance(c, int) for c in ints):
                        if any(g == ('param', oi, f2['p'][oi]['n']) or g[:1] == ('param',) for g in got):
                            C.ob('read', '%s/%s' % (short, vn), False, w2, '%s leaves its result unset for %r, the text of %s' % (f2['n'], x, vn))
                        else:
                            C.skip('read', '%s/%s' % (short, vn), 'reading gives %s' % [show(g)[:60] for g in got][:2])
                        continue
                    same = [vname(o) for o, y in texts.items() if y.lower() == x.lower() and o != v]
                    ok = ints == {v[2]} if v[0] == 'enum' else ints == {v[1]}
                    msg = '' if ok else ('%s writes %s as %r, the text of %s' % (f['n'], vn, x, same[0]) if same else '%s is written as %r, which %s reads as %s' % (
                        vn, x, f2['n'], ', '.join(sorted(nameof(values, c) for c in ints))))
                    C.ob('read', '%s/%s' % (short, vn), ok, w2 if not same else where, msg)
                    C.ob('quiet', '%s/%s' % (short, vn), not h.errors, w2, '' if not h.errors else '%s reports an error for %r, the text of %s' % (f2['n'], x, vn))
                    bad = [r for r in vals or () if const_int(r) == 0]
                    C.ob('accepted', '%s/%s' % (short, vn), not bad, w2, '' if not bad else '%s refuses %r, the text of %s' % (f2['n'], x, vn))
    C.need('written', 100)
    C.need('read', 100)
    return C.finish(P, tier)


def vname(v):
    return str(v[1]).split('::')[-1] if v[0] == 'enum' else ('true' if v[1] else 'false')


def nameof(values, c):
    return next((vname(v) for v in values if (v[2] if v[0] == 'enum' else v[1]) == c), str(c))


def enumerators(P, t):
    if t == 'bool':
        return [{'n': 'false', 'v': 0}, {'n': 'true', 'v': 1}]
    e = P.enums[t]
    seen = set()
    r = []
    for x in e.get('e', e.get('c', [])):
        if x['v'] not in seen:
            seen.add(x['v'])
            r.append(x)
    return r
