"""C06: a text the library cannot convert is reported as a parsing error."""
import re
from flow import Engine, subterms, const_int
from report import Check, Broken
from apimodel import uncast, show, ancestors
import c04
from c10 import nodes


class Hooks(c04.Hooks):
    def on_call(self, eng, st, e, obj, argv, argl):
        if is_report(e):
            st.must = st.must | {'err'}
            st.may = st.may | {'err'}
        return None


def is_report(e):
    return e.get('n') == 'AddError' and 'Fixture' in str(e.get('cls')) + str(e.get('fn'))


def kinds_in(P, f, h=None):
    """names of the error kinds a function mentions"""
    return {x['q'].split('::')[-1] for x in nodes(f.get('body')) if x['k'] == 'enum' and 'EGdtfParsingError' in x['q']}


def about(t, i):
    return any(isinstance(x, tuple) and x[:2] == ('param', i) for x in subterms(t))


def gdtf_converters(P):
    """functions called while a GDTF node is read: from a class below GdtfObject, directly or through other converters"""
    r, todo = set(), [k for k, f in P.funcs.items() if f.get('body') and (f.get('cls') and 'SceneData::GdtfObject' in ancestors(P, f['cls']) or f.get('encl') and 'Gdtf' in str(f.get('encl')) and 'SceneData' in str(f.get('encl')))]
    while todo:
        k = todo.pop()
        for x in nodes(P.funcs[k].get('body')):
            if x['k'] == 'call' and x.get('fn') in P.funcs and x['fn'] not in r and P.funcs[x['fn']]['n'].startswith('Convert'):
                r.add(x['fn'])
                todo.append(x['fn'])
    return r


def about_empty(pc, i):
    for t, p in pc:
        t = uncast(t)
        if t[:1] == ('empty',) and p and about(t, i):
            return True
        if t[:2] == ('bin', '==') and p and about(t, i) and any(const_int(x) == 0 for x in t[2:4]):
            return True
        if t[:2] == ('bin', '==') and any(isinstance(x, tuple) and x[:2] == ('str', '') for x in t[2:4]) and p:
            return True
    return False


def run(P, tier):
    C = Check('C06', 'a text that a converter does not know or refuses is reported as a parsing error of the documented kind; an error object that is made is always recorded',
              'constant propagation of an unknown text through every enumeration reader; must-analysis of error reports on refusing returns; error objects that are made and not recorded')
    # the documented kinds
    doc = []
    for q, e in P.enums.items():
        if q.endswith('EGdtfParsingError'):
            doc = [x['n'] for x in e['e']]
    if not doc:
        raise Broken('no enumeration of parsing errors')
    byname = {}
    for n in doc:
        m = re.match(r'eValueError_NoMatchInEnum_(?:Convert)?(\w+)', n)
        if m:
            byname[m.group(1).lower()] = n
    G = gdtf_converters(P)
    for (fam, t), (to, frm) in sorted(c04.converters(P).items()):
        for k, oi in frm:
            f = P.funcs[k]
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            if k not in G or t == 'bool' and not any(b in f['n'].lower() for b in byname):
                continue
            h, eng, ex, vals, fr = c04.run_const(P, k, 0, c04.UNKNOWN)
            ok = bool(h.errors) and ex is not None
            C.ob('unknown', f['n'], ok, where, '' if ok else '%s takes a text that is none of the values of %s without reporting an error' % (f['n'], t.split('::')[-1]))
            kind = next((v for b, v in byname.items() if b in f['n'].lower()), None)
            if kind and ok:
                ks = kinds_in(P, f) | set().union(*[kinds_in(P, P.funcs[x['fn']]) for x in nodes(f['body']) if x['k'] == 'call' and x.get('fn') in P.funcs])
                good = kind in ks or not ks
                C.ob('kind', f['n'], good, where, '' if good else '%s reports %s instead of the documented %s' % (f['n'], ', '.join(sorted(ks)), kind))
    for k, f in sorted(P.funcs.items()):
        if not f.get('body') or f['ret'] != 'bool' or not f['n'].startswith('Convert') or len(f['p']) < 3 or not c04.is_text(f['p'][0]['t']):
            continue
        if k not in G or not any('XMLFileNode' in p['t'] for p in f['p']):
            continue
        where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
        h = Hooks(P)
        eng = Engine(P, h, c04.inline)
        ex, vals, _, fr = eng.run(k)
        n = '%s(%s)' % (f['n'], ', '.join(p['t'].split('::')[-1] for p in f['p'][2:]))
        for st, v in fr.rets:
            if v is None or not all(const_int(x) == 0 for x in v):
                continue
            ok = 'err' in st.must or about_empty(st.pc, 0)
            C.ob('refused', n, ok, where, '' if ok else '%s can refuse a text that is not empty without reporting an error' % f['n'])
    # error objects
    for k, f in sorted(P.funcs.items()):
        if not f.get('body') or f.get('cls', '').endswith('GdtfParsingError'):
            continue
        for s, i in seqs(f['body']):
            st = s['s'][i]
            for d in decls(st):
                if not d.get('t', '').endswith('GdtfParsingError'):
                    continue
                where = '%s:%s' % (f['file'].split('/repo/')[-1], d.get('l', st.get('l')))
                uses = [j for j in range(i + 1, len(s['s'])) if s['s'][j] is not None and mentions(s['s'][j], d['d'])]
                direct = [j for j in uses if s['s'][j]['k'] in ('call', 'expr') or s['s'][j].get('k') not in CONTROL]
                leave = [j for j in range(i + 1, (direct or [len(s['s'])])[0]) if s['s'][j] is not None and any(x['k'] in ('ret', 'throw', 'break', 'continue', 'goto') for x in nodes(s['s'][j]))]
                ok = bool(direct) and not leave
                C.ob('recorded', '%s/%s' % (f['q'].split('::')[-1], kindof(d)), ok, where,
                     '' if ok else '%s makes the error %s and does not record it on every path' % (f['n'], kindof(d)))
    C.need('unknown', 10)
    C.need('refused', 5)
    C.need('recorded', 40)
    return C.finish(P, tier)


CONTROL = ('if', 'for', 'while', 'do', 'rfor', 'switch', 'seq', 'case', 'default', 'try')


def kindof(d):
    for x in nodes(d.get('init') or d.get('i') or {}):
        if x['k'] == 'enum':
            return x['q'].split('::')[-1]
    return '?'


def mentions(s, d):
    return any(x['k'] == 'var' and x.get('d') == d for x in nodes(s))


def decls(st):
    if st is None or st.get('k') != 'decl':
        return []
    return st.get('v') or st.get('d') or []


def seqs(b):
    for x in nodes(b):
        if x['k'] == 'seq':
            for i in range(len(x['s'])):
                yield x, i
