"""C11: every interface identifier is answered with an object of the class its users take it for."""
import re
from apimodel import *
from report import Check, Broken
import astx


def iid_globals(P):
    return {g: d for g, d in P.globals.items() if '::IID_' in '::' + g and 'VWIID' in d.get('t', d.get('c', '')) + str(d.get('init', {}).get('t', ''))}


def value(d):
    def flat(x):
        if isinstance(x, dict):
            if x.get('k') == 'int':
                return (x['v'],)
            return tuple(y for a in x.get('a', []) or ([x['e']] if 'e' in x else []) for y in flat(a))
        return ()
    return flat(d.get('init') or {})


def walk(x):
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def strip(e):
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e['e']
    return e


def pointee(t):
    return re.sub(r'\b(const|class|struct)\b', '', t).replace('*', '').replace('&', '').strip()


def qualify(P, t, near):
    """the class a type text names"""
    if t in P.classes:
        return t
    c = [k for k in P.classes if k.endswith('::' + t)]
    return c[0] if len(c) == 1 else None


def sites(P):
    """(iid, class the object is taken for, how, where) of every place an identifier is asked for"""
    for k, f in P.funcs.items():
        fl = f['file'].split('/repo/')[-1]
        if '/XMLLib/' in f['file']:
            continue
        decls = {}
        for x in walk(f.get('body')):
            if x['k'] == 'call' and x.get('n') == 'VWQueryInterface' and len(x.get('a', [])) == 2:
                i, o = strip(x['a'][0]), strip(x['a'][1])
                if i.get('k') == 'var' and i.get('g') and 'IID_' in i.get('n', ''):
                    if o.get('k') == 'un' and o.get('op') == '&':
                        yield i.get('q', i['n']), pointee(o['e'].get('t', '')), 'query', '%s:%s' % (fl, x['l']), f
                    else:
                        yield i.get('q', i['n']), pointee(o.get('t', '')), 'query', '%s:%s' % (fl, x['l']), f
            if x['k'] in ('ctor', 'new', 'call') and ('VCOMPtr' in str(x.get('cls', '')) + str(x.get('t', '')) or x.get('n') in ('VCOMPtr', 'Query')):
                for a in x.get('a', []):
                    a = strip(a)
                    if isinstance(a, dict) and a.get('k') == 'var' and a.get('g') and 'IID_' in a.get('n', ''):
                        m = re.search(r'VCOMPtr<(.*)>', str(x.get('cls', '')) + ' ' + str(x.get('t', '')) + ' ' + str(x.get('ot', '')) + ' ' + str(x.get('fn', '')))
                        if m:
                            yield a.get('q', a['n']), m.group(1).split('>')[0], 'smart pointer', '%s:%s' % (fl, x['l']), f


def run(P, tier):
    C = Check('C11', 'interface identifiers are pairwise different and compared in full; the factory answers each with the class that belongs to it; every place that asks for an identifier takes the answer for a class the answer derives from; casts of an answer name such a class',
              'constant evaluation of identifiers, branch analysis of the factory, type analysis of every query site')
    ids = iid_globals(P)
    made, h, fr, fk = factory(P) or ({}, None, None, None)
    if not made:
        raise Broken('C11: no VWQueryInterface found')
    # -- identifiers differ
    vals = {}
    for g, d in sorted(ids.items()):
        v = value(d)
        w = '%s:%s' % (d['file'].split('/repo/')[-1], (d.get('init') or {}).get('l', d.get('l')))
        if len(v) < 4:
            C.skip('distinct', g, 'the value is not a literal')
            continue
        same = vals.get(v)
        C.ob('distinct', g, same is None, w, '' if same is None else '%s has the same value as %s' % (g, same))
        vals.setdefault(v, g)
    # -- identifiers are compared in full
    for k, f in P.funcs.items():
        if f['q'].endswith('VWIID::operator=='):
            fields = [x['n'] for x in P.classes.get('VectorworksMVR::VWIID', {}).get('fields', [])]
            mc = [x for x in walk(f['body']) if x['k'] == 'call' and x.get('n') == 'memcmp']
            size = None
            for x in mc:
                a = strip(x['a'][2])
                size = a.get('v', a.get('cv'))
            seen = {x.get('n') for x in walk(f['body']) if x['k'] == 'mem'}
            ok = (size is not None and size >= 16) or all(n in seen for n in fields) and bool(fields)
            C.ob('compare', k, ok, '%s:%s' % (f['file'].split('/repo/')[-1], f['l']), '' if ok else 'two identifiers are equal when only a part of them agrees')
    # -- the factory
    conc = {c: d for c, d in P.classes.items()}
    for g, d in sorted(ids.items()):
        cs = made.get(g, set())
        w = d['file'].split('/repo/')[-1]
        local = [c for c, x in P.classes.items() if x.get('file') == d['file'] and '<' not in c]
        impl = [c for c in P.classes if '<' not in c and 'VCOM' in ' '.join(P.classes[c].get('bases', [])) and any(a in local for a in ancestors(P, c))]
        if not cs:
            if impl:
                C.ob('created', g, False, w, 'VWQueryInterface answers %s with no object although %s implements it' % (g, impl[0]))
            continue
        C.ob('created', g, len(cs) == 1, w, '' if len(cs) == 1 else '%s is answered with several classes: %s' % (g, ', '.join(sorted(cs))))
        for c in cs:
            if local:
                ok = any(a in local for a in ancestors(P, c))
                C.ob('belongs', g, ok, w, '' if ok else 'VWQueryInterface answers %s, which is declared with %s, with a %s' % (g, local[0], c))
    # -- the places that ask
    n = {}
    for g, t, how, where, f in sites(P):
        cs = made.get(g, set())
        t2 = qualify(P, t, f)
        if t.endswith('IVWUnknown'):
            continue
        key = '%s/%s/%s' % (f['q'].split('::', 1)[-1], g.split('::')[-1], how)
        if not t2:
            C.skip('taken-for', key, 'type %s not known' % t)
            continue
        for c in cs:
            ok = t2 in ancestors(P, c)
            C.ob('taken-for', key, ok, where, '' if ok else 'the object asked for with %s is a %s, but is taken for a %s' % (g, c, t2))
        if not cs:
            C.ob('taken-for', key, False, where, '%s asks for %s, which VWQueryInterface does not know' % (f['q'], g))
    # -- casts and out parameters of the objects
    for cls in wrapper_classes(P):
        for k, f in methods(P, cls).items():
            if not f.get('body') or not any(x['k'] == 'call' and x.get('n') == 'VWQueryInterface' for x in walk(f['body'])):
                continue
            hh = Casts(made, P)
            eng = Engine(P, hh, inline_api)
            eng.structs = True
            eng.run(k)
            for t, vals, w in hh.casts:
                t2 = qualify(P, pointee(t), f)
                for v in vals:
                    v = uncast(v)
                    if isinstance(v, tuple) and v[:1] == ('out',) and v[1] == 'VWQueryInterface':
                        for g in iids_in(v):
                            for c in made.get(g, ()):
                                if t2 is None or 'IVWUnknown' in t:
                                    continue
                                ok = t2 in ancestors(P, c)
                                C.ob('cast', '%s::%s/%s/%s' % (cls.split('::')[-1], f['n'], g.split('::')[-1], t2.split('::')[-1]), ok, w, '' if ok else '%s casts the object asked for with %s, a %s, to %s' % (f['n'], g, c, t2))
            for l, vals, w in hh.outs:
                s = slotof(l)
                t2 = qualify(P, pointee(f['p'][s[0]]['t']), f)
                for v in vals:
                    v = uncast(v)
                    if isinstance(v, tuple) and v[:1] == ('out',) and v[1] == 'VWQueryInterface' and t2:
                        for g in iids_in(v):
                            for c in made.get(g, ()):
                                ok = t2 in ancestors(P, c)
                                C.ob('handed-out', '%s::%s/%s' % (cls.split('::')[-1], f['n'], f['p'][s[0]]['n']), ok, w, '' if ok else '%s hands out the object asked for with %s, a %s, as a %s' % (f['n'], g, c, t2))
    C.need('distinct', 45)
    C.need('created', 40)
    C.need('taken-for', 100)
    C.need('compare', 1)
    C.need('handed-out', 60)
    return C.finish(P, tier)


class Casts:
    def __init__(self, made, P):
        self.P = P
        self.casts = []
        self.outs = []

    def on_cast(self, eng, st, e, v):
        self.casts.append((e.get('t', ''), v, eng.where(e)))
        return None

    def on_write(self, eng, st, loc, vals, node, init=False):
        s = slotof(loc)
        if s and not s[1] and len(eng.stack) <= 1:
            self.outs.append((loc, vals, eng.where(node)))
