"""GDTF serialisation model shared by C01/C02/C05/C34: normalised write and read entries per node class."""
from gdtf import *

GBASE = 'SceneData::GdtfObject'


def short(cls):
    return cls.split('::')[-1]


def concrete(P):
    return sorted(c for c in all_subclasses(P, GBASE))


def field_path_term(t):
    return this_field(t)


def ctor_values(P, cls, inline=inline_gdtf):
    """[(ctor key, {field name: terms})] for every constructor of the class (default-valued members after construction)"""
    r = []
    for k, f in P.funcs.items():
        if f.get('cls') == cls and f.get('ctor'):
            if len(f['p']) == 1 and cls.split('::')[-1] in f['p'][0]['t'] and f['p'][0]['t'].endswith('&'):
                continue
            h = XmlHooks(P)
            eng = Engine(P, h, inline)
            ex, v, _, fr = eng.run(k)
            env = {}
            if ex:
                for a, b in ex.env.items():
                    if a[0] == 'fld' and a[1] == THIS:
                        env[a[2].split('::')[-1]] = b
            r.append((k, env))
    return r


def lit_fields(t):
    return this_fields(t)


class Entry:
    """one way an attribute is written: converter + source fields + guard literals"""
    __slots__ = ('name', 'node', 'conv', 'src', 'guard', 'where', 'term')


def nodepath(t):
    """path of a node term below the class's own node: '' or 'A/B' """
    p = []
    while t and t[0] == 'child':
        n = t[2]
        p.append(n[1] if n and n[0] == 'str' else show(n) if n else '?')
        t = t[1]
    if t == ('param', 0, 'node'):
        return '/'.join(reversed(p))
    return None


def writes(T):
    out = {}
    for ev in T.w:
        if ev['kind'] != 'write' or ev['name'] is None or ev['name'][0] != 'str':
            continue
        np = nodepath(ev['node'])
        key = (np, ev['name'][1])
        for v in ev['value']:
            g0 = frozenset(base_pc(ev['pc']))
            for v, g in expand(v, g0):
                conv, src = conv_of_write(v)
                out.setdefault(key, {})[(conv, src, g)] = (ev['where'], v)
    return out


def expand(v, g):
    if v[0] == 'sel':
        return expand(v[2], g | {(v[1], True)}) + expand(v[3], g | {(v[1], False)})
    return [(v, g)]


def reads(T):
    """{(path, attr): {'fields': {(field, conv, idx, term)}, 'guards': set of frozenset, 'where':..}}"""
    out = {}
    for ev in T.rd:
        if ev['kind'] == 'read' and ev['name'] and ev['name'][0] == 'str':
            np = nodepath(ev['node'])
            d = out.setdefault((np, ev['name'][1]), {'fields': set(), 'guards': set(), 'where': ev['where'], 'flags': set(), 'sets': {}})
            d['guards'].add(frozenset(base_pc(ev['pc'])))
    for k, v in T.fin.items():
        f = this_field(k) if k[0] == 'fld' else None
        if not f:
            continue
        for t in v:
            for s in subterms(t):
                if isinstance(s, tuple) and len(s) == 3 and s[0] in ('attr', 'hasattr') and isinstance(s[2], tuple) and s[2] and s[2][0] == 'str':
                    np = nodepath(s[1])
                    key = (np, s[2][1])
                    if key not in out:
                        continue
                    d = out[key]
                    if s[0] == 'hasattr':
                        d['flags'].add(f)
                    elif t == s:
                        d['fields'].add((f, 'text', 0))
                    elif t[0] == 'out' and t[1].startswith('Convert') and uses_as_input(t, s):
                        d['fields'].add((f, t[1], t[2]))
                    elif t[0] == 'call' and t[1].startswith('Convert') or t[0] in ('bin', 'not', 'cmp', 'eq') or (t[0] in ('&&', '||')):
                        d['flags'].add(f)
                    else:
                        d['fields'].add((f, 'expr', 0))
    for n, ev in enumerate(T.rd):
        if ev['kind'] != 'set':
            continue
        f = this_field(ev['loc'])
        if not f:
            continue
        for t in ev['value']:
            for s in subterms(t):
                if isinstance(s, tuple) and len(s) == 3 and s[0] == 'attr' and isinstance(s[2], tuple) and s[2] and s[2][0] == 'str':
                    d = out.get((nodepath(s[1]), s[2][1]))
                    if d is not None:
                        d['sets'].setdefault(f, []).append((frozenset(base_pc(ev['pc'])), ev['where'], n))
        for t, pol in ev['pc']:
            for s in subterms(t):
                if isinstance(s, tuple) and len(s) == 3 and s[0] in ('attr', 'hasattr') and isinstance(s[2], tuple) and s[2] and s[2][0] == 'str':
                    d = out.get((nodepath(s[1]), s[2][1]))
                    if d is not None:
                        d['flags'].add(f)
    return out


def uses_as_input(t, attr):
    """attr is the direct text input of the conversion t (not something the conversion merely depends on)"""
    ins = t[4] if len(t) > 4 else ()
    return attr in ins or any(isinstance(i, frozenset) and attr in i for i in ins)
