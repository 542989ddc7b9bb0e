"""C01: what a GDTF node class writes as an attribute is what it reads back (name, conversion, member, condition)."""
from gmodel import *
from links import *
from report import Check, Broken

# attributes that are deliberately not symmetric; each entry is a documented behaviour of the format reader, not a waiver for a class
READ_ONLY_LEGACY = {
    ('GdtfDmxChannel', 'Default'): 'GDTF 1.0 legacy attribute, folded into the channel functions on load',
}


def base_cls_of_field(T, P, field):
    c = T.cls
    while c:
        cl = P.classes.get(c)
        if cl is None:
            return None
        for f in cl['fields']:
            if f['n'] == field:
                return c
        c = cl['bases'][0] if cl['bases'] else None
    return None


def field_type(P, cls, field):
    c = base_cls_of_field(type('T', (), {'cls': cls}), P, field)
    if c:
        for f in P.classes[c]['fields']:
            if f['n'] == field:
                return f['t']
    return None


def default_of(envs, field):
    """set of values the member has after construction"""
    r = set()
    for k, env in envs:
        r |= set(env.get(field, E()))
    return r


def zeroish(t):
    return t == NULL or t == ('str', '') or (t[0] in ('int', 'float') and t[1] == 0) or (t[0] == 'enum' and t[2] == 0)


def is_unsigned(P, qfield):
    cl, f = qfield.rsplit('::', 1)
    for x in (P.classes.get(cl) or {'fields': []})['fields']:
        if x['n'] == f:
            return x['t'].replace('const ', '').strip() in UNSIGNED
    return False


UNSIGNED = {'size_t', 'Uint32', 'Uint16', 'Uint8', 'Uint64', 'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'DmxValue', 'DMXAddress', 'DMXAddress_t', 'uint32_t', 'uint64_t', 'bool'}


def default_guard(P, lit, pol, src, envs):
    """the write is skipped only when the member still has its construction default"""
    fs = this_fields(lit)
    if not fs or not fs <= {s.split('.')[0] for s in src if s}:
        return False
    if len(fs) != 1:
        return False
    f = next(iter(fs))
    d = default_of(envs, f)
    ft = lit
    # written when the member is non-null / non-empty / true / not the default constant
    if ft[0] == 'fld' and pol:
        return not d or any(zeroish(x) for x in d)
    if ft[0] in ('empty', 'isnull') and not pol:
        return True
    if ft[0] == 'bin' and ft[1] == '==' and not pol:
        c = ft[3] if const_like(ft[3]) else ft[2]
        return c in d or (zeroish(c) and any(zeroish(x) for x in d))
    if ft[0] == 'bin' and ft[1] == '<':
        # 0 < f  or  !(f < 0+1): only the zero default is skipped for unsigned members
        a, b = ft[2], ft[3]
        if pol and zeroish(a) and b[0] == 'fld':
            return any(zeroish(x) for x in d) and is_unsigned(P, b[2])
    return False


def const_like(t):
    return t[0] in ('int', 'float', 'str', 'enum', 'null')


def mentions(vals, key):
    for t in vals:
        for s in subterms(t):
            if isinstance(s, tuple) and len(s) == 3 and s[0] == 'attr' and s[2] == ('str', key[1]):
                return True
    return False


def not_stored(l, p):
    """the literal says the attribute is absent or its text is unusable"""
    if l[0] == 'un' and l[1] == '!':
        return not_stored(l[2], not p)
    if l[0] == 'empty':
        return p
    if l[0] in ('hasattr', 'haschild'):
        return p        # the node interface answers 0 (success) when it is there
    return l[0] in ('bin', 'attr', 'all')


def rewrite_read_guard(g, fin):
    """express a condition on freshly converted text through the member that stores the converted value"""
    inv = {}
    for k, v in fin.items():
        f = this_field(k) if k[0] == 'fld' else None
        if not f:
            continue
        for t in v:
            if t[0] in ('out', 'attr'):
                inv.setdefault(t, k)

    def sub(t):
        if isinstance(t, tuple):
            if t in inv:
                return inv[t]
            return tuple(sub(x) for x in t)
        return t
    return frozenset((sub(t), p) for t, p in g)


def node_guard(t, attr=None, np=None):
    """condition about the presence of XML nodes or of the attribute itself"""
    if attr is not None:
        for s in subterms(t):
            if isinstance(s, tuple) and len(s) == 3 and s[0] in ('attr', 'hasattr') and isinstance(s[2], tuple) and s[2][:1] == ('str',) and (s[2][1] != attr or np is not None and nodepath(s[1]) not in (np, None)):
                return False
    return all_node(t)


def all_node(t):
    if t[0] in ('haschild', 'hasattr', 'nodename', 'attr', 'hasGetFirstChildNode', 'hasGetNextSiblingNode', 'child', 'kid', 'hasval', 'param'):
        return True
    if t[0] in ('bin',):
        return any(all_node(x) for x in t[2:] if isinstance(x, tuple)) and all(all_node(x) or const_like(x) for x in t[2:])
    if t[0] in ('isnull', 'empty'):
        return all_node(t[1])
    if t[0] == 'un':
        return all_node(t[2])
    if t[0] == 'all':
        return all(all_node(l) for l, p in t[1:])
    return False


def bool_pair(forms):
    """{'true' if f, 'false' if !f} is the text of the bool member f"""
    tf = {}
    for (conv, src, g), (w, v) in forms.items():
        if conv != 'const' or len(g) != 1:
            return None
        (lit, pol), = g
        f = this_field(lit) if lit[0] == 'fld' else None
        if f is None:
            return None
        tf[(f, pol)] = src[0]
    fs = {f for f, p in tf}
    if len(fs) == 1:
        f = fs.pop()
        if tf.get((f, True)) == 'true' and tf.get((f, False)) == 'false':
            return f
        return (f, tf)
    return None


def check_class(C, P, cls, T, W, R, envs, linkmap, legacy):
    sc = short(cls)
    for key in sorted(W, key=str):
        np, attr = key
        name = '%s/%s%s' % (sc, (np + '/') if np else '', attr)
        forms = W[key]
        where = next(iter(forms.values()))[0]
        # ---- read back at all
        r = R.get(key)
        if np is None:
            C.skip('readback', name, 'node of the written attribute not resolved')
            continue
        C.ob('readback', name, r is not None, where, '' if r is not None else 'attribute "%s" is written by %s but never read by it' % (attr, sc))
        if r is None:
            continue
        # ---- member and conversion
        rf = {(f, c, i) for f, c, i in r['fields']}
        bp = bool_pair(forms)
        if bp is not None:
            if isinstance(bp, tuple):
                C.ob('member', name, False, where, 'attribute "%s" of %s is written as %s, which is not the text of the member' % (attr, sc, {str(k): v for k, v in bp[1].items()}))
                continue
            ok = any(f == bp and c == 'ConvertBool' for f, c, i in rf)
            C.ob('member', name, ok, where, '' if ok else 'bool member %s is written as attribute "%s" of %s but read into %s' % (bp, attr, sc, sorted(rf)))
            wforms = {}
        else:
            wforms = forms
        for (conv, src, g), (w, v) in sorted(wforms.items(), key=str):
            s = [x for x in src if x]
            if conv == 'const':
                # a constant fallback must be what the reader treats as absent
                C.ob('member', name + '=' + str(src[0]), src[0] == '' or any(True for k2 in forms if k2[0] != 'const'), w, 'constant')
                continue
            if v[0] == 'top' or (conv == 'expr' and not s):
                C.skip('member', name, 'written value not resolved: ' + show(v))
                continue
            ok, why = match(conv, src, s, rf, linkmap, T, P, attr, sc, g)
            if ok is None:
                C.skip('member', name, why)
            else:
                C.ob('member', name + ('|' + conv if len(wforms) > 1 else '') + ('|' + '.'.join(s) if len(wforms) > 1 else ''), ok, w, '' if ok else why)
            # ---- condition of the write
            for lit, pol in sorted(g, key=str):
                if not this_fields(lit):
                    continue
                if default_guard(P, lit, pol, src, envs):
                    continue
                gf = {x for x in this_fields(lit)}
                # presence flag maintained by the reader of this very attribute
                if lit[0] == 'fld' and pol and gf <= r['flags']:
                    continue
                # fixed at construction (the owner decides which kind of node this is) and never changed by the node itself
                if all(ctor_only(P, cls, x) for x in gf):
                    continue
                # the reader applies the same condition
                rg = [rewrite_read_guard(x, T.fin) for x in r['guards']]
                if any((lit, pol) in x for x in rg):
                    continue
                # alternatives: another write of the same attribute under the opposite condition
                if any((lit, not pol) in g2 for (c2, s2, g2) in forms):
                    continue
                # reference members guarding their companions (ModeFrom/ModeTo with ModeMaster)
                if lit[0] == 'fld' and pol and companion(gf, W, R, linkmap):
                    continue
                C.ob('write-condition', name + '|' + show(lit), False, w, 'attribute "%s" of %s is written only if %s%s, a condition the reader does not share, so the member is lost' % (attr, sc, '' if pol else 'not ', show(lit)))
            else:
                C.ob('write-condition', name, True, w)
        # ---- condition of the read
        for g in r['guards']:
            if frozenset() in r['guards']:
                break
            bad = []
            rg = rewrite_read_guard(g, T.fin)
            for lit, pol in rg:
                if node_guard(lit, attr, np):
                    continue
                if all((lit, pol) in wg for (c2, s2, wg) in forms):
                    continue
                bad.append((lit, pol))
            C.ob('read-condition', name, not bad, r['where'], '' if not bad else 'attribute "%s" of %s is always written but read only if %s' % (attr, sc, [('' if p else 'not ') + show(t) for t, p in bad]))
        # ---- nothing replaces it afterwards
        for f in sorted({f for f, c, i in r['fields']}):
            sets = r['sets'].get(f)
            if not sets:
                continue
            last = max(n for g, w, n in sets)
            bad = None
            for ev in T.rd[last + 1:]:
                if ev['kind'] == 'set' and this_field(ev['loc']) == f and not mentions(ev['value'], key):
                    pc = base_pc(ev['pc'])
                    if any(all_node(l) and not_stored(l, p) for l, p in pc):
                        continue
                    bad = ev
            C.ob('kept', name + '->' + f, bad is None, r['where'] if bad is None else bad['where'], '' if bad is None else 'what is read from attribute "%s" of %s into %s is overwritten afterwards with %s' % (attr, sc, f, sorted(show(v) for v in bad['value'])[:3]))
        # ---- condition under which the text reaches the member
        for f in sorted({f for f, c, i in r['fields']}):
            sets = r['sets'].get(f)
            if not sets:
                continue
            bads = []
            for g, w, n in sets:
                rg = rewrite_read_guard(g, T.fin)
                bads.append(({(l, p) for l, p in rg if not node_guard(l, attr, np) and not all((l, p) in wg for (c2, s2, wg) in forms)}, w))
            if any(not b for b, w in bads):
                C.ob('store-condition', name + '->' + f, True, bads[0][1])
                continue
            # complementary branches store it either way
            ok = any(len(b1) == 1 and len(b2) == 1 and {(l, not p) for l, p in b1} == b2 for b1, w1 in bads for b2, w2 in bads)
            b, w = min(bads, key=lambda x: (len(x[0]), str(x[0])))
            C.ob('store-condition', name + '->' + f, ok, w, '' if ok else 'attribute "%s" of %s is written without that condition, but what is read reaches %s only if %s' % (attr, sc, f, sorted(('' if p else 'not ') + show(t) for t, p in b)))
    for key in sorted(R, key=str):
        if key not in W and (sc, key[1]) not in legacy and key[0] is not None and R[key]['fields']:
            C.ob('writeback', '%s/%s%s' % (sc, (key[0] + '/') if key[0] else '', key[1]), False, R[key]['where'], 'attribute "%s" is read into %s by %s but never written' % (key[1], sorted(f for f, c, i in R[key]['fields']), sc))


def run(P, tier):
    C = Check('C01', 'for each attribute written by a node class there is a read of the same attribute of the same node, through the same conversion, into the written member (or into the text that the reference resolution links to it), under a condition no stricter than the write, and a write is skipped only for the construction default or under a recorded presence flag',
              'flow-sensitive dataflow over OnPrintToFile/OnReadFromNode (helpers and base-class calls inlined), provenance of every written value and of every member at exit of the reader')
    MI = MethodIndex(P)
    links, lh = link_table(P)
    if links is None:
        raise Broken('reference resolution entry not found')
    linkmap = {}
    for l in links:
        for f, how in l['keys']:
            linkmap.setdefault((l['field']), set()).add((f.split('::')[-1], l['cls'], how))
    ncls = 0
    for cls in concrete(P):
        T = analyse(P, cls, MI)
        if not T.kw or not T.kr:
            continue
        ncls += 1
        check_class(C, P, cls, T, writes(T), reads(T), ctor_values(P, cls), linkmap, READ_ONLY_LEGACY)
    C.notes['node_classes'] = ncls
    if ncls < 60:
        raise Broken('only %d GDTF node classes analysed' % ncls)
    C.need('readback', 180)
    C.need('member', 180)
    return C.finish(P, tier)


def ctor_only(P, cls, field):
    c = cls
    while c:
        cl = P.classes.get(c)
        if cl is None:
            return False
        if any(f['n'] == field for f in cl['fields']):
            break
        c = cl['bases'][0] if cl['bases'] else None
    if not c:
        return False
    q = '%s::%s' % (c, field)
    for k, f in P.funcs.items():
        if f.get('ctor') and f.get('cls') == c:
            continue
        if field_written(f['body'], q):
            return False
    return True


_w = {}


def field_written(body, q):
    """syntactic: some assignment/increment/address-of/mutable use targets the member"""
    k = id(body)
    if k not in _w:
        w = set()
        scan_writes(body, w)
        _w[k] = w
    return q in _w[k]


def scan_writes(n, w):
    if isinstance(n, list):
        for x in n:
            scan_writes(x, w)
        return
    if not isinstance(n, dict):
        return
    if n.get('k') == 'asg' or (n.get('k') == 'bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>=')):
        tgt = n.get('a')
        if isinstance(tgt, dict) and tgt.get('k') == 'mem':
            w.add(tgt.get('f'))
    if n.get('k') == 'un' and n.get('op') in ('++', '--', '&', 'p++', 'p--'):
        tgt = n.get('e')
        if isinstance(tgt, dict) and tgt.get('k') == 'mem':
            w.add(tgt.get('f'))
    if n.get('k') == 'call':
        for a, t in zip(n.get('a') or [], n.get('pt') or []):
            if isinstance(t, str) and t.endswith('&') and not t.startswith('const ') and isinstance(a, dict) and a.get('k') == 'mem':
                w.add(a.get('f'))
    for v in n.values():
        if isinstance(v, (dict, list)):
            scan_writes(v, w)


def companion(gf, W, R, linkmap):
    """the guard member is itself a reference this node writes (and the reader restores it through resolution)"""
    for k, forms in W.items():
        for (conv, src, g) in forms:
            if conv == 'reference' and set(x for x in src if x) & gf:
                return True
    return False


def match(conv, src, s, rf, linkmap, T, P, attr, sc, g):
    dst = {f for f, c, i in rf}
    if not dst:
        return False, 'attribute "%s" of %s is read but its text reaches no member' % (attr, sc)
    if conv == 'reference' or (conv == 'text' and '.' in s[0] and '[]' not in s[0]) or (conv != 'text' and s and s[0] not in dst and linked(s, dst, linkmap, sc)):
        S = s[0].split('.')[0] if s else None
        ok = linked([S], dst, linkmap, sc) if S else False
        if ok:
            return True, ''
        return False, 'reference member %s is written as attribute "%s" of %s, but the text read back into %s is never resolved into that member' % (S, attr, sc, sorted(dst))
    if conv == 'expr':
        if set(s) & dst or set(x.split('.')[0] for x in s) & dst:
            if any(c == 'ConvertBool' or c == 'text' or c == 'expr' for f, c, i in rf):
                return True, ''
            return None, 'written through an expression the analysis does not name'
        return False, 'attribute "%s" of %s is written from %s but read into %s' % (attr, sc, sorted(s), sorted(dst))
    convs = {c for f, c, i in rf if f in s}
    miss = [x for x in s if x not in dst]
    if miss:
        return False, 'attribute "%s" of %s is written from %s but read into %s' % (attr, sc, s, sorted(dst))
    if convs - {conv} and not (conv == 'text' and convs == {'expr'}):
        return False, 'attribute "%s" of %s is written with %s but read with %s' % (attr, sc, conv, sorted(convs))
    order = [x for x in s]
    read_order = []
    for i, f in sorted((i, f) for f, c, i in rf if f in order):
        if f not in read_order:
            read_order.append(f)
    if [x for x in order] != read_order and len(set(i for f, c, i in rf if f in order)) == len(order):
        return False, 'attribute "%s" of %s: components written in order %s but read in order %s' % (attr, sc, order, read_order)
    extra = {f for f, c, i in rf if c == conv} - set(s)
    return True, ''


def linked(S, dst, linkmap, sc):
    for f in S:
        for u, c, how in linkmap.get(f, ()):
            if u in dst:
                return True
    return False
