"""C07: references between GDTF nodes are linked to the object whose reference text was saved."""
from links import *
from report import Check, Broken
from c02 import H as CH, local_pushes
from c25 import match_fact, early

# the public error kinds the API documents for links that cannot be resolved
DOCUMENTED = {
    'GdtfGeometry.fModelReference': 'eGeometryUnresolvedModel',
    'GdtfGeometryReference.fLinkedGeometry': 'eGeometryReferenceUnresolvedLink',
    'GdtfAttribute.fActivationGroup': 'eAttributeUnresolvedActivationGroup',
    'GdtfAttribute.fFeature': 'eAttributeUnresolvedFeature',
    'GdtfAttribute.fMainAttribute': 'eAttributeUnresolvedMainAttribute',
    'GdtfDmxMode.fGeomRef': 'eDmxModeUnresolvedGeometry',
    'GdtfDmxChannelFunction.fModeMaster_Channel': 'eDMXModeMastersUnresolved',
    'GdtfDmxChannelFunction.fModeMaster_Function': 'eDMXModeMastersUnresolved',
    'GdtfDMXPersonality.fDMXMode': 'eValueError_UnresolvedRdmPersonalityMode',
    'GdtfDmxChannel.fGeomRef': 'eFixtureDMXChannelMissingGeometryLink',
    'GdtfDmxChannel.fInitialFunction': 'eFixtureDMXChannelUnresolvedChannelFunction',
    'GdtfDmxLogicalChannel.fAttribute': 'eFixtureLogicalChannelMissingAttribute',
    'GdtfDmxChannelFunction.fAttribute': 'eChannelFunctionMissingAttribute',
    'GdtfMacroDMXValue.fDMXChannel': 'eDmxMacroDmxValueChannelReference',
}


def expected(P, MI):
    """{(class, member): {'texts': unresolved members, 'ident': how the target is named, 'attr'}} from the writers and readers"""
    E = {}
    for cls in concrete(P):
        T = analyse(P, cls, MI)
        w, r = writes(T), reads(T)
        for k, d in w.items():
            rf = {f for f, c, i in r[k]['fields']} if k in r else set()
            if not rf:
                continue
            for (conv, src, g), (wh, v) in d.items():
                for s in subterms(v):
                    # the member a saved reference is taken from: a pointer member of this object
                    tgt, ident = None, None
                    if isinstance(s, tuple) and s and s[0] == 'call' and s[1] == 'GetNodeReference' and s[3]:
                        tgt, ident = s[3][0], 'ref'
                    elif isinstance(s, tuple) and len(s) == 3 and s[0] == 'fld' and isinstance(s[1], tuple) and s[1][0] == 'fld' and s[1][1] == THIS:
                        tgt, ident = s[1], s[2].split('::')[-1]
                    if tgt is None or tgt[0] != 'fld' or tgt[1] != THIS:
                        continue
                    f = tgt[2].split('::')[-1]
                    if f in rf:
                        continue
                    dcl = tgt[2].rsplit('::', 1)[0]
                    e = E.setdefault((dcl, f), {'texts': set(), 'ident': set(), 'attr': set(), 'where': wh, 'users': set()})
                    e['texts'] |= rf
                    e['ident'].add(ident)
                    e['attr'].add(k[1])
                    e['users'].add(cls)
    return E


def holders(P, MI):
    """{class: {owner member}} : in which member lists objects of a class are kept after reading"""
    out = {}
    for cls in concrete(P):
        kr = MI.find(cls, 'OnReadFromNode')
        if not kr:
            continue
        h = CH(P)
        Engine(P, h, inline_gdtf).run(kr, args=[('param', 0, 'node')], this_cls=cls)
        for ev in h.events:
            if ev['kind'] in ('push', 'insert', 'set'):
                for o in ev['obj'] if ev['kind'] != 'set' else [ev['loc']]:
                    f = this_field(o)
                    if f:
                        for v in ev['value']:
                            if v[0] == 'new':
                                out.setdefault(v[1], set()).add((o[2].rsplit('::', 1)[0], f))
            elif ev['kind'] == 'childread':
                pass
    return out


def null_facts(pc):
    """value terms a branch context says to be null"""
    r = set()
    for t, p in pc:
        if t[0] == 'any':
            ms = t[1]
            for m in ms:
                r |= null_one(m, p)
        else:
            r |= null_one(t, p)
    return r


def null_one(t, p):
    if t[0] == 'set':
        r = set()
        for x in t[1]:
            r |= null_one(x, p)
        return r
    if t[0] == 'bin' and t[1] in ('==', '!=') and NULL in (t[2], t[3]):
        return {t[3] if t[2] == NULL else t[2]} if p == (t[1] == '==') else set()
    if t[0] == 'isnull':
        return {t[1]} if p else set()
    return {t} if not p else set()


def run(P, tier):
    C = Check('C07', 'every member saved as a reference text is, after loading, looked up by exactly the text member its attribute was read into, comparing the same identifying text that was saved, for the objects of every list, under no unrelated condition; a failed lookup is recorded with the documented error kind',
              'interprocedural dataflow over the reference resolution pass: provenance of every assigned link, key and collection of the lookup that produced it, branch conditions of assignments and error records')
    MI = MethodIndex(P)
    table, h = link_table(P)
    if table is None:
        raise Broken('the reference resolution pass was not found')
    E = expected(P, MI)
    byf = {}
    for x in table:
        x['tag'] = kind_of(P, x['cls'], x['field'])
        byf.setdefault((x['cls'], x['field']), []).append(x)
    hold = holders(P, MI)
    texts_all = {(c, t) for (c, f), e in E.items() for t in e['texts']}
    n = 0
    for (cls, f), e in sorted(E.items()):
        nm = '%s.%s' % (short(cls), f)
        ents = [x for x in byf.get((cls, f), []) if x['keys']]
        C.ob('resolved', nm, bool(ents), e['where'], '' if ents else 'the reference saved as attribute %s of %s is never resolved into %s after loading' % (sorted(e['attr']), short(cls), f))
        if not ents:
            continue
        n += 1
        keys, where = set(), ents[0]['where']
        for x in ents:
            ks = {k.split('::')[-1] for k, how in x['keys'] if how == 'key'}
            keys |= ks
            C.ob('key', nm, ks <= e['texts'] and bool(ks), x['where'], '' if ks <= e['texts'] else '%s is looked up by %s although attribute %s was read into %s' % (nm, sorted(ks), sorted(e['attr']), sorted(e['texts'])))
            bad = x['idents'] - e['ident']
            C.ob('identity', nm, not bad, x['where'], '' if not bad else '%s is saved as the %s of its target but looked up by %s' % (nm, sorted(e['ident']), sorted(bad)))
            # conditions of the assignment
            for t, p in base_pc(x['pc']):
                if not harmless(t, p, x, e['texts']):
                    C.ob('condition', nm + '|' + show(t), False, x['where'], '%s is only resolved if %s%s' % (nm, '' if p else 'not ', show(t)))
            C.ob('condition', nm, True, x['where'])
        # every list that holds such objects is visited
        conts = set()
        for x in ents:
            b = x['loc'][1]
            while b and b[0] in ('elem', 'fld'):
                if b[0] == 'elem' and b[1][0] == 'fld':
                    conts.add(b[1][2].split('::')[-1])
                if b[0] == 'fld':
                    conts.add(b[2].split('::')[-1])
                b = b[1]
        for l in h.log:
            if l[0] == 'call':
                for a in list(l[2]) + [l[1]]:
                    for v in a:
                        if v[0] == 'elem' and v[1][0] == 'fld':
                            conts.add(v[1][2].split('::')[-1])
        need = set()
        for u in e['users']:
            need |= {m for o, m in hold.get(u, set())}
        for m in sorted(need):
            C.ob('visited', '%s in %s' % (nm, m), m in conts, where, '' if m in conts else 'references %s of the objects in %s are never resolved' % (nm, m))
    # failed lookups
    for nm, kind in DOCUMENTED.items():
        cls, f = 'SceneData::' + nm.split('.')[0], nm.split('.')[1]
        ents = [x for x in byf.get((cls, f), []) if x['keys']]
        if not ents:
            continue
        vals = set()
        for x in ents:
            vals |= set(x['vals']) - {NULL}
        own = {t for x in ents for t in E.get((cls, f), {'texts': ()})['texts']}
        found = []
        for l in h.log:
            if l[0] != 'adderr':
                continue
            kinds = {s[1] for a in l[1] for t in a for s in subterms(t) if isinstance(s, tuple) and s and s[0] == 'enum'}
            if any(k.split('::')[-1] == kind for k in kinds):
                nf = null_facts(l[3])
                if nf & vals or mode_master(nm, l):
                    found.append(l)
        C.ob('dangling', nm, bool(found), ents[0]['where'], '' if found else 'a link %s whose target does not exist is not recorded as %s' % (nm, kind))
    # the walk over the objects is not left early
    linking = {l for x in table if x['keys'] for l in x['loops']}
    held = {b[1] for x in table if x['keys'] for b in prefixes(x['loc']) if b[0] == 'elem'}
    for s, pc, w, stack, loops in h.jumps:
        if s['k'] == 'continue':
            continue
        lp = [l for l in loops if l[2] == len(stack)]
        if not lp or id(lp[-1][1]) not in linking:
            continue
        facts = pc - lp[-1][3]
        if any(r in held for r in lp[-1][0] or ()):            # a walk over objects that have links, not a search
            ok = any(t == ('abort',) and p or t[0] == 'any' and all(y == ('abort',) or const_int(y) is not None for y in t[1]) for t, p in facts)
        else:
            ok = any(match_fact(t, p) for t, p in facts)
        C.ob('walk', '%s %s#%s' % (stack[-1].split('::')[-1], s['k'], ','.join(sorted(show(r) for r in (lp[-1][0] or ())))), ok, w,
             '' if ok else 'the walk over the objects whose references are resolved ends early when %s' % [('' if p else 'not ') + show(t) for t, p in facts])
    # objects are looked up by node references that are final
    wrote = {}
    for i, l in enumerate(h.log):
        if l[0] == 'write' and l[1][1][0] == 'elem':
            wrote.setdefault(l[1][2], []).append(i)
    uses = [(i, t, l[4]) for i, l in enumerate(h.log) if l[0] in ('cond', 'emplace', 'insert') for t in ([l[1]] if l[0] == 'cond' else l[2][0] if l[2] else ())]
    for ecls, m, f, w, ok in early(P, uses, wrote):
        C.ob('name-final', '%s by %s' % (short(f), short(m)), ok, w, '' if ok else 'the objects of %s are looked up by their node reference before %s, which it is made from, is resolved' % (short(f), short(m)))
    # values derived from texts once the link is known
    for (cls, f), xs in sorted(byf.items()):
        conv = {k.split('::')[-1] for x in xs for k, how in x['keys'] if how not in ('key', 'copy')} - {'fNode'}
        if conv:
            C.ob('converted', '%s.%s' % (short(cls), f), len(conv) == 1, xs[0]['where'], '%s.%s is computed from several texts: %s' % (short(cls), f, sorted(conv)))
    if n < 25:
        raise Broken('only %d resolved references found' % n)
    C.need('key', 25)
    return C.finish(P, tier)


def kind_of(P, cls, field):
    """what GetObjectType answers on the objects a pointer member points to, if that is one constant"""
    t = next((f['t'] for f in (P.classes.get(cls) or {}).get('fields') or [] if f['n'] == field), '')
    q = t.replace('const ', '').rstrip('* ').strip()
    for key, f in P.funcs.items():
        if f.get('cls') == q and f['n'] == 'GetObjectType' and f.get('body'):
            r = [x for x in f['body'].get('s', []) if x and x.get('k') == 'ret']
            if len(r) == 1 and isinstance(r[0].get('e'), dict):
                e = r[0]['e']
                while e.get('k') == 'cast':
                    e = e['e']
                return e.get('v') if e.get('k') == 'enum' and isinstance(e.get('v'), int) else e.get('cv')
    return None


def prefixes(loc):
    while loc and loc[0] in ('elem', 'fld'):
        loc = loc[1]
        yield loc


def harmless(t, p, x, texts):
    """a branch fact that says only: the text is there, the target was found, or the object that holds the link exists"""
    pre = list(prefixes(x['loc']))
    holder = x['loc'][1]

    def own_text(s):
        return s[0] == 'fld' and s[1] == holder and s[2].split('::')[-1] in texts

    def candidate(s):
        if s == NULL or const_int(s) is not None or s in x['vals']:
            return True
        if s[0] == 'bin' and s[1] in ('==', '!='):
            return candidate(s[2]) and candidate(s[3])
        if s[0] in ('isnull',):
            return candidate(s[1])
        c = coll_of(s)
        return (c is not None and c in x['colls']) or (s[0] == 'fld' and s == x['loc'])

    def path_fact(s):
        """an object on the way to the holder exists / has the type of the holder"""
        if any(s == q or (s[0] == 'fld' and any(q[0] in ('elem', 'fld') and s == q for q in pre)) for q in pre):
            return True
        if s[0] == 'call' and s[1] == 'GetObjectType' and s[3]:
            return all(any(o == q for q in pre) or o == THIS for o in (s[3] if not isinstance(s[3][0], frozenset) else s[3][0]))
        return False
    def test(s):
        """one of the values a flag can have: any of the facts that are harmless as a branch"""
        return s[0] in ('bool', 'int') or const_int(s) is not None or candidate(s) or path_fact(s) or (s[0] == 'bin' and (harmless(s, True, x, texts) or harmless(s, False, x, texts)))
    if t[0] == 'set' and all(isinstance(s, tuple) and s for s in t[1]):
        return all(test(s) for s in t[1])
    if t[0] == 'any':
        return all(candidate(s) or path_fact(s) for s in t[1])
    if t[0] == 'all':
        return all(harmless(l, lp, x, texts) or harmless(l, not lp, x, texts) for l, lp in t[1:])
    if t[0] == 'empty':
        return own_text(t[1]) and not p
    if t[0] == 'isnull':
        return path_fact(t[1]) or candidate(t[1])
    if path_fact(t) or candidate(t):
        return True
    if t[0] == 'bin' and t[1] in ('==', '!='):
        a, b = t[2], t[3]
        for u, v in ((a, b), (b, a)):
            if path_fact(u) and (const_int(v) is not None or v == NULL or v[0] == 'enum'):
                return True
            # the found object is one the link can point to
            if u[0] == 'call' and u[1] == 'GetObjectType' and u[3] and v[0] == 'enum' and v[2] == x.get('tag') and v[2] is not None:
                rc = u[3] if not isinstance(u[3][0], frozenset) else u[3][0]
                if all(o in x['vals'] for o in rc):
                    return True
            if own_text(u):
                if v == ('str', ''):
                    return (t[1] == '==') != p
                if p == (t[1] == '==') and any(isinstance(s, tuple) and s and s[0] == 'elem' for s in subterms(v)):
                    return True
    return False


def mode_master(nm, l):
    """either of two lookups may succeed: a flag, not a pointer, tells that both failed"""
    return 'fModeMaster' in nm and any('fUnresolvedModeMaster' in show(t, -9) for t, p in l[3])
