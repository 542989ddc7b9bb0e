"""C28: after an MVR file is read every reference between scene objects leads to the object with the referenced uuid."""
from mmodel import *
from mlinks import mvr_links, mvr_log
from report import Check, Broken
from c29 import H, inline_top, method, data_lits, lits, store_of, const_name
from c03 import ref_members
from c01 import writes, reads

# layers and groups can hold neither a class nor a multipatch parent (refused by the API) and cannot be one
# what all objects share (the multipatch parent) can only be set on objects placed in the scene
PLACED = 'SceneData::SceneDataObjWithMatrix'
EXEMPT = {'SceneData::SceneDataGroupObj', 'SceneData::SceneDataLayerObj'}


def coll_key(t):
    """name of a list of objects, whatever path leads to its owner"""
    if t[0] == 'fld':
        return t[2].split('::')[-1] if t[1] == THIS else t[2]
    return show(t)


def has_field(t, f, base=None):
    return any(isinstance(s, tuple) and len(s) == 3 and s[0] == 'fld' and s[2].split('::')[-1] == f and (base is None or s[1] == base) for s in subterms(t))


def literal_ok(t, p, keys, links):
    """what may stand between an object with a reference and its link: that there is a reference, and that the target was found"""
    if t == ('abort',):
        return True
    if t[0] == 'empty':
        return not p and any(has_field(t[1], k) for k in keys)
    if t[0] == 'any':
        return p and all(x == NULL or literal_ok(x, True, keys, links) or x[0] in ('elem', 'fld') and any(l['coll'] == (x[1] if x[0] == 'elem' else None) or has_second(x) for l in links) for x in t[1])
    if t[0] == 'isnull':
        return True
    if t[0] == 'fld' and t[2].split('::')[-1] in ('fIsSymbol',):
        return p
    if t[0] == 'bin' and t[1] == '==':
        a, b = t[2], t[3]
        if any(x[0] in ('enditer', 'iter') for x in (a, b)):
            return not p
        if NULL in (a, b):
            return not p
        if p and any(has_field(x, k) for x in (a, b) for k in keys) and any(has_field(x, '_uuid') or has_field(x, 'fGuid') or has_field(x, '_typeEntry') for x in (a, b)):
            return True
    if t[0] == 'call' and t[1] in ('Equal', 'EqualNoCase', 'operator=='):
        return p
    return False


def has_second(x):
    return x[0] == 'fld' and x[2].endswith('second')


class Fill(H):
    """also stores through a keyed element: map[key] = object"""

    def on_write(self, eng, st, loc, vals, node, init=False):
        if loc[0] == 'elem' and len(loc) > 2:
            self.events.append({'kind': 'insert', 'obj': E([loc[1]]), 'value': vals, 'key': E([loc[2]]), 'pc': st.pc, 'where': eng.where(node)})
        return super().on_write(eng, st, loc, vals, node, init)


def objects_read(P):
    """every object created while a scene is read: site -> (class, where, {list: [events]})"""
    out, nulls = {}, []
    for entry in ('ReadFromGeneralSceneDescription', 'ReadChildObjs'):
        h = Fill(P)
        args = [('param', 0, 'node'), ('param', 1, 'into')] if entry == 'ReadChildObjs' else None
        Engine(P, h, inline_top).run(method(P, entry), **({'args': args} if args else {}))
        for site, pc, where, e in h.news:
            out.setdefault(site, (site[1], where, {}))
        for ev in h.events:
            if ev['kind'] in ('push', 'insert'):
                for o in ev['obj']:
                    if NULL in ev['value'] and o[0] == 'fld' and o[1] == THIS:
                        nulls.append((coll_key(o), ev['where']))
                    for v in ev['value']:
                        if v in out:
                            out[v][2].setdefault(coll_key(o), []).append(ev)
    return out, nulls


def run(P, tier):
    C = Check('C28', 'every pointer member that is written as the uuid of another object is assigned, after the whole scene was read, the element of the list holding all objects of the referenced kind whose uuid equals the text the reference was read into; for every object of a kind that can hold the reference',
              'flow-sensitive dataflow over the scene reader: which member receives which looked-up object, by which text, from which list, under which conditions, and what was put into these lists before')
    MI = MethodIndex(P)
    links = mvr_links(P)
    h = mvr_log(P)
    if links is None:
        raise Broken('the reader of the scene description was not found')
    if not links:
        raise Broken('no reference of a scene object is resolved')
    objs, nulls = objects_read(P)
    for k, w in nulls:
        C.ob('pushed-null', k, False, w, 'a null pointer may be put into %s instead of the object that was read' % k)
    subs = {c: set(all_subclasses(P, c)) | {c} for c in list(all_subclasses(P, MBASE)) + [MBASE]}
    nested = nested_objects(P, MI)
    last = max([i for i, l in enumerate(h.log) if l[0] == 'reading'], default=-1)
    names = {}
    nref = 0
    for cls in sorted(all_subclasses(P, MBASE)):
        T = analyse_mvr(P, cls, MI)
        if not T.kw or not T.kr or cls in EXEMPT:
            continue
        sc = short(cls)
        refs = ref_members(P, cls)
        R = reads(T)
        for key, forms in sorted(writes(T).items()):
            for (conv, src, g), v in forms.items():
                f = src[0].split('.')[0] if src and src[0] else None
                if conv != 'ConvertUUID' or f not in refs or '.' not in src[0]:
                    continue
                nref += 1
                nm = '%s.%s' % (sc, f)
                texts = {m for m, c, i in R[key]['fields']} if key in R else set()
                C.ob('text', nm, bool(texts), v[0], '' if texts else 'the uuid of %s is written by %s but not read' % (f, sc))
                mine = [l for l in links if l['field'] == f and cls in subs.get(l['cls'], ())]
                good = [l for l in mine if l['key'] in texts]
                where = (good or mine or [{'where': v[0]}])[0]['where']
                C.ob('linked', nm, bool(good), where, '' if good else 'the reference text %s of %s is never used to find its %s' % (sorted(texts), sc, f) if not mine else '%s of a %s is looked up by %s, not by %s' % (f, sc, sorted({str(l['key']) for l in mine}), sorted(texts)))
                if not good:
                    continue
                # one look-up must serve every object of this kind
                for site, (c, w, stored) in sorted(objs.items(), key=str):
                    if c != cls or good[0]['cls'] == MBASE and c not in subs[PLACED]:
                        continue
                    bases = {coll_key(l['base'][1]) for l in good}
                    hit = [b for b in bases if b in stored]
                    C.ob('walked', nm, bool(hit), w, '' if hit else 'a %s read from a file is not in the list (%s) whose references are resolved: its %s stays empty' % (sc, ', '.join(sorted(bases)), f))
                    for b in hit:
                        stored_always(C, P, names, MI, 'walked-condition', nm, c, site, stored[b], b)
                for owner, lst, w, evs in nested.get(cls, []):
                    # the class and the multipatch parent can only be set on the objects placed in the scene
                    if good[0]['cls'] != cls or not any(c == owner for c, w2, st in objs.values()):
                        continue
                    hit = [l for l in good if l['base'][1][0] == 'fld' and l['base'][1][2].split('::')[-1] == lst and within(objs, subs, owner, l['base'][1][1])]
                    C.ob('walked-nested', '%s in %s.%s' % (nm, short(owner), lst), bool(hit), w, '' if hit else 'the %s of a %s read into %s of a %s is never resolved' % (f, sc, lst, short(owner)))
                    if hit:
                        stored_always(C, P, names, MI, 'walked-condition', '%s in %s.%s' % (nm, short(owner), lst), cls, None, evs, lst, site_of(evs, cls))
                ptype = field_type(P, cls, f)
                for l in good:
                    ln = nm + '<-' + coll_key(l['coll'])
                    ok = l['how'] in ('==', 'find', 'EqualNoCase')
                    C.ob('match', ln, ok, l['where'], '' if ok else 'uuids are compared case-sensitively when %s is looked up' % nm)
                    ok = l['how'] == 'find' or has_field(l['ident'], '_uuid') or has_field(l['ident'], 'fGuid') or has_field(l['ident'], '_typeEntry')
                    C.ob('identity', ln, ok, l['where'], '' if ok else '%s is selected by %s, which is not its uuid' % (nm, show(l['ident'])))
                    C.ob('after-reading', ln, l['i'] > last, l['where'], '' if l['i'] > last else '%s is resolved before all objects are read' % nm)
                    bad = [(t, p) for t, p in base_pc(l['pc']) if not literal_ok(t, p, texts, good)]
                    C.ob('link-condition', ln, not bad, l['where'], '' if not bad else '%s is resolved only if %s' % (nm, lits(bad)))
                    # the searched list holds every object of the kind
                    for site, (c, w, stored) in sorted(objs.items(), key=str):
                        if ptype is None or c not in subs.get(ptype, {ptype}) or c in EXEMPT:
                            continue
                        if ptype == MBASE and c not in subs[PLACED]:
                            continue
                        k = coll_key(l['coll'])
                        C.ob('searched', '%s|%s' % (ln, short(c)), k in stored, w, '' if k in stored else 'a %s read from a file is not in %s, where %s is looked up' % (short(c), k, nm))
                        if k in stored:
                            stored_always(C, P, names, MI, 'searched-condition', ln, c, site, stored[k], k)
                            for ev in stored[k]:
                                if l['how'] == 'find' and ev['kind'] == 'insert' and ev.get('key') is not None:
                                    okk = any(isinstance(s, tuple) and s and s[0] == 'attr' and s[2] == ('str', 'uuid') for x in ev['key'] for s in subterms(x)) or any(has_field(x, 'fGuid') for x in ev['key'])
                                    C.ob('searched-key', ln, okk, ev['where'], '' if okk else 'the map %s is keyed by %s, not by the uuid' % (k, [show(x) for x in ev['key']]))
    # walks of the resolution are complete
    keys = {l['key'] for l in links if l['key']}
    nj = 0
    for s, pc, where, stack, loops in h.jumps:
        lp = [l for l in loops if l[2] == len(stack)]
        if not lp:
            continue
        lp = lp if s['k'] == 'ret' else lp[-1:]                # a return leaves every loop of its function
        facts = pc - lp[0][3]
        if any(t[0] == 'kid' or any(isinstance(x, tuple) and x and x[0] in ('kid', 'child') for x in subterms(t)) for t, p in facts) or ('abort',) in {t for t, p in facts}:
            continue
        over = {coll_key(x) for l in lp for x in (l[0] or to_end(l[1])) if x[0] == 'fld'}
        if not over & ({coll_key(l['coll']) for l in links} | {coll_key(l['base'][1]) for l in links}):
            continue
        nj += 1
        match = any(p and t[0] in ('bin', 'any', 'call') and any(has_field(t, k) for k in keys) and t[0] != 'empty' for t, p in facts)
        if s['k'] == 'continue':
            bad = [(t, p) for t, p in facts if not literal_ok(t, p, keys, links) and not literal_ok(t, not p, keys, links) and not (t[0] == 'empty' and p)]
            ok = not bad and any(t[0] == 'empty' and p or literal_ok(t, not p, keys, links) for t, p in facts)
        else:
            ok = match
        C.ob('walk', '%s over %s' % (stack[-1].split('::')[-1], sorted(over)), ok, where, '' if ok else 'the walk over %s is left when %s' % (sorted(over), lits(facts)))
    C.notes['references'] = nref
    C.notes['links'] = sorted({'%s.%s <- %s by %s (%s)' % (short(l['cls']), l['field'], coll_key(l['coll']), l['key'], l['how']) for l in links})
    C.need('linked', 8)
    C.need('searched', 8)
    return C.finish(P, tier)


def to_end(s):
    """the members of this object an iterator loop runs to the end of"""
    out = set()

    def walk(y):
        if isinstance(y, dict):
            o = y.get('o')
            if y.get('k') == 'call' and y.get('n') in ('end', 'cend') and isinstance(o, dict) and o.get('k') == 'mem' and (o.get('b') or {}).get('k') == 'this':
                out.add(('fld', THIS, o['f']))
            for z in y.values():
                if isinstance(z, (dict, list)):
                    walk(z)
        elif isinstance(y, list):
            for z in y:
                walk(z)
    walk(s.get('c'))
    return out


def field_type(P, cls, f):
    c = cls
    while c:
        cl = P.classes.get(c)
        if cl is None:
            return None
        for x in cl['fields']:
            if x['n'] == f:
                return x['t'].replace('*', '').replace('const ', '').strip()
        c = cl['bases'][0] if cl['bases'] else None
    return None


def nested_objects(P, MI):
    """class -> [(owner class, list member, where, [events])] of the objects a scene object reads into a list of its own"""
    out = {}
    for owner in sorted(all_subclasses(P, MBASE)):
        k = MI.find(owner, 'OnReadFromNode')
        if not k or owner in EXEMPT:
            continue
        h = H(P)
        Engine(P, h, inline_mvr).run(k, args=[('param', 0, 'node'), ('param', 1, 'exchange')], this_cls=owner)
        for ev in h.events:
            if ev['kind'] not in ('push', 'insert'):
                continue
            for o in ev['obj']:
                if o[0] != 'fld' or o[1] != THIS:
                    continue
                for v in ev['value']:
                    if v[0] == 'new':
                        lst = out.setdefault(v[1], [])
                        for x in lst:
                            if x[0] == owner and x[1] == o[2].split('::')[-1]:
                                x[3].append(ev)
                                break
                        else:
                            lst.append((owner, o[2].split('::')[-1], ev['where'], [ev]))
    return out


def site_of(evs, cls):
    for ev in evs:
        for v in ev['value']:
            if v[0] == 'new' and v[1] == cls:
                return v
    return None


def within(objs, subs, owner, holder):
    """objects of the class, when read, are what the term stands for an element of"""
    if holder[0] == 'fld' and has_second(holder):
        holder = holder[1]
    if holder[0] != 'elem':
        return False
    k = coll_key(holder[1])
    mine = [st for c, w, st in objs.values() if c == owner]
    if mine:
        return all(k in st for st in mine)
    kinds = [st for c, w, st in objs.values() if c in subs.get(owner, ()) and c not in EXEMPT]
    return not kinds or all(k in st for st in kinds)


def stored_always(C, P, names, MI, kind, nm, cls, site, evs, b, site2=None):
    site = site or site2
    if cls not in names:
        names[cls] = const_name(P, MI, cls)
    conds = [data_lits(ev['pc'], site, names[cls]) for ev in evs]
    ok = any(not c for c in conds)
    C.ob(kind, '%s|%s' % (nm, short(cls)), ok, evs[0]['where'], '' if ok else 'a %s is put into %s only if %s' % (short(cls), b, lits(conds[0])))
