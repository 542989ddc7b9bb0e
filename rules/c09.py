"""C09: an API object that stands for nothing answers with an error instead of following a null pointer."""
from apimodel import *
from report import Check, Broken


class Hooks(ApiHooks):
    def on_deref(self, eng, st, ts, e):
        w = eng.where(e)
        for t in ts:
            self.derefs.append((uncast(t), st.pc, w))


def nonnull(pc, t, twins):
    return any((x, True) in pc or (('isnull', x), False) in pc for x in [t] + twins.get(t, []))


def together(P, cls):
    """pointer members that are always set together by the same method"""
    sets = []
    for k, f in methods(P, cls).items():
        if f['n'].startswith(('Set', 'set')) and not f.get('virt'):
            ws = {l for l, v, pc, w, i in analyse_method(P, k).h.writes if mpath(l) and len(mpath(l)) == 1}
            if len(ws) > 1:
                sets.append(ws)
    r = {}
    for ws in sets:
        for a in ws:
            r[a] = [b for b in ws if b != a and all(b in s for s in sets if a in s)]
    return r


def run(P, tier):
    C = Check('C09', 'in every interface method of an API wrapper class every use of the pointer to the model object (of this object and of the API objects passed in) lies behind a test that it is set, and the branch on which it is not set returns an error',
              'flow-sensitive null-state analysis of every interface method with the model accessors inlined; branch facts on the wrapper pointers')
    ncls = 0
    for cls in wrapper_classes(P):
        tw = together(P, cls)
        sc = cls.split('::')[-1]
        ncls += 1
        for k, f in methods(P, cls).items():
            if not f.get('virt') or not f.get('body'):
                continue
            h = Hooks(P)
            eng = Engine(P, h, inline_api)
            eng.structs = True
            ex, val, _, fr = eng.run(k)
            name = '%s::%s' % (sc, f['n'])
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            used = False
            for t, pc, w in h.derefs:
                p = mpath(t)
                s = slotof(t)
                what = None
                if p and len(p) == 1 and not p[0].startswith('::'):
                    what = p[0]
                elif s and len(s[1]) <= 1 and not (s[1] == () and f['p'][s[0]]['t'].endswith('**')):
                    what = slot_text(f, s)
                if what is None:
                    continue
                used = True
                ok = nonnull(pc, t, tw)
                C.ob('guarded', '%s/%s' % (name, what), ok, w if not ok else where, '' if ok else '%s uses %s without having checked that it is set' % (f['n'], what))
            # the branch on which the pointer is missing does not claim success
            if f['ret'] in ('unsigned int', 'VectorworksMVR::VCOMError'):
                for st, v in fr.rets:
                    for t, b in st.pc:
                        t2, null = (uncast(t[1]), b) if t[0] == 'isnull' else (uncast(t), not b)
                        p = mpath(t2)
                        if null and p and len(p) == 1 and not p[0].startswith('::') and is_pointer(P, cls, t2):
                            bad = any(const_int(x) == 0 for x in v)
                            C.ob('reports', '%s/%s' % (name, p[0]), not bad, where, '' if not bad else '%s returns NoError although %s is not set' % (f['n'], p[0]))
    C.notes['wrapper_classes'] = ncls
    C.need('guarded', 500)
    C.need('reports', 400)
    return C.finish(P, tier)


def is_pointer(P, cls, t):
    f = t[2] if t[0] == 'fld' else None
    c = P.classes.get(cls)
    return any(x['f'] == f and x['t'].endswith('*') for x in c['fields']) if c and f else False


def slot_text(f, s):
    return '.'.join(((f['p'][s[0]]['n'] or str(s[0])),) + s[1])
