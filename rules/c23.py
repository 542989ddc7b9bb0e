"""C23: the parsing errors found while a fixture is read are kept with that fixture."""
import re
from flow import Engine, subterms, const_int, NULL
from report import Check, Broken
from apimodel import uncast, show, mpath, wrapper_classes, methods, analyse_method, slotof
from c10 import nodes


def container_globals(P):
    return [g for g, d in P.globals.items() if 'GdtfParsingError' in str(d.get('t')) and '*' in str(d.get('t'))]


def writers(P, g):
    r = []
    for k, f in P.funcs.items():
        for x in nodes(f.get('body')):
            if x['k'] == 'bin' and x.get('as') and any(names(y) == g for y in [x['a']]):
                r.append(k)
                break
    return r


def names(x):
    while isinstance(x, dict) and x.get('k') in ('cast', 'paren'):
        x = x.get('e')
    return (x.get('q') or x.get('f') or x.get('g')) if isinstance(x, dict) else None


def reporters(P, add):
    """functions from which AddError can be reached"""
    callers = {}
    for k, f in P.funcs.items():
        for x in nodes(f.get('body')):
            if x['k'] == 'call' and x.get('fn'):
                callers.setdefault(x['fn'], set()).add(k)
            elif x['k'] == 'lambda' and x.get('fn'):
                callers.setdefault(x['fn'], set()).add(k)
    for k, f in P.funcs.items():
        for o in f.get('ov', []) or []:
            callers.setdefault(k, set()).update(callers.get(o, ()))
    r, todo = set(add), list(add)
    while todo:
        x = todo.pop()
        for c in callers.get(x, ()):
            if c not in r:
                r.add(c)
                todo.append(c)
    return r


DROPS = ('clear', 'erase', 'pop_back', 'resize', 'assign', 'swap')


class Hooks:
    def __init__(self, g, rep):
        self.g, self.rep = g, rep
        self.calls = []
        self.writes = []
        self.drops = []

    def on_write(self, eng, st, loc, vals, node, init=False):
        if loc == ('G', self.g):
            self.writes.append((vals, eng.where(node), st.pc))

    def on_call(self, eng, st, e, obj, argv, argl):
        o = e.get('o')
        if e.get('n') in DROPS and isinstance(o, dict) and o.get('k') == 'mem' and self.calls:
            self.drops.append((o.get('f', '').split('::')[-1], e['n'], eng.where(e), self.calls[0][0]))
        if e.get('fn') in self.rep:
            self.calls.append((e.get('n'), eng.read(('G', self.g), st), eng.where(e), len(eng.stack)))
        return None


def run(P, tier):
    C = Check('C23', 'parsing errors are added to the list of the fixture that is being read, from the first error to the last, and to none after it was read',
              'must-analysis of the error list pointer over every path of the reader, and of the list the API reports')
    gs = container_globals(P)
    if not gs:
        raise Broken('no pointer to the list of parsing errors')
    lists = set()
    drops = []
    guarded = False
    for g in gs:
        add = [k for k, f in P.funcs.items() if f['n'] == 'AddError' and f.get('body') and any(names(x) == g for x in nodes(f['body']))]
        rep = reporters(P, add)
        for k in add:
            f = P.funcs[k]
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            h = Add(g)
            eng = Engine(P, h, lambda *a: False)
            eng.run(k)
            ok = any(all(about(t, g) for t, p in pc) for pc in h.pcs)
            C.ob('delivered', f['q'], ok, where, '' if ok else 'AddError adds the error to the current list only if %s' % ', '.join(
                show(t)[:80] for t, p in list(min(h.pcs, key=len, default=())) if not about(t, g)) if h.pcs else 'AddError does not add the error to the current list')
            C.ob('delivered-same', f['q'], h.same, where, '' if h.same else 'AddError adds something else than the error it was given')
        ws = set(writers(P, g))
        guards = {P.funcs[k]['cls'] for k in ws if P.funcs[k].get('dtor')} & {P.funcs[k]['cls'] for k in ws if P.funcs[k].get('ctor')}
        guarded = guarded or bool(guards)
        for k in sorted(ws):
            f = P.funcs[k]
            if f.get('cls') in guards:
                C.skip('ended', f['q'], 'the list is set and taken back by a guard object')
                continue
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            h = Hooks(g, rep)
            eng = Engine(P, h, lambda eng, key, call: key in ws)
            ex, vals, _, fr = eng.run(k)
            outs = [st for st, v in fr.rets] or ([ex] if ex is not None else [])
            if not any(any(v != NULL for v in vs) for vs, w, pc in h.writes):
                continue
            for st in outs:
                v = eng.read(('G', g), st)
                ok = v == frozenset([NULL])
                C.ob('ended', f['q'], ok, where, '' if ok else '%s can return while errors are still added to the list of this fixture' % f['n'])
            for vs, w, pc in h.writes:
                for v in vs:
                    if v == NULL:
                        continue
                    p = mpath(uncast(v)[1]) if uncast(v)[0] == 'addr' else None
                    ok = bool(p) and len(p) == 1
                    lists.add(p)
                    C.ob('own', f['q'], ok, w, '' if ok else 'errors go to %s, which is not the list of the fixture that is read' % show(v)[:80])
            drops += [(f['q'], d) for d in h.drops]
            for n, v, w, depth in h.calls:
                ok = all(x[0] == 'addr' for x in v) and bool(v)
                C.ob('covered', '%s/%s' % (f['n'], n), ok, w, '' if ok else '%s calls %s, which can find errors, while no list takes them' % (f['n'], n))
    # what was found is kept until the fixture goes away, and reported by the API
    for p in sorted(x for x in lists if x):
        q = p[-1]
        for k, f in sorted(P.funcs.items()):
            for x in nodes(f.get('body')):
                if x['k'] == 'call' and x.get('n') in ('clear', 'erase', 'pop_back', 'resize', 'assign', 'swap') and isinstance(x.get('o'), dict) and x['o'].get('k') == 'mem' and x['o'].get('f', '').split('::')[-1] == q:
                    C.ob('kept', '%s/%s' % (f['q'], x['n']), k in ws, '%s:%s' % (f['file'].split('/repo/')[-1], x.get('l')), '' if k in ws else '%s removes errors that were found while the fixture was read' % f['q'])
        for fq, (m, n, w, c) in drops:
            if m == q.split('::')[-1]:
                C.ob('kept', '%s/%s' % (fq, n), False, w, '%s removes errors after %s, which can find some' % (fq, c))
        C.ob('kept', q, True, '', '')
    C.need('delivered', 1)
    if not guarded:
        C.need('ended', 1)
        C.need('own', 1)
        C.need('covered', 3)
    return C.finish(P, tier)


def about(t, g):
    return t == ('G', g) or t[:1] == ('bin',) and ('G', g) in t[2:4] and NULL in t[2:4] or t[:1] == ('un',) and about(t[2], g)


class Add:
    def __init__(self, g):
        self.g = g
        self.same = False
        self.pcs = []

    def on_call(self, eng, st, e, obj, argv, argl):
        if e.get('n') in ('push_back', 'emplace_back', 'insert'):
            self.pcs.append(st.pc)
            if any(x[:2] == ('param', 0) or any(isinstance(s, tuple) and s[:2] == ('param', 0) for s in subterms(x)) for v in list(argv) + list(argl) for x in v or ()):
                self.same = True
        return None
