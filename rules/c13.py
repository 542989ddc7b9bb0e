"""C13: references to API objects are counted: what is handed out is owned once, what is replaced is released, nothing leaks."""
import re
import facts
from report import Check
from c10 import nodes

RAW = True
OWN = re.compile('^' + re.escape(facts.REPO) + r'/(src)/')
NULLT = ('null',)
LIMIT = 6000


class Stop(Exception):
    pass


class Api:
    def __init__(s, P):
        s.P = P
        s.copies = {}
        base = {}
        for q, c in P.classes.items():
            base[q] = list(c.get('bases') or [])
        s.iface = {'VectorworksMVR::IVWUnknown', 'IVWUnknown'}
        more = True
        while more:
            more = False
            for q, b in base.items():
                if q not in s.iface and any(x in s.iface or x.split('<')[0].split('::')[-1] in ('VCOMImpl', 'VCOMImmediateImpl') for x in b):
                    s.iface.add(q)
                    more = True
        s.bases = base

    def shifted(s, f, depth):
        """a copy of a function whose variables have names of their own"""
        k = (f['key'], depth)
        if k not in s.copies:
            def go(x):
                if isinstance(x, dict):
                    return {a: b + 100000 * depth if a == 'd' and isinstance(b, int) else go(b) for a, b in x.items()}
                return [go(y) for y in x] if isinstance(x, list) else x
            s.copies[k] = {'p': go(f['p']), 'body': go(f['body'])}
        return s.copies[k]

    def bare(s, t):
        return re.sub(r'\b(const|class|struct) ?', '', t or '').strip()

    def ptr(s, t):
        """the interface class a type points to"""
        t = s.bare(t).rstrip('&').strip()
        if t.endswith('*') and not t.endswith('**') and '<' not in t:
            q = t[:-1].strip()
            return q if q in s.iface else None
        return None

    def outp(s, t):
        if re.search(r'\* ?const ?&+$', t or ''):
            return None
        t = s.bare(t)
        if t.endswith('**'):
            q = t[:-2].strip()
            return q if q in s.iface else None
        if re.search(r'\* ?&$', t):
            q = re.sub(r'\* ?&$', '', t).strip()
            return q if q in s.iface else None
        return None

    def derives(s, a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += [re.sub(r'.*VCOMImpl<(.*)>$', r'\1', y) for y in s.bases.get(x, [])]
        return False


def strip(e):
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e['e']
    return e


def text(e):
    if isinstance(e, dict):
        return '(' + ','.join('%s:%s' % (k, text(v)) for k, v in sorted(e.items()) if k not in ('l', 'el', 'cv')) + ')'
    if isinstance(e, list):
        return '[' + ','.join(text(x) for x in e) + ']'
    return str(e)


class St:
    __slots__ = ('cell', 'nul', 'delta', 'facts', 'dead')

    def __init__(s):
        s.cell, s.nul, s.delta, s.facts, s.dead = {}, {}, {}, {}, frozenset()

    def copy(s):
        r = St()
        r.cell, r.nul, r.delta, r.facts, r.dead = dict(s.cell), dict(s.nul), dict(s.delta), dict(s.facts), s.dead
        return r

    def key(s):
        return (tuple(sorted(s.cell.items(), key=str)), tuple(sorted(s.nul.items(), key=str)), tuple(sorted(s.delta.items(), key=str)), tuple(sorted(s.facts.items())), s.dead)


class Paths:
    def __init__(s, A, f):
        s.A, s.P, s.f = A, A.P, f
        s.n = 0
        s.bad = {}                      # (kind, what) -> (line, text)
        s.exits = []                    # (state, returned token, node)
        s.depth = 0
        s.stack = [f['key']]
        s.outs = {}
        s.mems = []
        s.smart = 'VCOMPtr<' in f.get('cls', '')

    def problem(s, kind, what, line, msg):
        s.bad.setdefault((kind, what), (line, msg))

    def run(s):
        st = St()
        for p in s.f['p']:
            if s.A.outp(p['t']):
                isref = s.A.bare(p['t']).endswith('&')
                key = ('v', p['d']) if isref else ('*', ('P', p['d']))
                st.cell[key] = ('in', p['d'])
                if not isref:
                    st.cell[('v', p['d'])] = ('P', p['d'])
                s.outs[p['d']] = (p['n'], key)
            elif s.A.ptr(p['t']):
                st.cell[('v', p['d'])] = ('arg', p['d'])
        if s.smart and not s.f.get('ctor'):
            for x in (s.P.classes.get(s.f['cls']) or {}).get('fields') or []:
                if s.A.ptr(x.get('t')):
                    n = s.f['cls'] + '::' + x['n']
                    st.cell[('m', n)] = ('mem', n)
                    s.mems.append(('mem', n))
        for st2, how, tok, node in s.block(s.f['body'], [st]):
            s.exits.append((st2, tok, node))
        return s

    # ---- statements: yield (state, how, token, node); how in next/ret/break/cont
    def block(s, n, sts):
        out = []
        for r in s.stmt(n, sts):
            out.append(r)
        res, seen = [], set()
        for st, how, tok, node in out:
            k = (st.key(), how, tok, id(node))
            if k not in seen:
                seen.add(k)
                res.append((st, how, tok, node))
        return res

    def stmt(s, n, sts):
        if n is None:
            return [(st, 'next', None, None) for st in sts]
        s.n += len(sts)
        if s.n > LIMIT:
            raise Stop()
        k = n.get('k')
        if k == 'seq':
            live, done = sts, []
            for x in n['s']:
                if x is None:
                    continue
                nxt, seen = [], set()
                for r in s.block(x, live):
                    if r[1] == 'next':
                        kk = r[0].key()
                        if kk not in seen:
                            seen.add(kk)
                            nxt.append(r[0])
                    else:
                        done.append(r)
                live = nxt
                if not live:
                    break
            return done + [(st, 'next', None, None) for st in live]
        if k == 'decl':
            for v in n['v']:
                nxt = []
                for st in sts:
                    if v.get('init') is not None:
                        for st2, val in s.ev(v['init'], st):
                            s.assign(('v', v.get('d')), val, st2, n)
                            nxt.append(st2)
                    else:
                        st = st.copy()
                        st.cell.pop(('v', v.get('d')), None)
                        nxt.append(st)
                sts = nxt
            return [(st, 'next', None, None) for st in sts]
        if k == 'if':
            out = []
            pre = sts
            if n.get('init'):
                pre = [r[0] for r in s.block(n['init'], sts)]
            if n.get('cvd'):
                d = n['cvd'] if isinstance(n['cvd'], dict) else None
                if d and d.get('k') == 'decl':
                    pre = [r[0] for r in s.block(d, pre)]
            for st in pre:
                for st2, b in s.truth(n['c'], st):
                    out += s.block(n['th'] if b else n.get('el') if isinstance(n.get('el'), dict) else None, [st2])
            return out
        if k == 'ret':
            out = []
            for st in sts:
                if n.get('e') is not None:
                    for st2, val in s.ev(n['e'], st):
                        out.append((st2, 'ret', val, n))
                else:
                    out.append((st, 'ret', None, n))
            return out
        if k in ('while', 'for', 'do', 'rfor'):
            out, live = [], sts
            if k == 'for' and n.get('i'):
                live = [r[0] for r in s.block(n['i'], live)]
            first = k == 'do'
            if k == 'rfor':
                out += [(st, 'next', None, None) for st in live]
            for rnd in range(3):
                go = []
                for st in live:
                    if n.get('c') and not first and k != 'rfor':
                        for st2, b in s.truth(n['c'], st):
                            if b:
                                go.append(st2)
                            else:
                                out.append((st2, 'next', None, None))
                    else:
                        go.append(st)
                first = False
                if rnd == 2 or not go:
                    break
                live = []
                for r in s.block(n['b'], go):
                    if r[1] in ('next', 'cont'):
                        st = r[0]
                        if k == 'for' and n.get('inc'):
                            live += [x[0] for x in s.ev(n['inc'], st)]
                        else:
                            live.append(st)
                    elif r[1] == 'break':
                        out.append((r[0], 'next', None, None))
                    else:
                        out.append(r)
                if k == 'rfor':
                    out += [(st, 'next', None, None) for st in live]
            return out
        if k == 'switch':
            out = []
            for st in sts:
                for st2, _ in s.ev(n['c'], st):
                    b = n['b']
                    items = b['s'] if b.get('k') == 'seq' else [b]
                    starts = [i for i, x in enumerate(items) if x and x.get('k') in ('case', 'default')]
                    if not any(items[i].get('k') == 'default' for i in starts):
                        out.append((st2, 'next', None, None))
                    for i in starts:
                        for r in s.block({'k': 'seq', 's': items[i:]}, [st2.copy()]):
                            out.append((r[0], 'next', None, None) if r[1] == 'break' else r)
            return out
        if k in ('case', 'default'):
            return s.block(n.get('s'), sts)
        if k == 'break':
            return [(st, 'break', None, None) for st in sts]
        if k == 'continue':
            return [(st, 'cont', None, None) for st in sts]
        if k == 'try':
            return s.block(n['b'], sts)
        if k in ('lambda',):
            return [(st, 'next', None, None) for st in sts]
        out = []
        for st in sts:
            out += [(st2, 'next', None, None) for st2, _ in s.ev(n, st)]
        return out

    # ---- expressions
    def cellof(s, e, st):
        """the tracked cell an lvalue names"""
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e['k'] == 'var' and 'd' in e and not e.get('g'):
            return ('v', e['d'])
        if e['k'] == 'mem':
            b = e.get('b')
            if not b or b.get('k') == 'this':
                return ('m', e.get('f'))
            bb = strip(b)
            return ('mo', text(bb), e.get('f'))
        if e['k'] == 'un' and e['op'] == '*':
            b = strip(e['e'])
            if b.get('k') == 'var':
                t = st.cell.get(('v', b.get('d')))
                if t and t[0] == 'P':
                    return ('*', t)
                if t and t[0] == 'PC':
                    return t[1]
                if t == NULLT:
                    s.problem('null', b['n'], e.get('l'), '%s is followed although it was set to null' % b['n'])
            return None
        return None

    def tracked(s, t):
        return bool(s.A.ptr(t))

    def read(s, c, e, st):
        t = st.cell.get(c)
        if t is None and s.tracked(e.get('t')):
            t = ('old',) + c
            if c[0] == 'm' and s.smart and not s.f.get('ctor'):
                t = ('mem', c[1])
            st.cell[c] = t
        return t

    def assign(s, c, val, st, node):
        if c is None:
            return
        if c[0] == 'v':
            d = 'd:%s,' % c[1]
            for k in [k for k in st.facts if d in k or ('d:%s)' % c[1]) in k]:
                del st.facts[k]
        elif c[0] in ('m', 'mo'):
            for k in [k for k in st.facts if str(c[-1]) in k]:
                del st.facts[k]
        if val is None:
            st.cell.pop(c, None)
        else:
            st.cell[c] = val

    def ev(s, e, st):
        """[(state, token or None)]"""
        if not isinstance(e, dict):
            return [(st, None)]
        k = e.get('k')
        if k == 'cast':
            r = s.ev(e['e'], st)
            if e.get('st') == 'dynamic' and s.A.ptr(e.get('t')) and not s.A.derives(s.A.ptr(e.get('ft')) or '', s.A.ptr(e['t'])):
                out = []
                for a, v in r:
                    out.append((a, v))
                    if v and v != NULLT:
                        out.append((a.copy(), NULLT))
                return out
            return r
        if k == 'null' or k == 'int' and e.get('v') == 0 and not e.get('b'):
            return [(st, NULLT)]
        if k == 'var':
            if e.get('g') or 'd' not in e:
                return [(st, ('int', e['cv']) if 'cv' in e else None)]
            c = ('v', e['d'])
            v = st.cell.get(c)
            if v is None and s.tracked(e.get('t')):
                st = st.copy()
                v = s.read(c, e, st)
            return [(st, v)]
        if k == 'mem' or k == 'un' and e['op'] == '*':
            out = []
            inner = e.get('b') if k == 'mem' else e.get('e')
            for a, _ in (s.ev(inner, st) if isinstance(inner, dict) and inner.get('k') not in ('this', 'var') else [(st, None)]):
                a = a.copy()
                c = s.cellof(e, a)
                out.append((a, s.read(c, e, a) if c and s.tracked(e.get('t')) else a.cell.get(c) if c else None))
            return out
        if k == 'bin' and e.get('as'):
            out = []
            for a, v in s.ev(e['b'], st):
                a = a.copy()
                c = s.cellof(e['a'], a)
                s.assign(c, v if e['op'] == '=' else None, a, e)
                out.append((a, v))
            return out
        if k == 'bin' and e['op'] in ('&&', '||', '==', '!='):
            return [(a, ('bool', b)) for a, b in s.truth(e, st)] if mentions(e, s) else s.parts(e, st)
        if k == 'cond':
            out = []
            for a, b in s.truth(e['c'], st):
                out += s.ev(e['a'] if b else e['b'], a)
            return out
        if k == 'new':
            t = s.A.bare(e.get('t', '')).rstrip('*').strip()
            r = s.parts(e, st)
            if t in s.A.iface:
                out = []
                for a, _ in r:
                    a = a.copy()
                    tok = s.fresh(a, e, 0)
                    out.append((a, tok))
                return out
            return [(a, None) for a, _ in r]
        if k == 'call':
            return s.call(e, st)
        if k == 'lambda':
            return [(st, None)]
        return s.parts(e, st)

    def parts(s, e, st):
        cur = [st]
        for key, v in e.items():
            if key in ('t', 'n', 'q', 'fn', 'pt', 'caps', 'c') and not isinstance(v, dict):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict) and 'k' in x:
                    cur = [a for b in cur for a, _ in s.ev(x, b)]
                    if len(cur) > 64:
                        raise Stop()
        return [(a, None) for a in cur]

    def fresh(s, st, e, d, tag='new'):
        tok = (tag, e.get('l'), e.get('n') or '')
        i = 0
        while tok in st.delta or tok in st.dead or tok in st.cell.values():
            i += 1
            tok = (tag, e.get('l'), e.get('n') or '', i)
            if i > 6:
                raise Stop()
        st.delta[tok] = d
        st.nul[tok] = False
        return tok

    def use(s, tok, e, st, what):
        if tok in st.dead:
            s.problem('dead', show(what), e.get('l'), '%s is used after its reference was released' % show(what))
        if tok == NULLT:
            s.problem('null', show(what), e.get('l'), '%s is followed although it is null' % show(what))

    def call(s, e, st):
        n = e.get('n')
        cur = [(st, None)]
        o = e.get('o')
        if isinstance(o, dict):
            cur = s.ev(o, st)
        # AddRef / Release of a tracked pointer
        if o is not None and n in ('AddRef', 'Release') and s.A.ptr((strip(o) or {}).get('t')) and e.get('ar'):
            out = []
            for a, v in cur:
                a = a.copy()
                if v is not None and v[0] not in ('int', 'bool'):
                    s.use(v, e, a, o)
                    if v != NULLT:
                        a.delta[v] = a.delta.get(v, 0) + (1 if n == 'AddRef' else -1)
                        if n == 'Release' and owned0(v) + a.delta[v] <= 0 and v[0] != 'old':
                            a.dead = a.dead | {v}
                        a.nul[v] = False
                        if s.smart and s.f['n'] == 'operator=':
                            if n == 'Release':
                                a.facts['released'] = True
                            elif a.facts.get('released'):
                                s.problem('order', 'AddRef', e.get('l'), 'the new object is counted after the old one was released: they may be the same object')
                out.append((a, None))
            return out
        res = []
        for a, v in cur:
            if o is not None and v is not None and e.get('ar') and v[0] not in ('int', 'bool', 'P', 'PC'):
                s.use(v, e, a, o)
            res.append(a)
        sts = [(a, ()) for a in res]
        args = e.get('a') or []
        if o is None and e.get('op') == '=' or n == 'operator=':
            pass
        # arguments
        outs = []
        pushed = []
        for i, x in enumerate(args):
            tgt = s.target(x, e, i)
            nxt = []
            for a, vals in sts:
                if tgt is not None:
                    a = a.copy()
                    c = s.outcell(tgt, a)
                    y = strip(x)
                    v = None
                    if c is not None and (y.get('k') == 'un' or y.get('k') == 'var' and s.A.outp(y.get('t')) and not s.A.bare(y.get('t')).endswith('&')):
                        v = c[1] if c[0] == '*' else ('PC', c)
                    nxt.append((a, vals + (v,)))
                    if a is not None and c is not None and (i, tgt) not in [(y[0], y[2]) for y in outs]:
                        outs.append((i, c, tgt))
                else:
                    for b, v in s.ev(x, a):
                        if v is not None and v[0] not in ('int', 'bool', 'P', 'PC') and v != NULLT:
                            if v in b.dead:
                                s.use(v, e, b, x)
                            if n in ('push_back', 'emplace_back', 'insert', 'push') and s.A.ptr(strip(x).get('t')):
                                b = b.copy()
                                b.cell[('list', e.get('l'), i)] = v
                        nxt.append((b, vals + (v,)))
            sts = nxt
        f = s.P.funcs.get(e.get('fn'))
        own = f and f.get('body') and OWN.match(f['file']) and s.depth < 3 and e['fn'] not in s.stack and not (f.get('virt') and e.get('virt')) and f['n'] != 'VWQueryInterface'
        if outs:
            if own and all(all(v is not None for i, v in enumerate(vals) if i in [y[0] for y in outs]) for a, vals in sts) and len(f['p']) == len(args):
                return s.inline(e, f, sts)
            return s.filled(e, f, [a for a, _ in sts], outs)
        # a function of the library that returns an interface or takes one: follow it
        if own and (s.A.ptr(f['ret']) or s.smart and (e.get('o') or {}).get('k') == 'this'):
            return s.inline(e, f, sts)
        out = []
        for a, _ in sts:
            if s.A.ptr(f['ret'] if f else e.get('t')):
                a = a.copy()
                tok = ('got', e.get('l'), n)
                out.append((a, tok))
            else:
                out.append((a, None))
        return out

    def target(s, x, e, i):
        """the pointer an argument lets the callee set"""
        pt = (e.get('pt') or [])
        t = pt[i] if i < len(pt) else None
        y = strip(x)
        if not isinstance(y, dict):
            return None
        if y.get('k') == 'un' and y['op'] == '&' and s.A.ptr(strip(y['e']).get('t')):
            return y['e']
        if y.get('k') == 'var' and s.A.outp(y.get('t')):
            return {'k': 'un', 'op': '*', 'e': y, 'l': e.get('l')}
        if t and s.A.outp(t) and s.A.bare(t).endswith('&') and s.A.ptr(y.get('t')):
            return y
        return None

    def outcell(s, tgt, st):
        return s.cellof(tgt, st)

    def filled(s, e, f, sts, outs):
        """the callee hands out objects: on success the pointers own new objects, on failure they are unchanged"""
        q = e.get('n') == 'VWQueryInterface'
        out = []
        for a in sts:
            ok = a.copy()
            for i, c, _ in outs:
                old = ok.cell.get(c)
                if old and old != NULLT and not q:
                    ok.delta[old] = ok.delta.get(old, 0) - 1       # the callee releases what it replaces
                    if owned0(old) + ok.delta[old] <= 0:
                        ok.dead = ok.dead | {old}
                tok = s.fresh(ok, e, 1)
                s.assign(c, tok, ok, e)
            out.append((ok, ('int', 0)))
            no = a.copy()
            for i, c, _ in outs:
                if q:
                    s.assign(c, NULLT, no, e)
            if e.get('t') not in ('void', None):
                out.append((no, ('int', 1)))
        return out

    def inline(s, e, f, sts):
        s.depth += 1
        s.stack.append(e['fn'])
        f = s.A.shifted(f, s.depth)
        out = []
        try:
            for a, vals in sts:
                a = a.copy()
                for p, v in zip(f['p'], vals):
                    a.cell[('v', p['d'])] = v if v is not None else ('arg', p['d'])
                    if v is None and not s.A.ptr(p['t']):
                        a.cell.pop(('v', p['d']))
                for r in s.block(f['body'], [a]):
                    out.append((r[0], r[2] if r[1] == 'ret' else None))
        finally:
            s.depth -= 1
            s.stack.pop()
        return out

    # ---- conditions
    def truth(s, e, st):
        e0 = e
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        if not isinstance(e, dict):
            return [(st, True)]
        k = e.get('k')
        if k == 'int':
            return [(st, bool(e.get('v')))]
        if k == 'un' and e['op'] == '!':
            return [(a, not b) for a, b in s.truth(e['e'], st)]
        if k == 'bin' and not e.get('as') and e['op'] in ('&&', '||'):
            out = []
            for a, b in s.truth(e['a'], st):
                if b == (e['op'] == '||'):
                    out.append((a, b))
                else:
                    out += s.truth(e['b'], a)
            return out
        if k == 'bin' and not e.get('as') and e['op'] in ('==', '!='):
            out = []
            for a, v in s.ev(e['a'], st):
                for b, w in s.ev(e['b'], a):
                    out += [(c, r if e['op'] == '==' else not r) for c, r in s.same(v, w, e, b)]
            return out
        out = []
        for a, v in s.ev(e, st):
            if v is None:
                key = text(e)
                if key in a.facts:
                    out.append((a, a.facts[key]))
                else:
                    for b in (True, False):
                        c = a.copy()
                        if pure(e):
                            c.facts[key] = b
                        out.append((c, b))
            elif v[0] in ('bool', 'int'):
                out.append((a, bool(v[1])))
            else:
                out += s.nonnull(v, a)
        return out

    def nonnull(s, v, st):
        if v == NULLT:
            return [(st, False)]
        n = st.nul.get(v)
        if n is not None:
            return [(st, not n)]
        a, b = st.copy(), st.copy()
        a.nul[v] = False
        b.nul[v] = True
        for c in [c for c, t in b.cell.items() if t == v]:
            b.cell[c] = NULLT
        return [(a, True), (b, False)]

    def same(s, v, w, e, st):
        if v is not None and w is not None:
            if v[0] in ('int', 'bool') and w[0] in ('int', 'bool'):
                return [(st, int(v[1]) == int(w[1]))]
            if v[0] in ('int', 'bool') and w == NULLT or w[0] in ('int', 'bool') and v == NULLT:
                return [(st, not (v if v[0] in ('int', 'bool') else w)[1])]
            if w == NULLT:
                return [(a, not b) for a, b in s.nonnull(v, st)]
            if v == NULLT:
                return [(a, not b) for a, b in s.nonnull(w, st)]
            if v == w:
                return [(st, True)]
        key = text(e['a']) + '==' + text(e['b'])
        if key in st.facts:
            return [(st, st.facts[key])]
        out = []
        for b in (True, False):
            c = st.copy()
            if pure(e):
                c.facts[key] = b
            out.append((c, b))
        return out


def pure(e):
    return not any(x['k'] in ('call', 'new', 'lambda') or x['k'] == 'bin' and x.get('as') or x['k'] == 'un' and x['op'] in ('++', '--') for x in nodes(e))


def mentions(e, s):
    return any(x['k'] == 'call' for x in nodes(e)) or e['op'] in ('==', '!=')


def owned0(t):
    """references this function was entered with through the pointer itself"""
    return 1 if t[0] in ('in', 'mem') else 0 if t[0] == 'new' else 9


def show(e):
    e = strip(e)
    if not isinstance(e, dict):
        return '?'
    if e.get('k') == 'un':
        return e['op'] + show(e['e'])
    return e.get('n') or e.get('k')


class Tiny:
    """constant propagation through a counting function, for one value of the counter on entry"""
    def __init__(s, field, n):
        s.env, s.gone, s.after, s.field = {field: n}, False, False, field
        s.loc = {}
        s.ret = None
        s.sure = True

    def val(s, e):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = e.get('k')
        if k == 'int':
            return e.get('v')
        if 'cv' in e:
            return e['cv']
        if k == 'mem':
            if s.gone:
                s.after = True
            return s.env.get(e.get('f'))
        if k == 'var':
            return s.loc.get(e.get('d'))
        if k == 'un' and e['op'] in ('++', '--'):
            t = strip(e['e'])
            d = 1 if e['op'] == '++' else -1
            old = s.val(t)
            if old is not None:
                s.put(t, old + d)
            return old if e.get('post') or old is None else old + d
        if k == 'un' and e['op'] == '!':
            v = s.val(e['e'])
            return None if v is None else int(not v)
        if k == 'bin' and e.get('as'):
            v = s.val(e['b'])
            if e['op'] != '=':
                w = s.val(e['a'])
                v = None if v is None or w is None else w + v if e['op'] == '+=' else w - v if e['op'] == '-=' else None
            s.put(strip(e['a']), v)
            return v
        if k == 'bin':
            a = s.val(e['a'])
            if e['op'] in ('&&', '||'):
                if a is not None and bool(a) == (e['op'] == '||'):
                    return int(bool(a))
                b = s.val(e['b'])
                return None if a is None or b is None else int(bool(b))
            b = s.val(e['b'])
            if a is None or b is None:
                return None
            return {'==': int(a == b), '!=': int(a != b), '<': int(a < b), '<=': int(a <= b), '>': int(a > b), '>=': int(a >= b), '-': a - b, '+': a + b}.get(e['op'])
        if k == 'cond':
            c = s.val(e['c'])
            return None if c is None else s.val(e['a'] if c else e['b'])
        if k == 'call':
            for x in e.get('a') or []:
                s.val(x)
            return None
        return None

    def put(s, t, v):
        if t.get('k') == 'mem':
            if s.gone:
                s.after = True
            s.env[t.get('f')] = v
        elif t.get('k') == 'var':
            s.loc[t.get('d')] = v

    def go(s, n):
        """True when the function has returned"""
        if not isinstance(n, dict):
            return False
        k = n.get('k')
        if k == 'seq':
            return any(s.go(x) for x in n['s'])
        if k == 'if':
            c = s.val(n['c'])
            if c is None:
                if any(x['k'] in ('ret', 'del') or x['k'] == 'un' and x['op'] in ('++', '--') or x['k'] == 'bin' and x.get('as') for x in nodes([n['th'], n.get('el')])):
                    s.sure = False
                return False
            return s.go(n['th'] if c else n.get('el'))
        if k == 'ret':
            s.ret = s.val(n['e']) if n.get('e') else None
            return True
        if k == 'decl':
            for v in n['v']:
                if v.get('init') is not None:
                    s.loc[v.get('d')] = s.val(v['init'])
            return False
        if k == 'del':
            if strip(n['e']).get('k') == 'this':
                s.gone = True
            return False
        if k in ('while', 'for', 'do', 'switch', 'try'):
            s.sure = False
            return False
        s.val(n)
        return False


def counting(C, P):
    for key in sorted(P.funcs):
        f = P.funcs[key]
        if f['n'] not in ('AddRef', 'Release') or not f.get('body') or 'VCOMPtr<' in f.get('cls', '') or not OWN.match(f['file']):
            continue
        fld = {strip(x['e']).get('f') for x in nodes(f['body']) if x['k'] == 'un' and x['op'] in ('++', '--') and strip(x['e']).get('k') == 'mem'} | {strip(x['a']).get('f') for x in nodes(f['body']) if x['k'] == 'bin' and x.get('as') and strip(x['a']).get('k') == 'mem'}
        where = '%s:%s' % (f['file'].replace(facts.REPO + '/', ''), f['l'])
        if len(fld) != 1:
            C.ob('count', key, False, where, '%s does not count the references in one member' % f['q'])
            continue
        fld = fld.pop()
        bad = ''
        for n in (1, 2, 3):
            t = Tiny(fld, n)
            t.go(f['body'])
            if not t.sure:
                C.skip('count', key, 'not followed')
                bad = None
                break
            want = n + 1 if f['n'] == 'AddRef' else n - 1
            if t.env[fld] != want and not (t.gone and want == 0):
                bad = 'with %d references the count becomes %s' % (n, t.env[fld])
            elif f['n'] == 'Release' and n == 1 and not t.gone:
                bad = 'the object is not deleted when its last reference is released'
            elif t.gone and (f['n'] == 'AddRef' or n > 1):
                bad = 'the object is deleted while %d references are left' % want
            elif t.after:
                bad = 'a member is used after the object was deleted'
            if bad:
                break
        if bad is not None:
            C.ob('count', key, not bad, where, '%s: %s' % (f['q'], bad) if bad else '')


def interesting(A, f):
    if any(A.outp(p['t']) for p in f['p']) or 'VCOMPtr<' in f.get('cls', ''):
        return True
    for x in nodes(f['body']):
        if x['k'] == 'call' and (x.get('n') in ('AddRef', 'Release') and x.get('ar') and A.ptr((strip(x.get('o')) or {}).get('t')) or x.get('n') == 'VWQueryInterface'):
            return True
        if x['k'] == 'un' and x['op'] == '&' and A.ptr(x['e'].get('t')):
            return True
    return False


def run(P, tier):
    C = Check('C13', __doc__, 'path-sensitive typestate of interface pointers (obtained, owned by an out pointer, released) over all paths of every function that hands out or counts API objects', 'proof-modulo')
    A = Api(P)
    for key in sorted(P.funcs):
        f = P.funcs[key]
        if not f.get('body') or not OWN.match(f['file']) or not interesting(A, f):
            continue
        smart = 'VCOMPtr<' in f.get('cls', '')
        if f['n'] in ('AddRef', 'Release') and not smart or smart and f['n'] in ('AddRef', 'operator&', 'Get', 'Set'):
            continue
        where = '%s:%s' % (f['file'].replace(facts.REPO + '/', ''), f['l'])
        W = Paths(A, f)
        try:
            W.run()
        except Stop:
            C.skip('balance', key, 'too many paths')
            continue
        leak, dang, lost = {}, {}, {}
        for st, ret, node in W.exits:
            line = (node or {}).get('l') or f['el']
            own = {}
            for c, t in st.cell.items():
                if c[0] in ('*', 'list') or c[0] in ('m', 'mo') and t[0] == 'new' or c[0] == 'm' and smart and not f.get('dtor') or c[0] == 'v' and c[1] in W.outs and W.outs[c[1]][1] == c:
                    own[t] = own.get(t, 0) + 1
                    if t in st.dead and c[0] == 'm' and st.nul.get(t) is not True:
                        W.problem('dead', c[1], line, '%s is left pointing to an object whose reference was released' % c[1])
                    if t in st.dead and c[0] in ('*', 'v'):
                        dang[c] = (line, 'is left pointing to an object whose reference was released')
            if ret is not None and ret[0] == 'new' and A.ptr(f['ret']):
                own[ret] = own.get(ret, 0) + 1
            for t in set(st.delta) | {x for x in st.cell.values() if x[0] == 'in' or smart and x[0] in ('mem', 'arg', 'old')} | {('in', d) for d in W.outs} | set(W.mems):
                if t[0] not in ('new', 'in') and not (smart and t[0] in ('mem', 'arg', 'old')) or st.nul.get(t) is True:
                    continue
                have = st.delta.get(t, 0) + (1 if t[0] in ('in', 'mem') else 0)
                want = own.get(t, 0)
                if t[0] == 'in' and st.nul.get(t) is None and t not in st.delta and want == 0:
                    # overwritten without a look at it
                    if all(x == NULLT for c, x in st.cell.items() if c == W.outs[t[1]][1]) and any(c == W.outs[t[1]][1] for c in st.cell):
                        pass
                if have > want:
                    leak[t] = (line, have - want)
                elif have < want and t not in st.dead:
                    lost[t] = (line, want - have)
        for d, (n, c) in sorted(W.outs.items()):
            t = ('in', d)
            if f['n'] == 'VWQueryInterface':
                continue            # its callers pass pointers that hold nothing
            C.ob('replaced', '%s/%s' % (key, n), t not in leak, where, '' if t not in leak else '%s: what %s pointed to when the function was called is overwritten without being released (path ending in line %s)' % (f['q'], n, leak[t][0]))
            C.ob('left', '%s/%s' % (key, n), c not in dang, where, '' if c not in dang else '%s: %s %s (path ending in line %s)' % (f['q'], n, dang[c][1], dang[c][0]))
        l = [(t, x) for t, x in leak.items() if t[0] != 'in']
        C.ob('obtained', key, not l, where, '' if not l else '%s: the object obtained in line %s is neither handed out nor released on the path that ends in line %s' % (f['q'], l[0][0][1], l[0][1][0]))
        l = list(lost.items())
        C.ob('owned', key, not l, where, '' if not l else '%s: the object of line %s has more owners than references on the path that ends in line %s' % (f['q'], l[0][0][1], l[0][1][0]))
        l = list(W.bad.items())
        C.ob('used', key, not l, where, '' if not l else '%s: %s (line %s)' % (f['q'], l[0][1][1], l[0][1][0]))
    counting(C, P)
    C.need('obtained', 130)
    C.need('count', 80)
    C.need('replaced', 100)
    return C.finish(P, tier)
