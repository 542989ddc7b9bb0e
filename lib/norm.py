"""Brings common equivalent spellings to one form before the rules look at them.

  std::for_each(C.begin(), C.end(), [..](T v){ body })          ->  for (T v : C) { body }
  for (size_t i = 0; i < C.size(); ++i) uses of C[i] only        ->  for (auto& v : C)
  for (auto it = C.begin(); it != C.end(); ++it) uses of *it     ->  for (auto& v : C)
  auto it = std::find_if(C.begin(), C.end(), pred)               ->  pointer set by a range-for with break
  std::any_of / all_of / none_of as a whole condition or value   ->  flag set by a range-for with break
  std::transform / copy into std::back_inserter(D)               ->  range-for with D.push_back
  C.push_back(X); .. C.back() ..  (pointers)                     ->  T p = X; C.push_back(p); .. p ..
  x = c ? v : x                                                  ->  if (c) x = v
  c ? true : false                                               ->  c
  e1, e2 as a statement                                          ->  e1; e2
  a loop over a table of constants                               ->  the loop body once for each row
  auto it = TABLE.find(k) / find_if over a table; it->second     ->  one comparison for each row

Each rewriting applies only when its pattern matches completely; otherwise the code is left as written."""
import json

_next = [50000000]


def _new():
    _next[0] += 1
    return _next[0]


def shape(e):
    """structural key of an expression without positions"""
    if isinstance(e, dict):
        return tuple((k, shape(v)) for k, v in sorted(e.items()) if k not in ('l', 'el', 'cv', 't', 'im'))
    if isinstance(e, list):
        return tuple(shape(x) for x in e)
    return e


def walk(n):
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def strip(e):
    while isinstance(e, dict):
        if e.get('k') == 'cast' and e.get('im'):
            e = e['e']
        elif e.get('k') == 'ctor' and len(e.get('a', [])) == 1 and ('iterator' in e.get('c', '') or e.get('cp')):
            e = e['a'][0]
        else:
            break
    return e


def pure(e):
    """an lvalue path that can be evaluated any number of times"""
    e = strip(e)
    k = e.get('k') if isinstance(e, dict) else None
    if k in ('var', 'this'):
        return True
    if k == 'mem':
        return pure(e['b']) if e.get('b') else True
    if k == 'un' and e.get('op') == '*':
        return pure(e['e'])
    if k == 'idx':
        return pure(e['b']) and pure(e['i'])
    if k == 'int':
        return True
    if k == 'call':
        if e.get('op') in ('->', '*', '[]') or e.get('cm') and not e.get('a'):
            return (e.get('o') is None or pure(e['o'])) and all(pure(a) for a in e.get('a', []))
    return False


BEGIN, END = ('begin', 'cbegin'), ('end', 'cend')


def bound(e, names):
    """container expression C of C.begin() / std::begin(C)"""
    e = strip(e)
    if not isinstance(e, dict) or e.get('k') != 'call' or e.get('n') not in names:
        return None
    o = e.get('o')
    if o is None:
        if len(e.get('a', [])) == 1 and e.get('q', '').startswith('std::'):
            o = e['a'][0]
        else:
            return None
    elif e.get('a') or e.get('ar') or not seqlike(e.get('cls', '')):
        return None
    return o if pure(o) else None


def seqlike(cls):
    return cls.startswith(('std::vector<', 'std::list<', 'std::deque<', 'std::array<', 'std::map<', 'std::set<', 'std::__cxx11::list<', 'std::unordered_', 'std::initializer_list<', 'std::multimap<'))


def span(a, b):
    c = bound(a, BEGIN)
    d = bound(b, END)
    if c is not None and d is not None and shape(c) == shape(d):
        return c
    return None


class Norm:
    def __init__(self, P):
        self.P = P
        self.pending = None
        self.cells = {}
        self.tabs = {}
        self.count = {}
        self.gone = set()

    def did(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    # ------------------------------------------------------------------
    def function(self, f):
        b = f.get('body')
        if not b:
            return
        self.f = f
        self.lams = {}
        self.tabs = {}
        self.cells = {}
        for n in walk(b):
            if n.get('k') == 'decl' and len(n['v']) == 1:
                v = n['v'][0]
                self.pending = [] if not v.get('st') else None
                r = self.rows(v.get('init')) if isinstance(v.get('init'), dict) else None
                if r and not self.changed(b, v):
                    self.tabs[v['d']] = r
                    if self.pending:
                        self.cells[v['d']] = self.pending
                self.pending = None
        for n in walk(b):
            for k, v in n.items():        # c ? true : false
                if isinstance(v, dict) and v.get('k') == 'cond':
                    n[k] = self.truth(v)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if isinstance(x, dict) and x.get('k') == 'cond':
                            v[i] = self.truth(x)
            if n.get('k') == 'decl':
                for v in n['v']:
                    i = strip(v.get('init')) if v.get('init') else None
                    if isinstance(i, dict) and i.get('k') == 'lambda':
                        self.lams[v['d']] = i
        f['body'] = self.stmt(b)

    def truth(self, e):
        a, b = strip(e['a']), strip(e['b'])
        if not str(e.get('t')).endswith('bool') or a.get('k') != 'int' or b.get('k') != 'int' or a['v'] == b['v']:
            return e
        self.did('truth')
        return e['c'] if a['v'] else {'k': 'un', 'op': '!', 'e': e['c'], 't': 'bool', 'l': e.get('l')}

    def lam(self, e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'ctor' and len(e.get('a', [])) == 1:
            e = strip(e['a'][0])
        key = None
        if isinstance(e, dict) and e.get('k') == 'lambda':
            key = e['fn']
        elif isinstance(e, dict) and e.get('k') == 'var' and e.get('d') in self.lams:
            key = self.lams[e['d']]['fn']
        fn = self.P.funcs.get(key)
        if fn is None or len(fn.get('p', [])) != 1 or not fn.get('body'):
            return None, None
        if not fn.get('_norm'):
            fn['_norm'] = 1
            sub = Norm(self.P)
            sub.count, sub.gone = self.count, self.gone
            sub.function(fn)
        return fn, (key if e.get('k') == 'lambda' else None)

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if not isinstance(s, dict):
            return s
        r = self.stmts(s)
        if len(r) == 1:
            return r[0]
        return {'k': 'seq', 'l': s.get('l'), 'el': s.get('el') or s.get('l'), 's': r}

    def stmts(self, s):
        """list of statements equivalent to s"""
        k = s.get('k')
        if k == 'seq':
            out = []
            lst = s.get('s', [])
            i = 0
            while i < len(lst):
                x = lst[i]
                rep = self.pair(lst, i, out)
                if rep is not None:
                    i = rep
                    continue
                out += self.stmts(x) if isinstance(x, dict) and x.get('k') != 'seq' else [self.stmt(x)]
                i += 1
            s['s'] = out
            return [s]
        if k == 'if':
            pre = self.hoist(s, 'c') if not s.get('init') and not s.get('cvd') else []
            for x in ('th', 'el'):
                if isinstance(s.get(x), dict):
                    s[x] = self.stmt(s[x])
            return pre + [s]
        if k in ('rfor', 'for'):
            r = self.unroll(s)
            if r is not None:
                return r
        if k == 'for':
            r = self.forloop(s)
            if r is not None:
                return r
            s['b'] = self.stmt(s['b']) if isinstance(s.get('b'), dict) else s.get('b')
            return [s]
        if k in ('while', 'do', 'rfor', 'switch'):
            if isinstance(s.get('b'), dict):
                s['b'] = self.stmt(s['b'])
            return [s]
        if k in ('case', 'default'):
            if isinstance(s.get('s'), dict):
                s['s'] = self.stmt(s['s'])
            elif isinstance(s.get('s'), list):
                s['s'] = [self.stmt(x) for x in s['s']]
            return [s]
        if k == 'try':
            if isinstance(s.get('b'), dict):
                s['b'] = self.stmt(s['b'])
            for h in s.get('h', []):
                if isinstance(h.get('b'), dict):
                    h['b'] = self.stmt(h['b'])
            return [s]
        if k == 'ret':
            return (self.hoist(s, 'e') if isinstance(s.get('e'), dict) else []) + [s]
        if k == 'decl':
            if len(s['v']) == 1 and s['v'][0]['d'] in self.cells:
                return [{'k': 'decl', 'l': s.get('l'), 'v': [c]} for c in self.cells.pop(s['v'][0]['d'])] + [s]
            if len(s['v']) == 1 and isinstance(s['v'][0].get('init'), dict):
                return self.hoist(s['v'][0], 'init') + [s]
            return [s]
        if k == 'bin' and s.get('op') == ',':
            self.did('comma')
            return self.stmts(s['a']) + self.stmts(s['b'])
        if k == 'bin' and s.get('as') and s.get('op') == '=':
            return self.assign(s)
        if k == 'call':
            r = self.algorithm(s)
            if r is not None:
                return r
        return [s]

    # ------------------------------------------------------------------ x = c ? v : x
    def assign(self, s):
        b = strip(s['b'])
        if isinstance(b, dict) and b.get('k') == 'cond' and pure(s['a']):
            ka = shape(strip(s['a']))
            for keep, take, neg in (('b', 'a', False), ('a', 'b', True)):
                if shape(strip(b[keep])) == ka:
                    self.did('keep')
                    c = b['c'] if not neg else {'k': 'un', 'op': '!', 'e': b['c'], 't': 'bool', 'l': s.get('l')}
                    n = dict(s)
                    n['b'] = b[take]
                    return [{'k': 'if', 'l': s.get('l'), 'c': c, 'th': n, 'el': None}]
        pre = self.hoist(s, 'b')
        return pre + [s]

    # ------------------------------------------------------------------ any_of & co
    def hoist(self, holder, field):
        e = holder[field]
        path = [(holder, field)]
        x = e
        while isinstance(x, dict) and (x.get('k') == 'un' and x.get('op') == '!' or x.get('k') == 'cast' and x.get('im')):
            path.append((x, 'e'))
            x = x['e']
        if not isinstance(x, dict) or x.get('k') != 'call' or x.get('n') not in ('any_of', 'all_of', 'none_of') or not x.get('q', '').startswith('std::'):
            return []
        a = x['a']
        c = span(a[0], a[1])
        fn, key = self.lam(a[2])
        if c is None or fn is None:
            return []
        pred = self.predicate(fn)
        if pred is None:
            return []
        l = x.get('l')
        d = _new()
        init = 0 if x['n'] == 'any_of' else 1
        var = {'k': 'var', 'd': d, 'n': x['n'] + '$', 't': 'bool', 'l': l}
        hit = {'k': 'bin', 'as': True, 'op': '=', 'a': dict(var), 'b': {'k': 'int', 'v': 1 - init, 't': 'bool', 'l': l}, 't': 'bool', 'l': l}
        if x['n'] == 'all_of':
            pred = {'k': 'un', 'op': '!', 'e': pred, 't': 'bool', 'l': l}
        loop = self.loop(c, fn['p'][0], {'k': 'if', 'l': l, 'c': pred, 'el': None, 'th': {'k': 'seq', 'l': l, 'el': l, 's': [hit, {'k': 'break', 'l': l}]}}, l)
        o, fl = path[-1]
        o[fl] = var
        if key:
            self.gone.add(key)
        self.did(x['n'])
        return [{'k': 'decl', 'l': l, 'v': [{'d': d, 'l': l, 'n': var['n'], 't': 'bool', 'init': {'k': 'int', 'v': init, 't': 'bool', 'l': l}}]}, loop]

    def predicate(self, fn):
        b = fn['body']
        st = b.get('s', []) if b.get('k') == 'seq' else [b]
        if len(st) == 1 and st[0].get('k') == 'ret' and isinstance(st[0].get('e'), dict):
            return st[0]['e']
        # if (A) { return false; } return B;   ->   !A && B
        if len(st) >= 2 and st[-1].get('k') == 'ret' and isinstance(st[-1].get('e'), dict):
            e = st[-1]['e']
            for s in reversed(st[:-1]):
                if s.get('k') != 'if' or s.get('el') or s.get('cvd'):
                    return None
                th = s['th']
                th = th['s'] if th.get('k') == 'seq' else [th]
                if len(th) != 1 or th[0].get('k') != 'ret':
                    return None
                v = strip(th[0].get('e'))
                if not isinstance(v, dict) or v.get('k') != 'int':
                    return None
                c = s['c']
                if v['v']:
                    e = {'k': 'bin', 'op': '||', 'a': c, 'b': e, 't': 'bool', 'l': s.get('l')}
                else:
                    e = {'k': 'bin', 'op': '&&', 'a': {'k': 'un', 'op': '!', 'e': c, 't': 'bool', 'l': s.get('l')}, 'b': e, 't': 'bool', 'l': s.get('l')}
            return e
        return None

    def loop(self, c, p, body, l):
        if body.get('k') != 'seq':
            body = {'k': 'seq', 'l': l, 'el': l, 's': [body]}
        return {'k': 'rfor', 'l': l, 'r': c, 'v': {'d': p['d'], 'n': p['n'], 't': p['t'], 'l': l}, 'b': body}

    # ------------------------------------------------------------------ algorithms as statements
    def algorithm(self, s):
        if not s.get('q', '').startswith('std::'):
            return None
        n = s.get('n')
        a = s.get('a', [])
        if n == 'for_each' and len(a) == 3:
            c = span(a[0], a[1])
            fn, key = self.lam(a[2])
            if c is None or fn is None:
                return None
            body = fn['body']
            if any(x.get('k') == 'ret' and isinstance(x.get('e'), dict) for x in walk(body)) or not key:
                return None
            body = self.cont(body, False)
            if body is None:
                return None
            self.did('for_each')
            self.gone.add(key)
            return [self.loop(c, fn['p'][0], body, s.get('l'))]
        if n in ('transform', 'copy') and len(a) == (4 if n == 'transform' else 3):
            c = span(a[0], a[1])
            dst = strip(a[2])
            if c is None or not isinstance(dst, dict) or dst.get('k') != 'call' or dst.get('n') != 'back_inserter':
                return None
            d = dst['a'][0]
            l = s.get('l')
            if n == 'transform':
                fn, key = self.lam(a[3])
                if fn is None or not key:
                    return None
                val = self.predicate(fn)
                if val is None:
                    return None
                p = fn['p'][0]
                self.gone.add(key)
            else:
                t = elemtype(c)
                p = {'d': _new(), 'n': 'elem$', 't': t + ' &'}
                val = {'k': 'var', 'd': p['d'], 'n': p['n'], 't': t, 'l': l}
            self.did(n)
            cls = typeof(d)
            push = {'k': 'call', 'fn': cls + '::push_back', 'q': cls + '::push_back', 'n': 'push_back', 'cls': cls, 'o': d, 'a': [val], 'pt': ['const %s &' % elemtype(d)], 't': 'void', 'l': l}
            return [self.loop(c, p, push, l)]
        return None

    def cont(self, s, inner):
        """return; -> continue;   (None when a return sits inside a loop of its own)"""
        k = s.get('k')
        if k == 'ret':
            return None if inner else {'k': 'continue', 'l': s.get('l')}
        if k == 'seq':
            out = []
            for x in s['s']:
                y = self.cont(x, inner)
                if y is None:
                    return None
                out.append(y)
            s['s'] = out
            return s
        if k == 'if':
            for x in ('th', 'el'):
                if isinstance(s.get(x), dict):
                    y = self.cont(s[x], inner)
                    if y is None:
                        return None
                    s[x] = y
            return s
        if any(x.get('k') == 'ret' for x in walk(s)):
            return None
        return s

    # ------------------------------------------------------------------ two statements at a time
    def pair(self, lst, i, out):
        s = lst[i]
        if isinstance(s, dict) and s.get('k') == 'call' and s.get('n') in ('push_back', 'emplace_back') and s.get('o') and len(s.get('a', [])) == 1 and not s.get('ar') and pure(s['o']):
            return self.pushed(lst, i, out)
        if not isinstance(s, dict) or s.get('k') != 'decl' or len(s['v']) != 1:
            return None
        v = s['v'][0]
        init = strip(v.get('init')) if v.get('init') else None
        if not isinstance(init, dict) or init.get('k') != 'call':
            return None
        rest = lst[i + 1:]
        # auto it = C.begin(); while (it != C.end()) { ...; ++it; }
        if init.get('n') in BEGIN and rest and isinstance(rest[0], dict) and rest[0].get('k') == 'while':
            w = rest[0]
            c = span(init, self.endof(w['c'], v['d'], '!='))
            body = w['b']
            if c is not None and isinstance(body, dict) and body.get('k') == 'seq' and body['s'] and self.isinc(body['s'][-1], v['d']) \
                    and not any(x.get('d') == v['d'] for y in rest[1:] for x in walk(y)) and not any(x.get('k') == 'continue' for x in walk(body)):
                b = dict(body)
                b['s'] = body['s'][:-1]
                r = self.iterloop(c, v, b, w.get('l'))
                if r is not None:
                    out.append(r)
                    return i + 2
        if init.get('n') == 'find' and init.get('o') is not None and len(init.get('a', [])) == 1 and 'map<' in init.get('cls', '') and pure(init['a'][0]):
            t = self.table(init['o'])
            if t and all(len(fl) == 2 for fl in t):
                key = init['a'][0]
                done = self.lookup(s, v, init['o'], rest, [(self.same(x['first'], key, s.get('l')), x) for x in t], out)
                if done:
                    lst[i + 1:] = rest
                    return i + 1
        if init.get('n') in ('find_if', 'find') and init.get('q', '').startswith('std::') and len(init.get('a', [])) == 3:
            a = init['a']
            c = span(a[0], a[1])
            if c is None:
                return None
            if init['n'] == 'find_if' and self.table(c):
                fn, key = self.lam(a[2])
                pred = self.predicate(fn) if fn is not None else None
                if pred is not None:
                    t = self.table(c)
                    alts = [(self.row(pred, fn['p'][0]['d'], x), x) for x in t]
                    if all(y[0] is not None for y in alts) and self.lookup(s, v, c, rest, alts, out):
                        if key:
                            self.gone.add(key)
                        lst[i + 1:] = rest
                        return i + 1
            l = s.get('l')
            key = None
            if init['n'] == 'find_if':
                fn, key = self.lam(a[2])
                if fn is None:
                    return None
                pred = self.predicate(fn)
                if pred is None:
                    return None
                p = fn['p'][0]
                t = p['t'].rstrip('&').strip()
                if t.startswith('const ') and not t.endswith('*'):
                    t = t[6:]
            else:
                if not pure(a[2]) and strip(a[2]).get('k') not in ('int', 'str', 'enum'):
                    return None
                t = elemtype(c)
                if not (t.endswith('*') or t in ('int', 'bool', 'unsigned int', 'unsigned long')):
                    return None
                p = {'d': _new(), 'n': 'elem$', 't': t + ' &'}
                pred = {'k': 'bin', 'op': '==', 'a': {'k': 'var', 'd': p['d'], 'n': 'elem$', 't': t, 'l': l}, 'b': a[2], 't': 'bool', 'l': l}
            if not self.derefs(rest, v['d'], c):
                return None
            uses = [x for y in rest for x in walk(y) if x.get('k') == 'var' and x.get('d') == v['d']]
            pt = t + ' *'
            ref = {'k': 'var', 'd': v['d'], 'n': v['n'], 't': pt, 'l': l}
            self.rewrite(rest, v['d'], c, pt, t)
            for x in uses:
                x['t'] = pt
            hit = {'k': 'bin', 'as': True, 'op': '=', 'a': ref, 'b': {'k': 'un', 'op': '&', 'e': {'k': 'var', 'd': p['d'], 'n': p['n'], 't': t, 'l': l}, 't': pt, 'l': l}, 't': pt, 'l': l}
            pv = dict(p)
            pv['t'] = t + ' &'
            body = {'k': 'if', 'l': l, 'c': pred, 'el': None, 'th': {'k': 'seq', 'l': l, 'el': l, 's': [hit, {'k': 'break', 'l': l}]}}
            out.append({'k': 'decl', 'l': l, 'v': [{'d': v['d'], 'l': l, 'n': v['n'], 't': pt, 'init': {'k': 'null', 't': pt, 'l': l}}]})
            out.append(self.loop(c, pv, body, l))
            if key:
                self.gone.add(key)
            self.did(init['n'])
            lst[i + 1:] = rest
            return i + 1
        return None

    def pushed(self, lst, i, out):
        """C.push_back(X); ... C.back() ...   ->   T p = X; C.push_back(p); ... p ..."""
        s = lst[i]
        c = s['o']
        t = elemtype(c)
        sc = shape(strip(c))
        if not t.endswith('*'):
            return None

        def last(n):
            return n.get('k') == 'call' and n.get('n') == 'back' and n.get('o') is not None and not n.get('a') and shape(strip(n['o'])) == sc
        scope = []
        for x in lst[i + 1:]:
            scope.append(x)
            if self.touched(x, c):
                break
        if scope and self.touched(scope[-1], c):
            scope.pop()
        if not any(last(n) for x in scope for n in walk(x)):
            return None
        l = s.get('l')
        d = _new()
        var = {'k': 'var', 'd': d, 'n': 'back$', 't': t, 'l': l}
        out.append({'k': 'decl', 'l': l, 'v': [{'d': d, 'l': l, 'n': 'back$', 't': t, 'init': s['a'][0]}]})
        n = dict(s)
        n['a'] = [var]
        out.append(n)
        for j in range(len(scope)):
            lst[i + 1 + j] = self.subst(scope[j], last, var)
        self.did('back')
        return i + 1

    def isinc(self, s, d):
        s = strip(s)
        if not isinstance(s, dict):
            return False
        if s.get('k') == 'un' and s.get('op') == '++':
            x = strip(s['e'])
        elif s.get('k') == 'call' and s.get('op') == '++' and s.get('o'):
            x = strip(s['o'])
        else:
            return False
        return isinstance(x, dict) and x.get('k') == 'var' and x.get('d') == d

    def endof(self, c, d, op):
        """the C.end() an iterator variable is compared with"""
        c = strip(c)
        if not isinstance(c, dict):
            return None
        if c.get('k') == 'call' and c.get('op') == op:
            ops = ([c['o']] if c.get('o') else []) + c.get('a', [])
        elif c.get('k') == 'bin' and c.get('op') == op:
            ops = [c['a'], c['b']]
        else:
            return None
        ops = [strip(x) for x in ops]
        if len(ops) == 2:
            for x, y in ((0, 1), (1, 0)):
                if ops[x].get('k') == 'var' and ops[x].get('d') == d:
                    return ops[y]
        return None

    def derefs(self, tree, d, c, compare=True):
        """every use of iterator d is *it, it-> or a comparison with C.end()"""
        ok = [0]
        total = sum(1 for y in (tree if isinstance(tree, list) else [tree]) for x in walk(y) if x.get('k') == 'var' and x.get('d') == d)

        def visit(n):
            if isinstance(n, list):
                for x in n:
                    visit(x)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'call' and n.get('op') in ('*', '->') and n.get('o') and strip(n['o']).get('d') == d and not n.get('a'):
                ok[0] += 1
            elif compare:
                for op in ('==', '!='):
                    e = self.endof(n, d, op)
                    if e is not None:
                        b = bound(e, END)
                        if b is not None and shape(b) == shape(c):
                            ok[0] += 1
            for v in n.values():
                if isinstance(v, (dict, list)):
                    visit(v)
        visit(tree)
        return ok[0] == total and total > 0

    def rewrite(self, tree, d, c, pt, t):
        """find_if iterators become pointers: it != end -> it != null, *it -> *p, it->x -> p->x"""
        def visit(n):
            if isinstance(n, list):
                for i, x in enumerate(n):
                    n[i] = visit(x)
                return n
            if not isinstance(n, dict):
                return n
            for op in ('==', '!='):
                if self.endof(n, d, op) is not None:
                    return {'k': 'bin', 'op': op, 't': 'bool', 'l': n.get('l'), 'a': {'k': 'var', 'd': d, 'n': 'it', 't': pt, 'l': n.get('l')}, 'b': {'k': 'null', 't': pt, 'l': n.get('l')}}
            if n.get('k') == 'call' and n.get('op') in ('*', '->') and n.get('o') and strip(n['o']).get('d') == d and not n.get('a'):
                v = {'k': 'var', 'd': d, 'n': 'it', 't': pt, 'l': n.get('l')}
                return v if n['op'] == '->' else {'k': 'un', 'op': '*', 'e': v, 't': t, 'l': n.get('l')}
            for k, v in list(n.items()):
                if isinstance(v, (dict, list)):
                    n[k] = visit(v)
            return n
        for i, x in enumerate(tree):
            tree[i] = visit(x)

    # ------------------------------------------------------------------ tables of constants
    def rows(self, e, n=0):
        """the rows of an initialiser, each {field: expression} or {'': expression}"""
        e = strip(e)
        if not isinstance(e, dict) or n > 3:
            return None
        if e.get('k') == 'ctor':
            if not e.get('c', '').startswith(('std::vector<', 'std::map<', 'std::unordered_map<', 'std::initializer_list<', 'std::array<', 'std::list<')):
                return None
            real = [a for a in e.get('a', []) if not (isinstance(a, dict) and a.get('da'))]
            return self.rows(real[0], n + 1) if len(real) == 1 else None
        if e.get('k') != 'list':
            return None
        t = e.get('t', '').replace('const ', '')
        if t.startswith('std::array<'):
            return self.rows(e['a'][0], n + 1) if len(e.get('a', [])) == 1 else None
        if '[' not in t and not t.startswith('std::initializer_list<'):
            return None
        out = []
        for a in e.get('a', []):
            r = self.fields(a)
            if r is None:
                return None
            out.append(r)
        return out if 0 < len(out) <= 64 else None

    def fields(self, a):
        a = strip(a)
        if not isinstance(a, dict):
            return None
        if a.get('k') in ('list', 'ctor'):
            t = (a.get('c') or a.get('t', '')).replace('const ', '').strip()
            if t.startswith('std::pair<') or (a.get('c') or '').startswith('std::pair<'):
                names = ['first', 'second']
            elif a.get('k') == 'ctor' and not t.startswith(('std::basic_string', 'std::string')) and not t.endswith('TXString'):
                return None
            elif a.get('k') == 'ctor':
                return {'': a} if self.constant(a) else None
            else:
                c = self.P.classes.get(t)
                if not c or c.get('bases'):
                    return None
                names = [f['n'] for f in c.get('fields', [])]
            if len(names) != len(a.get('a', [])):
                return None
            cs = [self.cell(x) for x in a['a']]
            return dict(zip(names, cs)) if all(c is not None for c in cs) else None
        a = self.cell(a)
        return {'': a} if a is not None else None

    def cell(self, x):
        if self.constant(x):
            return x
        if self.pending is None:
            return None
        y = strip(x)
        if pure(y) or y.get('k') == 'un' and y.get('op') == '&' and pure(y['e']):
            return x
        t = (y.get('t') or y.get('c') or '').rstrip('&').strip()
        if not t or y.get('k') not in ('call', 'ctor', 'bin', 'cond', 'cast'):
            return None
        d = _new()
        self.pending.append({'d': d, 'l': y.get('l'), 'n': 'cell$', 't': t, 'init': x})
        return {'k': 'var', 'd': d, 'n': 'cell$', 't': t, 'l': y.get('l')}

    def constant(self, e):
        e = strip(e)
        if not isinstance(e, dict):
            return False
        k = e.get('k')
        if k in ('str', 'int', 'enum', 'null', 'flt', 'float', 'bool', 'mfref', 'fref', 'char'):
            return True
        if k == 'var':
            return bool(e.get('g')) and e.get('t', '').startswith('const ')
        if k in ('cast', 'un') and isinstance(e.get('e'), dict):
            return self.constant(e['e'])
        if k == 'ctor':
            return all(self.constant(x) for x in e.get('a', []) if not x.get('da'))
        return False

    def changed(self, body, v):
        d = v['d']
        for x in walk(body):
            if x.get('k') == 'bin' and x.get('as') and any(y.get('d') == d for y in walk(x['a'])):
                return True
            if x.get('k') == 'call' and x.get('o') is not None and strip(x['o']).get('d') == d and not x.get('cm') and x.get('n') not in ('begin', 'end', 'at', 'find', 'operator[]', 'front', 'back', 'data'):
                return True
            if x.get('k') == 'call' and 'map<' in x.get('cls', '') and x.get('op') == '[]' and strip(x['o']).get('d') == d:
                return True
            if x.get('k') == 'un' and x.get('op') in ('++', '--') and any(y.get('d') == d for y in walk(x['e'])):
                return True
        return False

    def table(self, e):
        e = strip(e)
        if not isinstance(e, dict) or e.get('k') not in ('var', 'list', 'ctor'):
            return None
        if e['k'] != 'var':
            return self.rows(e)
        if e.get('d') in self.tabs:
            return self.tabs[e['d']]
        if e.get('g') and e.get('t', '').startswith('const ') or 'const *[' in e.get('t', '') or e.get('g') and ' const[' in e.get('t', ''):
            g = self.P.globals.get(e.get('q'))
            if g and isinstance(g.get('init'), dict):
                return self.rows(g['init'])
        return None

    def row(self, tree, d, r):
        """tree with the variable d standing for row r, None when it is used as a whole"""
        bad = []

        def visit(n):
            if isinstance(n, list):
                return [visit(x) for x in n]
            if not isinstance(n, dict):
                return n
            if n.get('k') == 'mem' and not n.get('ar') and isinstance(n.get('b'), dict) and strip(n['b']).get('k') == 'var' and strip(n['b']).get('d') == d:
                if n.get('n') in r:
                    return r[n['n']]
                bad.append(n)
                return n
            if n.get('k') == 'var' and n.get('d') == d:
                if '' in r:
                    return r['']
                bad.append(n)
                return n
            return {k: (visit(v) if isinstance(v, (dict, list)) else v) for k, v in n.items()}
        out = visit(tree)
        return None if bad else out

    def loose(self, body, kinds, depth=0):
        """a break / continue that belongs to the loop itself"""
        if isinstance(body, list):
            return any(self.loose(x, kinds) for x in body)
        if not isinstance(body, dict):
            return False
        if body.get('k') in kinds:
            return True
        if body.get('k') in ('for', 'while', 'do', 'rfor', 'lambda'):
            return False
        if body.get('k') == 'switch':
            kinds = tuple(x for x in kinds if x != 'break')
        return any(self.loose(v, kinds) for v in body.values() if isinstance(v, (dict, list)))

    def guards(self, b):
        """if (c) continue; rest   ->   if (c) {} else { rest }"""
        if b.get('k') != 'seq':
            return b
        out = []
        for i, x in enumerate(b['s']):
            if isinstance(x, dict) and x.get('k') == 'continue':
                break
            if isinstance(x, dict) and x.get('k') == 'if' and not x.get('el') and isinstance(x.get('th'), dict):
                th = x['th']['s'] if x['th'].get('k') == 'seq' else [x['th']]
                if th and isinstance(th[-1], dict) and th[-1].get('k') == 'continue':
                    n = dict(x)
                    n['th'] = {'k': 'seq', 'l': x.get('l'), 'el': x.get('l'), 's': th[:-1]}
                    n['el'] = self.guards({'k': 'seq', 'l': x.get('l'), 'el': b.get('el'), 's': b['s'][i + 1:]})
                    out.append(n)
                    break
            out.append(x)
        r = dict(b)
        r['s'] = out
        return r

    def unrolled(self, copies, l, brk):
        seq = {'k': 'seq', 'l': l, 'el': l, 's': copies}
        self.did('table')
        seq = self.stmt(seq)
        if not brk:
            return [seq]
        return [{'k': 'do', 'l': l, 'b': seq, 'c': {'k': 'int', 'v': 0, 't': 'bool', 'b': True, 'l': l}}]

    def unroll(self, s):
        b = s.get('b')
        if not isinstance(b, dict) or any(x.get('k') == 'lambda' for x in walk(b)):
            return None
        if s['k'] == 'rfor':
            t = self.table(s['r'])
            if not t:
                return None
            cont = self.guards(b) if self.loose(b, ('continue',)) else b
            if self.loose(cont, ('continue',)):
                return None
            copies = [self.row(cont, s['v']['d'], r) for r in t]
            if any(c is None for c in copies):
                return None
            return self.unrolled(copies, s.get('l'), self.loose(cont, ('break',)))
        i = s.get('i')
        if not isinstance(i, dict) or i.get('k') != 'decl' or len(i['v']) != 1 or not self.isinc(s.get('inc'), i['v'][0]['d']):
            return None
        d = i['v'][0]['d']
        c = strip(s.get('c'))
        init = strip(i['v'][0].get('init')) or {}
        if init.get('k') != 'int' or init.get('v') != 0 or not isinstance(c, dict) or c.get('k') != 'bin' or c.get('op') not in ('<', '!='):
            return None
        x = strip(c['a'])
        if x.get('k') == 'cast':
            x = strip(x['e'])
        if x.get('d') != d:
            return None

        def at(n):
            """(table, ) for TABLE[i]"""
            if n.get('k') == 'idx':
                o, j = n['b'], n['i']
            elif n.get('k') == 'call' and (n.get('op') == '[]' or n.get('n') == 'at') and n.get('o') is not None and len(n.get('a', [])) == 1:
                o, j = n['o'], n['a'][0]
            else:
                return None
            j = strip(j)
            while j.get('k') == 'cast':
                j = strip(j['e'])
            return self.table(o) if j.get('k') == 'var' and j.get('d') == d else None
        tabs = [t for n in walk(b) for t in [at(n)] if t]
        if not tabs:
            return None
        y = strip(c['b'])
        while y.get('k') == 'cast':
            y = strip(y['e'])
        n = y.get('cv') if y.get('cv') is not None else y.get('v') if y.get('k') == 'int' else None
        if n is None and y.get('k') == 'call' and y.get('n') == 'size' and y.get('o') is not None and self.table(y['o']):
            n = len(self.table(y['o']))
        if n is None and y.get('k') == 'var' and y.get('g'):
            g = self.P.globals.get(y.get('q')) or {}
            n = (strip(g.get('init')) or {}).get('v') if isinstance(g.get('init'), dict) else None
        try:
            n = int(n)
        except (TypeError, ValueError):
            return None
        if not 0 < n <= 64 or any(len(t) < n for t in tabs) or self.loose(b, ('continue',)):
            return None
        if any(x.get('k') in ('bin', 'un') and (x.get('as') or x.get('op') in ('++', '--')) and strip(x.get('a') or x.get('e')).get('d') == d for x in walk(b)):
            return None
        copies = []
        for j in range(n):
            bad = []

            def visit(m):
                if isinstance(m, list):
                    return [visit(x) for x in m]
                if not isinstance(m, dict):
                    return m
                if m.get('k') == 'mem' and not m.get('ar') and isinstance(m.get('b'), dict) and at(strip(m['b'])):
                    r = at(strip(m['b']))[j]
                    if m.get('n') in r:
                        return r[m['n']]
                t = at(m)
                if t:
                    if '' in t[j]:
                        return t[j]['']
                    bad.append(m)
                    return m
                if m.get('k') == 'var' and m.get('d') == d:
                    return {'k': 'int', 'v': j, 't': m.get('t'), 'l': m.get('l')}
                return {k: (visit(v) if isinstance(v, (dict, list)) else v) for k, v in m.items()}
            copies.append(visit(b))
            if bad:
                return None
        return self.unrolled(copies, s.get('l'), self.loose(b, ('break',)))

    def same(self, a, b, l):
        t = (b.get('t') or '').replace('const ', '').rstrip('&').strip()
        if t.endswith('TXString'):
            return {'k': 'call', 'fn': 'VectorworksMVR::operator==(const VectorworksMVR::TXString &, const VectorworksMVR::TXString &)', 'q': 'VectorworksMVR::operator==', 'n': 'operator==', 'op': '==',
                    'a': [b, a], 'pt': ['const VectorworksMVR::TXString &', 'const VectorworksMVR::TXString &'], 't': 'bool', 'l': l}
        if 'basic_string' in t:
            return {'k': 'call', 'fn': 'std::operator==(string, string)', 'q': 'std::operator==', 'n': 'operator==', 'op': '==', 'a': [b, a], 'pt': ['const %s &' % t] * 2, 't': 'bool', 'l': l}
        return {'k': 'bin', 'op': '==', 'a': b, 'b': a, 't': 'bool', 'l': l}

    def lookup(self, s, v, c, rest, alts, out):
        """it = first row whose condition holds; afterwards only it == end and it->field are used"""
        d = v['d']
        if not self.derefs(rest, d, c):
            return False
        l = s.get('l')
        names = {}
        whole = []

        def visit(n):
            if isinstance(n, list):
                return [visit(x) for x in n]
            if not isinstance(n, dict):
                return n
            for op in ('==', '!='):
                if self.endof(n, d, op) is not None:
                    var = {'k': 'var', 'd': fd, 'n': 'found$', 't': 'bool', 'l': n.get('l')}
                    return var if op == '!=' else {'k': 'un', 'op': '!', 'e': var, 't': 'bool', 'l': n.get('l')}
            if n.get('k') == 'mem' and isinstance(n.get('b'), dict):
                b = strip(n['b'])
                if b.get('k') == 'call' and b.get('op') in ('*', '->') and b.get('o') and strip(b['o']).get('d') == d and not b.get('a'):
                    if n['n'] not in names:
                        names[n['n']] = (_new(), n.get('t', '').replace('const ', '') if not n.get('t', '').endswith('*') else n['t'])
                    return {'k': 'var', 'd': names[n['n']][0], 'n': n['n'] + '$', 't': names[n['n']][1], 'l': n.get('l')}
            if n.get('k') == 'var' and n.get('d') == d:
                whole.append(n)
            return {k: (visit(x) if isinstance(x, (dict, list)) else x) for k, x in n.items()}
        fd = _new()
        new = visit(rest)
        if whole or not all(f in r for _, r in alts for f in names):
            return False
        body = []
        for cond, r in alts:
            hit = [{'k': 'bin', 'as': True, 'op': '=', 'a': {'k': 'var', 'd': fd, 'n': 'found$', 't': 'bool', 'l': l}, 'b': {'k': 'int', 'v': 1, 'b': True, 't': 'bool', 'l': l}, 't': 'bool', 'l': l}]
            for f, (fdn, ft) in names.items():
                hit.append({'k': 'bin', 'as': True, 'op': '=', 'a': {'k': 'var', 'd': fdn, 'n': f + '$', 't': ft, 'l': l}, 'b': r[f], 't': ft, 'l': l})
            body.append({'k': 'if', 'l': l, 'c': cond, 'el': None, 'th': {'k': 'seq', 'l': l, 'el': l, 's': hit + [{'k': 'break', 'l': l}]}})
        out.append({'k': 'decl', 'l': l, 'v': [{'d': fd, 'l': l, 'n': 'found$', 't': 'bool', 'init': {'k': 'int', 'v': 0, 'b': True, 't': 'bool', 'l': l}}]})
        for f, (fdn, ft) in names.items():
            out.append({'k': 'decl', 'l': l, 'v': [{'d': fdn, 'l': l, 'n': f + '$', 't': ft}]})
        out.append({'k': 'do', 'l': l, 'b': {'k': 'seq', 'l': l, 'el': l, 's': body}, 'c': {'k': 'int', 'v': 0, 'b': True, 't': 'bool', 'l': l}})
        rest[:] = new
        self.did('lookup')
        return True

    # ------------------------------------------------------------------ counted and iterator loops
    def forloop(self, s):
        i = s.get('i')
        if not isinstance(i, dict) or i.get('k') != 'decl' or not isinstance(s.get('inc'), dict) or not isinstance(s.get('b'), dict):
            return None
        v = i['v'][0]
        init = strip(v.get('init')) if v.get('init') else None
        if not isinstance(init, dict) or not self.isinc(s['inc'], v['d']):
            return None
        if init.get('k') == 'call' and init.get('n') in BEGIN and len(i['v']) <= 2:
            e = self.endof(s.get('c'), v['d'], '!=')
            if e is not None and len(i['v']) == 2 and e.get('k') == 'var' and e.get('d') == i['v'][1]['d'] and not any(x.get('d') == e['d'] for x in walk(s['b'])):
                e = strip(i['v'][1].get('init'))
            elif len(i['v']) == 2:
                return None
            c = span(init, e)
            if c is None:
                return None
            r = self.iterloop(c, v, s['b'], s.get('l'))
            return [r] if r is not None else None
        if init.get('k') == 'int' and init.get('v') == 0 and len(i['v']) <= 2:
            c = strip(s.get('c'))
            if not isinstance(c, dict) or c.get('k') != 'bin' or c.get('op') not in ('<', '!=', '>'):
                return None
            a, b = strip(c['a']), strip(c['b'])
            if c['op'] == '>':
                a, b = b, a
            if a.get('k') == 'cast':
                a = strip(a['e'])
            if a.get('k') != 'var' or a.get('d') != v['d']:
                return None
            if len(i['v']) == 2:
                if b.get('k') != 'var' or b.get('d') != i['v'][1]['d'] or not i['v'][1].get('init') or any(x.get('d') == b['d'] for x in walk(s['b'])):
                    return None
                b = strip(i['v'][1]['init'])
            while b.get('k') == 'cast':
                b = strip(b['e'])
            if b.get('k') != 'call' or b.get('n') != 'size' or b.get('a') or not b.get('o') or b.get('ar') or not b.get('cls', '').startswith(('std::vector<', 'std::deque<', 'std::array<')):
                return None
            return self.indexloop(b['o'], v, s)
        return None

    def touched(self, body, c):
        """the container may change inside the loop"""
        sc = shape(strip(c))
        for x in walk(body):
            if x.get('k') == 'call' and x.get('o') is not None and shape(strip(x['o'])) == sc and not x.get('cm') and x.get('n') not in ('begin', 'end', 'at', 'front', 'back', 'operator[]') and x.get('op') != '[]':
                return True
            if x.get('k') == 'bin' and x.get('as') and shape(strip(x['a'])) == sc:
                return True
            if x.get('k') == 'call' and x.get('op') == '=' and x.get('o') is not None and shape(strip(x['o'])) == sc:
                return True
        return False

    def indexloop(self, c, v, s):
        if not pure(c) or self.touched(s['b'], c):
            return None
        d = v['d']
        sc = shape(strip(c))
        total = sum(1 for x in walk(s['b']) if x.get('k') == 'var' and x.get('d') == d)
        hits = []

        def use(n):
            if n.get('k') != 'call' or not n.get('o') or len(n.get('a', [])) != 1:
                return False
            if n.get('op') != '[]' and n.get('n') != 'at' or n.get('ar'):
                return False
            i = strip(n['a'][0])
            while i.get('k') == 'cast':
                i = strip(i['e'])
            return i.get('k') == 'var' and i.get('d') == d and shape(strip(n['o'])) == sc
        for x in walk(s['b']):
            if use(x):
                hits.append(x)
        if not hits or len(hits) != total:
            return None
        t = (hits[0].get('t') or elemtype(c)).rstrip('&').strip()
        nd = _new()
        body = self.subst(s['b'], use, {'k': 'var', 'd': nd, 'n': 'elem$', 't': t})
        self.did('index loop')
        body = self.stmt(body)
        return [self.loop(c, {'d': nd, 'n': 'elem$', 't': t + ' &'}, body, s.get('l'))]

    def subst(self, tree, test, var):
        def visit(n):
            if isinstance(n, list):
                return [visit(x) for x in n]
            if not isinstance(n, dict):
                return n
            if test(n):
                r = dict(var)
                r['l'] = n.get('l')
                return r
            return {k: (visit(v) if isinstance(v, (dict, list)) else v) for k, v in n.items()}
        return visit(tree)

    def iterloop(self, c, v, body, l):
        d = v['d']
        if self.touched(body, c) or not self.derefs(body, d, c, compare=False):
            return None
        t = None
        for x in walk(body):
            if x.get('k') == 'call' and x.get('op') == '*' and x.get('o') and strip(x['o']).get('d') == d and x.get('t'):
                t = x['t'].rstrip('&').strip()
        t = t or elemtype(c)
        nd = _new()
        var = {'k': 'var', 'd': nd, 'n': 'elem$', 't': t}

        def visit(n):
            if isinstance(n, list):
                return [visit(x) for x in n]
            if not isinstance(n, dict):
                return n
            if n.get('k') == 'call' and n.get('op') == '*' and n.get('o') and strip(n['o']).get('d') == d and not n.get('a'):
                r = dict(var)
                r['l'] = n.get('l')
                return r
            m = {k: (visit(w) if isinstance(w, (dict, list)) else w) for k, w in n.items()}
            for f in ('b', 'o'):          # it->member / it->method()
                y = n.get(f)
                if isinstance(y, dict) and y.get('k') == 'call' and y.get('op') == '->' and y.get('o') and strip(y['o']).get('d') == d:
                    r = dict(var)
                    r['l'] = n.get('l')
                    m[f] = r
                    m['ar'] = False
            return m
        body = visit(body)
        self.did('iterator loop')
        body = self.stmt(body)
        return self.loop(c, {'d': nd, 'n': 'elem$', 't': t + ' &'}, body, l)


def typeof(e):
    e = strip(e)
    return (e.get('t') or '').rstrip('&').strip()


def elemtype(c):
    t = typeof(c)
    if t.startswith('const '):
        t = t[6:]
    i = t.find('<')
    if i < 0:
        return ''
    depth = 0
    out = ''
    for ch in t[i + 1:]:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
            if depth < 0:
                break
        elif ch == ',' and depth == 0:
            break
        out += ch
    if 'map<' in t[:i + 1]:
        return 'std::pair<%s>' % t[i + 1:]
    return out.strip()


def normalize(P):
    N = Norm(P)
    for k, f in list(P.funcs.items()):
        if not f.get('_norm'):
            f['_norm'] = 1
            N.function(f)
    P.norm = N.count
    P.norm_gone = N.gone
    for k in N.gone:
        if k in P.funcs:
            f = P.funcs.pop(k)
            lst = P.file_funcs.get(f['file'])
            if lst and k in lst:
                lst.remove(k)
    return P
