"""Repository vocabulary for the dataflow engine: the XML node API, the converter family, COM smart pointers."""
from flow import *

NODE_OUT = {'GetFirstChildNode', 'GetNextSiblingNode', 'GetParentNode'}


def locs_of_ptr(argv_i):
    return [t[1] if t[0] == 'addr' else t for t in argv_i]


class XmlHooks:
    """models the XML node interface; records reads/writes of attributes and children"""
    pure_call = True

    def __init__(self, P):
        self.P = P
        self.events = []

    def ev(self, eng, st, kind, e, **kw):
        kw.update(kind=kind, pc=st.pc, where=eng.where(e), stack=[f.fn['q'] for f in eng.stack], line=e.get('l'))
        self.events.append(kw)

    def on_call(self, eng, st, e, obj, argv, argl):
        n = e['n']
        cls = e.get('cls', '')
        if 'VCOMPtr' in cls or 'VCOMPtr' in e.get('q', ''):
            if n == 'operator&':
                return E(('addr', o) for o in obj)
            if n in ('operator->', 'operator*') or n.startswith('operator '):
                return None
            if n == 'operator=':
                for o in obj:
                    eng.write(o, argv[0], st, e, weak=len(obj) > 1)
                return argv[0]
            if n in ('AddRef', 'Release'):
                return E()
        if cls.endswith('IXMLFileNode') or cls.endswith('CXMLFileNodeImpl'):
            par = obj
            nodes = eng.vals(obj, st) if obj and all(o[0] in ('L', 'fld', 'G') for o in obj) else obj
            nd = eng.one(nodes)
            if n == 'CreateChildNode':
                nm = eng.one(argv[0])
                for l in locs_of_ptr(argv[1]):
                    eng.write(l, E([('child', nd, nm)]), st, e)
                self.ev(eng, st, 'create', e, node=nd, name=nm)
                return E([('int', 0)])
            if n == 'GetChildNode' and len(argv) == 2:
                nm = eng.one(argv[0])
                for l in locs_of_ptr(argv[1]):
                    eng.write(l, E([('child', nd, nm)]), st, e)
                self.ev(eng, st, 'getchild', e, node=nd, name=nm)
                return E([('haschild', nd, nm)])
            if n in NODE_OUT and argv:
                for l in locs_of_ptr(argv[0]):
                    if n == 'GetFirstChildNode':
                        v = E([('kid', nd)])
                    elif n == 'GetNextSiblingNode':
                        v = nodes
                    else:
                        v = E([('parentnode', nd)])
                    eng.write(l, v, st, e)
                return E([('has' + n, nd)])
            if n == 'GetNodeName':
                for l in argl[0]:
                    eng.write(l, E([('nodename', nd)]), st, e)
                return E([('int', 0)])
            if n == 'GetNodeAttributeValue':
                nm = eng.one(argv[0])
                self.ev(eng, st, 'read', e, node=nd, name=nm, target=argl[1])
                for l in argl[1]:
                    eng.write(l, E([('attr', nd, nm)]), st, e)
                return E([('hasattr', nd, nm)])
            if n == 'GetNodeValue':
                self.ev(eng, st, 'readval', e, node=nd, target=argl[0])
                for l in argl[0]:
                    eng.write(l, E([('nodeval', nd)]), st, e)
                return E([('hasval', nd)])
            if n == 'SetNodeAttributeValue':
                self.ev(eng, st, 'write', e, node=nd, name=eng.one(argv[0]), value=argv[1])
                return E([('int', 0)])
            if n == 'SetNodeValue':
                self.ev(eng, st, 'writeval', e, node=nd, value=argv[0])
                return E([('int', 0)])
        if n == 'CheckAbort':
            return E([('abort',)])
        if n == 'WriteToNode':
            self.ev(eng, st, 'childwrite', e, obj=obj, node=eng.one(argv[0]))
            return E()
        if n == 'ReadFromNode':
            self.ev(eng, st, 'childread', e, obj=obj, node=eng.one(argv[0]))
            return E()
        if n in ('push_back', 'emplace_back') and obj:
            self.ev(eng, st, 'push', e, obj=obj, value=argv[0])
            return None
        if n == 'insert' and obj and 'vector' in cls:
            self.ev(eng, st, 'insert', e, obj=obj, value=argv[-1])
            return None
        return self.extra(eng, st, e, obj, argv, argl)

    def extra(self, eng, st, e, obj, argv, argl):
        return None

    def on_write(self, eng, st, loc, vals, node, init=False):
        if loc[0] == 'fld' and not init:
            self.events.append({'kind': 'set', 'loc': loc, 'value': vals, 'pc': st.pc, 'where': eng.where(node), 'stack': [f.fn['q'] for f in eng.stack]})


def all_subclasses(P, base):
    subs = set()

    def rec(b):
        for q, c in P.classes.items():
            if any(x.split('<')[0] == b for x in c['bases']) and q not in subs:
                subs.add(q)
                rec(q)
    rec(base)
    return subs


def method(P, cls, name, seen=None):
    """resolve a method on a class, walking up the bases; returns the function key"""
    for k, f in P.funcs.items():
        if f.get('cls') == cls and f['n'] == name:
            return k
    c = P.classes.get(cls)
    for b in (c['bases'] if c else []):
        r = method(P, b, name)
        if r:
            return r
    return None


class MethodIndex:
    def __init__(self, P):
        self.P = P
        self.idx = {}
        for k, f in P.funcs.items():
            if f.get('cls'):
                self.idx.setdefault((f['cls'], f['n']), []).append(k)

    def find(self, cls, name, pred=None):
        for k in self.idx.get((cls, name), []):
            if pred is None or pred(self.P.funcs[k]):
                return k
        c = self.P.classes.get(cls)
        for b in (c['bases'] if c else []):
            r = self.find(b, name, pred)
            if r:
                return r
        return None
