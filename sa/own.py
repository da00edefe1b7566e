"""Ownership of tree nodes: an abstract interpretation over a powerset of abstract heaps (site-named symbols, flow-sensitive slots,
null facts). Calls to loop-free functions are expanded, others are replaced by summaries solved to a fixpoint: which arguments end
up below which result, which are freed, and for which boolean result."""
import re
import extract as X
from flow import walk, strip, lit, kids, assert_cond, is_assert_fail

Z = ('Z',); DEEP = ('deep',)
ZS = frozenset([Z])
CAP = 24


def elem(T, t):
    x = T[t]
    while x.get('ref') and x.get('of') is not None: x = T[x['of']]
    return x


def depth(s):
    n = 0
    while s[0] == 'ld': n += 1; s = s[1]
    return n


def root(s):
    while s[0] == 'ld': s = s[1]
    return s


def mentions(c, site):
    return c == site or isinstance(c, tuple) and any(mentions(x, site) for x in c if isinstance(x, tuple))


class St:
    __slots__ = ('v', 'h', 'fr', 'soft', 'ab', 'z', 'nz', 'b', 'cls', 'multi', 'log', 'approx')
    def __init__(s):
        s.v = {}; s.h = {}; s.fr = {}; s.soft = {}; s.ab = {}; s.z = set(); s.nz = set(); s.b = {}; s.cls = {}; s.multi = set(); s.log = []; s.approx = set()
    def clone(s):
        r = St()
        for k in St.__slots__:
            x = getattr(s, k); setattr(r, k, x.copy())
        return r
    def key(s):
        return (frozenset(s.v.items()), frozenset(s.h.items()), frozenset(s.fr), frozenset(s.soft), frozenset(s.ab.items()), frozenset(s.z), frozenset(s.nz), frozenset(s.b.items()), frozenset(s.multi))


class Info:
    """node and owner classes of a unit"""
    def __init__(s, d):
        s.d = d; s.T = d['types']; s.R = {r['id']: r for r in d['records']}; s.F = {f['id']: f for f in d['funcs']}
        s.byfull = {r.get('full') or r['q']: r for r in d['records']}
        s.decl = {x['id']: x for x in d['decls']} | s.F
        s.rel = {}                  # class id -> names of the fields its destructor hands to a function that releases nodes
        s.own = {}                  # class id -> names of the pointer fields its destructor deletes
        for f in d['funcs']:
            if f.get('dtor') and isinstance(f.get('body'), dict):
                ns = set()
                for x in walk(f['body']):
                    if x.get('k') == 'delete':
                        e = strip(x['e'])
                        while isinstance(e, dict) and e.get('k') == 'idx': e = strip(e['a'])
                        if isinstance(e, dict) and e.get('k') == 'mem': ns.add(e['n'])
                        elif isinstance(e, dict) and e.get('k') == 'ref':
                            # for (auto c : ch) delete c;
                            for y in walk(f['body']):
                                if y.get('k') == 'rfor' and isinstance(y.get('v'), dict) and y['v'].get('id') == e.get('d'):
                                    m = strip(y.get('r') or {})
                                    if isinstance(m, dict) and m.get('k') == 'mem': ns.add(m['n'])
                    if x.get('k') == 'call' and s.frees(x.get('f'), set()):
                        for a in x.get('a') or []:
                            a = strip(a)
                            while isinstance(a, dict) and a.get('k') == 'ctor' and len(a.get('a') or []) == 1: a = strip(a['a'][0])
                            if isinstance(a, dict) and a.get('k') == 'mem' and strip(a.get('b') or {'k': 'this'}).get('k') == 'this': s.rel[f.get('cls')] = s.rel.get(f.get('cls'), set()) | {a['n']}
                if ns: s.own[f.get('cls')] = s.own.get(f.get('cls'), set()) | ns
        s.c = {}
    def frees(s, fid, seen):
        f = s.F.get(fid)
        if fid in seen or f is None or not isinstance(f.get('body'), dict): return False
        seen.add(fid)
        return any(x.get('k') == 'delete' or x.get('k') == 'call' and (x.get('n') in ('dealloc', 'free') or s.frees(x.get('f'), seen)) for x in walk(f['body']))
    def mro(s, rid):
        q = [rid]
        for b in (s.R.get(rid) or {}).get('bases') or []:
            br = s.T[b].get('rec')
            if br is not None: q += s.mro(br)
        return q
    def owns(s, rid):
        if rid not in s.c:
            r = set()
            for x in s.mro(rid): r |= s.own.get(x, set()) | s.rel.get(x, set())
            s.c[rid] = r
        return s.c[rid]
    def pointee(s, t):
        """class id of the node a pointer type refers to"""
        if t is None: return None
        x = elem(s.T, t)
        if x.get('ptr') and x.get('of') is not None:
            r = s.R.get(s.T[x['of']].get('rec'))
            return r['id'] if r and r.get('lib') else None
        r = s.R.get(x.get('rec'))
        if r and r['n'] == 'ptr32':
            r = s.byfull.get(r['targs'][0]) if r.get('targs') else None
            return r['id'] if r else None
        return None
    def nodeish(s, rid):
        """has a field (or an array of) pointing to its own kind"""
        key = ('n', rid)
        if key not in s.c:
            s.c[key] = False; res = False
            for x in s.mro(rid):
                for f in (s.R.get(x) or {}).get('fields') or []:
                    if 't' not in f: continue
                    t = s.T[f['t']]
                    while t.get('arr') and t.get('of') is not None: t = s.T[t['of']]
                    p = None
                    if t.get('ptr') and t.get('of') is not None: p = s.T[t['of']].get('rec')
                    elif s.R.get(t.get('rec'), {}).get('n') == 'ptr32': p = -1
                    if p is not None: res = True
                    if 'std::array<' in t['s'] and ('*' in t['s'] or 'ptr32' in t['s']): res = True
                    if t['s'].endswith(']') and '*' in t['s']: res = True
            s.c[key] = res
        return s.c[key]
    def arrlen(s, rid, name):
        for x in s.mro(rid) if rid is not None else []:
            for f in (s.R.get(x) or {}).get('fields') or []:
                if f['n'] == name and 't' in f:
                    m = re.search(r'\[(\d+)\]$', s.T[f['t']]['s']) or re.search(r'std::array<.*, (\d+)>$', s.T[f['t']]['s'])
                    if m and int(m.group(1)) <= 16: return int(m.group(1))
        return None
    def nptr(s, t):
        p = s.pointee(t)
        return p if p is not None and s.nodeish(p) else None
    def objcls(s, t):
        """class of an lvalue/object type that is an owner or a node"""
        if t is None: return None
        r = s.R.get(elem(s.T, t).get('rec'))
        if r is None: return None
        return r['id'] if s.owns(r['id']) or r.get('lib') and s.nodeish(r['id']) else None


class TooMany(Exception): pass


class Run:
    """one function analysed with symbolic arguments"""
    def __init__(s, A, fn):
        s.A = A; s.I = A.I; s.T = A.I.T; s.fn = fn; s.stack = [fn['id']]; s.ctx = []; s.inloop = 0; s.steps = 0

    # ---------------------------------------------------------------- heap
    def bad(s, st, e, msg):
        st.log.append((s.A.where(e, s.cur()), msg, s.A.F[s.stack[-1]]['q']))
    def cur(s): return s.A.F[s.stack[-1]]

    def killsite(s, st, site):
        st.b = {k: v for k, v in st.b.items() if not mentions(k, site)}
        hit = [k for k in st.h if mentions(k[1], site)]
        for k in hit:
            v = st.h.pop(k); n = 2 if k[0][0] == 'arr' else s.I.arrlen(st.cls.get(k[0]), k[1][0])
            for i in (range(n) if n else ['*']):
                nk = (k[0], (k[1][0], i))
                st.h[nk] = (s.load(st, [k[0]], nk[1]) if n else st.h.get(nk, frozenset())) | v
        ren = {}
        def r(sym):
            if sym[0] == 'ld' and mentions(sym, site):
                b = r(sym[1]); sl = sym[2]
                if mentions(sl, site): sl = (sl[0], '*')
                return ('ld', b, sl)
            return sym
        olds = set()
        for ss in list(st.v.values()) + list(st.h.values()): olds |= s.symsof(ss)
        olds |= {k[0] for k in st.h} | set(st.fr) | st.z | st.nz | set(st.ab)
        for x in olds:
            y = r(x)
            if y != x: ren[x] = y
        if ren:
            s.rename(st, ren)
            st.multi |= set(ren.values())

    def symsof(s, v):
        if isinstance(v, frozenset): return set(v)
        if isinstance(v, tuple) and v and v[0] == 'P': return set(v[1])
        if isinstance(v, tuple) and v and v[0] == 'T':
            r = set()
            for x in v[1]: r |= s.symsof(x)
            return r
        if isinstance(v, tuple) and v and v[0] == 'O': return {v[1]}
        return set()

    def rename(s, st, ren):
        g = lambda x: ren.get(x, x)
        def val(v):
            if isinstance(v, frozenset): return frozenset(map(g, v))
            if isinstance(v, tuple) and v and v[0] == 'P': return ('P', frozenset(map(g, v[1])))
            if isinstance(v, tuple) and v and v[0] == 'T': return ('T', tuple(map(val, v[1])))
            if isinstance(v, tuple) and v and v[0] == 'O': return ('O', g(v[1]))
            if isinstance(v, tuple) and v and v[0] == 'S': return ('S', g(v[1]), v[2])
            return v
        st.v = {k: val(v) for k, v in st.v.items()}
        h = {}
        for (b, sl), v in st.h.items():
            k = (g(b), sl); v = val(v); h[k] = h.get(k, frozenset()) | v
        st.h = h
        st.fr = {g(k): v for k, v in st.fr.items()}; st.soft = {g(k): v for k, v in st.soft.items()}
        st.z = {g(x) for x in st.z if x not in ren}; st.nz = {g(x) for x in st.nz if x not in ren}
        st.ab = {g(k): frozenset(map(g, v)) for k, v in st.ab.items()}
        for a, b in ren.items():
            if a in st.cls: st.cls[b] = st.cls[a]

    def fresh(s, st, sym):
        """(re)create a site-named symbol"""
        used = {k[0] for k in st.h}
        for v in list(st.v.values()) + list(st.h.values()): used |= s.symsof(v)
        if sym in used or sym in st.ab:
            old = ('old', sym); s.rename(st, {sym: old}); st.multi.add(old)
        for k in [k for k in st.h if k[0] == sym]: del st.h[k]
        st.fr.pop(sym, None); st.soft.pop(sym, None); st.z.discard(sym); st.nz.discard(sym); st.ab.pop(sym, None)
        return sym

    @staticmethod
    def alias(a, b):
        """may two slot keys be the same place"""
        if a == b: return True
        if a[0] != b[0]: return False
        x, y = a[1], b[1]
        if isinstance(x, int) and isinstance(y, int): return x == y
        if x == ('!', y) or y == ('!', x): return False
        return True

    def load(s, st, bases, slot, cls=None):
        out = set()
        for b in bases:
            if b == Z: continue
            if b == DEEP or b[0] == 'unk': out.add(DEEP); continue
            if (b, slot) in st.h: out |= st.h[(b, slot)]; continue
            other = set()
            for k, v in st.h.items():
                if k[0] == b and s.alias(k[1], slot): other |= v
            if b[0] in ('new', 'obj') or b[0] == 'old' and b[1][0] in ('new', 'obj'): init = {Z}
            elif depth(b) >= (2 if s.inloop else 3): init = {DEEP}
            else:
                n = ('ld', b, slot); init = {n}
                if cls is not None: st.cls[n] = cls
                if b in st.multi: st.multi.add(n)
            val = frozenset(init | other)
            if slot[1] != '*' : st.h[(b, slot)] = val
            out |= val
        out = {Z if x in st.z else x for x in out}
        return frozenset(out)

    def store(s, st, bases, slot, val, e=None):
        bs = [b for b in bases if b not in (Z, DEEP) and b[0] != 'unk']
        if slot[1] == '*' and all(s.I.arrlen(st.cls.get(b), slot[0]) for b in bs):
            for b in bs:
                for i in range(s.I.arrlen(st.cls.get(b), slot[0])): s.store(st, [b, ('unk',)], (slot[0], i), val, e)
            return
        strong = len(bs) == 1 and bs[0] not in st.multi and DEEP not in bases and ('unk',) not in bases
        for b in bs:
            if slot[1] == '*': 
                for k in [k for k in st.h if k[0] == b and s.alias(k[1], slot)]: st.h[k] = st.h[k] | val
                st.h[(b, slot)] = st.h.get((b, slot), frozenset()) | val
                continue
            if strong:
                if (b, slot) not in st.h and b[0] not in ('new', 'obj'): s.load(st, [b], slot)      # remember what was there
                for k in [k for k in st.h if k[0] == b and k[1] != slot and s.alias(k[1], slot)]: st.h[k] = st.h[k] | val
                st.h[(b, slot)] = val
            else:
                st.h[(b, slot)] = s.load(st, [b], slot) | val
                for k in [k for k in st.h if k[0] == b and k[1] != slot and s.alias(k[1], slot)]: st.h[k] = st.h[k] | val

    def free(s, st, syms, e, soft=False, seen=None):
        seen = set() if seen is None else seen
        w = s.A.where(e, s.cur())
        for x in syms:
            if x in (Z, DEEP) or x in seen: continue
            seen.add(x)
            if x in st.fr and len(syms) == 1 and x not in st.multi:
                s.bad(st, e, 'frees a node that %s has already freed' % st.fr[x])
            if soft: st.soft[x] = w
            else: st.fr[x] = w
            if soft: continue
            own = s.I.owns(st.cls[x]) if x in st.cls else None
            for (b, sl), v in list(st.h.items()):
                if b == x and (own is None or sl[0] in own): s.free(st, [y for y in v if y not in st.z], e, False, seen)

    # ---------------------------------------------------------------- places
    # ('v', id) variable; ('s', bases, slot) slot; ('o', sym) an object; None
    def place(s, e, st):
        """list of (place, state)"""
        e = strip(e)
        if not isinstance(e, dict): return [(None, st)]
        k = e.get('k')
        if k == 'ref':
            x = st.v.get(e.get('d'))
            if isinstance(x, tuple) and x and x[0] == 'R': return [(x[1], st)]
            if isinstance(x, tuple) and x and x[0] == 'O': return [(('o', x[1]), st)]
            return [(('v', e.get('d')), st)]
        if k == 'mem':
            if e.get('dk') == 'gvar': return [(('g', e.get('d')), st)]
            b = e.get('b')
            out = []
            for bs, s2 in s.base(b, st, bool(e.get('ar'))):
                if bs is None: out.append((None, s2)); continue
                s.deref(s2, bs, e)
                if bs and all(x == Z for x in bs): continue
                out.append((('s', bs, (e['n'], 0) if not s.isarr(e) else (e['n'], None)), s2))
            return out
        if k == 'idx' or k == 'call' and e.get('opc') == '[]' and not s.A.inlinable(e):
            b = e['a'] if k == 'idx' else e['o'] if e.get('o') is not None else e['a'][0]
            i = e['i'] if k == 'idx' else e['a'][-1]
            out = []
            for p, s2 in s.place(b, st):
                for iv, s3 in s.ev(i, s2):
                    c = s.canon(iv, i, s3)
                    if p and p[0] == 's' and p[2][1] is None: out.append((('s', p[1], (p[2][0], c)), s3))
                    elif p and p[0] == 'v' and ('arr', p[1]) in s3.cls: out.append((('s', frozenset([('arr', p[1])]), ('', c)), s3))
                    else: out.append((None, s3))
            return out
        if k == 'un' and e['op'] == '*':
            x = strip(e['e'])
            if isinstance(x, dict) and x.get('k') == 'this':
                t = st.v.get('this'); return [(('o', t[1]) if t else None, st)]
            out = []
            for v, s2 in s.ev(x, st):
                if isinstance(v, tuple) and v and v[0] == 'A': out.append((v[1], s2))
                elif isinstance(v, tuple) and v and v[0] == 'P': s.deref(s2, v[1], e); out.append((('n', v[1]), s2))
                else: out.append((None, s2))
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for _, s2 in s.ev(e['a'], st): out += s.place(e['b'], s2)
            return out
        if k == 'bin' and e['op'] == '=':
            out = []
            for _, s2 in s.ev(e, st): out += s.place(e['a'], s2)
            return out
        if k == 'cond':
            out = []
            t, f = s.cond(e['c'], [st])
            for x in t: out += s.place(e['a'], x)
            for x in f: out += s.place(e['b'], x)
            return out
        if k == 'cast': return s.place(e['e'], st)
        if k == 'this':
            t = st.v.get('this'); return [(('o', t[1]) if t else None, st)]
        if k == 'call':
            if e.get('n') in ('move', 'forward', 'as_const') and e.get('a') and not s.A.inlinable(e): return s.place(e['a'][0], st)
            if e.get('opc') in ('->', '*') and 'ptr32' in s.T[strip(e['o'] if e.get('o') is not None else e['a'][0]).get('t', 0)]['s']:
                out = []
                for v, s2 in s.ev(e['o'] if e.get('o') is not None else e['a'][0], st):
                    if isinstance(v, tuple) and v and v[0] == 'P': s.deref(s2, v[1], e); out.append((('n', v[1]), s2))
                    else: out.append((None, s2))
                return out
            out = []
            for v, s2 in s.call(e, st, ref=True):
                if isinstance(v, tuple) and v and v[0] == 'R': out.append((v[1], s2))
                elif isinstance(v, tuple) and v and v[0] == 'O': out.append((('o', v[1]), s2))
                else: out.append((('t', v), s2))
            return out
        if k in ('ctor', 'init', 'stdinit', 'pinit', 'x', 'mat'):
            out = []
            for v, s2 in s.ev(e, st):
                out.append(((('o', v[1]) if isinstance(v, tuple) and v and v[0] == 'O' else ('t', v)), s2))
            return out
        return [(None, st)]

    def isarr(s, e):
        t = s.T[e['t']] if 't' in e else None
        if t is None: return False
        return bool(t.get('arr')) or t['s'].endswith(']') or t['s'].replace('const ', '').startswith('std::array<')

    def deref(s, st, bases, e):
        live = [b for b in bases if b != Z]
        if live and all(b in st.fr for b in live) and not any(b in st.multi or b == DEEP for b in live):
            s.bad(st, e, 'uses a node that %s has freed' % st.fr[live[0]])
        for b in live:
            if len(live) == 1: st.nz.add(b)

    def base(s, b, st, arrow):
        """objects a member expression's base denotes: list of (frozenset | None, state)"""
        if b is None:
            t = st.v.get('this'); return [(frozenset([t[1]]) if t else None, st)]
        b = strip(b)
        if b.get('k') == 'this':
            t = st.v.get('this'); return [(frozenset([t[1]]) if t else None, st)]
        out = []
        if arrow and not (b.get('k') == 'call' and b.get('opc') == '->'):
            for v, s2 in s.ev(b, st):
                if isinstance(v, tuple) and v and v[0] == 'P': out.append((v[1], s2))
                elif isinstance(v, tuple) and v and v[0] == 'A' and v[1] and v[1][0] == 'o': out.append((frozenset([v[1][1]]), s2))
                else: out.append((None, s2))
            return out
        for p, s2 in s.place(b, st):
            if p and p[0] == 'o': out.append((frozenset([p[1]]), s2))
            elif p and p[0] == 'n': out.append((p[1], s2))
            elif p and p[0] == 't' and isinstance(p[1], tuple) and p[1] and p[1][0] == 'O': out.append((frozenset([p[1][1]]), s2))
            elif p and p[0] == 's' and p[2][1] is not None: out.append((None, s2))
            else: out.append((None, s2))
        return out

    def read(s, p, st, t):
        if p is None: return None
        if p[0] == 't': return p[1]
        if p[0] == 'v':
            x = st.v.get(p[1])
            if isinstance(x, tuple) and x and x[0] == 'R': return s.read(x[1], st, t)
            if x is None and t is not None and not s.I.nptr(t) and not s.isctr(t): return ('E', ('var', p[1]))
            return x
        if p[0] == 's':
            c = s.I.nptr(t) if t is not None else None
            if p[2][1] is None: return None
            if c is not None or t is None: return ('P', s.load(st, p[1], p[2], c))
            return None
        if p[0] == 'o': return ('O', p[1])
        if p[0] == 'n': return None
        return None

    def isctr(s, t):
        x = elem(s.T, t)
        return x.get('rec') is not None

    def write(s, p, v, st, e, t=None):
        if p is None or p[0] in ('t', 'g'): return
        if p[0] == 'v':
            x = st.v.get(p[1])
            if isinstance(x, tuple) and x and x[0] == 'R': return s.write(x[1], v, st, e, t)
            st.v[p[1]] = v
            s.killsite(st, ('var', p[1]))
        elif p[0] == 's':
            if isinstance(v, tuple) and v and v[0] == 'P': s.store(st, p[1], p[2], v[1], e)
            elif t is not None and s.I.nptr(t) is not None: s.store(st, p[1], p[2], frozenset([DEEP]), e)

    def canon(s, v, e, st):
        x = lit(e) if e is not None else None
        if x is not None: return int(x)
        if isinstance(v, tuple) and v and v[0] == 'E': return v[1]
        return '*'

    # ---------------------------------------------------------------- expressions
    def evs(s, es, st):
        """evaluate several expressions left to right: list of (values, state)"""
        cur = [([], st)]
        for e in es:
            nxt = []
            for vs, s2 in cur:
                for v, s3 in s.ev(e, s2): nxt.append((vs + [v], s3))
            cur = nxt
        return cur

    def ev(s, e, st):
        s.steps += 1
        if s.steps > 60000: raise TooMany()
        e = strip(e)
        if not isinstance(e, dict): return [(None, st)]
        k = e.get('k')
        if k in ('int', 'bool', 'char'):
            v = lit(e); return [(('E', int(v)) if v is not None else None, st)]
        if k == 'null': return [(('P', ZS), st)]
        if k == 'this':
            t = st.v.get('this')
            return [((('A', ('o', t[1])) if t[1][0] == 'this' else ('P', frozenset([t[1]]))) if t else None, st)]
        if k in ('ref', 'mem', 'idx') or k == 'call' and e.get('opc') == '[]' and not s.A.inlinable(e):
            if k == 'ref' and lit(e) is not None: return [(('E', int(lit(e))), st)]
            if k == 'ref' and e.get('dk') in ('fn', 'func', 'enum'): return [(None, st)]
            out = []
            for p, s2 in s.place(e, st):
                v = s.read(p, s2, e.get('t'))
                if v is None and p and p[0] == 's' and len(p[1]) == 1 and p[2][1] == 0: 
                    site = ('fld', (id(e),) + tuple(s.ctx)); s.killsite(s2, site); v = ('E', site)
                out.append((v, s2))
            return out
        if k == 'un':
            op = e['op']
            if op == '&':
                out = []
                for p, s2 in s.place(e['e'], st):
                    if p and p[0] == 'n': out.append((('P', p[1]), s2))
                    elif p and p[0] == 'o' and p[1][0] != 'this': out.append((('P', frozenset([p[1]])), s2))
                    else: out.append((('A', p) if p else None, s2))
                return out
            if op == '*': return [(s.read(p, s2, e.get('t')), s2) for p, s2 in s.place(e, st)]
            if '++' in op or '--' in op:
                out = []
                for p, s2 in s.place(e['e'], st):
                    if p and p[0] == 'v': s.killsite(s2, ('var', p[1])); s2.v[p[1]] = None
                    out.append((None, s2))
                return out
            out = []
            for v, s2 in s.ev(e['e'], st):
                if op in ('!', 'not') and isinstance(v, tuple) and v and v[0] == 'E': out.append((('E', s.neg(v[1])), s2))
                else: out.append((None, s2))
            return out
        if k == 'bin': return s.binop(e, st)
        if k == 'cond':
            if assert_cond(e) is not None:
                t, f = s.cond(assert_cond(e), [st]); return [(None, x) for x in t]
            t, f = s.cond(e['c'], [st]); out = []
            for x in t: out += s.ev(e['a'], x)
            for x in f: out += s.ev(e['b'], x)
            return out
        if k == 'cast': return [(('P', ZS), st)] if e.get('ck') == 'NullToPointer' else s.ev(e['e'], st)
        if k == 'delete':
            out = []
            for v, s2 in s.ev(e['e'], st):
                if isinstance(v, tuple) and v and v[0] == 'P': s.A.seen('delete expressions', e); s.free(s2, list(v[1]), e)
                out.append((None, s2))
            return out
        if k == 'new':
            x = e.get('e'); c = s.I.pointee(e['t']) if 't' in e else None
            a = [x] if isinstance(x, dict) else []
            inner = strip(x) if isinstance(x, dict) else None
            args = (inner.get('a') or []) if isinstance(inner, dict) and inner.get('k') in ('ctor', 'init', 'x', 'pinit') and isinstance(inner.get('a'), list) else []
            return s.make(e, c, args, st, inner)
        if k in ('ctor', 'init', 'stdinit', 'pinit', 'x'): return s.ctor(e, st)
        if k == 'call':
            out = []
            for v, s2 in s.call(e, st):
                if isinstance(v, tuple) and v and v[0] == 'R': v = s.read(v[1], s2, e.get('t'))
                out.append((v, s2))
            return out
        if k == 'lambda': return [(('L', tuple(e.get('ops') or ())), st)]
        cur = [st]
        for c in kids(e):
            nx = []
            for x in cur: nx += [q for _, q in s.ev(c, x)]
            cur = nx
        return [(None, x) for x in cur]

    @staticmethod
    def neg(c):
        if isinstance(c, int): return int(not c)
        if isinstance(c, tuple) and c and c[0] == '!': return c[1]
        return ('!', c)

    def make(s, e, c, args, st, inner):
        """new Node(args): a fresh node whose constructor is expanded"""
        out = []
        s.A.seen('node allocations', e)
        for vs, s2 in s.evs(args, st):
            s.hard(s2)
            n = s.fresh(s2, ('new', id(e), tuple(s.ctx)))
            if c is not None: s2.cls[n] = c
            s2.nz.add(n)
            f = s.A.F.get((inner or {}).get('f') if isinstance(inner, dict) else None)
            if f is not None and not f.get('cp') and f['id'] not in s.stack and len(s.stack) < 8:
                for s3 in s.construct(f, n, args, vs, s2): out.append((('P', frozenset([n])), s3))
            else: out.append((('P', frozenset([n])), s2))
        return out

    def construct(s, f, sym, args, vs, st):
        """expand a constructor's initialisers and body on object sym"""
        saved = dict(st.v); st.v = dict(st.v); s.stack.append(f['id'])
        s.bind(f, args, vs, st); st.v['this'] = ('O', sym)
        cur = [st]
        for i in f.get('inits') or []:
            if not isinstance(i, dict) or not isinstance(i.get('e'), dict): continue
            nx = []
            for x in cur:
                if i.get('m') is not None or i.get('n') is not None:
                    nm = i.get('n') or i.get('m')
                    for v, s3 in s.ev(i['e'], x):
                        if isinstance(v, tuple) and v and v[0] == 'P': s.store(s3, [sym], (nm, 0), v[1])
                        nx.append(s3)
                else:
                    y = strip(i['e']); g = s.A.F.get(y.get('f')) if isinstance(y, dict) else None
                    if g is not None and y.get('inh'): nx += s.construct(g, sym, args, vs, x)
                    elif g is not None and g['id'] not in s.stack and isinstance(y.get('a'), list):
                        for vs2, s3 in s.evs(y['a'], x): nx += s.construct(g, sym, y['a'], vs2, s3)
                    else: nx.append(x)
            cur = nx
        if isinstance(f.get('body'), dict):
            ex = {'ret': [], 'brk': [], 'cont': []}
            cur = s.block([f['body']], cur, ex); cur = cur + [x for _, x in ex['ret']]
        s.stack.pop()
        for x in cur: x.v = dict(saved)
        return cur

    def ctor(s, e, st):
        a = e.get('a') if isinstance(e.get('a'), list) else ([e['e']] if isinstance(e.get('e'), dict) else [])
        tn = s.T[e['t']]['s'] if 't' in e else ''
        r = s.I.R.get(elem(s.T, e['t']).get('rec')) if 't' in e else None
        if r is not None and r['n'] == 'ptr32':
            if not a: return [(('P', ZS), st)]
            return s.ev(a[0], st)
        if r is not None and s.I.owns(r['id']) and not s.T[e['t']].get('ref'):
            f = s.A.F.get(e.get('f')); out = []
            if e.get('cp') and len(a) == 1:
                s.A.copied(e, r, s.cur())
                return s.ev(a[0], st)
            for vs, s2 in s.evs(a, st):
                n = s.fresh(s2, ('obj', id(e), tuple(s.ctx))); s2.cls[n] = r['id']
                if f is not None and f['id'] not in s.stack:
                    for s3 in s.construct(f, n, a, vs, s2): out.append((('O', n), s3))
                else:
                    # inherited constructor: hand the pointer on to the base
                    for x, v in zip(a, vs):
                        if isinstance(v, tuple) and v and v[0] == 'P':
                            for nm in s.I.owns(r['id']): s.store(s2, [n], (nm, 0), v[1])
                    out.append((('O', n), s2))
            return out
        out = []
        arr = 't' in e and (s.T[e['t']].get('arr') or tn.endswith(']'))
        for vs, s2 in s.evs(a, st):
            if re.match(r'(const )?std::(pair|tuple)<', tn):
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == 'T': out.append((vs[0], s2))
                else: out.append((('T', tuple(vs)), s2))
            elif arr: out.append((('I', tuple(vs)), s2))
            elif len(vs) == 1: out.append((vs[0], s2))
            elif not vs and 't' in e and s.I.nptr(e['t']) is not None: out.append((('P', ZS), s2))
            else: out.append((None, s2))
        return out

    def binop(s, e, st):
        op = e['op']; out = []
        if op in ('&&', 'and', '||', 'or'):
            t, f = s.cond(e, [st])
            return [(('E', 1), x) for x in t] + [(('E', 0), x) for x in f]
        if op == ',':
            for _, s2 in s.ev(e['a'], st): out += s.ev(e['b'], s2)
            return out
        if op == '=':
            for v, s2 in s.ev(e['b'], st):
                for p, s3 in s.place(e['a'], s2):
                    s.write(p, v, s3, e, strip(e['a']).get('t'))
                    out.append((v, s3))
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            for _, s2 in s.ev(e['b'], st):
                for p, s3 in s.place(e['a'], s2):
                    if p and p[0] == 'v': s.killsite(s3, ('var', p[1])); s3.v[p[1]] = None
                    out.append((None, s3))
            return out
        for vs, s2 in s.evs([e['a'], e['b']], st):
            a, b = vs
            isp = lambda x: isinstance(x, tuple) and x and x[0] == 'P'
            if op in ('==', '!=') and isp(a) and isp(b):
                for truth in (True, False):
                    s3 = s2.clone()
                    if s.eqptr(s3, a, b, truth): out.append((('E', int(truth == (op == '=='))), s3))
                continue
            ca = a[1] if isinstance(a, tuple) and a and a[0] == 'E' else None
            cb = b[1] if isinstance(b, tuple) and b and b[0] == 'E' else None
            if ca is not None and cb is not None:
                if op == '^' and cb == 1: out.append((('E', s.neg(ca)), s2)); continue
                if op == '^' and cb == 0: out.append((('E', ca), s2)); continue
                if op == '-' and ca == 1: out.append((('E', s.neg(cb)), s2)); continue
                if isinstance(ca, int) and isinstance(cb, int):
                    f = {'==': lambda: ca == cb, '!=': lambda: ca != cb, '<': lambda: ca < cb, '>': lambda: ca > cb, '<=': lambda: ca <= cb, '>=': lambda: ca >= cb, '+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb}.get(op)
                    if f: out.append((('E', int(f())), s2)); continue
                if op == '!=': out.append((('E', ('!', ('==', ca, cb))), s2)); continue
                if op == '>': out.append((('E', ('<', cb, ca)), s2)); continue
                if op == '>=': out.append((('E', ('!', ('<', ca, cb))), s2)); continue
                if op == '<=': out.append((('E', ('!', ('<', cb, ca))), s2)); continue
                out.append((('E', (op, ca, cb)), s2)); continue
            site = ('site', (id(e),) + tuple(s.ctx)); s.killsite(s2, site)
            out.append((('E', site), s2))
        return out

    def eqptr(s, st, a, b, truth):
        """refine two pointer values being (un)equal; False if impossible"""
        A = {Z if x in st.z else x for x in a[1]}; B = {Z if x in st.z else x for x in b[1]}
        if B == {Z} or A == {Z}:
            X_ = A if B == {Z} else B
            if truth:
                c = [x for x in X_ if x != Z and x not in st.nz]
                if not c and Z not in X_: return False
                if len(X_) == 1 and c: st.z.add(c[0])
            else:
                c = [x for x in X_ if x != Z]
                if not c: return False
                if len(c) == 1: st.nz.add(c[0])
            return True
        if len(A) == 1 and len(B) == 1 and A == B:
            x = next(iter(A))
            if x not in st.multi and x != DEEP: return truth
        if len(A) == 1 and len(B) == 1 and not (A | B) & (st.multi | {DEEP, Z}):
            c = ('peq',) + tuple(sorted(A | B, key=repr))
            if c in st.b: return st.b[c] == truth
            st.b[c] = truth
        return True

    def cond(s, e, states):
        x = strip(e); k = x.get('k') if isinstance(x, dict) else None
        if k == 'bin' and x['op'] in ('&&', 'and'):
            t, f = s.cond(x['a'], states); t2, f2 = s.cond(x['b'], t); return t2, f + f2
        if k == 'bin' and x['op'] in ('||', 'or'):
            t, f = s.cond(x['a'], states); t2, f2 = s.cond(x['b'], f); return t + t2, f2
        if k == 'un' and x['op'] in ('!', 'not'):
            t, f = s.cond(x['e'], states); return f, t
        T_, F_ = [], []
        for st in states:
            for v, s2 in s.ev(x, st.clone()):
                if isinstance(v, tuple) and v and v[0] == 'E' and isinstance(v[1], int):
                    (T_ if v[1] else F_).append(s2); continue
                if isinstance(v, tuple) and v and v[0] == 'P':
                    a = s2.clone()
                    if s.eqptr(a, v, ('P', ZS), False): T_.append(a)
                    if s.eqptr(s2, v, ('P', ZS), True): F_.append(s2)
                    continue
                if isinstance(v, tuple) and v and v[0] == 'E':
                    c = v[1]; n = False
                    if c[0] == '!': c = c[1]; n = True
                    if c in s2.b:
                        (T_ if s2.b[c] != n else F_).append(s2); continue
                    a = s2.clone(); a.b[c] = not n; s2.b[c] = n; T_.append(a); F_.append(s2); continue
                T_.append(s2.clone()); F_.append(s2)
        return s.merge(T_), s.merge(F_)

    # ---------------------------------------------------------------- calls
    def hard(s, st):
        """an allocation may reuse what was returned to the pool"""
        for x, w in st.soft.items(): st.fr[x] = w
        st.soft = {}

    def bind(s, f, args, vs, st):
        for i, p in enumerate(f.get('p') or []):
            if i >= len(vs): st.v[p['id']] = None; continue
            v = vs[i]
            if v is None: s.killsite(st, ('var', p['id']))
            st.v[p['id']] = v

    def argval(s, p, a, st):
        """value bound to a parameter: a place for references, a value otherwise; list of (value, state)"""
        t = s.T[p['t']] if 't' in p else {}
        if t.get('ref'):
            out = []
            for pl, s2 in s.place(a, st):
                if pl is None: 
                    out.append((None, s2))
                elif pl[0] == 'o': out.append((('O', pl[1]), s2))
                elif pl[0] == 't': out.append((pl[1], s2))
                elif pl[0] == 'v':
                    x = s2.v.get(pl[1])
                    ty = strip(a).get('t') if isinstance(strip(a), dict) else None
                    if ty is not None and s.I.nptr(ty) is not None and not str(t.get('s', '')).startswith('const'): out.append((('R', pl), s2))
                    else: out.append((s.read(pl, s2, ty), s2))
                elif pl[0] == 's': out.append((('R', pl), s2))
                elif pl[0] == 'n': out.append((('O', next(iter(pl[1]))) if len(pl[1]) == 1 else None, s2))
                else: out.append((None, s2))
            return out
        return s.ev(a, st)

    def call(s, e, st, ref=False):
        n = e.get('n') or ''; opc = e.get('opc'); args = e.get('a') or []; o = e.get('o')
        fn = s.A.F.get(e.get('f')); q = (s.I.decl.get(e.get('f')) or {}).get('q', '')
        full = ([o] if o is not None else []) + list(args)
        if q.startswith('suisen::ptr32') or opc and o is not None and 'ptr32' in s.T[strip(o).get('t', 0)]['s'] and s.I.nptr(strip(o).get('t')) is not None:
            if n == 'alloc': return s.make(e, s.I.nptr(e['t']), args, st, None)
            if n == 'dealloc': return s.dofree(args[0], e, st, True)
            if opc == '=':
                out = []
                for v, s2 in s.ev(args[-1], st):
                    for p, s3 in s.place(o, s2):
                        s.write(p, v, s3, e, strip(o).get('t')); out.append((('R', p) if p else v, s3))
                return out
            if opc in ('->', '*'): return s.ev(o, st)
            if opc in ('==', '!='): return s.binop({'k': 'bin', 'op': opc, 'a': full[0], 'b': full[1], 'l': e.get('l')}, st)
            if n.startswith('operator bool') or n == 'is_not_null': return s.ev(o, st)
            if n == 'is_null':
                return s.ev({'k': 'un', 'op': '!', 'e': o}, st)
            return [(None, x) for _, x in s.evs(full, st)]
        if q.startswith('suisen::ObjectPool'):
            if n == 'alloc': return s.make(e, s.I.nptr(e['t']), args, st, None)
            if n == 'free': return s.dofree(args[0], e, st, True)
            return [(None, x) for _, x in s.evs(full, st)]
        if fn is None or not s.A.inlinable(e):
            return s.external(e, n, opc, args, o, q, st)
        # ---- a library function
        cur = [([], None, st)]
        isstatic = fn.get('static') or fn.get('cls') is None
        meth = fn.get('cls') is not None and not fn.get('static')
        aargs = list(args)
        if meth and o is None and opc and aargs: o, aargs = aargs[0], aargs[1:]
        nxt = []
        if meth and not fn.get('ctor'):
            if o is None:
                t = st.v.get('this'); nxt = [(frozenset([t[1]]) if t else None, st)]
            else:
                oe = strip(o); arrow = s.T[oe['t']].get('ptr') if isinstance(oe, dict) and 't' in oe else False
                nxt = s.base(o, st, bool(arrow))
        else: nxt = [(None, st)]
        out = []
        for th, s2 in nxt:
            vs_list = [([], s2)]
            if th is not None: s.deref(s2, th, e)
            for i, a in enumerate(aargs):
                p = (fn.get('p') or [])
                nn = []
                for vs, s3 in vs_list:
                    if i < len(p):
                        for v, s4 in s.argval(p[i], a, s3): nn.append((vs + [v], s4))
                    else:
                        for v, s4 in s.ev(a, s3): nn.append((vs + [v], s4))
                vs_list = nn
            for vs, s3 in vs_list: out += s.enter(e, fn, th, aargs, vs, s3)
        return out

    def dofree(s, a, e, st, soft):
        out = []
        for v, s2 in s.ev(a, st):
            if isinstance(v, tuple) and v and v[0] == 'P': s.A.seen('releases to a pool', e); s.free(s2, list(v[1]), e, soft)
            out.append((None, s2))
        return out

    def external(s, e, n, opc, args, o, q, st):
        if n in ('move', 'forward', 'as_const') and len(args) == 1: return s.ev(args[0], st)
        if n == 'exchange' and len(args) == 2:
            out = []
            for p, s2 in s.place(args[0], st):
                old = s.read(p, s2, strip(args[0]).get('t'))
                for v, s3 in s.ev(args[1], s2): s.write(p, v, s3, e, strip(args[0]).get('t')); out.append((old, s3))
            return out
        if n == 'swap' and len(args) == 2:
            out = []
            for p, s2 in s.place(args[0], st):
                for p2, s3 in s.place(args[1], s2):
                    ta = strip(args[0]).get('t'); tb = strip(args[1]).get('t')
                    if p and p2 and p[0] == 's' and p[2][1] is None and p2[0] == 's' and p2[2][1] is None and len(p[1]) == 1 and len(p2[1]) == 1:
                        a, b = next(iter(p[1])), next(iter(p2[1]))
                        ha = {k: v for k, v in s3.h.items() if k[0] == a and k[1][0] == p[2][0]}; hb = {k: v for k, v in s3.h.items() if k[0] == b and k[1][0] == p2[2][0]}
                        for k in list(ha) + list(hb): s3.h.pop(k, None)
                        for k, v in ha.items(): s3.h[(b, (p2[2][0], k[1][1]))] = v
                        for k, v in hb.items(): s3.h[(a, (p[2][0], k[1][1]))] = v
                        out.append((None, s3)); continue
                    va = s.read(p, s3, ta); vb = s.read(p2, s3, tb)
                    if p and p[0] == 'o' or p2 and p2[0] == 'o': out.append((None, s3)); continue
                    s.write(p, vb, s3, e, ta); s.write(p2, va, s3, e, tb)
                    out.append((None, s3))
            return out
        if n in ('make_pair', 'make_tuple', 'tie'):
            if n == 'tie':
                cur = [([], st)]
                for a in args:
                    cur = [(ps + [p], s3) for ps, s2 in cur for p, s3 in s.place(a, s2)]
                return [(('TR', tuple(ps)), s2) for ps, s2 in cur]
            return [(('T', tuple(vs)), s2) for vs, s2 in s.evs(args, st)]
        if n == 'get' and len(args) == 1 and e.get('ta'):
            out = []
            for v, s2 in s.ev(args[0], st):
                try: out.append((v[1][int(e['ta'][0])], s2))
                except Exception: out.append((None, s2))
            return out
        if opc == '=':
            full = ([o] if o is not None else []) + list(args); out = []
            for v, s2 in s.ev(full[-1], st):
                l = strip(full[0])
                if isinstance(l, dict) and l.get('k') == 'call' and l.get('n') == 'tie':
                    cur = [([], s2)]
                    for a in l.get('a') or []: cur = [(ps + [p], s4) for ps, s3 in cur for p, s4 in s.place(a, s3)]
                    for ps, s3 in cur:
                        for i, p in enumerate(ps): s.write(p, v[1][i] if isinstance(v, tuple) and v and v[0] == 'T' and i < len(v[1]) else None, s3, e, strip(l['a'][i]).get('t'))
                        out.append((None, s3))
                    continue
                for p, s3 in s.place(full[0], s2):
                    s.write(p, v, s3, e, strip(full[0]).get('t')); out.append((v, s3))
            return out
        full = ([o] if o is not None else []) + list(args)
        return [(None, x) for _, x in s.evs(full, st)]

    def enter(s, e, fn, th, args, vs, st):
        if fn['id'] in s.stack or s.A.summarised(fn): return s.bysum(e, fn, th, args, vs, st)
        if len(s.stack) > 9: return [(None, st)]
        saved = st.v; st.v = {k: v for k, v in st.v.items() if False}
        # variables of the caller stay addressable through places
        st.v = dict(saved)
        s.stack.append(fn['id']); s.ctx.append(id(e))
        s.bind(fn, args, vs, st)
        if fn.get('cls') is not None and not fn.get('static'):
            if th is not None and len(th) == 1: st.v['this'] = ('O', next(iter(th)))
            else: st.v['this'] = None
        ex = {'ret': [], 'brk': [], 'cont': []}
        outs = s.block([fn['body']], [st], ex)
        s.stack.pop(); s.ctx.pop()
        res = []
        pid = {p['id'] for p in fn.get('p') or []}
        for v, x in [(None, y) for y in outs] + ex['ret']:
            nv = dict(x.v)
            for k in list(nv):
                if k not in saved or k in pid: del nv[k]
            for k in saved:
                if k in pid or k == 'this': nv[k] = saved[k]
            x.v = nv
            res.append((v, x))
        return s.mergev(res)

    def feasible(s, pre, prm, vs, st):
        """may the conditions a summary was obtained under hold for these arguments"""
        def sub(c):
            if isinstance(c, int): return c
            if c[0] == 'arg':
                v = vs[c[1]] if c[1] < len(vs) else None
                return v[1] if isinstance(v, tuple) and v and v[0] == 'E' else None
            xs = [sub(x) if isinstance(x, tuple) or isinstance(x, int) else x for x in c]
            return None if any(x is None for x in xs) else tuple(xs)
        def sy(x):
            if x[0] == 'p': b = prm.get(x[1])
            elif x[0] == 'this': b = prm.get('this')
            elif x[0] == 'ld':
                y = sy(x[1])
                b = s.load(st, [y], x[2]) if y is not None and y not in (Z, DEEP) else None
            else: b = None
            return next(iter(b)) if b is not None and len(b) == 1 else None
        for c, truth in pre:
            if c[0] == 'peq':
                a, b = sy(c[1]), sy(c[2])
                if a is None or b is None or a == DEEP or b == DEEP or a in st.multi or b in st.multi: continue
                if a == b and not truth: return False
                k = ('peq',) + tuple(sorted((a, b), key=repr))
                if a != b and st.b.get(k) not in (None, truth): return False
                continue
            d = sub(c)
            if d is None: continue
            if d in st.b and st.b[d] != truth: return False
            if isinstance(d, tuple) and len(d) == 3 and isinstance(d[1], int) and isinstance(d[2], int):
                r = {'==': d[1] == d[2], '<': d[1] < d[2]}.get(d[0])
                if r is not None and r != truth: return False
        return True

    def bysum(s, e, fn, th, args, vs, st):
        sm = s.A.summary(fn); out = []
        prm = {}
        for i, v in enumerate(vs):
            x = v
            if isinstance(x, tuple) and x and x[0] == 'R': x = s.read(x[1], st, (fn['p'][i]).get('t'))
            if isinstance(x, tuple) and x and x[0] == 'P': prm[i] = x[1]
        if th is not None: prm['this'] = th
        for ret, frees, refs, allocs, pre in sm:
            if not s.feasible(pre, prm, vs, st): continue
            s2 = st.clone()
            if allocs: s.hard(s2)
            for i in frees:
                if i in prm: s.free(s2, [x for x in prm[i] if x not in s2.z], e, False)
            site = (id(e), tuple(s.ctx))
            def mk(r, path):
                if r is None: return None
                if r[0] == 'Z': return ('P', ZS)
                if r[0] == 'E': return r
                if r[0] == 'id': return ('P', prm.get(r[1], frozenset([DEEP])))
                if r[0] == 'T': return ('T', tuple(mk(x, path + (i,)) for i, x in enumerate(r[1])))
                if r[0] == 'N':
                    n = s.fresh(s2, ('ret', site, path)); s2.cls[n] = r[2]
                    if r[3]: s2.nz.add(n)
                    src = set()
                    for i in r[1]: src |= {x for x in prm.get(i, ()) if x != Z}
                    s2.ab[n] = frozenset(src)
                    return ('P', frozenset([n]))
                return None
            v = mk(ret, ())
            # parameters passed by reference get new contents
            for i, r in refs:
                if i < len(vs) and isinstance(vs[i], tuple) and vs[i] and vs[i][0] == 'R': s.write(vs[i][1], mk(r, ('r', i)), s2, e, fn['p'][i].get('t'))
            # what hangs below an argument is unknown afterwards
            for i, x in prm.items():
                for b in x:
                    for k in [k for k in s2.h if k[0] == b and b[0] != 'this']: s2.h[k] = frozenset([DEEP])
            out.append((v, s2))
        return out

    # ---------------------------------------------------------------- statements
    def merge(s, sts):
        d = {}
        for x in sts:
            if x.b: s.gc(x)
            if s.inloop and len(x.h) > 12: s.gch(x)
            k = x.key()
            if k in d: d[k].log += [l for l in x.log if l not in d[k].log]
            else: d[k] = x
        r = list(d.values())
        if len(r) > (CAP if s.inloop else 4 * CAP): r = [s.joinall(r)]
        return r

    def gc(s, st):
        """forget conditions on values nothing refers to any more"""
        have = set()
        def at(c):
            if isinstance(c, tuple):
                if c and c[0] in ('site', 'fld', 'var'): have.add(c)
                else:
                    for x in c:
                        if isinstance(x, tuple): at(x)
        for k, v in st.v.items():
            have.add(('var', k))
            if isinstance(v, tuple) and v and v[0] == 'E': at(v[1])
            if isinstance(v, tuple) and v and v[0] == 'T':
                for y in v[1]:
                    if isinstance(y, tuple) and y and y[0] == 'E': at(y[1])
        for k in st.h: at(k[1])
        def ok(c):
            if not isinstance(c, tuple): return True
            if c and c[0] == 'peq': return True
            if c and c[0] in ('site', 'fld', 'var'): return c in have
            return all(ok(x) for x in c)
        st.b = {k: v for k, v in st.b.items() if ok(k)}

    def gch(s, st):
        roots = {('this',)} | {k for k in st.cls if k[0] in ('p', 'this')} | set(st.fr) | set(st.soft)
        for k, v in st.v.items(): 
            roots |= s.symsof(v); roots.add(('arr', k))
            if isinstance(v, tuple) and v and v[0] == 'R' and v[1][0] == 's': roots |= set(v[1][1])
            if isinstance(v, tuple) and v and v[0] == 'A' and v[1] and v[1][0] == 's': roots |= set(v[1][1])
        live = set(); todo = [r for r in roots]
        nx = {}
        for (b, sl), v in st.h.items(): nx.setdefault(b, set()).update(v)
        while todo:
            x = todo.pop()
            if x in live: continue
            live.add(x); todo += list(nx.get(x, ())); todo += list(st.ab.get(x, ()))
            if x[0] == 'ld': todo.append(x[1])
        st.h = {k: v for k, v in st.h.items() if k[0] in live}
        st.z &= live; st.nz &= live

    def mergev(s, prs):
        d = {}
        for v, x in prs:
            k = (v, x.key())
            if k in d: d[k][1].log += [l for l in x.log if l not in d[k][1].log]
            else: d[k] = (v, x)
        return list(d.values())

    def joinall(s, sts):
        r = sts[0].clone(); r.approx.add(1)
        def jv(a, b):
            if a == b: return a
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'P': return ('P', a[1] | b[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'T' and len(a[1]) == len(b[1]): return ('T', tuple(map(jv, a[1], b[1])))
            return None
        for x in sts[1:]:
            r.v = {k: jv(r.v.get(k), x.v.get(k)) for k in set(r.v) | set(x.v)}
            h = {}
            for k in set(r.h) | set(x.h):
                a = r.h.get(k); b = x.h.get(k)
                if a is None: a = s.load(r, [k[0]], k[1])
                if b is None: b = s.load(x, [k[0]], k[1])
                h[k] = a | b
            r.h = h
            r.fr = {k: v for k, v in r.fr.items() if k in x.fr}; r.soft = {k: v for k, v in r.soft.items() if k in x.soft}
            r.z &= x.z; r.nz &= x.nz; r.b = {k: v for k, v in r.b.items() if x.b.get(k) == v}
            r.ab = {k: r.ab.get(k, frozenset()) | x.ab.get(k, frozenset()) for k in set(r.ab) | set(x.ab)}
            r.cls.update(x.cls); r.multi |= x.multi; r.log += [l for l in x.log if l not in r.log]
        return r

    def block(s, ss, states, ex):
        for n in ss:
            if not states: break
            states = s.stmt(n, states, ex)
        return states

    def stmt(s, n, states, ex):
        if not isinstance(n, dict): return states
        k = n['k']
        if k == 'block':
            r = s.block(n['s'], states, ex)
            ids = s.A.scope(n)
            if ids:
                for x in r + ex['brk'] + ex['cont']:
                    for i in ids:
                        if i in x.v: x.v.pop(i); s.killsite(x, ('var', i))
            return s.merge(r) if ids else r
        if k == 'expr':
            e = n['e']; c = assert_cond(e)
            if c is not None: return s.cond(c, states)[0]
            if is_assert_fail(strip(e)): return []
            out = []
            for st in states: out += [x for _, x in s.ev(e, st)]
            return s.merge(out)
        if k == 'decl':
            for v in n['v']:
                out = []
                for st in states: out += s.decl(v, st)
                states = s.merge(out)
            return states
        if k == 'if':
            if n.get('init') is not None: states = s.stmt(n['init'], states, ex)
            if isinstance(n.get('cv'), dict):
                out = []
                for st in states: out += s.decl(n['cv'], st)
                states = out
            if n.get('cx'):
                v = lit(n['c'])
                if v is None and isinstance(n['c'], dict) and n['c'].get('cv') in ('0', '1', 'true', 'false'): v = n['c']['cv'] in ('1', 'true')
                if v is not None:
                    br = n.get('a') if v else n.get('b')
                    return s.stmt(br, states, ex) if br is not None else states
            t, f = s.cond(n['c'], states)
            t = s.stmt(n.get('a'), t, ex) if t else []
            if f and n.get('b') is not None: f = s.stmt(n['b'], f, ex)
            return s.merge(t + f)
        if k in ('while', 'for', 'do', 'rfor'): return s.loop(n, states, ex)
        if k == 'ret':
            for st in states:
                if n.get('e') is None: ex['ret'].append((None, st)); continue
                f = s.cur(); rt = s.T[f['ret']] if isinstance(f.get('ret'), int) else {}
                if rt.get('ref'):
                    for p, s2 in s.place(n['e'], st):
                        ex['ret'].append(((('O', p[1]) if p[0] == 'o' else p[1] if p[0] == 't' else ('R', p)) if p else None, s2))
                else:
                    for v, s2 in s.ev(n['e'], st): ex['ret'].append((v, s2))
            return []
        if k == 'break': ex['brk'] += states; return []
        if k == 'cont': ex['cont'] += states; return []
        if k in ('label', 'case', 'default'): return s.stmt(n.get('s'), states, ex) if n.get('s') else states
        if k == 'switch':
            inner = {'ret': ex['ret'], 'brk': [], 'cont': ex['cont']}
            out = [x.clone() for x in states]
            body = n.get('s'); ss = body['s'] if isinstance(body, dict) and body.get('k') == 'block' else [body]
            cur = []
            for c in ss:
                if isinstance(c, dict) and c.get('k') in ('case', 'default'): cur = s.merge(cur + [x.clone() for x in states])
                cur = s.stmt(c, cur, inner)
            return s.merge(out + cur + inner['brk'])
        return states

    def decl(s, v, st):
        t = s.T[v['t']] if 't' in v else {}
        if v.get('binds'):
            out = []
            for x, s2 in (s.ev(v['e'], st) if v.get('e') is not None else [(None, st)]):
                for i, b in enumerate(v['binds']):
                    s2.v[b['id'] if isinstance(b, dict) else b] = x[1][i] if isinstance(x, tuple) and x and x[0] in 'T' and i < len(x[1]) else None
                    s.killsite(s2, ('var', b['id'] if isinstance(b, dict) else b))
                out.append(s2)
            return out
        if t.get('ref') and v.get('e') is not None:
            out = []
            for p, s2 in s.place(v['e'], st):
                s2.v[v['id']] = ('O', p[1]) if p and p[0] == 'o' else ('R', p) if p and p[0] in 'vs' else p[1] if p and p[0] == 't' else None
                out.append(s2)
            return out
        arr = t.get('arr') or str(t.get('s', '')).endswith(']')
        if arr and v.get('e') is None: st.cls[('arr', v['id'])] = None; return [st]
        out = []
        for x, s2 in (s.ev(v['e'], st) if v.get('e') is not None else [(None, st)]):
            s.killsite(s2, ('var', v['id']))
            if arr:
                a = ('arr', v['id']); s2.cls[a] = None
                for kk in [kk for kk in s2.h if kk[0] == a]: del s2.h[kk]
                if isinstance(x, tuple) and x and x[0] == 'I':
                    for i, y in enumerate(x[1]):
                        if isinstance(y, tuple) and y and y[0] == 'P': s2.h[(a, ('', i))] = y[1]
            else:
                if isinstance(x, tuple) and x and x[0] in 'RI': x = None
                if isinstance(x, tuple) and x and x[0] == 'E' and not isinstance(x[1], int): s2.v[v['id']] = x
                else: s2.v[v['id']] = x
            out.append(s2)
        return out

    def counted(s, n):
        """(variable, values) of a for loop over a small constant range whose body leaves the variable alone"""
        i = n.get('init'); c = strip(n.get('c') or {}); u = strip(n.get('inc') or {})
        if n['k'] != 'for' or not isinstance(i, dict) or i.get('k') != 'decl' or not isinstance(c, dict) or not isinstance(u, dict): return None
        vs = i.get('v') if isinstance(i.get('v'), list) else i.get('vars') or i.get('d')
        if not isinstance(vs, list) or len(vs) != 1 or not isinstance(vs[0], dict): return None
        v = vs[0].get('id'); a = lit(vs[0].get('e') or {}); b = lit(c.get('b') or {}) if c.get('k') == 'bin' and c['op'] in ('<', '!=') else None
        x = strip(c.get('a') or {}); y = strip(u.get('e') or {})
        if a is None or b is None or not 0 <= b - a <= 4 or x.get('d') != v or u.get('k') != 'un' or '++' not in u['op'] or y.get('d') != v: return None
        for z in walk(n.get('s') or {}):
            w = None
            if z.get('k') == 'bin' and z['op'].endswith('=') and z['op'] not in ('==', '!=', '<=', '>='): w = strip(z['a'])
            elif z.get('k') == 'un' and ('++' in z['op'] or '--' in z['op'] or z['op'] == '&'): w = strip(z['e'])
            elif z.get('k') == 'break' or z.get('k') == 'lambda': return None
            if isinstance(w, dict) and w.get('k') == 'ref' and w.get('d') == v: return None
        return v, range(int(a), int(b))

    def loop(s, n, states, ex):
        k = n['k']
        cn = s.counted(n)
        if cn is not None:
            for i in cn[1]:
                inner = {'ret': ex['ret'], 'brk': [], 'cont': []}
                for x in states: x.v[cn[0]] = ('E', i)
                states = s.merge(s.stmt(n.get('s'), states, inner) + inner['cont'])
            return states
        if n.get('init') is not None: states = s.stmt(n['init'], states, ex)
        if k == 'rfor' and n.get('r') is not None:
            out = []
            for st in states: out += [x for _, x in s.ev(n['r'], st)]
            states = out
        seen = {}; front = states; exits = []; s.inloop += 1
        for it in range(9):
            if it >= 2: front = [s.joinall(front + list(seen.values()))] if front else []
            new = []
            for x in front:
                kx = x.key()
                if kx not in seen: seen[kx] = x; new.append(x)
            if not new: break
            cur = [x.clone() for x in new]; inner = {'ret': ex['ret'], 'brk': [], 'cont': []}
            if k == 'do': t, f = cur, []
            elif k == 'rfor':
                t = cur; f = [x.clone() for x in new]; exits += f
                if isinstance(n.get('v'), dict):
                    for x in t:
                        for b in n['v'].get('binds') or []: x.v[b['id'] if isinstance(b, dict) else b] = None
                        if 'id' in n['v']:
                            x.v[n['v']['id']] = ('P', frozenset([DEEP])) if s.I.nptr(n['v'].get('t')) is not None else None
                            s.killsite(x, ('var', n['v']['id']))
            elif n.get('c') is None: t, f = cur, []
            else:
                if isinstance(n.get('cv'), dict):
                    o2 = []
                    for x in cur: o2 += s.decl(n['cv'], x)
                    cur = o2
                t, f = s.cond(n['c'], cur); exits += f
            t = s.stmt(n.get('s'), t, inner)
            t = s.merge(t + inner['cont']); exits += inner['brk']
            if k == 'for' and n.get('inc') is not None:
                o2 = []
                for x in t: o2 += [y for _, y in s.ev(n['inc'], x)]
                t = s.merge(o2)
            if k == 'do':
                t, f = s.cond(n['c'], t); exits += f
            front = s.merge(t)
        s.inloop -= 1
        return s.merge(exits)

    # ---------------------------------------------------------------- whole function
    def run(s):
        fn = s.fn; st = St()
        I = s.I
        if fn.get('cls') is not None and not fn.get('static'):
            st.v['this'] = ('O', ('this',)); st.cls[('this',)] = fn['cls']; st.nz.add(('this',))
        for i, p in enumerate(fn.get('p') or []):
            t = p.get('t'); st.v[p['id']] = None
            if t is None: continue
            if I.nptr(t) is not None and not s.T[t].get('arr'):
                sym = ('p', i); st.cls[sym] = I.nptr(t); st.v[p['id']] = ('P', frozenset([sym]))
            elif I.objcls(t) is not None:
                sym = ('p', i); st.cls[sym] = I.objcls(t); st.v[p['id']] = ('O', sym); st.nz.add(sym)
        ex = {'ret': [], 'brk': [], 'cont': []}
        cur = [st]
        if fn.get('ctor') or fn.get('inits'):
            cur = s.construct_self(fn, st, ex)
        else:
            cur = s.block([fn['body']], [st], ex)
        return [(None, x) for x in cur] + ex['ret']

    def construct_self(s, fn, st, ex):
        cur = [st]
        for i in fn.get('inits') or []:
            if not isinstance(i, dict) or not isinstance(i.get('e'), dict): continue
            nx = []
            nm = i.get('n') or i.get('m')
            y = strip(i['e']); g = s.A.F.get(y.get('f')) if nm is None and isinstance(y, dict) and y.get('k') == 'ctor' else None
            for x in cur:
                if g is not None and g['id'] not in s.stack and isinstance(y.get('a'), list):
                    for vs2, s3 in s.evs(y['a'], x): nx += s.construct(g, ('this',), y['a'], vs2, s3)
                    continue
                for v, s3 in s.ev(i['e'], x):
                    if nm is not None and isinstance(v, tuple) and v and v[0] == 'P': s3.h[(('this',), (nm, 0))] = v[1]
                    nx.append(s3)
            cur = nx
        return s.block([fn['body']], cur, ex) if isinstance(fn.get('body'), dict) else cur


def reach(st, roots):
    """symbols below the given ones"""
    seen = set(); todo = [x for x in roots if x not in (Z, DEEP)]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for (b, sl), v in st.h.items():
            if b == x: todo += [y for y in v if y not in (Z, DEEP) and y not in st.z]
        todo += list(st.ab.get(x, ()))
    return seen


class Analysis:
    def __init__(s, d, count):
        s.d = d; s.I = Info(d); s.F = {f['id']: f for f in d['funcs'] if isinstance(f.get('body'), dict)}
        s.sums = {}; s._loop = {}; s._sc = {}; s.count = count; s.cp = []; s._seen = set(); s.trunc = set(); s.dirty = False
    def seen(s, kind, e):
        if (kind, id(e)) not in s._seen: s._seen.add((kind, id(e))); s.count(kind)
    def where(s, e, fn):
        lc = fn.get('loc'); f = X.rel(s.d['files'][lc[0]]) if lc else '?'
        return '%s:%s' % (f, e.get('l') if isinstance(e, dict) and e.get('l') else (lc[1] if lc else '?'))
    def copied(s, e, r, fn): s.cp.append((s.where(e, fn), r, fn['q']))
    def lib(s, fn):
        lc = fn.get('loc'); return bool(lc) and X.rel(s.d['files'][lc[0]]).startswith('library/')
    def inlinable(s, e):
        fn = s.F.get(e.get('f')); return fn is not None and s.lib(fn)
    def scope(s, n):
        if id(n) not in s._sc:
            r = []
            for x in n['s']:
                if isinstance(x, dict) and x.get('k') == 'decl':
                    for v in x['v']: r += [b['id'] if isinstance(b, dict) else b for b in v['binds']] if v.get('binds') else [v['id']] if 'id' in v else []
            s._sc[id(n)] = r
        return s._sc[id(n)]
    def summarised(s, fn):
        """has a loop that moves nodes, or calls itself"""
        i = fn['id']
        if i not in s._loop:
            s._loop[i] = False
            r = any(x.get('k') in ('while', 'for', 'do', 'rfor') for x in walk(fn['body']))
            if not r: r = s.selfcall(fn)
            s._loop[i] = r
        return s._loop[i]
    def selfcall(s, fn):
        seen = set(); todo = [fn]
        while todo:
            f = todo.pop()
            for x in walk(f['body']):
                if x.get('k') == 'call' and s.inlinable(x):
                    g = x['f']
                    if g == fn['id']: return True
                    if g not in seen: seen.add(g); todo.append(s.F[g])
        return False
    def summary(s, fn):
        i = fn['id']
        if i not in s.sums: s.sums[i] = frozenset(); s.pending.add(i)
        s.used.setdefault(i, set()).add(s.curfn)
        return s.sums[i]
    def outcome(s, fn, v, st, R):
        I = s.I
        params = {('p', i): i for i in range(len(fn.get('p') or []))}; params[('this',)] = 'this'
        frees = frozenset(params[x] for x in list(st.fr) + list(st.soft) if x in params)
        def conv(v):
            if not isinstance(v, tuple) or not v: return None
            if v[0] == 'E': return v if isinstance(v[1], int) else None
            if v[0] == 'T': return ('T', tuple(map(conv, v[1])))
            if v[0] == 'P':
                xs = {Z if x in st.z else x for x in v[1]}
                if xs == {Z}: return ('Z',)
                if len(xs) == 1 and next(iter(xs)) in params: return ('id', params[next(iter(xs))])
                rs = reach(st, xs)
                c = next((st.cls[x] for x in xs if x in st.cls), None)
                return ('N', frozenset(params[x] for x in rs if x in params), c, Z not in xs and all(x in st.nz for x in xs))
            return None
        refs = []
        for i, p in enumerate(fn.get('p') or []):
            if 't' in p and s.I.T[p['t']].get('ref') and I.nptr(p['t']) is not None and not s.I.T[p['t']]['s'].startswith('const'):
                refs.append((i, conv(st.v.get(p['id']))))
        al = any(k[0] == 'new' for k in st.cls)
        pid = {p['id']: i for i, p in enumerate(fn.get('p') or []) if p['id'] not in s.assigned(fn)}
        def expr(c):
            if isinstance(c, int): return c
            if not isinstance(c, tuple): return None
            if c[0] == 'var': return ('arg', pid[c[1]]) if c[1] in pid else None
            if c[0] in ('site', 'fld'): return None
            xs = [expr(x) if isinstance(x, (tuple, int)) else x for x in c]
            return None if any(x is None for x in xs) else tuple(xs)
        def entry(x): return x in params or x[0] == 'ld' and entry(x[1]) and isinstance(x[2][1], int)
        pre = []
        for c, tr in st.b.items():
            if c[0] == 'peq':
                if entry(c[1]) and entry(c[2]): pre.append((c, tr))
            else:
                d = expr(c)
                if d is not None: pre.append((d, tr))
        return (conv(v), frees, tuple(refs), al, frozenset(pre))
    def assigned(s, fn):
        if ('a', fn['id']) not in s._sc:
            r = set()
            for x in walk(fn['body']):
                y = None
                if x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): y = strip(x['a'])
                elif x.get('k') == 'un' and ('++' in x['op'] or '--' in x['op'] or x['op'] == '&'): y = strip(x['e'])
                if isinstance(y, dict) and y.get('k') == 'ref': r.add(y.get('d'))
            s._sc[('a', fn['id'])] = r
        return s._sc[('a', fn['id'])]
    def analyse(s, fn):
        s.curfn = fn['id']
        r = Run(s, fn)
        try: outs = r.run()
        except TooMany: s.trunc.add(fn['q']); return None, []
        except (TypeError, KeyError, IndexError, ValueError, AttributeError, RecursionError) as x: s.trunc.add(fn['q'] + ' (%s)' % x); return None, []
        return r, outs
    def needed(s, fn):
        seen = set(); todo = [fn]; r = set()
        while todo:
            f = todo.pop()
            for x in walk(f['body']):
                if x.get('k') == 'call' and s.inlinable(x) and x['f'] not in seen:
                    seen.add(x['f']); todo.append(s.F[x['f']])
                    if s.summarised(s.F[x['f']]): r.add(x['f'])
        return r
    def solve(s, funcs):
        """summaries of every looping or recursive function, then one pass over all; yields (fn, run, exits)"""
        s.used = {}; s.pending = set(); s.curfn = None
        todo = [f['id'] for f in funcs if s.summarised(f)]; n = 0; extra = set(); cache = {}
        for f in funcs: extra |= s.needed(f)
        todo += [i for i in extra if i not in todo]
        while todo and n < 4000:
            n += 1
            i = todo.pop(0); fn = s.F[i]
            s.pending = set()
            r, outs = s.analyse(fn); cache[i] = (r, outs)
            new = frozenset(s.outcome(fn, v, x, r) for v, x in outs) if r is not None else frozenset([(None, frozenset(), (), True, frozenset())])
            old = s.sums.get(i)
            for j in s.pending:
                if j not in todo: todo.append(j)
            if old is None or not new <= old:
                s.sums[i] = (old or frozenset()) | new
                for j in s.used.get(i, ()):
                    if j not in todo and s.summarised(s.F[j]): todo.append(j)
                if i in s.used.get(i, ()) and i not in todo: todo.append(i)
        for fn in funcs:
            s.curfn = fn['id']
            r, outs = cache.get(fn['id']) or s.analyse(fn)
            if r is not None: yield fn, r, outs
