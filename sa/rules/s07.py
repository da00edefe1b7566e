"""Every variable with static storage that is not constant is one of: (a) a random engine; (b) a declared process-wide table, pool or configuration (ALLOWED: owner and type, with the reason); (c) a local scratch container that a dataflow over its function shows empty at every exit, given empty at entry, with no user callback and no recursive call while it is non-empty; (d) a local mark array reset over the same range that marked it; (e) a memo map whose lookup and store keys are the same and mention every parameter, none of which changes in between. On-demand tables are extended exactly over [old size, new size) and are skipped only when the requested index is present. Clock and entropy sources are used only to seed a random engine (timer.hpp excepted)."""
import json, re
from collections import Counter
import extract as X
from flow import Flow, Exit, kids, walk, strip, lit
TECHNIQUE = 'inventory of static storage plus abstract interpretation of each local static (emptiness at exit, mark/unmark, memo-key completeness) and linear coverage of on-demand tables'

# (owner, type) -> (how many, reason)
ALLOWED = {}
def allow(owner, typ, n, why): ALLOWED[(owner, typ)] = (n, why)
RNG = re.compile(r'mersenne_twister|linear_congruential|uniform_int_distribution|random_engine|subtract_with_carry')


def norm(t):
    t = re.sub(r'type-parameter-\d+-\d+', 'T', t)
    return re.sub(r'\s+', '', t)


exec(open(__file__.replace('s07.py', 's07_allowed.py')).read())

ADD = {'push_back', 'emplace_back', 'push', 'emplace', 'insert', 'resize', 'assign', 'swap', 'push_front', 'emplace_front', 'append'}


def ser(e):
    """canonical text of an expression"""
    e = strip(e)
    if not isinstance(e, dict): return repr(e)
    k = e.get('k')
    if k == 'ref': return '%s#%s' % (e.get('n'), e.get('d', ''))
    if k == 'int': return str(e.get('cv'))
    if k == 'this': return 'this'
    if k == 'cast': return ser(e.get('e'))
    if k == 'ctor' and len(e.get('a') or []) == 1 and e.get('cp'): return ser(e['a'][0])
    r = [k, str(e.get('op', '')), str(e.get('opc', '')), str(e.get('n', ''))]
    for f in ('b', 'e', 'o', 'fe', 'c', 'i'):
        if isinstance(e.get(f), dict): r.append(f + '=' + ser(e[f]))
    if isinstance(e.get('a'), dict): r.append('a=' + ser(e['a']))
    if isinstance(e.get('a'), list): r.append('a=[' + ','.join(ser(x) for x in e['a']) + ']')
    return '(' + ' '.join(r) + ')'


def method(e):
    """(object expr, method name, args) of a member call, resolved or dependent"""
    e = strip(e)
    if not isinstance(e, dict) or e.get('k') != 'call': return None
    if e.get('o') is not None: return strip(e['o']), (e.get('n') or e.get('opc')), e.get('a', [])
    fe = strip(e.get('fe'))
    if isinstance(fe, dict) and fe.get('k') == 'mem' and fe.get('b') is not None: return strip(fe['b']), fe.get('n'), e.get('a', [])
    return None


def isvar(e, vid):
    e = strip(e)
    return isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') == vid


class Drained(Flow):
    """state: {var id: 'E' | 'U'}"""
    def __init__(s, vids, fn, report):
        s.v = vids; s.fn = fn; s.report = report; s.params = {p['id'] for p in fn['p']}
        s.trav = []
    def copy(s, st): return dict(st)
    def join(s, a, b): return {k: ('E' if a[k] == 'E' and b[k] == 'E' else 'U') for k in a}
    def expr(s, e, st):
        e = strip(e)
        if not isinstance(e, dict): return
        k = e.get('k')
        if k == 'lambda': return
        m = method(e)
        if m and isinstance(m[0], dict) and m[0].get('k') == 'ref' and m[0].get('d') in s.v:
            for a in m[2]: s.expr(a, st)
            d = m[0]['d']
            if m[1] == 'clear': st[d] = 'E'
            elif m[1] == '=' or m[1] == 'operator=':
                st[d] = 'E' if m[2] and isinstance(strip(m[2][0]), dict) and not list(kids(strip(m[2][0]))) and strip(m[2][0]).get('k') in ('init', 'ctor', 'zero') else 'U'
            elif m[1] in ADD: st[d] = 'U'
            return
        for c in kids(e): s.expr(c, st)
        if k == 'call':
            fe = strip(e.get('fe')) if e.get('fe') else None
            obj = m[0] if m else None
            cb = None
            for x in (fe, obj):
                if isinstance(x, dict) and x.get('k') == 'ref' and x.get('d') in s.params and (x is fe or e.get('opc') == '()' or (m and m[1] == 'operator()')): cb = x.get('n')
            if cb is not None:
                for d, v in st.items():
                    if v == 'U': s.report(e.get('l'), 'user function %s is called while scratch %s is in use; a nested call would see and empty it' % (cb, s.v[d]))
            name = e.get('n') or (fe or {}).get('n')
            if e.get('f') == s.fn['id'] or (e.get('f') is None and name == s.fn['n'] and fe is not None and fe.get('k') == 'ref' and (not fe.get('qn') or fe['qn'].rstrip(':') == s.fn['q'].split('::')[-2:][0])):
                for d, v in st.items():
                    if v == 'U': s.report(e.get('l'), 'recursive call while scratch %s is in use' % s.v[d])
            for a in e.get('a', []):
                a = strip(a)
                if isinstance(a, dict) and a.get('k') == 'ref' and a.get('d') in s.v and name not in ('move',): st[a['d']] = 'U'
        if k == 'bin' and e['op'] == '=' and isinstance(strip(e['a']), dict) and strip(e['a']).get('d') in s.v:
            b = strip(e['b']); st[strip(e['a'])['d']] = 'E' if b.get('k') in ('init', 'ctor', 'zero') and not list(kids(b)) else 'U'
    def ev(s, e, d, n):
        """value of e when container d has n elements; None unknown"""
        e = strip(e)
        if not isinstance(e, dict): return None
        m = method(e)
        if m and isvar(m[0], d):
            if m[1] == 'size': return n
            if m[1] == 'empty': return int(n == 0)
        if e.get('k') == 'call' and e.get('n') in ('size', 'ssize', 'empty') and e.get('a') and isvar(e['a'][0], d): return n if e['n'] != 'empty' else int(n == 0)
        v = lit(e)
        if v is not None: return int(v)
        k = e.get('k')
        if k == 'cast': return s.ev(e['e'], d, n)
        if k == 'x' and len(e.get('a', [])) == 1: return s.ev(e['a'][0], d, n)
        if k == 'un' and e['op'] in ('!',):
            x = s.ev(e['e'], d, n); return None if x is None else int(not x)
        if k == 'bin':
            a, b = s.ev(e['a'], d, n), s.ev(e['b'], d, n)
            if a is None or b is None: return None
            try: return int({'>': a > b, '<': a < b, '>=': a >= b, '<=': a <= b, '==': a == b, '!=': a != b}[e['op']])
            except KeyError: return None
        return None
    def refine(s, e, st, truth):
        for d in st:
            pos = [s.ev(e, d, n) for n in (1, 2, 3, 7)]
            if all(p is not None and bool(p) != truth for p in pos): st[d] = 'E'
        return st
    def decl(s, v, st):
        if v['id'] in s.v: return
        if v.get('e') is not None: s.expr(v['e'], st)
    def on_return(s, e, st, node):
        if e is not None: s.expr(e, st)
        s.exit(st, node.get('l'))
    def exit(s, st, line):
        for d, v in st.items():
            if v == 'U': s.report(line, 'scratch %s may still hold elements of this call when it returns' % s.v[d], d)


def marks(fn, vid):
    """mark/unmark idiom: every write of a non-reset value through vid[...] lies in a range-for over R and a later top-level
    range-for over the same R resets vid[...] unconditionally, with no return in between; the array is otherwise only grown"""
    body = fn['body']
    if not body or body.get('k') != 'block': return False
    ss = body['s']
    def sub(e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'idx' and isvar(e['a'], vid): return e['i']
        m = method(e)
        if m and isvar(m[0], vid) and m[1] in ('[]', 'operator[]', 'at'): return m[2][0]
        return None
    def resets(st):
        b = st.get('s')
        for t in (b['s'] if b.get('k') == 'block' else [b]):
            if t.get('k') != 'expr': continue
            e = strip(t['e'])
            if e.get('k') == 'bin' and e['op'] == '=' and sub(e['a']) is not None and lit(e['b']) in (0, False): return ser(sub(e['a'])).split('#')[0]
        return None
    def touches(n): return any(sub(x) is not None for x in walk(n))
    dirty = None
    for st in ss:
        if st.get('k') == 'rfor' and touches(st):
            r = resets(st)
            if r is not None:
                if dirty is not None and dirty != ser(st['r']): return False
                dirty = None
            else:
                if any(x.get('k') == 'ret' for x in walk(st)): return False
                if dirty is not None and dirty != ser(st['r']): return False
                dirty = ser(st['r'])
        elif touches(st): return False
        elif dirty is not None and any(x.get('k') == 'ret' for x in walk(st)): return False
    return dirty is None


def memo(fn, vid, name, report):
    keys = []; stores = []; n = 0
    body = fn['body']
    first = None
    for x in walk(body):
        if x.get('k') != 'call': continue
        m = method(x)
        if m and isvar(m[0], vid):
            if m[1] in ('find', 'count', 'contains', 'at'): keys.append([ser(a) for a in m[2]]); first = first or x.get('l')
            elif m[1] in ('[]', 'operator[]', 'emplace', 'insert', 'try_emplace', 'insert_or_assign'): stores.append([ser(a) for a in m[2]])
            continue
        a = x.get('a') or []
        if any(isvar(y, vid) for y in a):
            rest = [ser(y) for y in a if not isvar(y, vid)]
            if not keys and not stores or len(rest) <= len(keys[0] if keys else rest): keys.append(rest); first = first or x.get('l')
            else: stores.append(rest)
    if not keys or not stores:
        report(fn['loc'][1], 'cache %s is read and written without a common key' % name); return
    for k in keys:
        for p in fn['p']:
            if not any(('%s#%s' % (p['n'], p['id'])) in t for t in k):
                report(first, 'the key of cache %s does not mention parameter %s: a result computed for another value is returned' % (name, p['n'] or '?'))
    for s in stores:
        for t in keys[0]:
            if t not in s: report(fn['loc'][1], 'cache %s is stored under a key that differs from the one looked up' % name)
    # parameters unchanged between lookup and store
    ps = {p['id'] for p in fn['p']}
    for x in walk(body):
        if x.get('l', 0) <= (first or 0): continue
        tgt = None
        if x.get('k') == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): tgt = strip(x['a'])
        elif x.get('k') == 'call' and x.get('opc') == '=' and x.get('o'): tgt = strip(x['o'])
        elif x.get('k') == 'call' and x.get('n') == 'swap':
            for y in x.get('a', []):
                if strip(y).get('d') in ps: report(x['l'], 'parameter %s changes between lookup and store of cache %s' % (strip(y).get('n'), name))
        if isinstance(tgt, dict) and tgt.get('k') == 'ref' and tgt.get('d') in ps:
            report(x['l'], 'parameter %s changes between lookup and store of cache %s' % (tgt.get('n'), name))


# ---------- on-demand tables
def lin(e, env=None, depth=0):
    """linear form {sym: coeff}, '' = constant; None if not linear"""
    e = strip(e)
    if not isinstance(e, dict) or depth > 12: return None
    v = lit(e)
    if v is not None: return {'': int(v)}
    k = e.get('k')
    if k == 'cast': return lin(e['e'], env, depth)
    if k == 'ctor' and len(e.get('a', [])) == 1: return lin(e['a'][0], env, depth)
    if k == 'x' and len(e.get('a', [])) == 1: return lin(e['a'][0], env, depth)
    if k == 'ref':
        if env and e.get('d') in env: return dict(env[e['d']])
        return {'v%s' % e.get('d'): 1}
    if k == 'bin' and e['op'] in '+-':
        a, b = lin(e['a'], env, depth + 1), lin(e['b'], env, depth + 1)
        if a is None or b is None: return None
        r = dict(a)
        for t, c in b.items(): r[t] = r.get(t, 0) + (c if e['op'] == '+' else -c)
        return {t: c for t, c in r.items() if c or t == ''}
    m = method(e)
    if m and m[1] == 'size': return {'size ' + ser(m[0]): 1}
    return None


def diff(a, b):
    """a - b when constant, else None"""
    if a is None or b is None: return None
    r = dict(a)
    for t, c in b.items(): r[t] = r.get(t, 0) - c
    if any(c for t, c in r.items() if t != ''): return None
    return r.get('', 0)


def tables(fn, isfield, report):
    """number of on-demand tables checked in fn"""
    body = fn['body']
    rs = []
    for x in walk(body):
        m = method(x)
        if m and m[1] == 'resize' and len(m[2]) == 1 and isfield(m[0]): rs.append((ser(m[0]), m[2][0], x))
    if not rs: return 0
    env = {}; base = {}
    for x in walk(body):
        if x.get('k') == 'decl':
            for v in x['v']:
                if v.get('e') is None: continue
                ms = [method(y) for y in walk(v['e'])]
                ms = [m for m in ms if m and m[1] == 'size']
                if ms: base[v['id']] = {ser(m[0]) for m in ms}
    done = 0
    for tbl, N, at in rs:
        olds = [d for d, s in base.items() if tbl in s] or list(base)
        if not olds: continue
        n_new = lin(N); starts = [{'v%s' % d: 1} for d in olds]
        iv = []
        def idxof(e):
            e = strip(e)
            if isinstance(e, dict) and e.get('k') == 'idx' and ser(e['a']) == tbl: return e['i']
            m = method(e)
            if m and m[1] in ('[]', 'operator[]') and ser(m[0]) == tbl: return m[2][0]
            return None
        def writes(n):
            for y in walk(n):
                t = None
                if y.get('k') == 'bin' and y['op'] == '=': t = y['a']
                elif y.get('k') == 'call' and y.get('opc') == '=' : t = y.get('o') if y.get('o') else (y.get('a') or [None])[0]
                if t is not None and idxof(t) is not None: yield idxof(t)
        inloop = set()
        for lp in walk(body):
            if lp.get('k') != 'for' or not isinstance(lp.get('init'), dict) or lp['init'].get('k') != 'decl' or not isinstance(lp.get('c'), dict): continue
            ws = list(writes(lp.get('s')))
            if not ws: continue
            if any(q is not lp and q.get('k') in ('for', 'while', 'rfor') and any(True for _ in writes(q)) for q in walk(lp.get('s'))): continue
            for w in ws: inloop.add(id(w))
            v = lp['init']['v'][0]; i0 = lin(v.get('e')); c = strip(lp['c']); inc = strip(lp.get('inc'))
            if c.get('k') != 'bin' or not isinstance(inc, dict): continue
            a, b = lin(c['a']), lin(c['b']); op = c['op']; iv_ = {'v%s' % v['id']: 1}
            if diff(a, iv_) is None:
                if diff(b, iv_) is None: continue
                a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            off0 = diff(a, iv_)
            bound = dict(b); bound[''] = bound.get('', 0) - off0
            up = inc.get('k') == 'un' and inc['op'].startswith('++')
            for w in ws:
                o = diff(lin(w), iv_)
                if o is None or i0 is None: continue
                if up: lo, hi = dict(i0), dict(bound); hi[''] = hi.get('', 0) + (1 if op == '<=' else 0)
                else: lo, hi = dict(bound), dict(i0); lo[''] = lo.get('', 0) + (1 if op == '>' else 0); hi[''] = hi.get('', 0) + 1
                lo[''] = lo.get('', 0) + o; hi[''] = hi.get('', 0) + o
                iv.append((lo, hi))
        for w in writes(body):
            if id(w) in inloop: continue
            l = lin(w)
            if l is not None: h = dict(l); h[''] = h.get('', 0) + 1; iv.append((l, h))
        if not iv: continue
        done += 1
        ok = False
        for st in starts:
            cur = st; changed = True; seen = set()
            while changed and not ok:
                changed = False
                for n, (lo, hi) in enumerate(iv):
                    if n in seen: continue
                    d = diff(lo, cur)
                    low_const = [t for t in lo if t != '' and lo[t]] == []
                    if (d is not None and d == 0) or (low_const and 0 <= lo.get('', 0) <= 1):
                        seen.add(n); cur = hi; changed = True; break
                e = diff(cur, n_new)
                if e is not None and e >= 0: ok = True
        if not ok: report(at.get('l'), 'growing the table %s does not fill exactly the new entries (from the old size up to the new size)' % re.sub(r'#\d*', '', tbl))
        # skip conditions: a `return` before the resize under a condition on old size / parameter
        for q in walk(body):
            if q.get('k') != 'if': continue
            a = q.get('a'); skip = None
            if any(y.get('k') == 'ret' for y in walk(a)) and not any(y is at for y in walk(a)): skip = True
            elif any(y is at for y in walk(a)): skip = False
            if skip is None: continue
            c = strip(q['c'])
            if c.get('k') != 'bin' or c['op'] not in ('<', '<=', '>', '>='): continue
            l, r = lin(c['a']), lin(c['b'])
            op = c['op']
            if l is None or r is None: continue
            if op in ('<', '<='): l, r = r, l
            strict = op in ('<', '>')
            # condition is l >= r + strict
            if not skip: l, r, strict = r, l, not strict      # negated: skipped iff r >= l + (not strict)
            # skipped implies l - r >= strict; need size >= p + 1 where p is the parameter
            for p in fn['p']:
                for st in starts + [{t: 1} for t in l if t.startswith('size ')]:
                    dd = diff({**l}, st)
                    if dd is None: continue
                    pr = diff(r, {'v%s' % p['id']: 1})
                    if pr is None: continue
                    # size + dd >= p + pr + strict  ->  size - p >= pr + strict - dd
                    if pr + int(strict) - dd < 1: report(q.get('l'), 'extension of the table %s is skipped although the requested index may lie past its end' % re.sub(r'#\d*', '', tbl))
    return done


def gv(e):
    """name of the mutable static member an lvalue is rooted in"""
    e = strip(e)
    while isinstance(e, dict) and (e.get('k') == 'idx' or (method(e) and method(e)[1] in ('[]', 'operator[]'))): e = strip(e['a'] if e.get('k') == 'idx' else method(e)[0])
    if isinstance(e, dict) and e.get('k') in ('ref', 'mem') and e.get('dk') == 'gvar' and 'cv' not in e: return e.get('n')
    return None


SETTERS = {'set_mod': 'mod', 'set_multiplication': None, 'set_max_size': None, 'set_bases': None}


class Restored(Flow):
    """state: {setting: 'same' | 'changed'}; saved: local -> setting it was read from"""
    def __init__(s, key, helpers, report, file): s.file = file; s.key = key; s.helpers = helpers; s.report = report; s.saved = {}; s.changed = set(); s.first = {}; s.left = set()
    def copy(s, st): return dict(st)
    def join(s, a, b): return {k: ('same' if a.get(k, 'same') == b.get(k, 'same') == 'same' else 'changed') for k in set(a) | set(b)}
    def savedvar(s, e, k):
        e = strip(e)
        while isinstance(e, dict) and e.get('k') in ('cast', 'x', 'init', 'pinit', 'ctor') and len([c for c in kids(e)]) == 1: e = strip(list(kids(e))[0])
        return isinstance(e, dict) and e.get('k') == 'ref' and s.saved.get(e.get('d')) == k
    def expr(s, e, st):
        e = strip(e)
        if not isinstance(e, dict) or e.get('k') == 'lambda': return
        for c in kids(e): s.expr(c, st)
        if e.get('k') != 'call': return
        k = s.key(e, SETTERS)
        if k is not None:
            a = (e.get('a') or [None])[0]
            st[k] = 'same' if s.savedvar(a, k) else 'changed'
            if st[k] == 'changed': s.first.setdefault(k, e.get('l'))
            return
        n = e.get('n') or (strip(e.get('fe')) or {}).get('n')
        if (n, s.file) in s.helpers:
            for q in s.helpers[(n, s.file)]: st[q] = 'changed'; s.first.setdefault(q, e.get('l'))
    def refine(s, e, st, truth):
        # 'if there was a modulus before': nothing to restore otherwise
        if not truth and any(x.get('k') == 'ref' and x.get('d') in s.saved for x in walk(e)):
            for x in walk(e):
                if x.get('k') == 'ref' and x.get('d') in s.saved: st[s.saved[x['d']]] = 'same'
        return st
    def decl(s, v, st):
        if v.get('e') is None: return
        e = strip(v['e'])
        while isinstance(e, dict) and e.get('k') in ('cast', 'x', 'init', 'pinit', 'ctor') and len(list(kids(e))) == 1: e = strip(list(kids(e))[0])
        if isinstance(e, dict) and e.get('k') == 'call':
            k = s.key(e, {'mod': 1, 'get_mod': 1, 'umod': 1})
            if k is not None and st.get(k, 'same') == 'same': s.saved[v['id']] = k
        s.expr(v['e'], st)
    def on_return(s, e, st, node):
        if e is not None: s.expr(e, st)
        s.exit(st, node.get('l'))
    def exit(s, st, line):
        for k, v in st.items():
            if v == 'changed': s.left.add(k); s.report(line, k)


def restored(d, F, fl, seen, res):
    """library functions that switch a process-wide setting give it back on every way out"""
    cls = {x['id']: x.get('cls') for x in d['decls']}; cls.update({x['id']: x.get('cls') for x in d['funcs']})
    def key(e, names):
        fe = strip(e.get('fe')) or {}
        n = e.get('n') or fe.get('n')
        if n not in names: return None
        if e.get('f') is not None and cls.get(e['f']) is not None: return 'c%s' % cls[e['f']]
        q = fe.get('qn') or ''
        return 't' + q if q else None
    todo = []
    for fn in d['funcs']:
        if not isinstance(fn.get('body'), dict) or fn.get('inst'): continue
        f = fl(fn['loc'])
        if not f.startswith('library/'): continue
        if any(x.get('k') == 'call' and key(x, SETTERS) for x in walk(fn['body'])): todo.append((fn, f))
    if not todo: return
    dt = {fn.get('cls') for fn, f in todo if fn.get('dtor') or fn['n'].startswith('~') or fn['n'] == '(dtor)'}
    helpers = {}
    for rnd in (0, 1, 2):
        last = rnd == 2
        extra = [] if rnd == 0 else [(fn, fl(fn['loc'])) for fn in d['funcs'] if isinstance(fn.get('body'), dict) and not fn.get('inst') and fl(fn['loc']).startswith('library/') and not any(fn is a for a, b in todo) and any(x.get('k') == 'call' and (x.get('n') or (strip(x.get('fe')) or {}).get('n'), fl(fn['loc'])) in helpers for x in walk(fn['body']))]
        for fn, f in todo + extra:
            if fn.get('cls') in dt and (fn.get('ctor') or fn.get('dtor') or fn['n'].startswith('~')): continue
            inner = fn.get('acc') in ('private', 'protected') or '::internal::' in fn['q'] or '(anonymous' in fn['q'] or fn.get('lam')
            fk = (f, fn['loc'][1], fn['loc'][2])
            def report(line, k):
                if last and not inner: res.violation('restore:%s:%s' % (fn['q'], f), '%s:%s' % (f, line), 'returns with a process-wide setting (set in line %s) not given back: later operations of other callers see it' % w.first.get(k), fn['q'])
            w = Restored(key, helpers, report, f)
            ex = Exit(); out = w.stmt(fn['body'], {}, ex)
            if out is not None: w.exit(out, fn['body'].get('le', fn['loc'][1]))
            if inner and w.left and not fn.get('lam'): helpers.setdefault((fn['n'], f), set()).update(w.left)
            if last and fk not in seen: seen.add(fk); res.count('functions switching a process-wide setting')


# nodes whose fields left over from an earlier use are never read: leaves are told apart by the length of their range, not by their children
UNREAD = {'suisen::PersistentCommutativeDualSegmentTree::Node::build()::(lambda)::operator()'}


def recycled(fn, report, part):
    """nodes handed out again carry what they held before: whoever takes one from a pool or a free list has to give the whole node a new value at once"""
    n = 0
    par = {}
    for x in walk(fn['body']):
        for y in kids(x):
            if isinstance(y, dict): par[id(y)] = x
    def up(x):
        p = par.get(id(x))
        while isinstance(p, dict) and p.get('k') in ('paren', 'cast', 'impl', 'tmp', 'clean'): p = par.get(id(p))
        return p
    def deref_of(e, isit):
        """e is *it, or a call/subscript f(it), pool[it] naming the slot"""
        e = strip(e)
        if not isinstance(e, dict): return False
        if e.get('k') == 'un' and e['op'] == '*': return isit(strip(e['e']))
        if e.get('k') == 'idx': return isit(strip(e['b'] if 'b' in e else e['i']))
        if e.get('k') == 'call' and part(fn, e): return False
        if e.get('k') == 'call': return any(isit(strip(a)) for a in (e.get('a') or []) + ([e['o']] if e.get('o') else []))
        return False
    def whole(x, isit):
        if x.get('k') == 'bin' and x['op'] == '=': return deref_of(x['a'], isit)
        if x.get('k') == 'call' and x.get('opc') == '=':
            l = x['o'] if x.get('o') else x['a'][0]
            return deref_of(l, isit)
        if x.get('k') == 'new' and x.get('pl'): return any(isit(strip(y)) for y in walk(x))
        if x.get('k') == 'call' and (x.get('n') or (strip(x.get('fe')) or {}).get('n')) in ('construct_at', 'construct', 'exchange', 'assign'): return any(isit(strip(a)) or deref_of(a, isit) for a in x.get('a') or [])
        return False
    def uncond(b):
        """expressions evaluated whenever the block is entered"""
        for st in (b.get('s') or []) if b.get('k') == 'block' else [b]:
            if st.get('k') == 'block': yield from uncond(st); continue
            if st.get('k') in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'try'): continue
            yield from walk(st)
    blocks = [b for b in walk(fn['body']) if b.get('k') == 'block']
    def handled(d, b):
        isit = lambda e: isinstance(e, dict) and e.get('k') == 'ref' and e.get('d') == d
        if any(whole(x, isit) for x in uncond(b)): return True
        # or every path of a chain of branches does it
        for st in b.get('s') or []:
            if st.get('k') == 'if' and st.get('b') is not None and all(any(whole(x, isit) for x in uncond(z)) for z in (st['a'], st['b'])): return True
        return False
    for x in walk(fn['body']):
        m = method(x) if x.get('k') == 'call' else None
        if m and m[1] == 'alloc' and not m[2]:
            n += 1
            p = up(x)
            if isinstance(p, dict) and p.get('k') == 'un' and p['op'] == '*':
                q = up(p)
                if isinstance(q, dict) and (q.get('k') == 'bin' and q['op'] == '=' and strip(q['a']) is p or q.get('k') == 'call' and q.get('opc') == '='): continue
            ok = fn['q'] in UNREAD
            for b in blocks:
                for st in b.get('s') or []:
                    if st.get('k') == 'decl':
                        for v in st['v']:
                            if v.get('e') is not None and strip(v['e']) is x and handled(v['id'], b): ok = True
            if p is not None and p.get('k') == 'ret': ok = True      # handed on: judged at the caller
            if not ok: report(x.get('l'), 'a node taken from the pool is used without being given a new value as a whole: it still carries what an earlier object left in it')
    # free lists: h = list.back(); list.pop_back(); ... return h
    for b in blocks:
        pops = {}
        for st in b.get('s') or []:
            for x in walk(st) if st.get('k') in ('expr',) else []:
                m = method(x) if x.get('k') == 'call' else None
                if m and m[1] in ('pop_back', 'pop') and gv(m[0]): pops[gv(m[0])] = x
        for st in b.get('s') or []:
            if st.get('k') != 'decl': continue
            for v in st['v']:
                src = {gv(method(y)[0]) for y in walk(v.get('e')) if y.get('k') == 'call' and method(y) and method(y)[1] in ('back', 'top', 'front')} if v.get('e') is not None else set()
                if not (src & set(pops)): continue
                if not any(y.get('k') == 'ret' and y.get('e') is not None and any(z.get('k') == 'ref' and z.get('d') == v['id'] for z in walk(y['e'])) for y in walk(fn['body'])): continue
                n += 1
                if not handled(v['id'], b): report(v.get('l', st.get('l')), 'a recycled node is handed out without being given a new value on every path: it still carries what an earlier object left in it')
    return n


def run(res, tier):
    js = X.run_headers()
    writers = {}; derived = {}; why = {}; retv = {}
    seenv = set(); seenf = set(); seenr = set(); globs = Counter(); where = {}
    for h, j in sorted(js.items()):
        d = X.load(j); T = d['types']; F = d['files']
        fl = lambda lc: X.rel(F[lc[0]])
        statics = {}
        for v in d['vars']:
            f = fl(v['loc'])
            if not f.startswith('library/'): continue
            key = (f, v['loc'][1], v['loc'][2], v['n'])
            t = T[v['t']]['s']
            if v.get('constexpr') or v.get('const') or t.startswith('const '):
                if key not in seenv: seenv.add(key); res.count('constant static variables')
                if v['st'] != 'local' or not v.get('dep') and not v.get('init'): continue
                if not v.get('constexpr'): statics[v['id']] = (v, f, norm(t)); v['isconst'] = 1
                continue
            if v['st'] == 'local': statics[v['id']] = (v, f, norm(t)); continue
            if key in seenv: continue
            if '<' in v['q'] and not v.get('dep'): continue
            seenv.add(key)
            res.count('mutable static variables')
            if RNG.search(t): continue
            owner = v['q'].rpartition('::')[0]
            globs[(owner, norm(t))] += 1; where.setdefault((owner, norm(t)), ('%s:%d' % (f, v['loc'][1]), v['q'])); why[(owner, v['n'])] = (ALLOWED.get((owner, norm(t))) or (0, ''))[1]
        restored(d, F, fl, seenr, res)
        acc = {}
        for fn in d['funcs']:
            b = fn['body'].get('s') or [] if isinstance(fn.get('body'), dict) else []
            if len(b) == 1 and b[0].get('k') == 'ret' and isinstance(strip(b[0].get('e')), dict): acc.setdefault((fn.get('cls'), fn['n']), []).append(strip(b[0]['e']).get('k') == 'mem' and strip(b[0]['e']).get('dk') != 'gvar' and strip(strip(b[0]['e']).get('b') or {}).get('k') != 'this')
        def part(fn, e):
            """the call names a part of the node, not the node"""
            v = acc.get((fn.get('cls'), e.get('n') or (strip(e.get('fe')) or {}).get('n')))
            return bool(v) and all(v)
        # local statics and tables
        fields = None
        for fn in d['funcs']:
            if not isinstance(fn.get('body'), dict): continue
            f = fl(fn['loc'])
            if not f.startswith('library/'): continue
            if fn.get('inst'): continue
            key = (f, fn['loc'][1], fn['loc'][2])
            if key in seenf: continue
            seenf.add(key); res.count('functions scanned')
            mine = {}
            lambdas_in = None
            for x in walk(fn['body']):
                if x.get('k') == 'decl':
                    for v in x['v']:
                        if v.get('static'): mine[v['id']] = v
            def report(line, msg, d=None): res.violation('%s:%s:%s' % (f, fn['q'], msg[:60]), '%s:%s' % (f, line), msg, fn['q'])
            drained = {}
            for vid, dv in mine.items():
                if vid not in statics: continue
                v, _, t = statics[vid]
                if v.get('isconst'):
                    def bad(x):
                        if x.get('k') == 'this' or x.get('k') == 'ref' and (x.get('dk') == 'parm' or x.get('dk') == 'var' and 'cv' not in x): return True
                        fe = strip(x.get('fe')) if x.get('k') == 'call' and x.get('fe') else None
                        return isinstance(fe, dict) and fe.get('n') in ('mod', 'get_mod', 'umod') or x.get('k') == 'call' and x.get('n') in ('mod', 'get_mod', 'umod') and 'cv' not in x
                    if dv.get('e') and fn['q'] not in MODULUS_TABLES and any(bad(x) for x in walk(dv['e'])): report(dv['l'], 'static %s is computed once, from this call\'s arguments or the modulus then in force, and kept for all later calls' % v['n'])
                    continue
                res.count('mutable static variables')
                if RNG.search(T[v['t']]['s']): continue
                own = fn['q']
                if (own, t) in ALLOWED: globs[(own, t)] += 1; where.setdefault((own, t), ('%s:%d' % (f, dv['l']), v['q'])); continue
                if re.search(r'\b(unordered_)?map<|hash_map|gp_hash_table', t):
                    res.count('memo maps'); memo(fn, vid, v['n'], report); continue
                if re.search(r'vector<|deque<|stack<|queue<|basic_string<|set<|array<', t):
                    if marks(fn, vid) and any(True for x in walk(fn['body']) if (x.get('k') == 'idx' and isvar(x['a'], vid)) or (method(x) and isvar(method(x)[0], vid) and method(x)[1] in ('[]', 'operator[]'))):
                        res.count('mark arrays'); continue
                    drained[vid] = v['n']; res.count('scratch containers'); continue
                report(dv['l'], 'static local %s of type %s keeps a value between calls' % (v['n'], T[v['t']]['s'][:60]))
            if drained:
                fw = Drained(drained, fn, report); ex = Exit()
                out = fw.stmt(fn['body'], {k: 'E' for k in drained}, ex)
                if out is not None: fw.exit(out, fn['body'].get('le', fn['loc'][1]))
            res.count('nodes taken from pools and free lists', recycled(fn, report, part))
            # on-demand tables
            if fn.get('cls') is not None or True:
                def isfield(o):
                    o = strip(o)
                    while isinstance(o, dict) and (o.get('k') == 'idx' or (method(o) and method(o)[1] in ('[]', 'operator[]'))): o = strip(o['a'] if o.get('k') == 'idx' else method(o)[0])
                    if not isinstance(o, dict): return False
                    if o.get('k') == 'mem': return o.get('dk') == 'gvar' or (fn.get('const') and o.get('dk') == 'field' and strip(o.get('b')).get('k') == 'this')
                    return o.get('k') == 'ref' and o.get('dk') == 'gvar' and o.get('d') not in mine
                res.count('on-demand tables', tables(fn, isfield, report))
            # writes to static members, and which statics feed them
            if fn.get('cls') is not None and not fn.get('ctor'):
                cls = fn['q'].rpartition('::')[0]
                alias = {}
                for x in walk(fn['body']):
                    if x.get('k') == 'rfor' and x.get('v') and T[x['v']['t']].get('ref'):
                        g = gv(x['r'])
                        if g: alias[x['v']['id']] = g
                for x in walk(fn['body']):
                    t = None; rhs = None
                    if x.get('k') == 'bin' and x['op'] in ('=', '+=', '*='): t, rhs = x['a'], x['b']
                    elif x.get('k') == 'call' and x.get('opc') == '=': t, rhs = (x['o'], (x.get('a') or [None])[0]) if x.get('o') else (x['a'][0], x['a'][1])
                    elif method(x) and method(x)[1] in ('clear', 'assign', 'fill', 'swap'): t = method(x)[0]
                    if t is None: continue
                    g = gv(t)
                    tt = strip(t)
                    if g is None and isinstance(tt, dict) and tt.get('k') == 'ref': g = alias.get(tt.get('d'))
                    if g is None: continue
                    fk = (f, fn['loc'][1], fn['loc'][2])
                    retv[fk] = 'void' not in T[fn['ret']]['s'] if 'ret' in fn else False
                    writers.setdefault((cls, g), []).append((fn['q'], fk, '%s:%s' % (f, x.get('l'))))
                    if rhs is not None and isinstance(strip(t), dict) and (strip(t).get('k') == 'idx' or method(t)):
                        ss = {gv(y) for y in walk(rhs) if y.get('k') in ('ref', 'mem', 'idx', 'call')} - {None}
                        a, b = derived.setdefault((cls, g), (set(), '%s:%s' % (f, x.get('l')))); a |= ss
            # entropy and clocks
            if f != 'library/util/timer.hpp':
                for x in walk(fn['body']):
                    if x.get('k') == 'call' and (x.get('n') in ('time', 'rand', 'clock', 'clock_gettime', 'random', 'drand48') or (x.get('n') == 'now')):
                        dn = x.get('n'); report(x.get('l'), 'calls %s(): the result depends on when it runs' % dn)
                # random_device only inside the initialiser of an engine
                okn = set()
                for x in walk(fn['body']):
                    if x.get('k') == 'decl':
                        for v in x['v']:
                            if RNG.search(T[v['t']]['s']) or 'Rng' in T[v['t']]['s'] or re.search(r'engine|type-parameter', T[v['t']]['s']): okn |= {id(y) for y in walk(v.get('e'))}
                for x in walk(fn['body']):
                    if x.get('k') == 'ctor' and 'random_device' in T[x['t']]['s'] and id(x) not in okn: report(x.get('l'), 'entropy used outside the seeding of a random engine')
    # tables derived from a settable static are dropped when it is set
    for (cls, src), ws in writers.items():
        for (c2, dst), (srcs, w0) in derived.items():
            if c2 != cls or src not in srcs or src == dst: continue
            for fq, fnk, w in ws:
                res.count('derived-table invalidations')
                if not any(k == fnk for _, k, _ in writers.get((cls, dst), [])):
                    res.violation('derived:%s:%s' % (cls, dst), w, 'sets %s but keeps %s, which was computed from the previous value' % (src, dst), fq)
    for (cls, g), ws in writers.items():
        if not re.match(r'user-|constant', why.get((cls, g), '')): continue
        for fq, fk, w in ws:
            res.count('writers of process-wide settings')
            if retv.get(fk) or why[(cls, g)] == 'constant tuning parameter': res.violation('setting:%s:%s' % (cls, g), w, 'an operation that computes something changes the setting %s for everyone (%s)' % (g, why[(cls, g)]), fq)
    for (owner, t), n in globs.items():
        res.count('process-wide variables matched to the table', n)
        a = ALLOWED.get((owner, t))
        w, q = where[(owner, t)]
        if a is None: res.violation('static:%s:%s' % (owner, t), w, 'mutable static %s (%s) is shared by all calls and objects and is not one of the declared process-wide tables' % (q, t[:80]), owner)
        elif n > a[0]: res.violation('static:%s:%s' % (owner, t), w, '%d mutable statics of type %s in %s, %d declared' % (n, t[:60], owner, a[0]), owner)
    res.floor('functions scanned', 2500)
    res.floor('mutable static variables', 50)
    res.floor('scratch containers', 3)
    res.floor('memo maps', 8)
    res.floor('on-demand tables', 4)
