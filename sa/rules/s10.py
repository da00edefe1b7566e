"""(a) Every constructor the library writes leaves every scalar, pointer, enum or array-of-scalar field of its class with a value: by a member initialiser, a default member initialiser, a delegated or base constructor, or an assignment on every path of its body (calls to members of the same class are followed). (b) Every local scalar is assigned on every path before it is read (definite assignment; passing it by reference to a callee that may write counts as assignment). (c) Every value-returning function returns or aborts on every path."""
import re, json
import extract as X
from flow import Flow, Exit, kids, walk, strip, lit, is_assert_fail
TECHNIQUE = 'definite-assignment dataflow over every constructor and function body (clang AST), plus missing-return analysis'

EXEMPT = {}
def exempt(q, name, why): EXEMPT[(q, name)] = why
exec(open(__file__.replace('s10.py', 's10_exempt.py')).read())

NORETURN = {'abort', 'exit', '__assert_fail', 'terminate', '__builtin_unreachable', '_Exit', 'quick_exit', 'throw_with_nested', 'rethrow_exception'}


def scalar(t, T, depth=0):
    """scalar-like (would be indeterminate when default-initialised)"""
    if t.get('ref'): return False
    if t.get('arr') and t.get('of') is not None: return scalar(T[t['of']], T, depth + 1)
    if t.get('ptr') or t.get('int') or t.get('bool') or t.get('flt'): return True
    return False


ELEM = r'(?:(?:un)?signed |long |short )*(?:int|char|long|short|bool|float|double|unsigned|__int128|signed char|type-parameter-\d+-\d+|[\w:<>, ]+ ?\*)'


def depscalar(t):
    return bool(re.match(r'^type-parameter-\d+-\d+$', t['s']) or re.match(r'^std::array<%s, [^<>]+>$' % ELEM, t['s']))


def dinit(r, T):
    """(scalar fields left indeterminate, scalar fields with a default member initialiser) when no constructor is written"""
    un = set(); ini = set()
    for x in r.get('fields') or []:
        if not x.get('n') or 't' not in x or T[x['t']].get('ref'): continue
        if x.get('init'): ini.add(x['n'])
        elif scalar(T[x['t']], T) or depscalar(T[x['t']]): un.add(x['n'])
    return un, ini


FZ = json.load(open(X.VERIF + '/witness/default_init.json'))


def default_init(res, r, d, f):
    """A default-constructible class that gave its scalars a value must not stop doing so: compared by number with the frozen inventory."""
    if r['q'] not in FZ or r.get('udef'): return      # a written default constructor is decided by the constructor rule
    un0, ini0 = FZ[r['q']]; un, ini = dinit(r, d['types']); res.count('classes compared with the default-initialiser inventory')
    if len(un) > len(un0) and len(ini) < len(ini0):
        res.violation('dinit:%s' % r['q'], '%s:%d' % (f, r['loc'][1]), 'fields %s of a default-constructible class no longer get a value' % ', '.join(sorted(un - set(un0))), r['q'])


def fld(e, fn):
    """name of the field when e is this->f or f"""
    e = strip(e)
    if isinstance(e, dict) and e.get('k') == 'mem' and e.get('dk') in ('field', 'dep'):
        b = strip(e.get('b')) if e.get('b') is not None else None
        if b is None or (isinstance(b, dict) and b.get('k') == 'this'): return e.get('n')
        if isinstance(b, dict) and b.get('k') == 'un' and b.get('op') == '*' and strip(b['e']).get('k') == 'this': return e.get('n')
    return None


class DA(Flow):
    """state: frozenset of keys that may be unassigned; keys are local ids or ('f', field)"""
    def __init__(s, fn, d, report, methods, depth=0):
        s.fn = fn; s.d = d; s.T = d['types']; s.report = report; s.methods = methods; s.depth = depth; s.names = {}
        s.decls = s.d.setdefault('_decls', {x['id']: x for x in d['decls']} | {x['id']: x for x in d['funcs']})
    def copy(s, st): return set(st)
    def join(s, a, b): return a | b
    def key(s, e):
        e = strip(e)
        if not isinstance(e, dict): return None
        if e.get('k') == 'ref' and e.get('dk') in ('var', 'bind'): return e.get('d')
        f = fld(e, s.fn)
        return ('f', f) if f else None
    def root(s, e):
        e = strip(e)
        while isinstance(e, dict):
            if e.get('k') == 'idx': e = strip(e['a'])
            elif e.get('k') == 'mem' and not e.get('ar') and s.key(e) is None and e.get('b') is not None: e = strip(e['b'])
            elif e.get('k') == 'call' and e.get('opc') == '[]' and e.get('o'): e = strip(e['o'])
            else: break
        return s.key(e)
    def assign(s, e, st, whole=True):
        k = s.root(e)
        if k is not None: st.discard(k)
        # evaluate sub-indices and cond lvalues
        x = strip(e)
        if isinstance(x, dict) and x.get('k') == 'idx': s.expr(x['i'], st)
        elif isinstance(x, dict) and x.get('k') == 'cond': s.expr(x['c'], st); s.assign(x['a'], st); s.assign(x['b'], st)
        elif isinstance(x, dict) and x.get('k') not in ('ref', 'mem'): s.expr(x, st)
        elif isinstance(x, dict) and x.get('k') == 'mem' and s.key(x) is None: s.expr(x.get('b'), st)
    def read(s, e, st):
        k = s.key(e)
        if k is not None and k in st:
            s.report(k, e.get('l'), s.names.get(k, k[1] if isinstance(k, tuple) else '?'))
            st.discard(k)
    def expr(s, e, st):
        e = strip(e)
        if not isinstance(e, dict): return
        k = e.get('k')
        if k == 'lambda':
            for c in e.get('inits', []):
                if c.get('ref'): st.discard(c.get('v'))
                elif 'v' in c and c['v'] in st and not c.get('e', {}).get('k') == 'x':
                    s.report(c['v'], e.get('l'), s.names.get(c['v'], c.get('n'))); st.discard(c['v'])
            for o in e.get('ops', []):
                b = (s.decls.get(o) or {}).get('body')
                if b: st -= {x.get('d') for x in walk(b) if x.get('k') == 'ref'}
            if any(c.get('this') for c in e.get('inits', [])): st -= {x for x in st if isinstance(x, tuple)}
            return
        if k in ('ref', 'mem'):
            key = s.key(e)
            if key is not None: s.read(e, st); return
            if k == 'mem' and e.get('b') is not None:
                r = s.root(e)
                if r is None: s.expr(e['b'], st)
                elif r in st and not isinstance(r, tuple): s.read(strip(e['b']), st)
            return
        if k == 'bin':
            op = e['op']
            if op == '=':
                s.expr(e['b'], st); s.assign(e['a'], st); return
            if op in ('&&', '||', 'and', 'or'):
                s.expr(e['a'], st); b = set(st); s.expr(e['b'], b); return
            if op == '>>' and s.key(e['b']) in st and not s.T[strip(e['a'])['t']].get('int'): s.expr(e['a'], st); s.assign(e['b'], st); return
            s.expr(e['a'], st); s.expr(e['b'], st); return
        if k == 'cond':
            if is_assert_fail(strip(e.get('b'))): s.expr(e['c'], st); return
            t, f = s.cond(e['c'], st)
            a = t if t is not None else set(); b = f if f is not None else set()
            s.expr(e['a'], a); s.expr(e['b'], b)
            st.clear(); st |= a | b; return
        if k == 'un' and e['op'] == '&': s.assign(e['e'], st); return
        if k == 'un' and e['op'] in ('++', '--', '++post', '--post'): s.expr(e['e'], st); return
        if k == 'call':
            if e.get('opc') == '=' and e.get('o'):
                for a in e.get('a', []): s.expr(a, st)
                s.assign(e['o'], st); return
            if e.get('opc') == '=' and len(e.get('a', [])) == 2:
                s.expr(e['a'][1], st); s.assign(e['a'][0], st); return
            if e.get('fe') is not None:
                fe = strip(e['fe'])
                if isinstance(fe, dict) and fe.get('k') == 'mem' and fe.get('dk') == 'dep' and fe.get('b') is not None and s.key(fe['b']) is not None: st.discard(s.key(fe['b']))
                else: s.expr(fe, st)
            callee = s.decls.get(e.get('f'))
            o = e.get('o')
            this_call = False
            if o is not None:
                x = strip(o)
                if isinstance(x, dict) and x.get('k') == 'this': this_call = True
                elif s.key(o) is not None and s.key(o) in st and isinstance(s.key(o), tuple) is False: st.discard(s.key(o))
                else:
                    if s.key(o) is not None: st.discard(s.key(o))
                    else: s.expr(o, st)
            ps = (callee or {}).get('p') or []
            for i, a in enumerate(e.get('a', [])):
                key = s.root(a)
                x = strip(a)
                if key is not None and isinstance(x, dict) and x.get('k') in ('ref', 'mem', 'idx'):
                    t = s.T[ps[i]['t']] if i < len(ps) else None
                    byref = t is None or (t.get('ref') and not t['s'].startswith('const ')) or t.get('ptr') or t.get('arr')
                    if byref: s.assign(a, st); continue
                s.expr(a, st)
            fe = strip(e.get('fe')) if e.get('fe') else None
            if (this_call or (isinstance(fe, dict) and fe.get('k') == 'ref' and fe.get('dk') == 'dep') or (isinstance(fe, dict) and fe.get('k') == 'mem' and fe.get('b') is None)) and any(isinstance(x, tuple) for x in st):
                # a member of the same object: take its assignments
                name = e.get('n') or (fe or {}).get('n')
                ms = s.methods.get(name, [])
                if ms and s.depth < 4:
                    outs = []
                    for m in ms:
                        sub = DA(m, s.d, lambda *a: None, s.methods, s.depth + 1)
                        ex = Exit(); r = sub.stmt(m['body'], {x for x in st if isinstance(x, tuple)}, ex)
                        rr = [x for x in ([r] + ex.ret) if x is not None]
                        outs.append(set().union(*rr) if rr else set())
                    left = set().union(*outs)
                    for x in [x for x in st if isinstance(x, tuple) and x not in left]: st.discard(x)
                elif not ms and (this_call or fe is not None and fe.get('k') == 'mem'):
                    # inherited member of a dependent base: own fields are not reachable from it
                    pass
            return
        if k in ('ctor', 'new', 'init', 'stdinit', 'x', 'cast', 'un', 'idx', 'delete', 'throw', 'arrcopy', 'stmtexpr'):
            if k == 'x' and s.key(e) is None:
                # unresolved call/construct: arguments may be taken by reference
                for c in kids(e):
                    if s.key(c) is not None and e.get('cls') in ('CXXUnresolvedConstructExpr',): s.expr(c, st)
                    elif s.key(c) is not None and e.get('cls') in ('ParenListExpr',): st.discard(s.key(c))
                    else: s.expr(c, st)
                return
            if k == 'ctor':
                callee = s.decls.get(e.get('f')); ps = (callee or {}).get('p') or []
                for i, a in enumerate(e.get('a', [])):
                    t = s.T[ps[i]['t']] if i < len(ps) else None
                    if s.root(a) is not None and t is not None and t.get('ref') and not t['s'].startswith('const '): s.assign(a, st)
                    else: s.expr(a, st)
                return
            if k == 'stmtexpr':
                s.stmt(e.get('s'), st, Exit()); return
            for c in kids(e): s.expr(c, st)
            return
        for c in kids(e): s.expr(c, st)
    def decl(s, v, st):
        s.names[v['id']] = v['n']
        if v.get('static'): return
        t = s.T[v['t']]
        e = v.get('e')
        if e is None:
            if v.get('binds') is None and (scalar(t, s.T) or depscalar(t)): st.add(v['id'])
            return
        x = strip(e)
        if t.get('ref') and s.root(x) is not None:
            st.discard(s.root(x)); return
        if isinstance(x, dict) and x.get('k') == 'ctor' and not x.get('a') and not x.get('zi') and depscalar(t): st.add(v['id']); return
        s.expr(e, st)
    def loop(s, n, st, ex):
        # an array filled element by element in a loop counts as filled afterwards
        pre = set()
        for x in walk(n.get('s')):
            tgt = x.get('a') if x.get('k') == 'bin' and x['op'] == '=' else x.get('o') if x.get('k') == 'call' and x.get('opc') == '=' else None
            y = strip(tgt) if tgt is not None else None
            if isinstance(y, dict) and (y.get('k') == 'idx' or y.get('k') == 'call' and y.get('opc') == '[]'):
                r = s.root(y)
                if r is not None and r in st: pre.add(r)
        out = super().loop(n, st, ex)
        if out is not None: out -= pre
        return out
    def range_var(s, n, st):
        if n.get('v') is not None: s.names[n['v']['id']] = n['v']['n']; st.discard(n['v']['id'])
    def stmt(s, n, st, ex):
        # locals of an iteration start unassigned again: handled by decl; [[noreturn]] calls end the path
        if isinstance(n, dict) and n.get('k') == 'expr':
            x = strip(n['e'])
            if isinstance(x, dict) and x.get('k') == 'call' and (x.get('n') or (strip(x.get('fe')) or {}).get('n') if isinstance(strip(x.get('fe')), dict) else x.get('n')) in NORETURN: return None
        if isinstance(n, dict) and n.get('k') in ('goto', 'label'): raise Unsupported()
        return super().stmt(n, st, ex)


class Unsupported(Exception): pass


def run(res, tier):
    js = X.run_headers()
    seen = set(); ctors = 0
    for h, j in sorted(js.items()):
        d = X.load(j); T = d['types']; F = d['files']
        recs = {r['id']: r for r in d['records']}
        bycls = {}
        for r in d['records']:
            f = X.rel(F[r['loc'][0]])
            if f.startswith('library/') and (f, r['loc'][1], r['loc'][2]) not in seen: seen.add((f, r['loc'][1], r['loc'][2])); default_init(res, r, d, f)
        for fn in d['funcs']:
            if fn.get('cls') is not None and isinstance(fn.get('body'), dict) and not fn.get('ctor'): bycls.setdefault(fn['cls'], {}).setdefault(fn['n'], []).append(fn)
        for fn in d['funcs']:
            f = X.rel(F[fn['loc'][0]])
            if not f.startswith('library/') or not isinstance(fn.get('body'), dict) or fn.get('inst'): continue
            key = (f, fn['loc'][1], fn['loc'][2])
            if key in seen: continue
            seen.add(key); res.count('functions analysed')
            methods = bycls.get(fn.get('cls'), {})
            def rep(k, line, name, fn=fn, f=f):
                if (fn['q'], name) in EXEMPT: res.count('reads covered by a frozen exception'); return
                if isinstance(k, tuple): return      # reads of fields inside constructors are reported at the end
                res.violation('read:%s:%s' % (fn['q'], name), '%s:%s' % (f, line), 'local %s may be read before it is assigned' % name, fn['q'])
            st = set()
            if fn.get('ctor') and not fn.get('imp'):
                r = recs.get(fn['cls'])
                if r:
                    fs = {x['n'] for x in r['fields'] if scalar(T[x['t']], T) and x.get('n') and not x.get('init') and not x.get('mut_ok')}
                    given = set(); deleg = False
                    for i in fn.get('inits') or []:
                        if i.get('deleg') or ('base' in i and re.sub(r'<.*', '', T[i['base']]['s']).split('::')[-1] == fn['q'].split('::')[-2]): deleg = True
                        elif 'n' in i and not (isinstance(i.get('e'), dict) and i['e'].get('k') == 'noinit'): given.add(i['n'])
                    if r.get('union'): fs = set()
                    if not deleg and not fn.get('dflt'): st = {('f', x) for x in fs - given}; res.count('constructors analysed'); res.count('fields needing a value', len(fs))
                    res.count('constructors', 1)
                    if not deleg and not fn.get('dflt') and not r.get('union'): init_order(res, fn, r, methods, f, d)
            da = DA(fn, d, rep, methods); ex = Exit()
            for i in fn.get('inits') or []:
                if i.get('e') is not None: da.expr(i['e'], set())
            try: out = da.stmt(fn['body'], st, ex)
            except Unsupported: res.count('functions with goto, skipped'); continue
            if fn.get('ctor') and not fn.get('imp'):
                left = set()
                for o in [out] + ex.ret:
                    if o is not None: left |= {x for x in o if isinstance(x, tuple)}
                for _, n in sorted(left):
                    if (fn['q'], n) in EXEMPT: res.count('fields covered by a frozen exception'); continue
                    res.violation('field:%s:%s' % (fn['q'], n), '%s:%d' % (f, fn['loc'][1]), 'constructor leaves field %s without a value on some path' % n, fn['q'])
            else:
                rt = T[fn['ret']]
                if out is not None and rt['s'] not in ('void', 'auto', 'decltype(auto)') and fn['n'] != 'main' and not fn.get('dtor') and rt['s'] != 'const void' and 'decltype' not in rt['s']:
                    if not endsnr(fn['body']):
                        if (fn['q'], '<return>') in EXEMPT: continue
                        res.violation('ret:%s' % fn['q'], '%s:%s' % (f, fn['body'].get('le')), 'control can reach the end of a value-returning function', fn['q'])
                res.count('value-returning functions', 1)
    res.floor('functions analysed', 3000); res.floor('constructors analysed', 150)


def init_order(res, fn, r, methods, f, d):
    """members get their values in the order they are declared: an initialiser must not read a member declared later (directly or in a method it calls)"""
    order = {x['id']: k for k, x in enumerate(r['fields'])}; name = {x['id']: x.get('n') for x in r['fields']}
    later = set(name.values())
    ini = sorted([i for i in fn.get('inits') or [] if i.get('e') is not None], key=lambda i: order.get(i.get('m'), -1))
    def own(e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'mem' and e.get('dk') in ('field', 'dep') and (e.get('b') is None or strip(e['b']).get('k') == 'this') and e.get('n') in later: return e['n']
    def touched(e, seen, top=True):
        """(fields used, fields written) of an expression or body"""
        use, wr = {}, set()
        def go(x, addr=False):
            x = strip(x)
            if isinstance(x, list):
                for y in x: go(y)
                return
            if not isinstance(x, dict): return
            n = own(x)
            if n is not None:
                if not addr: use.setdefault(n, x.get('l'))
                return
            k = x.get('k')
            if k == 'lambda' and top: return
            if k == 'un' and x['op'] == '&': return go(x['e'], True)
            if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                n = own(x['a'])
                if n is not None: wr.add(n); go(x['b']); return
            if k == 'call':
                fe = strip(x.get('fe')) if isinstance(x.get('fe'), dict) else {}
                n = x.get('n') or (fe or {}).get('n')
                o = x.get('o') if x.get('o') is not None else (fe or {}).get('b')
                if (o is None or strip(o).get('k') == 'this') and n in methods and n not in seen:
                    ms = [m for m in methods[n] if len(m['p']) >= len(x.get('a') or [])]
                    if len(ms) == 1 and not ms[0].get('static'):
                        u, w = touched(ms[0]['body'], seen | {n}, False)
                        for g, l in u.items():
                            if g not in w: use.setdefault(g, x.get('l'))
                        wr.update(w)
            for y in kids(x): go(y)
        go(e)
        return use, wr
    res.count('member initialisers in declaration order', len(ini))
    done = set()
    for i in ini:
        if 'm' in i:
            # members declared before this one have their values by now (in-class initialisers and default construction included)
            done |= {n for q, n in name.items() if order[q] < order.get(i['m'], 10 ** 6)}
        e = i['e']
        rf = next((x for x in r['fields'] if x['id'] == i.get('m')), None)
        if rf is not None and d['types'][rf['t']].get('ref') and own(e): continue
        use, wr = touched(e, frozenset())
        for g, l in sorted(use.items()):
            if g in done or g in wr: continue
            res.violation('order:%s:%s:%s' % (fn['q'], i.get('n') or 'base', g), '%s:%s' % (f, l), '%s is computed from member %s, which is declared later and has no value yet' % (i.get('n') or 'a base', g), fn['q'])


def endsnr(b):
    """the body ends in an if constexpr chain whose conditions depend on template arguments"""
    ss = b.get('s') or []
    return bool(ss) and ss[-1].get('k') == 'if' and bool(ss[-1].get('cx'))
