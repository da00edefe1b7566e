"""Structured forward abstract interpretation over the extractor's syntax trees.
A domain subclasses Flow and supplies copy/join/equal plus transfer functions;
the engine handles statements, short-circuit conditions, loops (to a fixpoint),
break/continue/return and assert()."""


def kids(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, dict): yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict): yield x


def walk(n):
    """every node below n, n included (pre-order)"""
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        yield x
        st.extend(reversed(list(kids(x))))


def strip(e):
    """drop value-preserving wrappers"""
    while isinstance(e, dict):
        if e.get('k') == 'cast' and e.get('imp'): e = e['e']
        elif e.get('k') in ('paren', 'mat', 'bindtemp', 'exprwc'): e = e['e']
        else: break
    return e


def is_assert_fail(e):
    if not isinstance(e, dict) or e.get('k') != 'call': return False
    if e.get('n') == '__assert_fail': return True
    fe = e.get('fe')
    return isinstance(fe, dict) and fe.get('n') == '__assert_fail'


def assert_cond(e):
    """condition of an assert() expression, or None"""
    e = strip(e)
    if isinstance(e, dict) and e.get('k') == 'cond':
        b = strip(e.get('b'))
        if is_assert_fail(b): return e['c']
    return None


def lit(e):
    """integer/boolean literal value or None"""
    e = strip(e)
    if isinstance(e, dict):
        if 'cv' in e:
            v = e['cv']
            if v in ('true', 'false'): return v == 'true'
            try: return int(v)
            except (TypeError, ValueError): return None
        if e.get('k') == 'bool': return bool(e.get('v'))
    return None


class Exit:
    __slots__ = ('brk', 'cont', 'ret')
    def __init__(self): self.brk = []; self.cont = []; self.ret = []


class Flow:
    MAXIT = 12
    # ---- domain interface
    def copy(self, s): raise NotImplementedError
    def join(self, a, b): raise NotImplementedError
    def equal(self, a, b): return a == b
    def widen(self, a, b): return self.join(a, b)
    def expr(self, e, s): """evaluate for effects; may return a value"""
    def refine(self, e, s, truth): return s        # returns state or None (infeasible)
    def decl(self, v, s):
        if v.get('e') is not None: self.expr(v['e'], s)
    def on_return(self, e, s, node):
        if e is not None: self.expr(e, s)

    # ---- engine
    def j(self, states):
        r = None
        for s in states:
            if s is None: continue
            r = s if r is None else self.join(r, s)
        return r

    def cond(self, e, s):
        """(state if true, state if false); evaluates e for effects"""
        if s is None: return None, None
        x = strip(e)
        k = x.get('k') if isinstance(x, dict) else None
        if k == 'bin' and x['op'] in ('&&', 'and'):
            t, f = self.cond(x['a'], s)
            t2, f2 = self.cond(x['b'], t)
            return t2, self.j([f, f2])
        if k == 'bin' and x['op'] in ('||', 'or'):
            t, f = self.cond(x['a'], s)
            t2, f2 = self.cond(x['b'], f)
            return self.j([t, t2]), f2
        if k == 'un' and x['op'] in ('!', 'not'):
            t, f = self.cond(x['e'], s)
            return f, t
        if k == 'bin' and x['op'] == ',':
            self.expr(x['a'], s)
            return self.cond(x['b'], s)
        v = lit(x)
        if v is not None and not any(y.get('k') == 'ref' and y.get('dk') not in (None, 'enum', 'gvar') for y in walk(x)):
            return (s, None) if v else (None, s)
        self.expr(x, s)
        a = self.copy(s); b = s
        return self.refine(x, a, True), self.refine(x, b, False)

    def block(self, ss, s, ex):
        for st in ss:
            if s is None: break
            s = self.stmt(st, s, ex)
        return s

    def stmt(self, n, s, ex):
        if s is None or not isinstance(n, dict): return s
        k = n['k']
        if k == 'block': return self.block(n['s'], s, ex)
        if k == 'expr':
            e = n['e']; c = assert_cond(e)
            if c is not None:
                t, _ = self.cond(c, s)
                return t
            x = strip(e)
            if is_assert_fail(x): return None
            if isinstance(x, dict) and x.get('k') == 'throw': self.expr(x, s); return None
            if isinstance(x, dict) and x.get('k') == 'cond':
                t, f = self.cond(x['c'], s)
                if t is not None: self.expr(x['a'], t)
                if f is not None: self.expr(x['b'], f)
                return self.j([t, f])
            self.expr(e, s)
            return s
        if k == 'decl':
            for v in n['v']: self.decl(v, s)
            return s
        if k == 'if':
            if n.get('init') is not None: s = self.stmt(n['init'], s, ex)
            if n.get('cv') is not None and isinstance(n['cv'], dict): self.decl(n['cv'], s)
            if n.get('cx'):
                v = lit(n['c'])
                if v is None and isinstance(n['c'], dict) and n['c'].get('cv') in ('0', '1', 'true', 'false'): v = n['c']['cv'] in ('1', 'true')
                if v is not None:
                    br = n.get('a') if v else n.get('b')
                    return self.stmt(br, s, ex) if br is not None else s
            t, f = self.cond(n['c'], s)
            t = self.stmt(n.get('a'), t, ex) if t is not None else None
            if f is not None and n.get('b') is not None: f = self.stmt(n['b'], f, ex)
            return self.j([t, f])
        if k in ('while', 'for', 'do', 'rfor'): return self.loop(n, s, ex)
        if k == 'ret':
            self.on_return(n.get('e'), s, n)
            ex.ret.append(s); return None
        if k == 'break': ex.brk.append(s); return None
        if k == 'cont': ex.cont.append(s); return None
        if k == 'switch':
            if n.get('c') is not None: self.expr(n['c'], s)
            inner = Exit(); out = []
            base = self.copy(s); cur = None; has_default = False
            body = n.get('s'); ss = body['s'] if isinstance(body, dict) and body.get('k') == 'block' else [body]
            def run_case(st, cur):
                nonlocal has_default
                while isinstance(st, dict) and st.get('k') in ('case', 'default'):
                    if st['k'] == 'default': has_default = True
                    cur = self.j([cur, self.copy(base)])
                    st = st.get('s')
                return self.stmt(st, cur, inner) if st is not None and cur is not None else cur
            for st in ss: cur = run_case(st, cur)
            out = [cur] + inner.brk
            if not has_default: out.append(base)
            ex.cont += inner.cont; ex.ret += inner.ret
            return self.j(out)
        if k in ('label', 'case', 'default'): return self.stmt(n.get('s'), s, ex) if n.get('s') else s
        if k == 'xs':
            for c in kids(n): s = self.stmt(c, s, ex) if c.get('k') in ('block', 'decl', 'expr', 'ret', 'if', 'for', 'while') else s
            return s
        return s

    def loop(self, n, s, ex):
        k = n['k']
        if k == 'for' and n.get('init') is not None: s = self.stmt(n['init'], s, ex)
        if k == 'rfor':
            if n.get('init') is not None: s = self.stmt(n['init'], s, ex)
            if n.get('r') is not None: self.expr(n['r'], s)
        if s is None: return None
        head = s
        outs = None; first = (k == 'do')
        for it in range(self.MAXIT + 1):
            inner = Exit(); cur = self.copy(head)
            if k == 'rfor': t, f = cur, self.copy(head)
            elif k == 'do': t, f = cur, None
            elif n.get('c') is None: t, f = cur, None
            elif isinstance(n.get('cv'), dict):
                self.decl(n['cv'], cur); t, f = self.cond(n['c'], cur)
            else: t, f = self.cond(n['c'], cur)
            if k == 'rfor' and t is not None: self.range_var(n, t)
            if t is not None: t = self.stmt(n.get('s'), t, inner)
            t = self.j([t] + inner.cont)
            if k == 'for' and t is not None and n.get('inc') is not None: self.expr(n['inc'], t)
            if k == 'do':
                tt, ff = self.cond(n['c'], t) if t is not None else (None, None)
                t, f = tt, ff
            outs = (f, inner)
            nxt = self.j([self.copy(head), t]) if t is not None else head
            if it > 3 and t is not None: nxt = self.widen(self.copy(head), nxt)
            if self.equal(nxt, head): break
            head = nxt
        f, inner = outs
        ex.ret += inner.ret
        return self.j([f] + inner.brk)

    def range_var(self, n, s):
        if n.get('v') is not None: self.decl(n['v'], s)
