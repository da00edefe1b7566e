"""Base classes that dispatch statically to the class derived from them: which of their functions the derived classes replace, and the
calls in the base that reach the replaced version instead of the derived one."""
import re
import extract as X
from flow import walk, strip


def classes():
    out = {}; derived = []
    for h, j in sorted(X.run_headers().items()):
        d = X.load(j); T = d['types']
        for r in d['records']:
            if not r.get('loc') or X.rel(d['files'][r['loc'][0]]) != h or r.get('lambda'): continue
            q = re.sub(r'<.*', '', r.get('q') or r.get('full') or r['n'])
            fs = [f for f in d['funcs'] if f.get('cls') == r['id'] and not f.get('inst')]
            out[q] = (h, d, r, fs)
            for b in r.get('bases') or []: derived.append((q, T[b]['s']))
    return out, derived


def bypassed():
    """(header, base function, call node, hook, derived class) of calls in a base that skip the derived version"""
    cl, de = classes()
    for dq, s in de:
        m = re.match(r'^([\w:]+)<(.*)>$', s)
        if not m: continue
        b = cl.get(m.group(1)) or cl.get('suisen::' + m.group(1))
        if b is None: continue
        nm = dq.split('::')[-1]
        if not re.search(r'\b%s\b' % re.escape(nm), m.group(2)): continue         # does not hand itself to its base
        h, d, r, fs = b
        own = {f['n'] for f in cl[dq][3] if f.get('static')}
        st = {f['id']: f for f in fs if f.get('static')}
        hooks = own & {f['n'] for f in st.values()}
        for f in fs:
            for x in walk(f.get('body')):
                if x.get('k') == 'call' and x.get('f') in st and st[x['f']]['n'] in hooks:
                    fe = strip(x['fe']) if isinstance(x.get('fe'), dict) else {}
                    if f['n'] == st[x['f']]['n']: continue
                    yield h, f, x, st[x['f']]['n'], dq, len(hooks)


def hooks():
    cl, de = classes(); n = 0
    for dq, s in de:
        m = re.match(r'^([\w:]+)<(.*)>$', s)
        b = m and (cl.get(m.group(1)) or cl.get('suisen::' + m.group(1)))
        if b: n += len({f['n'] for f in cl[dq][3] if f.get('static')} & {f['n'] for f in b[3] if f.get('static')})
    return n
