"""Each header type-checks on its own when included twice in an empty unit; all headers together type-check in several orders (every ordered pair occurs); every witness instantiation still type-checks after all other headers; no header defines another header's guard, leaves a macro that is an identifier elsewhere in the library, or opens namespace std globally."""
import hashlib, os, re
import extract as X, gxx
TECHNIQUE = 'type checking of header compositions plus a lexical macro/guard inventory'
# the contest preamble: a main-file template with its own global macros, not a component
EXCLUDED = {'library/template.hpp'}


def strip(t):
    t = re.sub(r'//[^\n]*', '', t)
    return re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)


def directives(t):
    r = []; ls = strip(t).split('\n'); i = 0
    while i < len(ls):
        m = re.match(r'\s*#\s*(\w+)\s*(.*)', ls[i]); n = i
        if m:
            body = m.group(2)
            while body.endswith('\\') and i + 1 < len(ls): i += 1; body = body[:-1] + ls[i]
            r.append((n + 1, m.group(1), body.strip()))
        i += 1
    return r


def run(res, tier):
    hs = [X.rel(h) for h in X.headers() if X.rel(h) not in EXCLUDED]
    src = {h: open(os.path.join(X.REPO, h), encoding='utf-8', errors='replace').read() for h in hs}
    # --- guards and macros
    guard = {}; defs = {}
    for h in hs:
        d = [x for x in directives(src[h])]
        if any(k == 'pragma' and b == 'once' for _, k, b in d): guard[h] = None
        elif len(d) >= 2 and d[0][1] == 'ifndef' and d[1][1] == 'define' and d[0][2].split()[:1] == d[1][2].split()[:1]: guard[h] = d[0][2].split()[0]
        live = {}
        for ln, k, b in d:
            if k == 'define' and b: live[re.match(r'\w+', b).group(0)] = ln
            if k == 'undef' and b.split(): live.pop(b.split()[0], None)
        defs[h] = live
    for h in hs:
        g = guard.get(h)
        res.count('include guards', 1)
        if g is None: continue
        for o in hs:
            if o != h and g in defs[o]:
                res.violation('guard:' + g, '%s:%d' % (o, defs[o][g]), 'defines %s, the include guard of %s: whichever comes second is silently skipped' % (g, h))
    idents = {h: set(re.findall(r'[A-Za-z_]\w*', re.sub(r'"(\\.|[^"\\])*"', '""', strip(src[h])))) for h in hs}
    for h in hs:
        for m, ln in defs[h].items():
            if m == guard.get(h): continue
            res.count('macros left defined by a header')
            for o in hs:
                if o != h and m in idents[o] and m not in defs[o] and m != guard.get(o) and not any(m in (b or '') for _, k, b in directives(src[o]) if k.startswith(('if', 'elif'))):
                    if re.search(r'#\s*include\s+"%s"' % re.escape(h), src[o]): continue
                    res.violation('macro:%s:%s' % (h, m), '%s:%d' % (h, ln), 'macro %s stays defined and is an identifier in %s' % (m, o))
    # --- each header alone, twice
    def alone(h):
        return h, gxx.syntax('#include "%s"\n#include "%s"\nint vp_after_header;\n' % (h, h))
    for h, (ok, ds, raw) in gxx.pmap(alone, hs):
        res.count('headers type-checked alone, twice')
        if not ok:
            e = [d for d in ds if d[2] == 'error'][:3]
            if not e: raise X.AnalysisBroken('g++ failed on %s: %s' % (h, raw[-800:]))
            for fl, ln, _, msg in e: res.violation('alone:%s' % h, '%s:%d' % (fl, ln), '%s does not type-check on its own: %s' % (h, msg[:200]))
    # --- together
    orders = [('alphabetical', hs), ('reverse', hs[::-1])]
    for s in range(2 if tier == 'quick' else 14):
        orders.append(('order %d' % s, sorted(hs, key=lambda h: hashlib.md5(('%d' % s + h).encode()).hexdigest())))
    tail = 'namespace vp_probe { struct vector{}; }\nusing namespace vp_probe;\nvector vp_no_std_leak;\n'
    def tog(o):
        return o[0], gxx.syntax(''.join('#include "%s"\n' % h for h in o[1]) + tail)
    for n, (ok, ds, raw) in gxx.pmap(tog, orders):
        res.count('whole-library orders')
        if not ok:
            e = [d for d in ds if d[2] == 'error'][:5]
            if not e: raise X.AnalysisBroken('g++ failed on order %s: %s' % (n, raw[-800:]))
            for fl, ln, _, msg in e: res.violation('together:%s:%s' % (fl, msg[:60]), '%s:%d' % (fl, ln), 'all headers together (%s): %s' % (n, msg[:200]))
    # --- witnesses in the presence of everything else
    wd = os.path.join(X.VERIF, 'witness')
    fs = sorted(f for f in os.listdir(wd) if f.endswith('.cpp'))
    pre = ''.join('#include "%s"\n' % h for h in hs)
    def wit(f):
        t = open(os.path.join(wd, f)).read()
        own = gxx.syntax('#line 1 "witness/%s"\n' % f + t)
        if not own[0]: return f, None
        return f, gxx.syntax(pre + '#line 1 "witness/%s"\n' % f + t)
    for f, r in gxx.pmap(wit, fs):
        if r is None: res.notes.append('witness %s is rejected on its own (property S14)' % f); continue
        res.count('witness units re-checked after all headers')
        ok, ds, raw = r
        if not ok:
            for fl, ln, _, msg in [d for d in ds if d[2] == 'error'][:5]:
                res.violation('composed:%s:%s' % (fl, msg[:60]), '%s:%d' % (fl, ln), 'use in %s type-checks alone but not after the other headers: %s' % (f, msg[:200]))
    res.count('headers', len(hs))
    res.floor('headers', 300)
