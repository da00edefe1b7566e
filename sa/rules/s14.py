"""Every witness translation unit (explicit instantiation of every public class template and uses of every public function with opaque argument types that offer only the documented interface, read-only queries through const references) is well-formed for the project's compiler; a construct of the library the compiler rejects is the violation. Every public read-only operation of the inventory witness/const_api.json (class, operation, arity) is still callable on a const object: it has a const, static or non-member overload of that arity."""
import json, os, re
import extract as X, gxx
TECHNIQUE = 'type-level witnesses: instantiation of the public interface with opaque types, decided by the type checker (g++ -fsyntax-only); const-callability inventory over the declared interface (clang AST)'


def instantiated(text):
    return len(re.findall(r'^template (?:struct|class) ', text, re.M)) + len(re.findall(r'; template (?:struct|class) ', text))


def const_api(res):
    want = json.load(open(os.path.join(X.VERIF, 'witness', 'const_api.json')))
    have = {}; byname = {}; free = {}; classes = set()
    for h, j in X.run_headers().items():
        d = X.load(j)
        for r in d['records']:
            if r.get('q'): classes.add(r['q'])
        for f in d['funcs'] + d['decls']:
            n = len(f.get('p') or [])
            if f.get('cls') is None:
                free.setdefault(f.get('n'), set()).add(n); continue
            ok = bool(f.get('const') or f.get('static')) and f.get('acc', 'public') == 'public'
            lc = f.get('loc'); where = '%s:%d' % (X.rel(d['files'][lc[0]]), lc[1]) if lc else ''
            have.setdefault(f['q'], []).append((n, ok, where))
            if ok: byname.setdefault(f['q'].rsplit('::', 1)[-1], set()).add(n)
    for q, ar in want.items():
        cls, _, name = q.rpartition('::')
        if cls not in classes:
            res.notes.append('class %s is no longer declared; its read-only operations are not checked' % cls); continue
        for k in ar:
            res.count('read-only operations checked for const access')
            hs = have.get(q)
            if hs:
                if any(ok and n >= k for n, ok, _ in hs): continue
                if (k + 1) in free.get(name, ()): continue
                w = next((w for n, ok, w in hs if n >= k), hs[0][2])
                res.violation('const:' + q, w, '%s/%d reads only, but no overload can be called on a const object' % (q, k), q)
            else:
                if any(n >= k for n in byname.get(name, ())) or any(n >= k + 1 for n in free.get(name, ())): continue
                res.violation('gone:' + q, q, 'public read-only operation %s/%d is no longer declared' % (q, k), q)


def run(res, tier):
    wd = os.path.join(X.VERIF, 'witness')
    fs = sorted(f for f in os.listdir(wd) if f.endswith('.cpp'))
    def one(f):
        t = open(os.path.join(wd, f)).read()
        return f, t, gxx.syntax('#line 1 "witness/%s"\n' % f + t)
    incl = set()
    for f, t, (ok, ds, raw) in gxx.pmap(one, fs):
        res.count('witness units')
        res.count('explicit class instantiations', instantiated(t))
        res.count('witness calls', len(re.findall(r'[\w\]]\(', t)))
        incl |= set(re.findall(r'#include "(library/[^"]+)"', t))
        res.sample({'unit': f, 'well_formed': ok})
        if ok: continue
        errs = [d for d in ds if d[2] == 'error']
        if not errs: raise X.AnalysisBroken('g++ failed on %s: %s' % (f, raw[-1500:]))
        for fl, ln, _, msg in errs[:20]:
            res.violation('%s:%s' % (fl, msg[:80]), '%s:%d' % (fl, ln), 'rejected for a conforming use in %s: %s' % (f, msg[:200]))
    ts = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(X.REPO, 'test')) for f in fs if f.endswith('.cpp'))
    def use(f):
        with open(f, errors='replace') as h: t = h.read()
        return os.path.relpath(f, X.REPO), t, gxx.syntax('#line 1 "%s"\n' % f + t, flags=('-w', '-iquote', os.path.dirname(f)))
    bad = 0
    for f, t, (ok, ds, raw) in gxx.pmap(use, ts):
        res.count('usage programs type-checked')
        incl |= set(re.findall(r'#include "(library/[^"]+)"', t))
        if ok: continue
        for fl, ln, _, msg in [d for d in ds if d[2] == 'error'][:3]:
            res.violation('%s:%s' % (fl, msg[:80]), '%s:%d' % (fl, ln), 'rejected for the use in %s: %s' % (f, msg[:200]))
    res.count('headers with witnesses', len(incl))
    const_api(res)
    res.floor('witness units', 13)
    res.floor('usage programs type-checked', 300)
    res.floor('read-only operations checked for const access', 500)
