"""g++-10 (the project's compiler) as a type checker: -fsyntax-only, nothing is run."""
import concurrent.futures as cf, hashlib, os, re, subprocess
import extract as X

FLAGS = ['-std=gnu++17', '-I' + X.REPO, '-I' + os.path.join(X.VERIF, 'witness'), '-I' + X.STUBS, '-fsyntax-only', '-x', 'c++', '-fdiagnostics-color=never']


def syntax(text, flags=('-w',), name='tu', timeout=600):
    """-> (ok, [(file, line, kind, message)], raw)"""
    r = subprocess.run(['g++-10'] + FLAGS + list(flags) + ['-'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=X.REPO)
    ds = []
    for l in r.stderr.splitlines():
        m = re.match(r'(.*?):(\d+):(?:\d+:)? (fatal error|error|warning): (.*)', l)
        if m: ds.append((X.rel(os.path.normpath(os.path.join(X.REPO, m.group(1)))) if not m.group(1).startswith('<') else m.group(1), int(m.group(2)), m.group(3).replace('fatal ', ''), m.group(4)))
    return r.returncode == 0, ds, r.stderr


def pmap(f, xs, jobs=8):
    with cf.ThreadPoolExecutor(jobs) as ex: return list(ex.map(f, xs))
