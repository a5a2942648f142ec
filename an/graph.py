"""Call graph of the analysed program and the uses of variables with static storage."""
from harness import program

THREAD_UNSAFE = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'setlocale', 'std::setlocale', 'tmpnam',
                 'std::rand', 'std::srand', 'std::strtok', 'std::localtime', 'std::gmtime', 'std::asctime', 'std::ctime', 'std::strerror', 'lgamma', 'std::lgamma', 'setenv', 'unsetenv', 'putenv', 'chdir', 'umask'}
ASSOC = ('std::map', 'std::unordered_map', 'std::multimap')


def kids(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k not in ('f', 'globals'):
                yield k, v
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield None, v


def walk(n, skip=None):
    """every node below n, in source order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if skip and skip(x):
                continue
            if 'k' in x:
                yield x
        st.extend(v for k, v in reversed(list(kids(x))))


class Graph:
    def __init__(self, P=None):
        self.P = P or program()
        self.over = {}      # usr of a virtual method -> usrs of the methods overriding it
        for f, tu in self.P.tus.items():
            for r in tu['records'].values():
                for m in r['m']:
                    for o in m.get('ov', ()):
                        self.over.setdefault(o, set()).add(m['u'])
        self.exported = [(f, fn) for q, L in self.P.byq.items() for f, fn in L if q in ('load_data',) or q.startswith('provide_') or q.startswith('alta::provide_') or q == 'alta::load_data']
        self.cache = {}

    def targets(self, u):
        out, st = set(), [u]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st += self.over.get(x, ())
        return out

    def callees(self, tu, node):
        """usrs a body refers to, and whether it calls through a pointer"""
        out, ptr = [], False
        for x in walk(node):
            f = x.get('f')
            if isinstance(f, dict) and 'u' in f:
                if x['k'] == 'call' and x.get('qual'):
                    out.append((f['u'], x['l']))
                else:
                    out += [(t, x['l']) for t in sorted(self.targets(f['u']))]
            if x['k'] == 'call' and 'ce' in x:
                ptr = True
        return out, ptr

    def reach(self, tu, node, stop=None):
        """{usr: (tu, function, caller location)} of the functions that may run below node"""
        out = {}
        st = [(tu, node)]
        while st:
            t, n = st.pop()
            cs, ptr = self.callees(t, n)
            new = []
            for u, l in cs:
                if u not in out:
                    fn = self.P.find(t, u)
                    if fn is not None:
                        out[u] = (fn.tu, fn.node, l)
                        new.append((fn.tu, fn.node))
            if ptr:
                for f, fn in self.exported:
                    if fn['u'] + f not in out:
                        out[fn['u'] + f] = (f, fn, 'call through a pointer')
                        new.append((f, fn))
            st += new
        return out

    # ---- variables with static storage
    def mutable(self, tu, x):
        """name, type of the variable of node x when it is a non-constant one of the program"""
        if 'g' not in x:
            return None
        g = self.P.tus[tu]['globals'].get(str(x.get('d')))
        if g is None:
            y = self.P.globals.get(x['g'])
            if y is None:
                return None
            tu, g = y
        if g.get('tls'):
            return None
        t = self.P.ty(tu, g['t'])['s']
        if t.startswith('const ') or t.endswith(' const'):
            return None
        return g['n'], t, g['l']

    def uses(self, tu, node):
        """[(variable, writes, location)] of the mutable variables with static storage that a body uses"""
        out = []

        def go(n, how):
            # how: what happens to the object the expression denotes
            if isinstance(n, list):
                for v in n:
                    go(v, how)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k in ('ref', 'mem') and 'g' in n:
                g = self.mutable(tu, n)
                if g:
                    out.append((g, how == 'w', n['l']))
                return
            if k == 'ld':
                go(n['e'], 'r')
                return
            if k in ('asg', 'casg'):
                go(n['a'], 'w')
                go(n['b'], 'r')
                return
            if k == 'un':
                go(n['e'], 'w' if '++' in n['op'] or '--' in n['op'] or n['op'] == '&' and how != 'r' else how)
                return
            if k == 'mem':
                go(n.get('b'), how)
                return
            if k == 'idx':
                go(n['a'], how)
                go(n['i'], 'r')
                return
            if k == 'call' or k == 'ctor':
                f = n.get('f') or {}
                if n.get('o') is not None:
                    r = f.get('const') or f.get('n') in ('begin', 'end', 'find', 'at', 'size', 'lower_bound', 'upper_bound', 'front', 'back', 'data') and not f.get('in') \
                        or f.get('n') == 'operator[]' and not f.get('in') and not any((f.get('r') or '').startswith(a) for a in ASSOC)
                    go(n['o'], ('r' if f.get('const') else how if how == 'w' else 'r') if r else 'w')
                ps = f.get('p', [])
                for i, a in enumerate(n.get('a', ())):
                    w = 'r'
                    if i < len(ps):
                        p = self.P.ty(tu, ps[i])
                        s = p['s']
                        if (s.endswith('&') or s.endswith('*')) and not s.startswith('const ') and 'const' not in s.split('*')[0].split('&')[0].split('<')[0].split():
                            w = 'w'
                    go(a, w)
                if 'ce' in n:
                    go(n['ce'], 'r')
                return
            if k in ('decl',):
                for v in n.get('v', []) if isinstance(n.get('v'), list) else []:
                    if isinstance(v, dict) and v.get('init') is not None:
                        t = self.P.ty(tu, v['t'])
                        s = t['s']
                        go(v['init'], 'w' if s.endswith('&') and not s.startswith('const ') else 'r')
                return
            if k == 'cast':
                go(n['e'], how)
                return
            if k == 'mat':
                go(n['e'], how)
                return
            if k == 'return':
                t = n.get('e')
                go(t, 'r')
                return
            for kk, v in kids(n):
                go(v, 'r')
        go(node, 'r')
        return out

    def unsafe_calls(self, node):
        return [(x['f']['q'], x['l']) for x in walk(node) if x['k'] == 'call' and isinstance(x.get('f'), dict) and x['f'].get('q') in THREAD_UNSAFE]

    def regions(self):
        """[(tu, function, node)] of the parallel regions"""
        out, seen = [], set()
        for f, tu in self.P.tus.items():
            for fn in tu['funcs'].values():
                for x in walk(fn):
                    if x['k'] == 'omp' and 'parallel' in x.get('d', '') and x['l'] not in seen:
                        seen.add(x['l'])
                        out.append((f, fn, x))
        return out
