"""Builds the fact extractor, configures /repo in a scratch dir, dumps the
type-checked AST of every translation unit of the current tree, and loads it."""
import hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ALTA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def build_tool():
    src = os.path.join(VERIF, 'tool', 'altafacts.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'altafacts-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build the fact extractor:\n' + r.stderr[-3000:])
    os.rename(tmp, exe)
    return exe


def tree_hash():
    h = hashlib.sha256()
    for base, exts in (('sources', None), ('external/quadprog++', None), ('external/build', None), ('configs/cmake', None)):
        top = os.path.join(REPO, base)
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.hh', '.inl', '.txt', '.cmake', '.c', '.cxx', '.hxx', '.in')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'CMakeLists.txt'), 'rb').read())
    h.update(open(os.path.join(VERIF, 'tool', 'altafacts.cpp'), 'rb').read())
    h.update(b'format 2')
    return h.hexdigest()[:24]


def compile_commands(scratch):
    env = {'HOME': '/root', 'LANG': 'C.UTF-8', 'CC': 'gcc', 'CXX': 'g++',
           'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'}
    b = os.path.join(scratch, 'cfg')
    cmd = ['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
           '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
           '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g', '-DPYTHON_EXECUTABLE=/usr/bin/python3.12',
           '-DCMAKE_CXX_STANDARD_INCLUDE_DIRECTORIES=/opt/vp/include']
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    p = os.path.join(b, 'compile_commands.json')
    if r.returncode or not os.path.exists(p):
        raise AnalysisError('cmake cannot configure the tree:\n' + r.stdout[-1500:] + r.stderr[-1500:])
    return b, json.load(open(p))


def load():
    """-> {file: tu}.  Dumps are cached by the hash of every source file."""
    key = tree_hash()
    cache = os.path.join(BUILD, 'facts-' + key + '.pkl')
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, 'rb'))
        except Exception:
            pass
    exe = build_tool()
    scratch = tempfile.mkdtemp(prefix='altafacts.')
    try:
        b, cc = compile_commands(scratch)
        files = []
        for e in cc:
            f = os.path.realpath(e['file'])
            if '/sources/tests/' in f:
                continue
            if f not in files:
                files.append(f)

        def one(i):
            out = os.path.join(scratch, '%d.json' % i)
            cmd = [exe, '-p', b, '--root=' + REPO, '--out=' + out, files[i],
                   '--extra-arg=-resource-dir=' + LLVM + '/lib/clang/18',
                   '--extra-arg=-idirafter' + os.path.join(VERIF, 'tool', 'include'),
                   '--extra-arg=-w']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisError('cannot parse %s:\n%s' % (files[i], r.stderr[-3000:]))
            tu = json.load(open(out))
            os.unlink(out)
            return tu
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(one, range(len(files))))
        res = {os.path.relpath(f, REPO): t for f, t in zip(files, tus)}
        for e in cc:
            f = os.path.relpath(os.path.realpath(e['file']), REPO)
            m = re.search(r'CMakeFiles/([^/]+)\.dir/', e.get('output', '') + ' ' + e.get('command', ''))
            if f in res and m:
                # the build targets (library and program names) this file is part of
                res[f].setdefault('targets', []).append(m.group(1))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    olds = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('facts-')), key=os.path.getmtime)
    for o in olds[:-6]:
        os.unlink(o)
    tmp = cache + '.%d' % os.getpid()
    pickle.dump(res, open(tmp, 'wb'), protocol=4)
    os.rename(tmp, cache)
    return res


if __name__ == '__main__':
    import time
    t = time.time()
    r = load()
    print(len(r), 'translation units', sum(len(x['funcs']) for x in r.values()), 'function bodies', round(time.time() - t, 1), 's')
