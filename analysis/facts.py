"""Build the extractor, generate the parser, extract the program's facts."""
import os, sys, subprocess, hashlib, json, glob, shutil, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MARC_REPO', '/repo')

class AnalysisError(Exception):
    """The analysis itself is broken (never a verdict)."""

def build_dir():
    d = os.path.join(HERE, 'build')
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d); t.close()
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'marc-verif-build')
        os.makedirs(d, exist_ok=True)
        return d

def sha(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
    return h.hexdigest()[:24]

def build_tool():
    b = build_dir()
    src = os.path.join(HERE, 'tool', 'extract.cpp')
    out = os.path.join(b, 'marcfacts-' + sha(src))
    with open(os.path.join(b, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for o in glob.glob(os.path.join(b, 'marcfacts-*')): os.unlink(o)
            L = '/usr/lib/llvm-18'
            cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I' + L + '/include', '-D_GNU_SOURCE', src,
                   '-o', out + '.tmp', '-L' + L + '/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise AnalysisError('extractor build failed:\n' + r.stderr)
            os.rename(out + '.tmp', out)
    return out

def generate_parser():
    """bison/flex over /repo's grammar into a content-addressed folder."""
    b = build_dir()
    y, l = os.path.join(REPO, 'src/parse.yy'), os.path.join(REPO, 'src/lexer.ll')
    d = os.path.join(b, 'gen-' + sha(y, l))
    with open(os.path.join(b, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d):
            for o in glob.glob(os.path.join(b, 'gen-*')): shutil.rmtree(o)
            t = d + '.tmp'
            shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            for cmd in (['bison', '-d', '--xml=parse.xml', '-o', 'parse.cc', y], ['flex', '-o', 'lexer.cc', l]):
                r = subprocess.run(cmd, cwd=t, capture_output=True, text=True)
                if r.returncode: raise AnalysisError('parser generation failed: %s\n%s' % (cmd, r.stderr))
            os.rename(t, d)
    return d

def units(gen):
    us = []
    for pat in ('lib/marc/*.cpp', 'src/*.cpp'):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if f.endswith('_t.cpp'): continue
            us.append(f)
    us += [os.path.join(gen, 'parse.cc'), os.path.join(gen, 'lexer.cc'), os.path.join(HERE, 'tool', 'instantiate.cpp')]
    return us

def extract():
    tool = build_tool()
    gen = generate_parser()
    us = units(gen)
    inputs = sorted(glob.glob(REPO + '/lib/marc/**/*', recursive=True) + glob.glob(REPO + '/src/*'))
    inputs = [f for f in inputs if os.path.isfile(f) and f.rsplit('.', 1)[-1] in ('cpp', 'h', 'yy', 'll', 'hpp', 'inc')]
    key = hashlib.sha256((sha(*inputs, os.path.join(HERE, 'tool/extract.cpp'), os.path.join(HERE, 'tool/instantiate.cpp')) + REPO).encode()).hexdigest()[:24]
    b = build_dir()
    cache = os.path.join(b, 'facts-' + key)
    res = subprocess.run(['clang', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    args = ['-w', '-std=c++17', '-resource-dir', res, '-DHAVE_CONFIG_H', '-I' + os.path.join(HERE, 'tool/cfg'),
            '-I' + os.path.join(HERE, 'tool/cfg/marc'), '-I' + REPO + '/lib', '-I' + REPO + '/lib/marc',
            '-I' + REPO + '/opt/fmt-8.0.1/include', '-I' + REPO + '/src', '-I' + gen]
    with open(os.path.join(b, 'flock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(cache):
            olds = sorted(glob.glob(os.path.join(b, 'facts-*')), key=os.path.getmtime)
            for o in olds[:-3]: shutil.rmtree(o)
            t = cache + '.tmp'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            def one(iu):
                i, u = iu
                o = os.path.join(t, '%03d.json' % i)
                with open(o, 'w') as fh:
                    r = subprocess.run([tool, '--root', REPO + '/lib', '--root', REPO + '/src', '--root', gen, '--root', os.path.join(HERE, 'tool'), '--'] + args + [u],
                                       stdout=fh, stderr=subprocess.PIPE, text=True, cwd=REPO)
                if r.returncode:
                    if u.endswith('instantiate.cpp'):
                        # not part of the program: a renamed template must not stop the analysis
                        with open(o, 'w') as fh: json.dump(dict(tu=u, functions=[], records=[], vars=[], failed=r.stderr[-3000:]), fh)
                    else: raise AnalysisError('cannot analyse %s:\n%s' % (u, r.stderr[-3000:]))
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(us)))
            os.rename(t, cache)
    return cache, gen, us

def load():
    cache, gen, us = extract()
    tus = []
    for f in sorted(glob.glob(cache + '/*.json')):
        with open(f) as fh: tus.append(json.load(fh))
    if len(tus) != len(us): raise AnalysisError('expected %d units, got %d' % (len(us), len(tus)))
    return tus, gen, us
