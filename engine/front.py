"""Front end: compiles /repo's current sources to LLVM IR with the flags of the
project's own Makefiles and turns each program into the JSON the analyses read.
Nothing of /repo is executed; object files go to a scratch directory."""
import fcntl, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('ZDB_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/bin/clang'
CLANGXX = '/usr/bin/clang++'

# program -> directories whose compiled units it links
PROGRAMS = {
    'zdb': ['libzdb', 'zdbd'],
    'index-dump': ['libzdb', 'tools/index-dump'],
    'integrity-check': ['libzdb', 'tools/integrity-check'],
    'index-rebuild': ['libzdb', 'tools/index-rebuild'],
    'namespace-editor': ['libzdb', 'tools/namespace-editor'],
    'namespace-dump': ['libzdb', 'tools/namespace-dump'],
    'quick-compact': ['libzdb', 'tools/quick-compaction'],
    'db-mirror': ['utilities/db-mirror'],
    'db-replicate': ['utilities/db-replicate'],
    'db-sync': ['utilities/db-sync'],
}


class AnalysisBroken(Exception):
    """an anchor vanished or the sources could not be analysed: neither pass nor violation"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_irx():
    src = os.path.join(HERE, 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irx-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cfg = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
    cxx = [f for f in run([cfg, '--cxxflags']).stdout.split() if f != '-fno-exceptions' and not f.startswith('-std=')]
    ld = run([cfg, '--ldflags']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = run([CLANGXX, '-O1', '-std=c++17'] + cxx + [src, '-o', tmp] + ld + ['-lLLVM-18'])
    if r.returncode != 0:
        raise AnalysisBroken('cannot build irx: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def compile_lines(d):
    """(file, flags) of every unit the Makefile of directory d compiles"""
    env = dict(os.environ)
    for k in ('MAKEFLAGS', 'LDFLAGS', 'COVERAGE', 'STATIC', 'PROFILE', 'CFLAGS', 'MAKEFILES', 'MAKELEVEL', 'MFLAGS'):
        env.pop(k, None)
    r = run(['make', '-n', '-B', '-C', os.path.join(REPO, d), 'CC=gcc', 'all'], env=env)
    if r.returncode != 0:
        raise AnalysisBroken('make -n failed in %s: %s' % (d, r.stderr[-500:]))
    units = []
    for line in r.stdout.splitlines():
        if ' -c ' not in line + ' ':
            continue
        try:
            w = shlex.split(line)
        except ValueError:
            continue
        if not w or os.path.basename(w[0]) not in ('gcc', 'cc', 'clang'):
            continue
        srcs = [x for x in w[1:] if x.endswith('.c')]
        flags, skip = [], False
        for x in w[1:]:
            if skip:
                skip = False
                continue
            if x == '-o':
                skip = True
            elif x.startswith(('-D', '-I', '-std', '-m', '-U')):
                flags.append(x)
            elif x == '-include':
                flags.append(x)
        for s in srcs:
            units.append((s, tuple(flags)))
    if not units:
        raise AnalysisBroken('no compiled unit found in ' + d)
    return sorted(set(units))


def tree_hash(dirs, config):
    h = hashlib.sha256()
    h.update(config.encode())
    for f in ('irx.cpp', 'front.py'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    for d in sorted(set(['libzdb', 'zdbd'] + list(dirs))):
        base = os.path.join(REPO, d)
        for n in sorted(os.listdir(base)):
            if n.endswith(('.c', '.h')) or n == 'Makefile':
                h.update((d + '/' + n).encode())
                h.update(open(os.path.join(base, n), 'rb').read())
    return h.hexdigest()[:24]


def extract(program='zdb', config='debug'):
    """returns the JSON description of a program in a build configuration (debug | release)"""
    dirs = PROGRAMS[program]
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(dirs, program + '/' + config)
    out = os.path.join(BUILD, 'ir-%s-%s-%s.json' % (program, config, key))
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            irx = build_irx()
            scratch = tempfile.mkdtemp(prefix='zdbir.', dir=BUILD)
            try:
                jobs = []
                for d in dirs:
                    for src, flags in compile_lines(d):
                        bc = os.path.join(scratch, (d + '_' + src).replace('/', '_') + '.bc')
                        cmd = [CLANG] + list(flags) + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w',
                                                       '-fno-discard-value-names', '-emit-llvm', '-c', src, '-o', bc]
                        if config == 'release':
                            cmd.insert(1, '-DRELEASE')
                        jobs.append((d, src, cmd, bc))

                def one(j):
                    r = run(j[2], cwd=os.path.join(REPO, j[0]))
                    if r.returncode != 0:
                        raise AnalysisBroken('clang failed on %s/%s: %s' % (j[0], j[1], r.stderr[-1500:]))
                    return j[3]
                with ThreadPoolExecutor(8) as ex:
                    bcs = list(ex.map(one, jobs))
                tmp = out + '.%d' % os.getpid()
                r = run([irx, tmp] + bcs)
                if r.returncode != 0:
                    raise AnalysisBroken('irx failed: ' + r.stderr[-1500:])
                # older cached programs of the same kind are dropped
                pre = 'ir-%s-%s-' % (program, config)
                for n in os.listdir(BUILD):
                    if n.startswith(pre) and not n.endswith(str(os.getpid())):
                        try:
                            os.unlink(os.path.join(BUILD, n))
                        except OSError:
                            pass
                os.rename(tmp, out)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        with open(out) as f:    # (still locked: another tree's run drops this file)
            text = f.read()
    j = json.loads(text)
    j['#units'] = [d + '/' + s for d in dirs for s, _ in compile_lines(d)]
    return j


if __name__ == '__main__':
    build_irx()
    for p in sys.argv[1:] or ['zdb']:
        j = extract(p)
        print(p, len(j['functions']), 'functions', sum(1 for f in j['functions'].values() if not f['decl']), 'defined')
