"""Collect the C translation units of /repo, regenerate the build's generated headers in a scratch
directory (never in /repo), and ask clang for the typed AST of each unit."""
import os, shutil, subprocess, sys, json, tempfile, glob, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VSA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, unparsable source...): exit status 2."""


_scratch = None


def scratch():
    """Scratch copy of src/{config,runtime,tools,...} with the generated files made."""
    global _scratch
    if _scratch:
        return _scratch
    d = tempfile.mkdtemp(prefix='vsa_')
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    s = os.path.join(d, 'src')
    os.makedirs(s)
    for sub in ('config', 'runtime', 'tools', 'mosmlyac', 'dynlibs'):
        if os.path.isdir(os.path.join(SRC, sub)):
            shutil.copytree(os.path.join(SRC, sub), os.path.join(s, sub), symlinks=True,
                            ignore=shutil.ignore_patterns('*.o', '*.so', 'm.h', 's.h', 'jumptbl.h', 'prims.c', 'primitives'))
    for f in ('Makefile', 'Makefile.inc'):
        shutil.copy(os.path.join(SRC, f), os.path.join(s, f))
    # the configuration script times unaligned accesses for two seconds, which a loaded machine can upset: this
    # architecture has no alignment constraints
    al = os.path.join(s, 'config/auto-aux/align.c')
    if os.path.exists(al):
        os.unlink(al)
        with open(al, 'w') as f:
            f.write('int main(void) { return 0; }\n')
    env = dict(os.environ, LC_ALL='C')
    for k in ('MAKEFLAGS', 'MFLAGS', 'MAKELEVEL'):
        env.pop(k, None)
    for args in (['-C', 'config', 'all'], ['-C', 'runtime', 'primitives', 'prims.c', 'jumptbl.h']):
        r = subprocess.run(['make', *args, 'CC=gcc'], cwd=s, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisError('cannot regenerate build headers: ' + r.stdout[-2000:])
    _scratch = d
    return d


_defs = None


def runtime_defs():
    """-D flags the real build passes to the runtime's C files"""
    global _defs
    if _defs is None:
        d = scratch()
        r = subprocess.run(['make', '-n', '-W', 'interp.c', 'interp.o', 'CC=gcc'], cwd=os.path.join(d, 'src/runtime'),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, stdin=subprocess.DEVNULL)
        line = [l for l in r.stdout.splitlines() if 'interp.c' in l and ' -c ' in l]
        if not line:
            raise AnalysisError('cannot find the compile command of interp.c')
        _defs = [w for w in line[0].split() if w.startswith(('-D', '-U'))]
    return _defs


def runtime_units():
    """C files linked into camlrunm: the .c of every object in OBJS of runtime/Makefile, plus prims.c."""
    d = scratch()
    r = subprocess.run(['make', '-C', os.path.join(d, 'src/runtime'), '-pn', 'all', 'CC=gcc'],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, stdin=subprocess.DEVNULL)
    vs = {}
    for line in r.stdout.splitlines():
        for sep in (' := ', ' = '):
            if sep in line:
                k, v = line.split(sep, 1)
                if k.strip().isidentifier():
                    vs.setdefault(k.strip(), v)
                break
    def exp(s, depth=0):
        import re
        while '$(' in s and depth < 20:
            s = re.sub(r'\$\((\w+)\)', lambda m: vs.get(m.group(1), ''), s)
            depth += 1
        return s
    objs = [o for o in exp(vs.get('OBJS', '')).split() if o.endswith('.o')]
    units = [o[:-2] + '.c' for o in objs]
    if len(units) < 30:
        raise AnalysisError('runtime unit list too small: %r' % units)
    return ['src/runtime/' + u for u in units] + ['src/runtime/prims.c']


DYN = ['src/dynlibs/mregex/mregex.c', 'src/dynlibs/munix/munix.c', 'src/dynlibs/msocket/msocket.c',
       'src/dynlibs/intinf/intinf.c', 'src/dynlibs/mgdbm/mgdbm.c', 'src/dynlibs/crypt/crypt.c',
       'src/dynlibs/interface/cside.c', 'src/runtime/dynlib.c']


def bigendian():
    """a second copy of the runtime, configured for a 64-bit big-endian machine, under be/"""
    d = scratch()
    b = os.path.join(d, 'be')
    if not os.path.isdir(b):
        shutil.copytree(os.path.join(d, 'src'), os.path.join(b, 'src'), symlinks=True)
        n = 0
        for sub in ('config', 'runtime'):
            p = os.path.join(b, 'src', sub, 'm.h')
            if os.path.lexists(p):
                n += 1
                os.unlink(p)
                with open(p, 'w') as f:
                    f.write('#define SIXTYFOUR\n#define MOSML_BIG_ENDIAN\n#undef ALIGNMENT\n')
        if not n:
            raise AnalysisError('configuration header m.h not found')
    return b


def yacc_units():
    return sorted('src/mosmlyac/' + os.path.basename(f) for f in glob.glob(os.path.join(SRC, 'mosmlyac/*.c'))
                  if not f.endswith('parsing.c'))


def ast_json(unit, defines=()):
    d = scratch()
    defines = list(defines)
    path = os.path.join(d, unit)
    if not os.path.exists(path):
        raise AnalysisError('missing source ' + unit)
    flags = ['-w', '-Wno-error', '-std=gnu17', '-fno-color-diagnostics', '-ferror-limit=0',
             '-Wno-implicit-function-declaration', '-Wno-implicit-int', '-Wno-int-conversion',
             '-Wno-incompatible-function-pointer-types']
    if unit.startswith(('src/runtime', 'be/src/runtime')):
        flags += [f for f in runtime_defs() if f[2:].split('=')[0] not in [u[1:] for u in defines if u[0] == '!']]
        defines = [x for x in defines if x[0] != '!']
    elif unit.startswith('src/dynlibs'):
        flags += ['-Dunix', '-I' + os.path.join(d, 'src/runtime')]
    cmd = ['clang', *flags, *['-D' + x for x in defines], '-fsyntax-only', '-Xclang', '-ast-dump=json', os.path.basename(path)]
    r = subprocess.run(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if r.returncode or not r.stdout:
        raise AnalysisError('clang failed on %s: %s' % (unit, r.stderr.decode(errors='replace')[-1500:]))
    return json.loads(r.stdout)
