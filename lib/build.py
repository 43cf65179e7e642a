"""Builds the drivers from /repo's working tree into /verif/build (ignored by git)."""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DL_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'build')

LIB = ['duckLisp.c', 'parser.c', 'emitters.c', 'generators.c', 'assembler.c', 'duckVM.c', 'DuckLib/core.c',
       'DuckLib/memory.c', 'DuckLib/array.c', 'DuckLib/string.c', 'DuckLib/trie.c', 'DuckLib/sort.c']
ASAN = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fwrapv',
        '-fno-sanitize=signed-integer-overflow']
TSAN = ['-g', '-O1', '-fsanitize=thread']
MSAN = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins=1', '-fwrapv']
PLAIN = ['-g', '-O2', '-fwrapv']
HOOKS = ['-DDUCKLISP_VERIF']
WRAP = ['-Wl,--wrap=dl_malloc,--wrap=dl_realloc,--wrap=dl_free']

CONFIGS = {
    'default': dict(defs=['-DUSE_STDLIB'], extra=[]),
    'portable': dict(defs=['-DUSE_DUCKLIB_MALLOC'], extra=[]),
    'noopt': dict(defs=['-DUSE_STDLIB', '-DNO_OPTIMIZE_JUMPS', '-DNO_OPTIMIZE_PUSHPOPS'], extra=[]),
    'inference': dict(defs=['-DUSE_STDLIB', '-DUSE_PARENTHESIS_INFERENCE'], extra=['parenthesis-inferrer.c']),
}


class BuildError(Exception):
    pass


def _hash(paths, flags):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:20]


def _inputs(main):
    res = []
    for d in (REPO, os.path.join(REPO, 'DuckLib')):
        for n in os.listdir(d):
            if n.endswith(('.c', '.h')): res.append(os.path.join(d, n))
    hd = os.path.join(VERIF, 'harness')
    res += [os.path.join(hd, n) for n in os.listdir(hd) if n.endswith('.h')]
    res.append(os.path.join(hd, main))
    return res


def build(targets, log=sys.stderr):
    """targets: list of (name, main, config, san, hooks, wrap). Returns {name: path of the executable}."""
    os.makedirs(os.path.join(OUT, 'bin'), exist_ok=True)
    with open(os.path.join(OUT, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return _build(targets)


def _build(targets):
    res, objs, links = {}, {}, []
    for name, main, config, san, hooks, wrap in targets:
        cfg = CONFIGS[config]
        cc = 'clang' if san == 'msan' else 'gcc'
        flags = {'asan': ASAN, 'tsan': TSAN, 'msan': MSAN, 'plain': PLAIN}[san] + cfg['defs'] + (HOOKS if hooks else []) + ['-I' + REPO, '-I' + os.path.join(VERIF, 'harness')]
        hsh = _hash(_inputs(main), (flags, main, wrap))
        d = os.path.join(OUT, 'bin', '%s-%s' % (name, hsh))
        exe = os.path.join(d, name)
        res[name] = exe
        if os.path.exists(exe): continue
        for old in os.listdir(os.path.join(OUT, 'bin')) if os.path.isdir(os.path.join(OUT, 'bin')) else []:
            if old.startswith(name + '-') and len(old) == len(name) + 21:
                shutil.rmtree(os.path.join(OUT, 'bin', old), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        mine = []
        for s in LIB + cfg['extra']:
            o = os.path.join(d, s.replace('/', '_') + '.o')
            objs[o] = [cc] + flags + ['-c', os.path.join(REPO, s), '-o', o]
            mine.append(o)
        o = os.path.join(d, main + '.o')
        objs[o] = [cc] + flags + ['-c', os.path.join(VERIF, 'harness', main), '-o', o]
        mine.append(o)
        links.append((exe, [cc] + flags + mine + (WRAP if wrap else []) + ['-lm', '-lpthread', '-o', exe + '.tmp'], mine))

    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stderr[-3000:])
    # The big files first.
    order = sorted(objs, key=lambda o: -os.path.getsize(objs[o][objs[o].index('-c') + 1]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(run, [objs[o] for o in order]))
        list(ex.map(run, [l[1] for l in links]))
    for exe, _, mine in links:
        os.rename(exe + '.tmp', exe)
        for o in mine: os.unlink(o)
    return res


def drivers(configs):
    return build([('drv_' + c, 'drv.c', c, 'asan', True, True) for c in configs])


if __name__ == '__main__':
    import time
    t = time.time()
    print(drivers(sys.argv[1:] or ['default']), time.time() - t)
