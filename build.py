"""Builds the simulator from /repo's working tree.

Every variant is kept under /verif/build/<variant>-<hash of everything that
goes into it>, so that a changed tree is always built again and an unchanged
one never.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
MK = os.path.join(HERE, 'mk')
BUILD = os.path.join(HERE, 'build')
LIBS = ['/usr/lib/x86_64-linux-gnu/libthai.a', '/usr/lib/x86_64-linux-gnu/libdatrie.a']
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'posix_memalign', 'aligned_alloc', 'getenv', 'secure_getenv',
        'th_brk_new', 'alpha_map_new', 'alpha_map_clone', 'alpha_map_add_range', 'trie_new', 'trie_new_from_file', 'trie_fread',
        'trie_store', 'trie_store_if_absent', 'trie_root', 'trie_state_clone', 'trie_retrieve', 'trie_delete', 'th_brk_delete', 'th_brk_wc_find_breaks', 'th_brk_find_breaks']
WRAP_THR = ['fread', 'fgets', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strcmp', 'strncmp', 'strchr', 'memchr', 'snprintf', 'sprintf', 'vsnprintf', 'wmemcpy', 'wmemset', 'wcslen', 'strtol', 'strtoul', 'localtime', 'memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'strtok', 'setlocale', 'rand', 'mbtowc', 'wctomb', 'strerror',
            '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock',
            'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_once',
            '_ZNSt10_Sp_lockerC1EPKv', '_ZNSt10_Sp_lockerC1EPKvS1_', '_ZNSt10_Sp_lockerD1Ev',
            '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_', '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_',
            '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base',
            '_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base',
            '_ZNSt8__detail15_List_node_base7_M_hookEPS0_', '_ZNSt8__detail15_List_node_base9_M_unhookEv', '_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_',
            '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l',
            'trie_state_walk', 'trie_state_rewind', 'trie_state_copy', 'trie_state_is_walkable', 'trie_state_get_data', 'trie_state_is_single', 'trie_state_free', 'trie_free']
DEFS = ['-DEXCEPT_DICT_DIR="/sim/share"', '-DVERSION="sim"']
SRC_EXT = ('.cxx', '.cc', '.cpp', '.c')

VARIANTS = {
    # flags of repository sources, flags of harness sources, libraries
    'asan': (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'], ['-O1', '-fsanitize=address'], ['-fsanitize=address']),
    'rel': (['-O2', '-DNDEBUG'], ['-O2'], []),
    'thr': (['-O1', '-fsanitize=thread', '-include', os.path.join(SIM, 'noext.h')], ['-O2', '-DSIM_THREADS'], ['-pthread']),
    'mk': ([], [], []),         # builds of the data directory, see compile_mk
}


class BuildError(Exception):
    pass


def repo_files():
    srcs, hdrs = [], []
    for d, subs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        subs[:] = sorted(s for s in subs if s not in ('.git', '_build', 'tests', 'test', 'autom4te.cache') and not s.startswith('.'))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(SRC_EXT):
                srcs.append(p)
            elif os.path.isfile(p):         # anything else may be included by a source (.h, .inl, ...)
                hdrs.append(p)
        del rel
    return srcs, hdrs


def harness_files():
    return sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(('.cc', '.h')))


def mk_files():
    return [os.path.join(MK, 'mk.cc')] + [os.path.join(SIM, f) for f in ('main.cc', 'plan.cc', 'gen.cc')]


def key(variant):
    h = hashlib.sha256()
    srcs, hdrs = repo_files()
    for p in sorted(srcs + hdrs) + harness_files() + mk_files()[:1] + [os.path.abspath(__file__)] + LIBS:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(variant.encode())
    return h.hexdigest()[:16]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, '%s-%s' % (variant, key(variant)))
    binary = os.path.join(final, 'sim')
    if os.path.exists(binary):
        return binary
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(binary):
            return binary
        tmp = os.path.join(BUILD, '%s.%d.tmp' % (variant, os.getpid()))
        os.makedirs(tmp)
        try:
            compile_into(tmp, variant)
            os.rename(tmp, final)
        finally:
            if os.path.isdir(tmp):
                shutil.rmtree(tmp)
        prune(variant, os.path.basename(final))
    return binary


def compile_mk(tmp):
    """The tracer, gen-lookup-dict as a program of its own, and the lists with their build rules."""
    run(['g++', '-std=c++17', '-O2', '-g1', '-Wall', '-I' + REPO, '-I' + SIM] + mk_files() + ['-o', os.path.join(tmp, 'sim')])
    objs, jobs = [], []
    for i, s in enumerate(repo_files()[0]):
        o = os.path.join(tmp, 'r%d.o' % i)
        jobs.append((['gcc'] if s.endswith('.c') else ['g++', '-std=c++14']) + ['-O2', '-w'] + DEFS + ['-I' + REPO, '-I' + os.path.dirname(s), '-c', s, '-o', o])
        objs.append((s, o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    mains = [(s, o) for s, o in objs if any(l.split()[-2:] == ['T', 'main'] for l in run(['nm', o]).splitlines() if l.strip())]
    gen = [o for s, o in mains if os.path.basename(s).startswith('gen')] or [o for s, o in mains if '/dict/' in s]
    if not gen:
        raise BuildError('no source of gen-lookup-dict')
    run(['g++'] + gen[:1] + [o for s, o in objs if (s, o) not in mains] + LIBS + ['-o', os.path.join(tmp, 'gen-lookup-dict')])
    for _, o in objs:
        os.unlink(o)
    shutil.copytree(os.path.join(REPO, 'data'), os.path.join(tmp, 'data'))
    os.makedirs(os.path.join(tmp, 'top'))
    for f in os.listdir(REPO):
        if f.endswith(('.am', '.mk', '.mak')):
            shutil.copy(os.path.join(REPO, f), os.path.join(tmp, 'top', f))


def compile_into(tmp, variant):
    if variant == 'mk':
        return compile_mk(tmp)
    rflags, hflags, libs = VARIANTS[variant]
    srcs, _ = repo_files()
    jobs, objs, robjs = [], [], []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, 'r%d_%s.o' % (i, os.path.splitext(os.path.basename(s))[0]))
        inc = ['-I' + REPO, '-I' + os.path.dirname(s)]
        cc = ['gcc'] if s.endswith('.c') else ['g++', '-std=c++14']
        jobs.append(cc + ['-g1', '-w'] + rflags + DEFS + inc + ['-c', s, '-o', o])
        robjs.append((s, o))
        objs.append(o)
    for s in harness_files():
        if not s.endswith('.cc'):
            continue
        name = os.path.splitext(os.path.basename(s))[0]
        if name == 'thr' and variant != 'thr':
            continue
        o = os.path.join(tmp, 'h_%s.o' % name)
        fl = ['-O2'] if name in ('seam', 'thr') else [f for f in hflags if not f.startswith('-D')]
        fl = fl + [f for f in hflags if f.startswith('-D')]
        jobs.append(['g++', '-std=c++17', '-g1', '-Wall'] + fl + ['-I' + REPO, '-I' + SIM, '-c', s, '-o', o])
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    for s, o in robjs:
        if any(l.split()[-2:] == ['T', 'main'] for l in run(['nm', o]).splitlines() if l.strip()):
            stem = os.path.splitext(os.path.basename(s))[0].replace('-', '_').replace('.', '_')
            run(['objcopy', '--redefine-sym', 'main=%s_main' % stem, o])
    wrap = WRAP + (WRAP_THR if variant == 'thr' else [])
    run(['g++', '-no-pie', '-rdynamic'] + objs + ['-Wl,--wrap=' + w for w in wrap] + LIBS + libs + ['-o', os.path.join(tmp, 'sim')])
    for o in objs:
        os.unlink(o)


def prune(variant, keep):
    """Keeps the three newest builds of a variant."""
    ds = [d for d in os.listdir(BUILD) if d.startswith(variant + '-') and d != keep]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)), reverse=True)
    for d in ds[2:]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS:
        print(build(v))
