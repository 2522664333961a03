#!/usr/bin/env python3
"""Driver: builds a harness with /repo's current sources, runs its shards,
confirms failures by re-execution, writes evidence and reports."""
import sys, os, json, time, hashlib, subprocess, struct, re, fcntl, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 8
sys.path.insert(0, os.path.join(VERIF, 'tools'))
MAINS = re.compile(r'^(test_.*|gostsum|gost12sum|gost_prov.*|bench.*|sign)\.c$')

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def repo_sources(kind):
    fs = sorted(f for f in os.listdir(REPO) if f.endswith('.c'))
    if kind in ('engine', 'engine-so'):
        return [f for f in fs if not MAINS.match(f)]
    if kind == 'provider':
        return [f for f in fs if (not MAINS.match(f) or f.startswith('gost_prov')) and f != 'e_gost_err.c']    # gost_prov.c includes that
    raise CheckError(kind)

def tree_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    for d in (REPO,):
        for f in sorted(os.listdir(d)):
            if f.endswith(('.c', '.h')):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:20]

BASE = ['-w', '-std=gnu90', '-DHAVE_ADDCARRY_U64', '-DL_ENDIAN', '-I' + REPO]
ASAN = ['-g1', '-O2', '-fno-omit-frame-pointer', '-fsanitize=address']

def compile_many(jobs):
    """jobs: list of (src, obj, flags)"""
    def one(j):
        src, obj, flags = j
        r = sh(['gcc'] + flags + ['-c', src, '-o', obj], env={**os.environ, 'CCACHE_DISABLE': '1'})
        return (src, r)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, r in ex.map(one, jobs):
            if r.returncode:
                raise CheckError('compile %s failed:\n%s' % (src, r.stdout[-3000:]))

def build_lib(kind, flags, cc='gcc', per_file=None):
    """objects of /repo for one flag set; returns the list of object files"""
    srcs = repo_sources(kind)
    h = tree_hash((kind, flags, cc, srcs, repr(per_file)))
    d = os.path.join(BUILD, 'lib-' + h)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + h), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'done')):
            os.makedirs(d, exist_ok=True)
            compile_many([(os.path.join(REPO, s), os.path.join(d, s[:-2] + '.o'),
                           flags + (per_file(s) if per_file else [])) for s in srcs])
            open(os.path.join(d, 'done'), 'w').close()
            prune()
    return [os.path.join(d, s[:-2] + '.o') for s in srcs]

def prune():
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('lib-')]
    ds.sort(key=os.path.getmtime)
    for x in ds[:-12]:
        if time.time() - os.path.getmtime(x) > 3600:
            shutil.rmtree(x, ignore_errors=True)

def build_harness(name, cfg, var):
    flags = BASE + var.get('san', ASAN) + var.get('cflags', [])
    kind = var.get('kind', 'engine')
    libflags = flags + (['-DBUILDING_ENGINE_AS_LIBRARY'] if kind == 'engine' else ['-fPIC'] if kind == 'engine-so' else
                        ['-DBUILDING_PROVIDER_AS_LIBRARY', '-DBUILDING_GOST_PROVIDER', '-I' + os.path.join(VERIF, 'lib/provstub')])
    objs = build_lib(kind, libflags, per_file=var.get('per_file'))
    d = os.path.join(BUILD, 'bin')
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, '%s-%s-%d' % (name, var['name'], os.getpid()))
    hsrc = [os.path.join(VERIF, 'checks', s) for s in cfg['src']] + \
           [os.path.join(VERIF, 'lib', s) for s in ['mc.c', 'ref.c', 'eng.c'] + cfg.get('lib', [])]
    hflags = ['-w', '-std=gnu11', '-D_GNU_SOURCE', '-I' + os.path.join(VERIF, 'lib'), '-I' + REPO] + var.get('san', ASAN) + \
        var.get('hflags', []) + ['-DVARIANT_' + var['name'].upper().replace('-', '_'), '-DKIND_' + kind.split('-')[0].upper()]
    hobjs, jobs = [], []
    for s in hsrc:
        o = exe + '-' + os.path.basename(s) + '.o'
        fl = hflags
        if os.path.basename(s) == 'ref.c':
            fl = ['-w', '-O2', '-I' + os.path.join(VERIF, 'lib')]
        jobs.append((s, o, fl)); hobjs.append(o)
    if kind == 'provider':
        o = exe + '-proverr.o'
        jobs.append((os.path.join(VERIF, 'lib/provstub/err.c'), o, hflags + ['-I' + os.path.join(VERIF, 'lib/provstub')]))
        hobjs.append(o)
    compile_many(jobs)
    for tag, src, fl in cfg.get('optional', lambda repo: [])(REPO):
        # looks inside a file of the repository: left out when its internals have changed
        o = exe + '-' + tag + '.o'
        fl = hflags + var.get('cflags', []) + fl + ['-DREPO="%s"' % REPO]
        src = os.path.join(VERIF, 'checks', src)
        if sh(['gcc'] + fl + ['-c', src, '-o', o]).returncode:
            compile_many([(src, o, fl + ['-DABSENT'])])
        sh(['objcopy', '-w', '--keep-global-symbol=FLD_*', o])
        hobjs.append(o)
    if var.get('trampolines'):
        objs = trampolines(objs, exe, hobjs)
    if kind == 'engine-so':     # the harness loads it
        r = sh(['gcc', '-shared'] + var.get('san', ASAN) + objs + ['-o', exe + '.so', '-lcrypto'])
        if r.returncode:
            raise CheckError('link failed:\n' + r.stdout[-3000:])
        objs = []
    r = sh(['gcc'] + var.get('san', ASAN) + hobjs + objs + ['-o', exe, '-lcrypto', '-lpthread', '-ldl'] + var.get('ldflags', []) + cfg.get('ldflags', []))
    for o in hobjs:
        os.unlink(o)
    if r.returncode:
        raise CheckError('link failed:\n' + r.stdout[-3000:])
    return exe

WRAPPED = ('CRYPTO_THREAD_write_lock CRYPTO_THREAD_read_lock CRYPTO_THREAD_unlock CRYPTO_THREAD_run_once pthread_mutex_lock pthread_mutex_unlock '
           'pthread_once pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock').split()
# bits 0-5: an object this argument points to may be changed; 8-13: is looked at; 16-19, if any: the argument with the length of both
RANGES = {'memcpy': 0x20201, 'memmove': 0x20201, 'memset': 0x20001, 'memcmp': 0x20300, 'OPENSSL_cleanse': 0x10001, 'CRYPTO_memcmp': 0x20300, 'RAND_bytes': 0x10001, 'RAND_priv_bytes': 0x10001}
def prototypes(names):
    """which arguments of the libraries' functions point to objects, constant ones or not"""
    import glob
    inc = ''.join(f'#include <openssl/{os.path.basename(h)}>\n' for h in sorted(glob.glob('/usr/include/openssl/*.h'))
                  if os.path.basename(h) not in ('asn1_mac.h', 'opensslconf-x86_64.h', 'ebcdic.h'))
    r = subprocess.run(['gcc', '-E', '-P', '-x', 'c', '-'], input='#define _GNU_SOURCE\n#include <string.h>\n#include <stdio.h>\n#include <stdlib.h>\n' + inc, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    res = {}
    for m in re.finditer(r'\b(\w+)\s*\(', r.stdout):
        n = m.group(1)
        if n not in names or n in res:
            continue
        d, i, args, cur = 1, m.end(), [], ''
        while d and i < len(r.stdout):
            c = r.stdout[i]
            d += (c == '(') - (c == ')')
            if d == 1 and c == ',':
                args.append(cur); cur = ''
            elif d:
                cur += c
            i += 1
        args.append(cur)
        if not re.match(r'\s*(__attribute__|;|asm|__asm)', r.stdout[i:i + 40]):
            continue
        mask = 0
        for k, t in enumerate(args[:6]):
            t = t.strip()
            if '*' not in t and '[' not in t or '(' in t:
                continue
            const = t.count('*') == 1 and 'const' in t.split('*')[0] or t.count('*') == 0 and t.startswith('const')
            mask |= 1 << (k + 8 if const else k)
        res[n] = mask
    return res
def trampolines(objs, exe, hobjs):
    """the engine in one object, each of its calls into the libraries reported to the scheduler first"""
    def nm(fs, *a):
        return [l.split() for l in sh(['nm', *a] + fs).stdout.splitlines() if ' ' in l]
    defined = {l[2] for l in nm(objs) if len(l) == 3}
    undef = {l[1] for l in nm(objs, '-u') if len(l) == 2} - defined
    libs = [l.split('=>')[1].split()[0] for l in sh(['ldd', sys.executable]).stdout.splitlines() if 'libc.so' in l]
    crypto = sh(['gcc', '-print-file-name=libcrypto.so']).stdout.strip()
    funcs = {l[2].split('@')[0] for l in nm([crypto] + libs, '-D') if len(l) == 3 and l[1] in 'TWi'}
    wrapped = sorted(undef & set(WRAPPED))
    plain = sorted(x for x in undef & funcs if x not in WRAPPED and not re.match(r'__|_exit|abort|OPENSSL_die|_?setjmp', x))
    a = ['.text']
    protos = prototypes(set(plain))
    for x in plain:
        mask = RANGES.get(x, protos.get(x, 0x3f))
        a.append(f"""
.globl __wrap_{x}
.type __wrap_{x}, @function
__wrap_{x}:
  pushq %r9; pushq %r8; pushq %rcx; pushq %rdx; pushq %rsi; pushq %rdi; pushq %rax
  movq %rsp, %rdi
  addq $8, %rdi
  movq 56(%rsp), %rsi
  movl ${mask}, %edx
  subq $128, %rsp
  movups %xmm0, (%rsp); movups %xmm1, 16(%rsp); movups %xmm2, 32(%rsp); movups %xmm3, 48(%rsp)
  movups %xmm4, 64(%rsp); movups %xmm5, 80(%rsp); movups %xmm6, 96(%rsp); movups %xmm7, 112(%rsp)
  call sc_call@PLT
  movups (%rsp), %xmm0; movups 16(%rsp), %xmm1; movups 32(%rsp), %xmm2; movups 48(%rsp), %xmm3
  movups 64(%rsp), %xmm4; movups 80(%rsp), %xmm5; movups 96(%rsp), %xmm6; movups 112(%rsp), %xmm7
  addq $128, %rsp
  popq %rax; popq %rdi; popq %rsi; popq %rdx; popq %rcx; popq %r8; popq %r9
  jmp *__real_{x}@GOTPCREL(%rip)""")
    a.append('.section .note.GNU-stack,"",@progbits\n')
    open(exe + '-tramp.S', 'w').write('\n'.join(a))
    compile_many([(exe + '-tramp.S', exe + '-tramp.o', [])])
    o = exe + '-all.o'
    r = sh(['ld', '-r', '-o', o] + objs + [exe + '-tramp.o'] + ['--wrap=' + x for x in plain + wrapped])
    os.unlink(exe + '-tramp.S'); os.unlink(exe + '-tramp.o')
    if r.returncode:
        raise CheckError('ld -r failed:\n' + r.stdout[-3000:])
    hobjs.append(o)     # removed with the harness objects
    return []

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:symbolize=1:detect_stack_use_after_return=0',
       'OPENSSL_CONF': '/dev/null', 'CRYPT_PARAMS': '', 'LC_ALL': 'C', 'HOME': '/nonexistent', 'PATH': os.environ.get('PATH', '')}

def harness_env(cfg):
    e = dict(ENV)
    del e['CRYPT_PARAMS']
    e.update(cfg.get('env', {}))
    if os.environ.get('MC_TIMES'):
        e['MC_TIMES'] = '1'
    return e

def read_trace(path):
    try:
        b = open(path, 'rb').read()
        no, ln = struct.unpack('qQ', b[:16])
        nm = b[16:528].split(b'\0')[0].decode('latin1')
        tr = b[528:528 + ln].decode('latin1')
        return no, nm, tr
    except Exception:
        return -1, '', ''

def crash_sig(rc, err):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    kind = m.group(1) if m else None
    fn = ''
    for m2 in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', err):
        if (REPO + '/') in m2.group(2):
            fn = m2.group(1); break
    m3 = re.search(r'assertion failed: (.*)', err)
    if m3:
        kind = 'assert'
    if rc == 78:
        return 'hang'
    if kind is None:
        kind = 'exit%d' % rc
    return 'crash:%s:%s' % (kind, fn)

class Run:
    def __init__(self, prop, cfg, tier):
        self.prop, self.cfg, self.tier = prop, cfg, tier
        self.fails = []       # dicts
        self.stats = {'states': 0, 'transitions': 0, 'execs': 0}
        self.counters, self.outcomes, self.samples = {}, set(), []
        self.variants = []
        self.capped = []
        self.hangs = 0
        self.t0 = time.time()

    def args(self, var):
        return (['--thorough'] if self.tier == 'thorough' else []) + var.get('args', [])

    def shard(self, exe, var, i, n, skip=-1, only=None, hang=None, stop=None, choices=None):
        tag = '%s-%d-%d-%s' % (exe, i, n, 'o%d%s' % (only, hashlib.sha256((str(stop) + str(choices)).encode()).hexdigest()[:8]) if only is not None else 's%d' % skip)
        out, tr = tag + '.out', tag + '.trace'
        cmd = [exe, '--out', out, '--trace', tr] + self.args(var)
        hang = hang or self.hang()
        cmd += ['--hang', str(hang)]
        if only is not None:
            cmd += ['--only', str(only)] + (['--stop', stop] if stop else []) + (['--choices', choices] if choices else [])
        else:
            cmd += ['--shard', '%d/%d' % (i, n), '--skip-through', str(skip)]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=harness_env(self.cfg), cwd='/')
        err = p.stderr.decode('latin1', 'replace')
        if os.environ.get('MC_TIMES'):
            with open(os.environ['MC_TIMES'], 'a') as f:
                f.write(''.join(x + '\n' for x in err.split('\n') if x.startswith('TIME ')))
        recs = []
        if os.path.exists(out):
            for line in open(out, encoding='latin1'):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        tinfo = read_trace(tr)
        for f in (out, tr):
            if os.path.exists(f):
                os.unlink(f)
        return p.returncode, err, recs, tinfo

    def hang(self):
        return self.cfg.get('hang', 40 if self.tier == 'quick' else 300)

    def run_shard(self, exe, var, i, n):
        skip, allrecs, restarts = -1, [], 0
        if self.hangs >= 3 or (self.tier == 'quick' and time.time() - self.t0 > 500):
            self.capped.append('shard %d/%d of %s not run: %s' % (i, n, var['name'], 'hangs elsewhere' if self.hangs >= 3 else 'time budget'))
            return []
        while True:
            rc, err, recs, (no, nm, tr) = self.shard(exe, var, i, n, skip)
            if rc == 77:
                raise CheckError('harness error: ' + err[-2000:])
            allrecs += recs
            if rc == 0 and any(r['t'] == 'stats' for r in recs):
                return allrecs
            if no < 0:
                raise CheckError('harness died before its first case (rc %d): %s' % (rc, err[-3000:]))
            allrecs.append({'t': 'fail', 'sig': crash_sig(rc, err), 'msg': err[:6000], 'case_no': no, 'case': nm,
                            'trace': tr, 'choices': [], 'crash': True, 'rc': rc})
            skip, restarts = no, restarts + 1
            self.hangs += rc == 78
            if restarts >= 4 or self.hangs >= 3:
                self.capped.append('shard %d/%d stopped after %d crashes' % (i, n, restarts))
                return allrecs

    def run_variant(self, var):
        exe = build_harness(self.prop, self.cfg, var)
        self.variants.append(var['name'])
        n = self.cfg.get('shards', 24)
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(lambda i: self.run_shard(exe, var, i, n), range(n)))
            fails = {}
            for recs in res:
                for r in recs:
                    if r['t'] == 'stats':
                        for k in self.stats:
                            self.stats[k] += r[k]
                        for k, v in r['counters'].items():
                            self.counters[k] = self.counters.get(k, 0) + v
                        self.outcomes.update(r['outcomes'])
                    elif r['t'] == 'sample':
                        self.samples.append({'variant': var['name'], 'case': r['case'], 'text': r['text']})
                    elif r['t'] == 'fail':
                        fails.setdefault(r['sig'], []).append(r)
            # replay before report
            def confirm(item):
                sig, rs = item
                for r in rs[:3]:
                    ch = '%d:%s' % (r['explore'], ','.join(map(str, r['choices']))) if 'explore' in r else None
                    rc, err, recs, _ = self.shard(exe, var, 0, 1, only=r['case_no'], hang=2 * self.hang(), stop=sig, choices=ch)
                    if ch and not any(x['t'] == 'fail' and x['sig'] == sig for x in recs):  # needs what came before
                        ch = None
                        rc, err, recs, _ = self.shard(exe, var, 0, 1, only=r['case_no'], hang=2 * self.hang(), stop=sig)
                    if r.get('crash'):
                        ok = rc not in (0, 77) and (crash_sig(rc, err) == sig)
                    else:
                        ok = any(x['t'] == 'fail' and x['sig'] == sig for x in recs)
                    if ok:
                        r = dict(r, variant=var['name'], cmd=[os.path.basename(exe)] + self.args(var) + ['--only', str(r['case_no'])] + (['--choices', ch] if ch else []), count=len(rs))
                        return r
                return dict(rs[0], variant=var['name'], unconfirmed=True)
            with cf.ThreadPoolExecutor(JOBS) as ex:
                self.fails += list(ex.map(confirm, sorted(fails.items())))
        finally:
            if not os.environ.get('VERIF_KEEP'):
                os.unlink(exe)

def load_known(prop):
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res

def main():
    import checks
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = checks.CHECKS[prop]
    run = Run(prop, cfg, tier)
    ev = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    try:
        for var in cfg.get('variants', [{'name': 'default'}]):
            if var.get('tier') and var['tier'] != tier:
                continue
            run.run_variant(var)
        if cfg.get('custom'):
            cfg['custom'](run)
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        return 2
    known = load_known(prop)
    viol, seen_known = [], {}
    unconf = [f for f in run.fails if f.get('unconfirmed')]
    for f in run.fails:
        if f.get('unconfirmed'):
            continue
        if f['sig'] in known:
            seen_known[f['sig']] = f
        else:
            viol.append(f)
    for s in seen_known:
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[s], s))
    samples = run.samples[:6] or [{'text': 'none'}]
    cov = {'states': run.stats['states'], 'transitions': run.stats['transitions'],
           'traces_validated_against_impl': run.stats['execs'], 'samples': samples,
           'exhaustive': not run.capped and not viol,
           'bounds': cfg.get('bounds', ''), 'variants': run.variants, 'counters': run.counters,
           'distinct_outcomes': len(run.outcomes), 'outcomes': sorted(run.outcomes)[:60],
           'capped': run.capped, 'unconfirmed': [f['sig'] for f in unconf]}
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
               'violations': len(viol)}, open(ev, 'w'), indent=1)
    print('%s %s: states=%d transitions=%d executions=%d outcomes=%d wall=%.1fs counters=%s' % (
        prop, tier, run.stats['states'], run.stats['transitions'], run.stats['execs'], len(run.outcomes), time.time() - t0,
        json.dumps(run.counters)))
    for f in unconf:
        print('not reproduced on replay (ignored): %s case %s' % (f['sig'], f['case']))
    if viol:
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        for f in viol[:20]:
            path = os.path.join(rd, '%s-%s.json' % (prop, hashlib.sha256(f['sig'].encode()).hexdigest()[:10]))
            json.dump(f, open(path, 'w'), indent=1)
            print('  %s\n    case: %s\n    ops: %s\n    %s' % (f['sig'], f['case'], f['trace'][-600:], f['msg'][:700].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if unconf and not viol and any(not f.get('crash') for f in unconf):
        print('CHECK ERROR: nondeterministic failure')
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
