#!/usr/bin/env python3
"""Driver: run.py <PROPERTY> <quick|thorough>   |   run.py --replay FILE   |  run.py --setup

Builds the library from /repo's working tree, builds the property's explorer,
executes every unit of its bounded state space in a separate process and
reports.  Exit 0: the property held on everything explored.  Exit 1: violation
(a "VIOLATION property=.. replay=.." line is printed).  Exit 2: no answer.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, signal, resource, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
from threading import Lock, Event

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBC_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
KNOWN = os.path.join(V, 'known-findings.txt')
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS   # per-property configuration
from props import BOUNDS

NPROC = os.cpu_count() or 4
FLAVORS = {
  'plain': dict(cc='gcc', cxx='clang++', cflags=['-O2', '-g', '-w']),
  'wipe':  dict(cc='gcc', cxx='clang++', cflags=['-O2', '-g', '-w', '-DSAFE_CLEAN']),
  'debug': dict(cc='gcc', cxx='clang++', cflags=['-O2', '-g', '-w', '-DPBC_DEBUG']),
  'asan':  dict(cc='gcc', cxx='clang++', cflags=['-O1', '-g', '-w', '-fno-omit-frame-pointer',
            '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
            '-fno-sanitize=alignment,shift,function' if False else '-fno-sanitize=alignment,shift']),
}

class NoAnswer(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout

def lib_sources():
    """The library's source list, taken from the project's own Makefile.am."""
    txt = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'^libpbc_la_SOURCES\s*=\s*(.*)$', txt, re.M)
    if not m: raise NoAnswer('libpbc_la_SOURCES not found')
    return m.group(1).split()

def pbc_sources():
    txt = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'^pbc_pbc_SOURCES\s*=\s*(.*)$', txt, re.M)
    return m.group(1).split() if m else []

def tree_hash():
    h = hashlib.sha256()
    for d in ('arith', 'ecc', 'misc', 'include', 'pbc', 'gen'):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if not x.startswith('.'))
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.y', '.lex', '.cc')) and not f.startswith(('parser.tab', 'lex.yy')):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'Makefile.am'), 'rb').read())
    return h.hexdigest()[:16]

def compile_many(jobs):
    def one(j):
        return j, sh(j)
    with ThreadPoolExecutor(NPROC) as ex:
        for j, (rc, out) in ex.map(one, jobs):
            if rc: raise NoAnswer('compile failed: %s\n%s' % (' '.join(j), out[-4000:]))

def includes(bd):
    return ['-I', os.path.join(bd, 'inc'), '-I', os.path.join(REPO, 'include'), '-I', REPO]

def build_lib(flavor):
    fl = FLAVORS[flavor]
    key = tree_hash() + '-' + hashlib.sha256(repr(fl).encode()).hexdigest()[:6]
    bd = os.path.join(BUILD, flavor + '-' + key)
    lib = os.path.join(bd, 'libpbc.a')
    if os.path.exists(lib): return bd
    # keep only a few cached builds
    if os.path.isdir(BUILD):
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(flavor + '-')),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-4]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(os.path.join(bd, 'o'), exist_ok=True)
    os.makedirs(os.path.join(bd, 'inc'), exist_ok=True)
    ln = os.path.join(bd, 'inc', 'pbc')
    if not os.path.islink(ln): os.symlink(os.path.join(REPO, 'include'), ln)
    jobs, objs = [], []
    for s in lib_sources():
        o = os.path.join(bd, 'o', s.replace('/', '_') + '.o')
        objs.append(o)
        jobs.append([fl['cc']] + fl['cflags'] + includes(bd) + ['-c', os.path.join(REPO, s), '-o', o])
    compile_many(jobs)
    tmp = lib + '.tmp'
    if os.path.exists(tmp): os.unlink(tmp)
    rc, out = sh(['ar', 'rcs', tmp] + objs)
    if rc: raise NoAnswer('ar failed ' + out)
    os.rename(tmp, lib)
    return bd

def build_harness(conf):
    flavor = conf.get('flavor', 'plain')
    fl = FLAVORS[flavor]
    bd = build_lib(flavor)
    srcs = [os.path.join(V, 'harness', s) for s in conf['src']] + [os.path.join(V, 'harness', 'vh.c')]
    h = hashlib.sha256()
    for d in sorted(os.listdir(os.path.join(V, 'harness'))):
        if d.endswith('.h') or os.path.join(V, 'harness', d) in srcs:
            h.update(open(os.path.join(V, 'harness', d), 'rb').read())
    h.update(repr(conf.get('cflags', [])).encode())
    exe = os.path.join(bd, 'h-' + conf['src'][0].replace('/', '_') + '-' + h.hexdigest()[:12])
    if os.path.exists(exe): return exe
    objs, jobs = [], []
    for s in srcs:
        cxx = s.endswith('.cc')
        o = exe + '-' + os.path.basename(s) + '.o'
        objs.append(o)
        jobs.append(([fl['cxx'], '-std=c++11'] if cxx else [fl['cc'], '-std=gnu11']) + fl['cflags'] + ([] if cxx else ['-Werror=incompatible-pointer-types', '-Werror=implicit-function-declaration', '-Werror=int-conversion']) + conf.get('cflags', [])
                    + includes(bd) + ['-I', os.path.join(V, 'harness'), '-c', s, '-o', o])
    if conf.get('tool'):
        o = exe + '-tool.o'
        jobs.append([fl['cc']] + fl['cflags'] + ['-Dmain=pbc_tool_main'] + includes(bd) + ['-c', os.path.join(REPO, conf['tool']), '-o', o])
        objs.append(o)
    extra = []
    if conf.get('calculator'):
        g = os.path.join(bd, 'calc'); os.makedirs(g, exist_ok=True)
        # generate the parser from the grammar, as the project does
        for cmd in ([['bison', '-d', '-o', os.path.join(g, 'parser.tab.c'), os.path.join(REPO, 'pbc/parser.y')]],
                    [['flex', '-o', os.path.join(g, 'lex.yy.c'), '--header-file=' + os.path.join(g, 'lex.yy.h'), os.path.join(REPO, 'pbc/parser.lex')]]):
            rc, out = sh(cmd[0])
            if rc: raise NoAnswer('generator failed: ' + out)
        libset = set(lib_sources())
        for s in pbc_sources():
            if s in libset: continue
            src = os.path.join(g, os.path.basename(s)) if os.path.basename(s) in ('parser.tab.c', 'lex.yy.c') else os.path.join(REPO, s)
            o = exe + '-calc-' + os.path.basename(s) + '.o'
            defs = ['-Dmain=pbc_calculator_main'] if s.endswith('pbc/pbc.c') else []
            jobs.append([fl['cc']] + fl['cflags'] + defs + ['-I', g] + includes(bd) + ['-I', os.path.join(REPO, 'pbc'), '-c', src, '-o', o])
            objs.append(o)
    compile_many(jobs)
    anycxx = any(s.endswith('.cc') for s in srcs)
    link = [fl['cxx'] if anycxx else fl['cc']] + fl['cflags'] + objs + [os.path.join(bd, 'libpbc.a'), '-lgmp', '-lm'] + conf.get('ldflags', [])
    rc, out = sh(link + ['-o', exe + '.tmp'])
    if rc: raise NoAnswer('link failed: %s\n%s' % (' '.join(link), out[-4000:]))
    os.rename(exe + '.tmp', exe)
    return exe

ENV = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='abort_on_error=1:halt_on_error=1:print_stacktrace=1')

procs = set(); plock = Lock(); stop = Event()

def run_unit(exe, unit, tier, conf, slack=1):
    if stop.is_set(): return None
    scratch = tempfile.mkdtemp(prefix='pbcv-')
    cpu = conf.get('cpu_limit', {'quick': 120, 'thorough': 3000})[tier] * slack
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if conf.get('flavor', 'plain') != 'asan':
            m = conf.get('mem', 3 << 30)
            resource.setrlimit(resource.RLIMIT_AS, (m, m))
    t = time.time()
    try:
        p = subprocess.Popen([exe, '--tier', tier, '--unit', unit, '--repo', REPO, '--scratch', scratch],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=scratch, preexec_fn=pre)
        with plock: procs.add(p)
        try:
            out, err = p.communicate(timeout=cpu * 3 + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate()
            out += ('\nFAIL %s ::  :: no termination within the wall budget\nEND\n' % unit).encode()
        with plock: procs.discard(p)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out = out.decode('utf-8', 'replace'); err = err.decode('utf-8', 'replace')
    r = dict(unit=unit, rc=p.returncode, wall=time.time() - t, fails=[], samples=[], stats=dict(states=0, transitions=0, checks=0, traces=0), err=err[-3000:])
    ended = False
    for l in out.split('\n'):
        if l.startswith('FAIL '): r['fails'].append(l[5:])
        elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
        elif l.startswith('STATS '):
            for k, v in re.findall(r'(\w+)=(\d+)', l):
                if k in r['stats']: r['stats'][k] = int(v)
        elif l.startswith('END'): ended = True
    if not ended and not stop.is_set():
        r['fails'].append('%s ::  :: process ended abnormally rc=%s %s' % (unit, p.returncode, ' '.join(err.split())[-300:]))
    return r

def killall():
    stop.set()
    with plock:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass

def load_known(prop):
    known, fixed = {}, 0
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=<<(.*?)>> (.*)$', l.strip())
            if m and m.group(1) == prop: known[m.group(2)] = m.group(3)
    return known

def units_of(conf, tier):
    exe = build_harness(conf)
    rc, out = sh([exe, '--list', '--tier', tier, '--repo', REPO])
    if rc: raise NoAnswer('unit listing failed: ' + out)
    return exe, [l for l in out.split('\n') if l]

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--setup':
        for t in ('gcc', 'clang++', 'bison', 'flex', 'ar'):
            if not shutil.which(t): print('missing', t); return 2
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        conf = CHECKS[rp['property']]['explorers'][rp['explorer']]
        exe, us = units_of(conf, rp['tier'])
        r = run_unit(exe, rp['unit'], rp['tier'], conf)
        for f in r['fails']: print('FAIL', f)
        print('reproduced' if r['fails'] else 'not reproduced')
        return 1 if r['fails'] else 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[3] if len(sys.argv) > 3 else None     # development aid: unit substring
    t0 = time.time()
    C = CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        work = []
        for i, conf in enumerate(C['explorers']):
            exe, us = units_of(conf, tier)
            work += [(i, conf, exe, u) for u in us if not only or only in u]
    t_build = time.time() - t0
    known = load_known(prop)
    tot = dict(states=0, transitions=0, checks=0, traces=0)
    samples, viol, seen_known, slow = [], [], {}, []
    ex = ThreadPoolExecutor(NPROC)
    futs = {ex.submit(run_unit, exe, u, tier, conf): (i, conf, exe, u) for (i, conf, exe, u) in work}
    verbose = os.environ.get('VH_VERBOSE')
    noans = None
    for f in as_completed(futs):
        i, conf, exe, u = futs[f]
        try: r = f.result()
        except Exception as e:
            if stop.is_set(): continue
            raise
        if r is None or (stop.is_set() and not r['fails']): continue
        for k in tot: tot[k] += r['stats'][k]
        samples += r['samples'][:1]
        slow.append((round(r['wall'], 1), u))
        if r['rc'] == 9: noans = 'unit %s could not run: %s' % (u, r['err']); continue
        new = []
        for l in r['fails']:
            if l in known: seen_known[l] = known[l]
            else: new.append(l)
        if new and verbose:
            for l in new[:25]: print('  fail:', l)
            if 'ERROR' in r['err'] or 'runtime error' in r['err']: print(r['err'][-2500:])
        if new and not stop.is_set():
            # replay before reporting
            for attempt in range(3):     # a timed-out unit gets a longer limit when replayed
                r2 = run_unit(exe, u, tier, conf, 2 if attempt == 0 else 1)
                conf2 = [l for l in r2['fails'] if l not in known] if r2 else []
                if conf2: break
            if conf2:
                viol.append((i, u, conf2, r2['err']))
                if not verbose: killall()
            else:
                noans = 'unit %s failed once but did not reproduce: %s' % (u, new[0])
    ex.shutdown(wait=True)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
      coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'] or tot['transitions'],
                    samples=(sorted(samples)[:12] or ['(none)']), checks=tot['checks'], units=len(work), exhaustive=not viol and noans is None,
                    bounds=BOUNDS.get(prop, '(property text not written yet)'),
                    conformance='the reference model runs in lockstep with the real code: every transition is executed on code compiled from the current /repo tree and compared with the model'),
      assumptions=C.get('assumptions', []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    for k, w in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    print('%s %s: units=%d states=%d transitions=%d checks=%d build=%.1fs wall=%.1fs' % (prop, tier, len(work), tot['states'], tot['transitions'], tot['checks'], t_build, wall))
    if verbose: print('slowest:', sorted(slow, reverse=True)[:8])
    if viol:
        rd = os.path.join(V, 'replay'); os.makedirs(rd, exist_ok=True)
        for (i, u, fl, err) in viol:
            p = os.path.join(rd, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', u)[:60]))
            json.dump(dict(property=prop, tier=tier, explorer=i, unit=u, fails=fl, stderr=err), open(p, 'w'), indent=1)
            print('  ' + fl[0][:600])
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if noans:
        print('NO-ANSWER', noans); return 2
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except NoAnswer as e:
        print('NO-ANSWER', e); rc = 2
    except KeyboardInterrupt:
        killall(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
