#!/usr/bin/env python3
"""Mutation campaign (a tool for strengthening the checks, not itself a check).
mutate.py OUTDIR NWORKERS PER_FILE SEED [file-substring...]
Makes copies of /repo and /verif under OUTDIR, applies one small mutation at a
time, runs the quick checks that look at the mutated file and lists survivors."""
import os, re, sys, random, subprocess, shutil, hashlib, json, time
from concurrent.futures import ThreadPoolExecutor
from threading import Lock
REPO = os.environ.get('PBC_REPO', '/repo'); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 'arith/naivefp.c': 'P01 P04 P09 P10 P11 P13', 'arith/fastfp.c': 'P01 P04 P09 P10 P11 P13', 'arith/fasterfp.c': 'P01 P04 P09 P10 P11 P13', 'arith/montfp.c': 'P01 P04 P09 P10 P11 P13',
 'arith/field.c': 'P02 P05 P04 P12 P13 P24 P17 P01 P09 P18', 'arith/fieldquadratic.c': 'P02 P04 P09 P10 P11 P13 P05', 'arith/poly.c': 'P24 P02 P04 P09 P10 P11 P13',
 'arith/multiz.c': 'P17 P11 P19 P25', 'arith/z.c': 'P17 P11 P19', 'arith/random.c': 'P13 P27', 'arith/dlog.c': 'P18', 'arith/ternary_extension_field.c': 'P28 P09 P13',
 'ecc/eta_T_3.c': 'P28 P14 P15 P08', 'ecc/a_param.c': 'P14 P07 P08 P26 P15 P06', 'ecc/d_param.c': 'P14 P07 P08 P26 P15 P06', 'ecc/e_param.c': 'P14 P07 P08 P15 P06', 'ecc/f_param.c': 'P14 P07 P08 P15 P06', 'ecc/g_param.c': 'P14 P07 P08 P26 P15 P06',
 'ecc/curve.c': 'P06 P09 P10 P11 P12 P13 P07', 'ecc/pairing.c': 'P06 P07 P08 P09 P10 P11 P26 P14', 'ecc/param.c': 'P14 P15', 'ecc/mnt.c': 'P16 P15', 'ecc/hilbert.c': 'P16 P15', 'ecc/mpc.c': 'P16',
 'misc/darray.c': 'P22', 'misc/symtab.c': 'P22', 'misc/memory.c': 'P27', 'misc/extend_printf.c': 'P19', 'pbc/pbc.c': 'P25', 'pbc/parser.y': 'P25', 'include/pbcxx.h': 'P23', 'include/pbc_field.h': 'P01 P02 P05 P06 P09 P23', 'include/pbc_poly.h': 'P24 P02', 'include/pbc_pairing.h': 'P07 P08 P26 P06 P09 P13', 'include/pbc_curve.h': 'P06',
}
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'= 0;', '= 1;'), (r'= 1;', '= 0;'), (r'\bif \(!', 'if ('), (r'\bif \((?!!)', 'if (0 && '), (r'\bif \((?!!)', 'if (1 || '),
       (r'element_add\(', 'element_sub('), (r'element_sub\(', 'element_add('), (r'element_mul\(([^,()]+), ([^,()]+), ([^,()]+)\)', r'element_mul(\1, \2, \2)'), (r'element_set0\(', 'element_set1('), (r'element_neg\(', 'element_set('), (r'element_square\(', 'element_double('), (r'element_double\(', 'element_square('), (r'i = 0;', 'i = 1;'), (r'i\+\+', 'i += 2'), (r', (\w+)\[0\]', r', \1[1]'), (r'mpz_add_ui\(', 'mpz_sub_ui('), (r'mpz_sub_ui\(', 'mpz_add_ui('), (r'mpz_fdiv', 'mpz_tdiv'), (r', 1\)', ', 2)'), (r', 2\)', ', 1)'), (r'return 1;', 'return 0;'), (r'return 0;', 'return 1;'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'mpn_cmp\(([^;]*)\) >= 0', r'mpn_cmp(\1) > 0'), (r'\+ 2\b', '+ 1'), (r'\+= ', '-= ')]
def mutants(path):
    s = open(os.path.join(REPO, path)).read().split('\n'); out = []
    skip = re.compile(r'^\s*(//|\*|/\*|#|static|typedef|struct)|UNUSED_VAR|pbc_assert|PBC_ASSERT|pbc_warn|pbc_error|pbc_die|pbc_info|fprintf\(|out_info')
    depth = 0; comment = 0
    for i, l in enumerate(s):
        if '/*' in l and '*/' not in l: comment = 1
        if comment:
            if '*/' in l: comment = 0
            continue
        if not l.startswith((' ', '\t')) or skip.search(l): continue
        t = l.strip()
        if re.match(r'^[\w>.\-\[\]*()]+(\(| = | \+= |\+\+|--).*;$', t) and not re.match(r'^(return|goto|int|long|mpz_t|element_t|unsigned|size_t|mpz_init|mpz_clear|element_init|element_clear|\w+_ptr \w)', t):
            out.append((i, l, l[:len(l) - len(l.lstrip())] + ';'))
        for a, b in OPS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: out.append((i, l, n))
    return out
def main():
    out, nw, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); sub = sys.argv[5:]
    rnd = random.Random(seed); jobs = []
    for f in MAP:
        if sub and not any(x in f for x in sub): continue
        m = mutants(f); rnd.shuffle(m); n = per if per > 0 else len(m)
        jobs += [(f,) + x for x in m[:n]]
    rnd.shuffle(jobs); os.makedirs(out, exist_ok=True)
    lock = Lock(); free = list(range(nw)); log = open(os.path.join(out, 'log.jsonl'), 'a')
    for w in range(nw):
        d = os.path.join(out, 'w%d' % w); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.check_call('cd %s && git archive HEAD | tar x --one-top-level=%s/repo' % (REPO, d), shell=True)
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'build*', 'evidence', 'replay', 'seeded'))
        p = d + '/verif/run.py'; s = open(p).read(); s = s.replace("NPROC = os.cpu_count() or 4", "NPROC = 1"); s = s.replace("{'quick': 120, 'thorough': 3000})[tier]", "{'quick': 60, 'thorough': 3000})[tier]"); open(p, 'w').write(s)
    def one(j):
        f, i, a, b = j
        with lock: w = free.pop()
        d = os.path.join(out, 'w%d' % w); p = os.path.join(d, 'repo', f); t0 = time.time(); res = 'SURVIVED'; by = ''
        orig = open(p).read()
        try:
            s = orig.split('\n'); s[i] = b; open(p, 'w').write('\n'.join(s))
            for c in MAP[f].split():
                r = subprocess.run(['nice', '-n', '15', 'python3', 'run.py', c, 'quick'], cwd=d + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PBC_REPO=d + '/repo', VERIF_BUILD=d + '/b'), timeout=4000)
                if r.returncode == 1: res = 'killed'; by = c; break
                if r.returncode != 0: res = 'nobuild'; by = c + r.stdout[-300:]; break
        except Exception as e: res = 'error'; by = repr(e)
        finally:
            open(p, 'w').write(orig)
        with lock:
            free.append(w); log.write(json.dumps(dict(file=f, line=i + 1, old=a, new=b, res=res, by=by, t=round(time.time() - t0))) + '\n'); log.flush()
    with ThreadPoolExecutor(nw) as ex: list(ex.map(one, jobs))
    print('done', len(jobs))
main()
