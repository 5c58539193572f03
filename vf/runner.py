"""Runs the symbolic harnesses of one property against /repo's working tree, replays what the solver finds, writes evidence."""
import concurrent.futures as cf, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
H = os.path.join(V, 'harness')
ENGINE = os.path.join(V, 'build', 'zsym')
JOBS = int(os.environ.get('VF_JOBS', str(os.cpu_count() or 8)))
CLANG, CLANGXX, LINK, OPT = 'clang-18', 'clang++-18', 'llvm-link-18', 'opt-18'
for n in ('CLANG', 'CLANGXX', 'LINK', 'OPT'):
    if not shutil.which(globals()[n]):
        globals()[n] = globals()[n][:-3] if shutil.which(globals()[n][:-3]) else '/usr/lib/llvm-18/bin/' + globals()[n][:-3]


def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if p.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-3000:]))
    return p.stdout.decode('utf8', 'replace')


def build_engine():
    src = [os.path.join(V, 'engine', f) for f in ('expr.cpp', 'solver.cpp', 'exec.cpp', 'expr.h', 'solver.h', 'Makefile')]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(f) for f in src):
        return
    sh(['make', '-C', os.path.join(V, 'engine'), 'B=' + os.path.join(V, 'build')])


SYMF = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin', '-fno-delete-null-pointer-checks', '-fno-discard-value-names', '-w', '-D__NO_CTYPE', '-U_FORTIFY_SOURCE']
NATF = ['-O0', '-g', '-w', '-DVF_NATIVE', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-U_FORTIFY_SOURCE']


class Run:
    def __init__(self, name, src, defs=(), iso=True, reach=(), kinds=None, steps=400000, time=300, bounds='', inputs='', threads=False, frontier=0, bind=None, cfg=(), cost=False):
        self.cost = cost
        self.name, self.src, self.defs, self.iso, self.reach = name, src, list(defs), iso, list(reach)
        self.kinds, self.steps, self.time, self.bounds, self.threads, self.frontier = kinds, steps, time, bounds, threads, frontier
        self.cpp = src.endswith('.cpp') or bind in (2, 3, 4, 5, 6)
        if bind is not None: self.defs.append('BIND=%d' % bind)
        self.defs += list(cfg)

    def cc(self):
        return [CLANGXX, '-std=c++17', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics'] if self.cpp else [CLANG]

    def lang(self):
        return ['-x', 'c++'] if self.cpp and self.src.endswith('.c') else []

    def inc(self):
        return ['-I' + H, '-I' + REPO, '-DREPO="%s"' % REPO] + ['-D' + d for d in self.defs]

    def build(self, tmp):
        b = os.path.join(tmp, self.name)
        self.base = b
        sh(self.cc() + SYMF + self.inc() + ['-c', '-emit-llvm'] + self.lang() + [os.path.join(H, self.src), '-o', b + '.0.bc'])
        sh([LINK, b + '.0.bc', os.path.join(tmp, 'libc_model.bc'), os.path.join(tmp, 'vf_common.bc'), '-o', b + '.l.bc'])
        sh([OPT, '-passes=function(sroa)', b + '.l.bc', '-o', b + '.bc'])

    def build_native(self, tmp, san):
        """san: address or thread"""
        out = '%s.%s' % (self.base, san)
        if os.path.exists(out):
            return out
        com = ['-fsanitize=' + san]
        nat = os.path.join(tmp, 'vf_native.%s.o' % san)
        if not os.path.exists(nat):
            sh([CLANG] + NATF + com + ['-I' + H, '-c', os.path.join(H, 'vf_native.c'), '-o', nat])
        comm = os.path.join(tmp, 'vf_commonN.%s.o' % san)
        if not os.path.exists(comm):
            sh([CLANG] + NATF + com + ['-I' + H, '-c', os.path.join(H, 'vf_common.c'), '-o', comm])
        th = ['-DVF_TSAN', '-pthread'] if san == 'thread' else []
        if self.cost: th = th + ['-DVF_COST', '-fsanitize-coverage=bb,trace-pc']
        if self.iso and san == 'address':
            sh(self.cc() + NATF + com + th + self.inc() + ['-Xclang', '-disable-llvm-passes', '-c', '-emit-llvm'] + self.lang() + [os.path.join(H, self.src), '-o', out + '.bc'])
            sh([LINK, out + '.bc', os.path.join(tmp, 'vf_commonN.bc'), '-o', out + '.l.bc'])
            sh([ENGINE, out + '.l.bc', '--rewrite', out + '.r.bc'])
            sh(self.cc() + com + ['-O0', '-w', '-Xclang', '-disable-O0-optnone', '-c', out + '.r.bc', '-o', out + '.o'])
            sh([CLANGXX if self.cpp else CLANG] + com + [out + '.o', nat, '-o', out, '-lm'])
        else:
            sh(self.cc() + NATF + com + th + self.inc() + ['-c'] + self.lang() + [os.path.join(H, self.src), '-o', out + '.o'])
            sh([CLANGXX if self.cpp else CLANG] + com + th + [out + '.o', nat, comm, '-o', out, '-lm'])
        return out

    def execute(self, tmp, tlimit, seed, dump=None, grace=10):
        out = self.base + '.res'
        cmd = [ENGINE, self.base + '.bc', '--jobs', str(JOBS), '--out', out, '--time', str(tlimit), '--steps', str(self.steps), '--repo', REPO.rstrip('/') + '/', '--seed', str(seed)]
        if grace: cmd += ['--grace', str(grace)]
        if self.iso:
            cmd.append('--iso')
        if self.frontier:
            cmd += ['--frontier', str(self.frontier)]
        if dump:
            cmd += ['--dump', dump]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        r = Result()
        r.err = p.stderr.decode('utf8', 'replace')[-2000:]
        r.rc = p.returncode
        if os.path.exists(out):
            for l in open(out, errors='replace'):
                r.line(l.rstrip('\n'))
        return r


class Result:
    def __init__(self):
        self.T = [0] * 10; self.Q = [0] * 8; self.reach = {}; self.asserts = {}; self.funcs = {}; self.lines = {}; self.cands = []; self.wit = []; self.unsup = {}; self.died = []; self.wall = 0; self.front = 0; self.err = ''; self.rc = 0

    def line(self, l):
        k, x = l[:1], l[2:]
        if k == 'T': self.T = [a + int(b) for a, b in zip(self.T, x.split())]
        elif k == 'Q': self.Q = [a + float(b) for a, b in zip(self.Q, x.split())]
        elif k in 'RAFU' and k:
            n, s = x.split(' ', 1); d = {'R': self.reach, 'A': self.asserts, 'F': self.funcs, 'U': self.unsup}[k]; d[s] = d.get(s, 0) + int(n)
        elif k == 'L':
            h, n, f = x.split(' ', 2); self.lines[(f, int(n))] = self.lines.get((f, int(n)), False) or h == '1'
        elif k == 'V': self.cands.append(json.loads(x))
        elif k == 'P': self.wit.append(json.loads(x))
        elif k == 'X': self.died.append(x)
        elif k == 'W': self.wall, self.front = float(x.split()[0]), int(x.split()[1])

    complete = property(lambda s: s.rc == 0 and not s.died and s.T[6] == 0 and s.T[8] == 0 and s.T[9] == 0 and not s.unsup)


ASAN = dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:max_allocation_size_mb=64:allocator_may_return_null=0:exitcode=99:quarantine_size_mb=64', TSAN_OPTIONS='exitcode=98:halt_on_error=1', LC_ALL='C')
DBL = [-1.2345678901234567e-308, 0.1, 0.30000000000000004, 1e17, 12345678901234567.0, -0.00012345678901234567, float('inf'), float('-inf'), float('nan'), -0.0, 1e300, 5.0, 123456.789, 1.7976931348623157e308, 5e-324, 1.0000000000000002, -9007199254740993.0]


def native(exe, text, tmp, env=None, timeout=15):
    fd, f = tempfile.mkstemp(dir=tmp, suffix='.rp'); os.write(fd, text.encode()); os.close(fd)
    e = dict(os.environ); e.update(ASAN); e['VF_REPLAY'] = f; e.update(env or {})
    try:
        p = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''
    finally:
        os.unlink(f)


def failure(rc, err):
    """what the native run shows: None when it ended normally or left the path"""
    if rc == 0 or rc in (65, 66): return None
    if rc == 77: return 'assertion fails: ' + ' '.join(re.findall(r'VF-ASSERT (.*)', err)[:1])
    if rc == 99: return 'AddressSanitizer: ' + ' '.join(re.findall(r'ERROR: AddressSanitizer:? (.*)', err)[:1])
    if rc == 98: return 'ThreadSanitizer: ' + ' '.join(re.findall(r'WARNING: ThreadSanitizer: (.*)', err)[:1])
    if rc == 'timeout': return 'does not terminate within 15 s'
    if isinstance(rc, int) and rc < 0: return 'killed by signal %d' % -rc
    return 'exit %s' % rc


def confirm(run, cand, tmp):
    if run.threads:
        exe = run.build_native(tmp, 'thread')
        rc, o, e = native(exe, cand['replay'], tmp, {'VF_THREADS': '1'})
        f = failure(rc, e)
        if f: return f, cand['replay']
        exe = run.build_native(tmp, 'address')
        rc, o, e = native(exe, cand['replay'], tmp)
        return failure(rc, e), cand['replay']
    exe = run.build_native(tmp, 'address')
    rc, o, e = native(exe, cand['replay'], tmp)
    f = failure(rc, e)
    if f: return f, cand['replay']
    lines = cand['replay'].split('\n')
    ds = [i for i, l in enumerate(lines) if l.startswith('S dbl')]
    for i in ds:
        for d in DBL:
            l2 = list(lines); l2[i] = lines[i].split()[0] + ' ' + lines[i].split()[1] + ''.join(' %x' % b for b in struct.pack('<d', d))
            t = '\n'.join(l2); rc, o, e = native(exe, t, tmp); f = failure(rc, e)
            if f: return f, t
    return None, cand['replay']


def cross_check(files, limit=20000):
    """re-decide the distinct queries of a run with cvc5"""
    tot = bad = err = 0; t0 = time.time()
    def one(f):
        try:
            exp = re.findall(r'; expect (sat|unsat)', open(f).read())
            p = subprocess.run(['cvc5', '--incremental', '-q', '--lang=smt2', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            got = [l for l in p.stdout.decode('utf8', 'replace').split('\n') if l.strip()]
            return exp, got
        except subprocess.TimeoutExpired:
            return [], ['timeout']
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for exp, got in ex.map(one, files):
            n = min(len(exp), len(got))
            for a, b in zip(exp, got):
                if b not in ('sat', 'unsat'): err += 1
                elif a != b: bad += 1
                else: tot += 1
    return dict(solver='cvc5', queries_agreeing=tot, disagreements=bad, inconclusive=err, wall_s=round(time.time() - t0, 2))


def check(pid, prop, runs, tier, seed, assumptions, known):
    t0 = time.time(); build_engine()
    budget = 700 if tier == 'quick' else 3300
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(V, 'evidence', 'replay', pid + '-*')): os.unlink(f)
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    viol, unconf, knownhit, recs, notes = [], [], [], [], []
    tot = Result(); validated = mismatched = 0; samples = []; states = trans = 0; xc = []
    try:
        com = ['-I' + H, '-c', '-emit-llvm']
        sh([CLANG] + SYMF + com + [os.path.join(H, 'libc_model.c'), '-o', os.path.join(tmp, 'libc_model.bc')])
        sh([CLANG] + SYMF + com + [os.path.join(H, 'vf_common.c'), '-o', os.path.join(tmp, 'vf_common.bc')])
        sh([CLANG] + NATF + ['-fsanitize=address', '-Xclang', '-disable-llvm-passes'] + com + [os.path.join(H, 'vf_common.c'), '-o', os.path.join(tmp, 'vf_commonN.bc')])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda r: r.build(tmp), runs))
        pool = cf.ThreadPoolExecutor(3)
        runs[0].build_native(tmp, 'address')
        nat = {r.name: pool.submit(r.build_native, tmp, 'address') for r in runs[1:]}
        for r in runs:
            left = budget - (time.time() - t0)
            if viol:
                recs.append(dict(run=r.name, skipped='a violation was already found')); continue
            if left < 5:
                notes.append('time budget used up before run %s' % r.name); recs.append(dict(run=r.name, skipped='time budget')); continue
            dump = r.base + '.smt2' if tier == 'thorough' else None
            res = r.execute(tmp, min(r.time if tier == 'quick' else r.time * 6, left), seed, dump)
            if r.name in nat: nat[r.name].result()
            if res.rc != 0: notes.append('engine failure in %s: %s' % (r.name, res.err.strip()[-300:]))
            def judge(res):
                tried = {}
                for c in res.cands:
                    key = (c['kind'], c['msg'], c['loc'])
                    if r.kinds and c['kind'] not in r.kinds:
                        n = '%s: outside this property: %s: %s at %s' % (r.name, c['kind'], c['msg'], c['loc'])
                        if n not in notes: notes.append(n)
                        continue
                    t = tried.setdefault(key, [0, False])
                    if t[1] or t[0] >= 4 or len(viol) >= 6: continue
                    t[0] += 1
                    what, text = confirm(r, c, tmp)
                    rec = dict(run=r.name, kind=c['kind'], message=c['msg'], location=c['loc'], stack=c['stack'], native=what)
                    if not what:
                        if t[0] == 1: unconf.append(rec)
                        continue
                    t[1] = True
                    unconf[:] = [u for u in unconf if (u['run'], u['kind'], u['message'], u['location']) != (r.name,) + key]
                    hit = [k for k in known if k['property'] == pid and k['kind'] == c['kind'] and re.search(k['message'], c['msg']) and re.search(k['location'], c['loc']) and re.search(k.get('run', ''), r.name)]
                    if hit:
                        knownhit.append(hit[0]['what']); continue
                    path = os.path.join(V, 'evidence', 'replay', '%s-%d.txt' % (pid, len(viol)))
                    with open(path, 'w') as fo:
                        fo.write('# property %s, run %s\n# %s: %s\n# at %s\n# on the real code: %s\n# build: harness %s %s%s; inputs for vf_native.c (VF_REPLAY=this file) follow\n%s' % (pid, r.name, c['kind'], c['msg'], c['loc'], what, r.src, ' '.join('-D' + d for d in r.defs), ' (one heap block per allocator block)' if r.iso else '', text))
                    rec['replay'] = path; viol.append(rec)
            judge(res)
            if res.cands and not viol and not res.complete and time.time() - t0 < budget - 20:
                # exploration stopped shortly after a candidate that turned out not to be a violation: explore the rest
                res = r.execute(tmp, min(r.time if tier == 'quick' else r.time * 6, budget - (time.time() - t0)), seed, dump, grace=0)
                judge(res)
            def wit(w):
                rc, o, e = native(os.path.join(r.base + '.address'), w, tmp, {'VF_TRACE': '1'})
                want = [l for l in w.split('\n') if l.startswith('> ')]; got = [l for l in o.split('\n') if l.startswith('> ')]
                return rc == 0 and want == got, w, rc, got, e[-300:]
            if not r.threads or True:
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    for ok, w, rc, got, e in ex.map(wit, res.wit):
                        if ok: validated += 1
                        else: mismatched += 1; notes.append('witness not reproduced natively in %s: %r rc=%s got=%r %s' % (r.name, w[:200], rc, got[-3:], e))
                        if ok and len(samples) < 6 and len(w) < 600 and w not in samples: samples.append('%s: %s' % (r.name, ' | '.join(w.strip().split('\n'))))
            missing = [l for l in r.reach if not res.reach.get(l)]
            if missing: notes.append('vacuity: %s never reached %s' % (r.name, missing))
            if dump:
                fs = [f for f in glob.glob(dump + '*') if os.path.getsize(f) > 20]; x = cross_check(fs); x['run'] = r.name; xc.append(x)
            if not res.complete: notes.append('%s incomplete: dropped states %d, unknown answers %d, capped %d, unsupported %s, died %s' % (r.name, res.T[6], res.T[8], res.T[9], res.unsup, res.died))
            recs.append(dict(run=r.name, harness=r.src, defines=r.defs, memory='one heap block per allocator block' if r.iso else 'real allocator', bounds=r.bounds, complete=res.complete, paths=res.T[0], instructions=res.T[2], forks=res.T[3], paths_cut_by_assumption=res.T[7], assertion_evaluations=res.T[4], assertion_queries=res.T[5], feasibility_queries=int(res.Q[0]), answered_by_cache=int(res.Q[1]), answered_by_earlier_model=int(res.Q[2]), z3_calls=int(res.Q[3]), z3_sat=int(res.Q[4]), z3_unsat=int(res.Q[5]), z3_unknown=int(res.Q[6]), z3_seconds=round(res.Q[7], 3), wall_s=res.wall, reached=res.reach, asserts=res.asserts, missing_labels=missing))
            states += res.T[0]; trans += res.T[3]
            tot.T = [a + b for a, b in zip(tot.T, res.T)]; tot.Q = [a + b for a, b in zip(tot.Q, res.Q)]
            for k, v in res.funcs.items(): tot.funcs[k] = tot.funcs.get(k, 0) + v
            for k, v in res.lines.items(): tot.lines[k] = tot.lines.get(k, False) or v
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    lf = {}
    for (f, n), h in tot.lines.items():
        a = lf.setdefault(os.path.basename(f), [0, 0]); a[1] += 1; a[0] += h
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=assumptions,
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=validated, samples=samples, exhaustive=bool(recs) and all(r.get('complete') for r in recs),
                            explanation='states: symbolic execution paths of the compiled /repo code, each standing for every input satisfying its path condition; transitions: forks decided by z3; traces: path models re-executed on the native ASan build with identical outcomes',
                            functions_encoded=sorted(tot.funcs), lines_executed={k: '%d of %d lines in encoded functions' % tuple(v) for k, v in lf.items()},
                            solver=dict(name='z3 4.8.12', feasibility_queries=int(tot.Q[0]), answered_by_cache=int(tot.Q[1]), answered_by_earlier_model=int(tot.Q[2]), calls=int(tot.Q[3]), sat=int(tot.Q[4]), unsat=int(tot.Q[5]), unknown=int(tot.Q[6]), seconds=round(tot.Q[7], 3)),
                            assertion_evaluations=tot.T[4], assertion_queries=tot.T[5], runs=recs, witness_mismatches=mismatched, unconfirmed_candidates=unconf, cross_check=xc, notes=notes, violations=viol, known_findings=sorted(set(knownhit))))
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(set(knownhit)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d runs, %d paths, %d z3 calls (%.1f s), %d traces replayed natively, %.1f s' % (pid, tier, len(recs), states, tot.Q[3], tot.Q[7], validated, time.time() - t0))
    for n in notes: print('note: ' + n)
    for u in unconf: print('note: candidate not reproduced on the real code, not reported: %s' % json.dumps(u))
    for v in viol: print('VIOLATION property=%s replay=%s' % (pid, v['replay'])); print('  %s: %s at %s -> %s' % (v['kind'], v['message'], v['location'], v['native']))
    if viol: return 1
    if states == 0: print('nothing was explored'); return 2
    return 0
