#!/usr/bin/env python3
"""Driver: symbolic check of one property against /repo's current tree.

  vs.py setup                     build the engine and the runtime stand-ins
  vs.py check C01 [quick|thorough]
  vs.py replay FILE               run a recorded counterexample against the real code
"""
import sys, os, re, json, time, hashlib, subprocess, tempfile, shutil, fcntl, threading, resource
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CLANG = ['clang++', '-std=c++14', '-O1', '-w', '-g1', '-Xclang', '-disable-llvm-passes', '-fno-delete-null-pointer-checks', '-ffp-contract=off',
         '-fno-vectorize', '-fno-slp-vectorize', '-DVS_ENGINE', '-S', '-emit-llvm']
PASSES = 'function(lower-constant-intrinsics),always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)'
NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)
    return r
def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        print('CHECK-ERROR: %s failed\n%s' % (what, (r.stdout + r.stderr)[-4000:])); sys.exit(2)
    return r
def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]
def files(d, ext):
    return [os.path.join(V, d, f) for f in os.listdir(os.path.join(V, d)) if f.endswith(ext)]

def setup():
    """returns (engine binary, sup.ll); both depend on /verif only"""
    bd = os.path.join(V, '.build'); os.makedirs(bd, exist_ok=True)
    with open(os.path.join(bd, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ed = os.path.join(bd, 'engine-' + digest(files('engine', ('.cpp', '.h', '.sh'))))
        if not os.path.exists(ed + '/vsym'): must(['bash', os.path.join(V, 'engine/build.sh'), ed], 'engine build')
        sd = os.path.join(bd, 'sup-' + digest([os.path.join(V, 'lib/sup.cpp')])) + '.ll'
        if not os.path.exists(sd):
            t = sd + '.tmp'
            must(CLANG + [os.path.join(V, 'lib/sup.cpp'), '-o', t], 'runtime stand-ins')
            must(['opt-18', '-S', '-passes=' + PASSES, t, '-o', t + '2'], 'runtime stand-ins'); os.rename(t + '2', sd); os.remove(t)
    return ed + '/vsym', sd

class Harness:
    def __init__(s, path, tier, tmp):
        s.path, s.tier, s.tmp = path, tier, tmp
        s.name = os.path.basename(path)[:-4]
        s.src = open(path).read()
        s.defs = ['-DVS_THOROUGH'] if tier == 'thorough' else []
        s.inc = ['-I' + REPO, '-I' + os.path.join(V, 'lib')]
        s.ll = os.path.join(tmp, s.name + '.ll'); s.nat = {}; s.lock = threading.Lock(); s.locks = {}; s.err = None
        s.opts = {}
        for m in re.finditer(r'^// opt:\s*(\S+)\s*(.*)$', s.src, re.M):
            s.opts.setdefault(m.group(1), {}).update(dict((kv.split('=') + ['1'])[:2] for kv in m.group(2).split()))
        s.bounds = re.findall(r'^// bound:\s*(.*)$', s.src, re.M)
        s.outside = re.findall(r'^// outside:\s*(.*)$', s.src, re.M)
    def compile(s, sup):
        x = s.ll + '.x'
        r = sh(CLANG + s.defs + s.inc + [s.path, '-o', x])
        if r.returncode: s.err = r.stderr[-3000:]; return
        r = sh(['opt-18', '-S', '-passes=' + PASSES, x, '-o', x])
        if r.returncode: s.err = r.stderr[-3000:]; return
        s.entries = re.findall(r'^define [^@]*@vs_entry_(\w+)\(', open(x).read(), re.M)
        api = ','.join('vs_entry_' + e for e in s.entries)
        r = sh([LLVM + '/llvm-link', '-S', x, sup, '-o', s.ll + '.l'])
        if not r.returncode: r = sh(['opt-18', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + api, s.ll + '.l', '-o', s.ll])
        if r.returncode: s.err = r.stderr[-3000:]
        else:
            os.remove(x); os.remove(s.ll + '.l')
            with open(os.path.join(s.tmp, s.name + '.tab'), 'w') as f:
                for e in s.entries: f.write('X(%s)\n' % e)
    def ids(s):
        out = {}
        t = open(s.ll).read()
        strs = dict(re.findall(r'^@([\w.]+) = [^\n]*constant \[\d+ x i8\] c"([^"]*)\\00"', t, re.M))
        cur = None
        for line in t.split('\n'):
            m = re.search(r'@vs_(?:assert|assert_k|cover)\(i1[^,]*, ptr [^@]*@([\w.]+)', line)
            if m and m.group(1) in strs: out[strs[m.group(1)]] = 1
        return set(out)
    def native(s, kind):
        """kind: seq (g++ build of the harness with the real library), seq0 (other fill pattern), ir (instrumented IR, for schedules)"""
        with s.lock: lk = s.locks.setdefault(kind, threading.Lock())
        with lk: return s.native_build(kind)
    def native_build(s, kind):
        if kind in s.nat: return s.nat[kind]
        exe = os.path.join(s.tmp, s.name + '.' + kind); tab = '-DVS_TABLE="%s"' % os.path.join(s.tmp, s.name + '.tab')
        L = os.path.join(V, 'lib')
        if kind.startswith('seq'):
            fill = ['-ftrivial-auto-var-init=' + ('pattern' if kind == 'seq' else 'zero')]
            r = sh(['g++', '-std=c++14', '-O0', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=vptr'] + fill + s.defs + s.inc + [tab, s.path, L + '/sup.cpp', L + '/rt.cpp', '-o', exe, '-lpthread', '-latomic'])
        else:
            t = open(s.ll).read()
            t = re.sub(r'^(\s+(?:(?:%[\w.]+ = (?:load|cmpxchg|atomicrmw)|store) |(?:%[\w.]+ = )?(?:tail )?call [^@\n]*@__atomic_(?:load|store|exchange|compare_exchange)\()|\s+(?:%[\w.]+ = )?(?:tail |notail |musttail )?(?:call|invoke) [^@\n]*@(?:llvm\.mem(?:cpy|move|set)\.[\w.]+|mem(?:cpy|move|set|cmp)|bcmp|_Zd[la]Pvm?)\()', r'  call void @vs_point()\n\1', t, flags=re.M)
            for a, b in (('pthread_mutex_lock', 'vs_mutex_lock'), ('pthread_mutex_unlock', 'vs_mutex_unlock'), ('pthread_mutex_trylock', 'vs_mutex_trylock'), ('sched_yield', 'vs_sched_yield'), ('nanosleep', 'vs_nanosleep'), ('pthread_once', 'vs_once'), ('pthread_rwlock_wrlock', 'vs_rw_wr'), ('pthread_rwlock_rdlock', 'vs_rw_rd'), ('pthread_rwlock_trywrlock', 'vs_rw_trywr'), ('pthread_rwlock_tryrdlock', 'vs_rw_tryrd'), ('pthread_rwlock_unlock', 'vs_rw_unlock'), ('_ZNSt10_Sp_lockerC1EPKv', 'vs_sp1'), ('_ZNSt10_Sp_lockerC1EPKvS1_', 'vs_sp2'), ('_ZNSt10_Sp_lockerD1Ev', 'vs_sp3'), ('__cxa_guard_acquire', 'vs_guard_acquire'), ('__cxa_guard_release', 'vs_guard_release'), ('__cxa_guard_abort', 'vs_guard_abort'), ('_Znwm', 'vs_heap_new'), ('_Znam', 'vs_heap_new'), ('_ZdlPv', 'vs_heap_del'), ('_ZdlPvm', 'vs_heap_del'), ('_ZdaPv', 'vs_heap_del'), ('_ZdaPvm', 'vs_heap_del')):
                t = re.sub(r'@%s\b(?!\.)' % a, '@' + b, t)
            seen = set(); o = []
            for line in t.split('\n'):
                m = re.match(r'declare [^@]*@([\w.$]+)\(', line)
                if m:
                    if m.group(1) in seen: continue
                    seen.add(m.group(1))
                if 'vs_heap_del(' in line and (line.startswith('declare') or 'call' in line or 'invoke' in line):
                    line = re.sub(r'@vs_heap_del\((ptr[^,)]*)(, i64[^)]*)?\)', r'@vs_heap_del(\1)', line)
                line = re.sub(r'^(attributes #\d+ = \{)', r'\1 sanitize_address', line)
                o.append(line)
            t = '\n'.join(o) + '\ndeclare void @vs_point()\n'
            p = exe + '.ll'; open(p, 'w').write(t)
            r = sh(['clang++', '-w', '-O0', '-g', '-fsanitize=address', p, '-x', 'c++', tab, L + '/rt.cpp', '-o', exe, '-lpthread', '-latomic'])
            if os.environ.get('VS_KEEP') is None and os.path.exists(p): os.remove(p)
        if r.returncode: print('note: native build (%s) failed: %s' % (kind, (r.stderr)[-1500:])); exe = None
        s.nat[kind] = exe; return exe

def run_native(exe, entry, inputs, schedule=None, known=False, timeout=20, rnd=None):
    fd, p = tempfile.mkstemp(suffix='.in')
    with os.fdopen(fd, 'w') as f:
        for n, k, v in inputs: f.write('%s %s\n' % (n, v))
        for a, b, c in schedule or []: f.write('@ %d %d %d\n' % (a, b, c))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:max_malloc_fill_size=100000:malloc_fill_byte=170:allocator_may_return_null=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
    if known: env['VS_KNOWN_STOPS'] = '1'
    if rnd is not None: env['VS_RANDOM'] = str(rnd)
    try:
        r = subprocess.run([exe, entry, p, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, errors='replace', timeout=timeout + 10)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired: rc, err = -14, ''
    os.remove(p)
    m = re.search(r'VS-(?!COVER)(\w+) ?(\S*)', err)
    what = 'hang' if rc == -14 else (m.group(1) + ':' + m.group(2)) if m else 'asan' if rc == 99 else 'signal%d' % -rc if rc < 0 else 'exit%d' % rc
    if 'runtime error:' in err and not what.startswith('FAIL'): what += '+ub'
    return what, err
def confirms(v, what):
    i = v['id']
    if what.startswith('FAIL:'): return True
    if v['known']: return what.startswith('KNOWN:')
    if i == 'memory': return what.startswith(('asan', 'signal', 'exit99')) or what.endswith('+ub')
    if i == 'terminate': return what.startswith('signal') or what == 'asan'
    if i in ('divergence', 'deadlock'): return what == 'hang'
    if i in ('arith', 'unreachable'): return what.endswith('+ub') or what.startswith(('signal', 'asan', 'hang'))
    return what.startswith(('asan', 'signal')) # an assertion that the real code does not even reach

def cover_never(exe, entry, cid, runs=400):
    """the real code on random inputs: (times the point was reached, times the condition held there)"""
    r = h = 0
    for seed in range(1, runs + 1):
        w, err = run_native(exe, entry, [], rnd=seed, timeout=10)
        for a, b in re.findall(r'VS-COVER (\d) (\S+)', err):
            if b == cid: r += 1; h += int(a)
        if h: break
    return r, h
def limit():
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
def run_entry(vsym, h, e, tier):
    o = {}; o.update(h.opts.get('*', {})); o.update(h.opts.get(e, {}))
    out = os.path.join(h.tmp, h.name + '.' + e + '.json')
    budget = float(o.get('time' if tier == 'quick' else 'ttime', 0) or (120 if tier == 'quick' else 600))
    cmd = [vsym, h.ll, '--entry', 'vs_entry_' + e, '--out', out, '--time', str(budget), '--qtimeout', o.get('qtimeout', '20000' if tier == 'quick' else '60000'), '--instr', o.get('instr', '4000000')]
    if 'real' in o: cmd.append('--real')
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=limit, timeout=budget + 120)
    except subprocess.TimeoutExpired: r = None
    if r is None or r.returncode or not os.path.exists(out):
        return {'entry': e, 'paths': 0, 'reached': {}, 'solved': {}, 'violations': [], 'undecided': [], 'functions': {}, 'incomplete': 'engine stopped: ' + ((r.stderr[-300:] or 'rc %d' % r.returncode) if r else 'timeout'), 'solver': {}, 'instrs': 0, 'forks': 0, 'wall': 0, 'stubs': {}, 'witnesses': [], 'decision_points': 0, 'visited_pruned': 0, 'threads': 1, 'uninit_reads': 0}
    d = json.load(open(out)); d['entry'] = e; return d

def known_findings(pid):
    out = {}
    p = os.path.join(V, 'known_findings.json')
    for k in json.load(open(p)) if os.path.exists(p) else []:
        if k['property'] == pid and k['status'] == 'known': out[k['finding']] = k
    return out

def check(pid, tier):
    t0 = time.time(); vsym, sup = setup()
    tmp = tempfile.mkdtemp(prefix='vs-' + pid + '-')
    try: return check_in(pid, tier, t0, vsym, sup, tmp)
    finally:
        if os.environ.get('VS_KEEP'): print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def check_in(pid, tier, t0, vsym, sup, tmp):
    only = os.environ.get('VS_ONLY')
    hs = [Harness(os.path.join(V, 'harness', f), tier, tmp) for f in sorted(os.listdir(os.path.join(V, 'harness'))) if re.match(pid + r'[a-z]?\.cpp$', f)]
    pool = ThreadPoolExecutor(NCPU)
    list(pool.map(lambda h: h.compile(sup), hs))
    for h in hs:
        if h.err: print('CHECK-ERROR: %s does not compile against the current tree\n%s' % (h.name, h.err)); return 2
    jobs = [(h, e) for h in hs for e in h.entries if not only or re.fullmatch(only, e)]
    jobs.sort(key=lambda j: -float(j[0].opts.get(j[1], {}).get('weight', 1)))
    natf = [pool.submit(h.native, 'seq') for h in hs] if os.environ.get('VS_NONATIVE') is None else []
    res = list(pool.map(lambda j: run_entry(vsym, j[0], j[1], tier), jobs))
    for f in natf: f.result()
    known = known_findings(pid)
    viol, kn, unrep, mism = [], {}, [], []
    validated = 0
    # replay of the counterexamples on the real code
    cands = []
    for (h, e), r in zip(jobs, res):
        for v in r['violations']: cands.append((h, e, v))
    def rep(c):
        h, e, v = c
        tried = []
        if v['schedule']:
            x = h.native('ir')
            if x:
                w, err = run_native(x, e, v['inputs'], v['schedule'], v['known']); tried.append('ir:' + w)
                if confirms(v, w): return c, True, tried, err
            return c, False, tried, ''
        for k in ('seq', 'seq0'):
            x = h.native(k)
            if not x: continue
            w, err = run_native(x, e, v['inputs'], None, v['known']); tried.append(k + ':' + w)
            if confirms(v, w): return c, True, tried, err
        return c, False, tried, ''
    if cands:
        for h in set(c[0] for c in cands):
            ks = set(['ir'] if c[2]['schedule'] else ['seq', 'seq0'] for c in cands if 0) # builds are made on demand below, once per harness
        need = set()
        for h, e, v in cands: need.add((h, 'ir' if v['schedule'] else 'seq'))
        list(pool.map(lambda x: x[0].native(x[1]), need))
        for h, e, v in cands: 
            if not v['schedule']: pass
        for c, ok, tried, err in pool.map(rep, cands):
            h, e, v = c; v['replay'] = tried
            if not ok: unrep.append((h, e, v)); continue
            validated += 1
            if v['known'] and v['finding'] in known: kn.setdefault(v['finding'], (h, e, v))
            else: viol.append((h, e, v, err))
    # conditions that some execution has to reach: no path within the bounds does
    uncov = []
    for (h, e), r in zip(jobs, res):
        for cid, k in r.get('covers', {}).items():
            if k == 2: r['undecided'].append(cid)
            if k == 0 and not r['incomplete'] and not r['undecided']:
                x = h.native('seq'); n, hit = cover_never(x, e, cid) if x else (0, 0)
                v = dict(id=cid, msg='no execution within the bounds reaches this; real code: %d of %d random runs' % (hit, n), where='', known=False, finding='', inputs=[], schedule=[], replay=['random:%d/%d' % (hit, n)])
                if n and not hit: viol.append((h, e, v, '')); validated += 1
                else: unrep.append((h, e, v))
    # path witnesses: the real code must agree with the encoding
    wit = []
    for (h, e), r in zip(jobs, res):
        if r.get('threads', 1) > 1 and tier == 'quick': continue
        for w in r.get('witnesses', []): wit.append((h, e, w))
    if os.environ.get('VS_NONATIVE') is None and wit:
        for h in set(w[0] for w in wit if w[2]['schedule']): h.native('ir')
        def wv(x):
            h, e, w = x; exe = h.native('ir' if w['schedule'] else 'seq')
            if not exe: return x, 'nobuild', ''
            a, err = run_native(exe, e, w['inputs'], w['schedule']); return x, a, err
        for (h, e, w), a, err in pool.map(wv, wit):
            if a.startswith('DONE'): validated += 1
            elif a.startswith('FAIL') or a.startswith('asan'):
                v = dict(id=a.split(':')[-1], msg='the real code fails on this input although the encoding passes', where='', known=False, finding='', inputs=w['inputs'], schedule=w['schedule'], replay=[a])
                viol.append((h, e, v, err)); mism.append((e, a, w))
            else: mism.append((e, a, w))
    ids = set(); reached = {}; solved = {}
    for h in hs: ids |= h.ids()
    for r in res:
        for k, n in r['reached'].items(): reached[k] = reached.get(k, 0) + n
        for k, n in r['solved'].items(): solved[k] = solved.get(k, 0) + n
    unreached = sorted(i for i in ids if i not in reached) if not only else []
    undecided = sorted(set('%s/%s' % (r['entry'], u) for r in res for u in r['undecided']))
    incomplete = ['%s: %s' % (r['entry'], r['incomplete']) for r in res if r['incomplete']]
    fns = {}
    for r in res:
        for f, n in r['functions'].items(): fns[f] = fns.get(f, 0) + n
    names = sorted(fns); dem = sh(['c++filt'], input='\n'.join(names)).stdout.split('\n')
    enc = sorted(set(re.sub(r'\s+', ' ', d)[:160] for d in dem if 'cxxmetrics' in d and not re.match(r'^(void |bool |.* )?std::', d)))
    sol = {k: sum(r['solver'].get(k, 0) for r in res) for k in ('queries', 'cached', 'model_hits', 'sat', 'unsat', 'unknown', 'real', 'mismatch', 'time')}
    if sol: sol['time'] = round(sol['time'], 3); sol['max'] = max([r['solver'].get('max', 0) for r in res] + [0])
    os.makedirs(os.path.join(V, 'evidence', 'replays'), exist_ok=True)
    seen = set(); lines = []; vio_ev = []
    for h, e, v, err in viol:
        key = (e, v['id'])
        if key in seen: continue
        seen.add(key)
        rp = os.path.join(V, 'evidence', 'replays', '%s-%s-%s.json' % (pid, e, v['id']))
        json.dump({'property': pid, 'harness': h.name, 'entry': e, 'tier': tier, 'violation': v, 'native': err[-3000:]}, open(rp, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s  [%s/%s: %s; inputs %s%s; real code: %s]' % (pid, rp, e, v['id'], v['msg'], ' '.join('%s=%s' % (a, c) for a, b, c in v['inputs'])[:400], '; schedule ' + str(v['schedule']) if v['schedule'] else '', ' '.join(v['replay'])))
        vio_ev.append({'entry': e, 'id': v['id'], 'inputs': v['inputs'], 'schedule': v['schedule'], 'replay': rp})
    for k in sorted(kn): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]['what']))
    for l in lines: print(l)
    samples = [{'entry': e, 'inputs': w['inputs'][:40], 'schedule': w['schedule'][:40]} for h, e, w in wit[:5]] or [{'entry': r['entry'], 'paths': r['paths']} for r in res[:3]]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'states': sum(r['paths'] for r in res), 'transitions': sum(r['instrs'] for r in res), 'traces_validated_against_impl': validated, 'samples': samples,
                       'rule': 'states = symbolic paths (and, with threads, explored schedules) decided to their end; transitions = IR instructions executed symbolically; a trace is a solver model of one path replayed on the natively compiled real code',
                       'entries': [{k: r[k] for k in ('entry', 'paths', 'forks', 'instrs', 'threads', 'decision_points', 'visited_pruned', 'uninit_reads', 'wall', 'incomplete')} for r in res],
                       'assertions': {i: {'reached': reached.get(i, 0), 'discharged': solved.get(i, 0)} for i in sorted(ids | set(reached))},
                       'solver': sol, 'functions_encoded': enc, 'functions_encoded_count': len(enc),
                       'bounds': [b for h in hs for b in h.bounds], 'outside': [b for h in hs for b in h.outside],
                       'native_models': sorted(set(k for r in res for k in r['stubs'])),
                       'complete': not (incomplete or undecided or unreached), 'incomplete': incomplete, 'undecided': undecided, 'unreached': unreached,
                       'not_reproduced': [{'entry': e, 'id': v['id'], 'msg': v['msg'], 'where': v['where'], 'inputs': v['inputs'][:30], 'replay': v['replay']} for h, e, v in unrep],
                       'encoding_disagreements': [{'entry': e, 'native': a, 'inputs': w['inputs'][:30]} for e, a, w in mism],
                       'known_findings_seen': sorted(kn)},
          'assumptions': ['sequentially consistent memory', 'clang -O0/-O1 front-end IR of the harness and of /repo headers; std library pieces that live in libstdc++.so are replaced by lib/sup.cpp', 'memory allocation never fails'],
          'violations': vio_ev}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for x in incomplete: print('PARTIAL %s %s' % (pid, x))
    for x in undecided: print('UNDECIDED %s %s' % (pid, x))
    for h, e, v in unrep: print('NOT-REPRODUCED %s %s/%s %s %s %s %s' % (pid, e, v['id'], v['msg'], v['where'][:150], v['inputs'][:12], v['replay']))
    for e, a, w in mism: print('ENCODING-DISAGREEMENT %s %s %s %s' % (pid, e, a, w['inputs'][:12]))
    print('%s %s: %d entries, %d paths, %d instructions, %s queries (%s sat, %s unsat, %s unknown, %.1fs), %d traces replayed, %.1fs' % (pid, tier, len(res), ev['coverage']['states'], ev['coverage']['transitions'], sol.get('queries'), sol.get('sat'), sol.get('unsat'), sol.get('unknown'), sol.get('time', 0), validated, time.time() - t0))
    if lines: return 1
    if unreached: print('CHECK-ERROR: assertions never reached: %s' % ' '.join(unreached)); return 2
    if not any(r['paths'] for r in res): print('CHECK-ERROR: nothing explored'); return 2
    return 0

def replay(path):
    d = json.load(open(path)); vsym, sup = setup(); tmp = tempfile.mkdtemp(prefix='vs-replay-')
    try:
        h = Harness(os.path.join(V, 'harness', d['harness'] + '.cpp'), d['tier'], tmp); h.compile(sup)
        v = d['violation']; x = h.native('ir' if v['schedule'] else 'seq')
        if v['replay'] and v['replay'][0].startswith('random'): n, hit = cover_never(x, d['entry'], v['id']); print('%s: reached %d times, held %d times' % (v['id'], n, hit)); return 1 if n and not hit else 0
        w, err = run_native(x, d['entry'], v['inputs'], v['schedule']); print(w); print(err); return 1 if confirms(v, w) else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['setup']: print(*setup()); sys.exit(0)
    if a[:1] == ['check']: sys.exit(check(a[1], a[2] if len(a) > 2 else 'quick'))
    if a[:1] == ['replay']: sys.exit(replay(a[1]))
    print(__doc__); sys.exit(2)
