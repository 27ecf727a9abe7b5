#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only SCENARIO-substring] [--jobs N] [--keep] [--replay FILE]
Decides one property: compiles /repo's current sources to IR, encodes every scenario of the property,
asks the SAT solver, replays counterexamples (and reachability witnesses) natively, writes evidence."""
import sys, os, json, subprocess, time, shutil, threading, hashlib, resource, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VX_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'checks'))
LSX = os.path.join(V, 'build', 'lsx')
CF = ('--target=x86_64-w64-windows-gnu -O0 -Xclang -disable-O0-optnone -fgnu89-inline -gline-tables-only -w -emit-llvm -c '
      '-DHAVE_CONFIG_H -DMINGW_HAS_SECURE_API -DPTW32_ARCHAMD64 -DPTW32_BUILD_INLINED -DPTW32_STATIC_LIB -DPTW32_CLEANUP_C').split()
PASSES = 'internalize,globaldce,function(sroa,simplifycfg,loop-simplify,lcssa)'
KNOWN = os.path.join(V, 'known_findings.json')

def sh(cmd, timeout=300, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **k)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate(); return -9, '', 'timeout'

class Fail(Exception): pass
def need(r, what):
    if r[0] != 0: raise Fail('%s failed (%s): %s' % (what, r[0], (r[2] + r[1])[-1500:]))

class Job:
    def __init__(s, ctx, sc): s.ctx, s.sc = ctx, sc
    def build(s):
        sc, w = s.sc, s.ctx.work
        defs = ['-D' + d for d in sc.get('defs', [])]
        s.key = hashlib.sha1(repr((sc['h'], defs)).encode()).hexdigest()[:12]
        base = os.path.join(w, s.key); s.bc = base + '.p.bc'
        with s.ctx.lock:
            lk = s.ctx.keylocks.setdefault(s.key, threading.Lock())
        with lk:
            if os.path.exists(s.bc): return
            need(sh(['clang'] + CF + ['-I' + REPO, '-I' + V + '/model', '-I' + V + '/checks'] + defs + [os.path.join(V, 'checks', sc['h']), '-o', base + '.h.bc']), 'harness compile')
            need(sh(['llvm-link', base + '.h.bc', s.ctx.lib, s.ctx.win, '-o', base + '.l.bc']), 'link')
            need(sh(['opt', '-passes=' + PASSES, '-internalize-public-api-list=vx_*,__vx_*', base + '.l.bc', '-o', base + '.o.bc']), 'opt')
            need(sh([LSX, 'prep', base + '.o.bc', base + '.t.bc']), 'prep'); os.rename(base + '.t.bc', s.bc)
    def native(s):
        exe = os.path.join(s.ctx.work, s.key + '.exe')
        with s.ctx.lock: lk = s.ctx.keylocks.setdefault(s.key + 'n', threading.Lock())
        with lk:
            if not os.path.exists(exe):
                need(sh([LSX, 'native', s.bc, exe + '.bc']), 'native'); 
                need(sh(['clang', '-O0', '-w', '-fno-builtin', '-fno-strict-aliasing', exe + '.bc', V + '/engine/vxrt.c', '-o', exe + '.t']), 'native compile'); os.rename(exe + '.t', exe)
        return exe
    def run(s):
        sc, ctx = s.sc, s.ctx; t0 = time.time(); r = {'name': sc['name'], 'bounds': {k: sc[k] for k in ('threads', 'rounds', 'unwind', 'vis', 'defs') if k in sc}, 'h': sc['h']}
        s.res = r
        left = ctx.deadline - time.time()
        if left < 5: r['status'] = 'skipped'; r['why'] = 'time budget'; return r
        try:
            s.build(); wd = os.path.join(ctx.work, 'w.' + sc['name'].replace('/', '_').replace(' ', '_')); os.makedirs(wd, exist_ok=True); tr = os.path.join(wd, 'trace')
            to = min(sc.get('timeout', 300), max(5, ctx.deadline - time.time()))
            args = [LSX, 'run', s.bc, '--threads', str(sc.get('threads', 0)), '--rounds', str(sc.get('rounds', 1)), '--unwind', str(sc.get('unwind', 3)), '--vis', str(sc.get('vis', 2)), '--timeout', str(int(to)), '--work', wd, '--trace', tr]
            for x in sc.get('unwind_fn', []): args += ['--unwind-fn', x]
            args += sc.get('args', [])
            rc, o, e = sh(args, timeout=to + 30, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
            try: j = json.loads(o.strip().splitlines()[-1])
            except Exception: j = {'status': 'error', 'error': (e + o)[-400:] if rc != -9 else 'timeout in encoding'}
            r.update(j)
            st = j.get('status')
            if st == 'violation': s.confirm(tr)
            elif st == 'holds':
                wit = j.get('witness', []); ok = 0; bad = []
                if wit:
                    exe = s.native()
                    for f, lab in list(zip(wit[0::2], wit[1::2]))[:6]:
                        q = sh([exe, f], timeout=60)
                        if q[0] in (0, 20) and ('cover: ' + lab) in q[1]: ok += 1  # 20: the model is only constrained up to the cover point
                        else: bad.append((lab, q[0], (q[1] + q[2])[-300:]))
                r['witness_ok'] = ok; r['witness_bad'] = bad
                if bad: r['status'] = 'error'; r['error'] = 'witness replay mismatch: %r' % bad[:2]
                else:
                    miss = [u for u in j.get('uncovered', []) if u.startswith('!') and u.endswith('(unreachable)')]
                    if miss and sc.get('fair', True):
                        exe = s.native(); q = sh([exe, '--fair'], timeout=120)
                        r['fair'] = q[0]
                        if q[0] in (12, 10, 11): r['status'] = 'violation'; r['msg'] = 'no schedule within the bounds completes: ' + miss[0]; r['confirmed'] = True; s.save(None, q[1])
                        else: r['status'] = 'unknown'; r['why'] = 'must-reach point not reached within bounds: ' + miss[0]
        except Fail as ex: r['status'] = 'error'; r['error'] = str(ex)
        r['wall'] = round(time.time() - t0, 2)
        return r
    def confirm(s, tr):
        r = s.res; exe = s.native(); q = sh([exe, tr], timeout=60); r['replay_rc'] = q[0]; r['replay_out'] = q[1][-400:]
        r['confirmed'] = q[0] in (10, 11)
        if r['confirmed']: 
            ls = [l for l in q[1].splitlines() if l.startswith('VXRT:') and 'VXRT: cover' not in l]; r['replay_msg'] = ls[-1] if ls else ''
            s.save(tr, q[1])
        else: r['status'] = 'error'; r['error'] = 'counterexample did not replay (rc %s): %s' % (q[0], q[1][-300:])
    def save(s, tr, out):
        d = os.path.join(V, 'out', s.ctx.prop); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, s.sc['name'].replace('/', '_').replace(' ', '_') + '.replay')
        with open(f, 'w') as g:
            g.write('# property %s scenario %s\n# %s\n# at %s\n# replay with: python3 /verif/check.py %s --replay %s\n' % (s.ctx.prop, s.sc['name'], s.res.get('msg'), s.res.get('loc'), s.ctx.prop, f))
            g.write('#SCENARIO %s\n' % json.dumps(s.sc)); g.write('#NATIVE ' + out.replace('\n', '\n#NATIVE ') + '\n')
            if tr: g.write(open(tr).read())
            else: g.write('#FAIR\n')
        s.res['replay'] = f

class Ctx: pass

def prepare(prop, budget):
    c = Ctx(); c.prop = prop; c.lock = threading.Lock(); c.keylocks = {}; c.deadline = time.time() + budget
    if not os.path.exists(LSX) or os.path.getmtime(LSX) < max(os.path.getmtime(os.path.join(V, 'engine', f)) for f in ('lsx.cpp', 'term.h', 'sat.h', 'prune.h')):
        need(sh(['bash', os.path.join(V, 'engine', 'build.sh')], timeout=600), 'engine build')
    c.work = os.path.join(V, 'build', 'run.%s.%d' % (prop, os.getpid())); shutil.rmtree(c.work, ignore_errors=True); os.makedirs(c.work)
    c.lib = os.path.join(c.work, 'lib.bc'); c.win = os.path.join(c.work, 'win.bc')
    need(sh(['clang'] + CF + ['-I' + REPO, os.path.join(REPO, 'pthread-JMP.c'), '-o', c.lib]), 'library compile')
    need(sh(['clang'] + CF + ['-I' + V + '/model', os.path.join(V, 'model', 'winmodel.c'), '-o', c.win]), 'model compile')
    return c

def main():
    import scen
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False; jobs = int(os.environ.get('VX_JOBS', '8')); replay = None; budget = None; verbose = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]; i += 2
        elif a[i] == '--only': only = a[i+1]; i += 2
        elif a[i] == '--jobs': jobs = int(a[i+1]); i += 2
        elif a[i] == '--budget': budget = float(a[i+1]); i += 2
        elif a[i] == '--keep': keep = True; i += 1
        elif a[i] == '-v': verbose = True; i += 1
        elif a[i] == '--replay': replay = a[i+1]; i += 2
        else: print('bad argument', a[i]); return 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time(); ctx = prepare(prop, budget or (700 if tier == 'quick' else 7200))
    try:
        if replay:
            sc = json.loads([l for l in open(replay) if l.startswith('#SCENARIO ')][0][10:]); j = Job(ctx, sc); j.build(); exe = j.native()
            q = sh([exe] + (['--fair'] if '#FAIR' in open(replay).read() else [replay, 'v']), timeout=120); print(q[1], end=''); print('replay exit', q[0]); return 1 if q[0] in (10, 11, 12) else 0
        scs = [s for s in scen.scenarios(prop, tier) if not only or only in s['name']]
        if not scs: print('no scenarios for', prop); return 2
        scs = sorted(scs, key=lambda s: -s.get('cost', 1)); jl = [Job(ctx, s) for s in scs]
        with ThreadPoolExecutor(jobs) as ex:
            def one(j):
                r = j.run()
                if verbose or r['status'] not in ('holds',): print('  [%s] %s: %s %s %.1fs' % (prop, r['name'], r['status'], r.get('msg') or r.get('error') or r.get('why') or '', r.get('wall', 0)), r.get('loc', ''), flush=True)
                elif os.environ.get('VX_PROGRESS'): print('  [%s] %s: holds %.1fs (encode %.1f solve %.1f vars %d unwind %s uncovered %s)' % (prop, r['name'], r['wall'], r['encode_s'], r['solve_s'], r['vars'], r['unwind'], r['uncovered']), flush=True)
                return r
            res = list(ex.map(one, jl))
        known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
        viol = []; kf = []
        for r in res:
            if r['status'] != 'violation' or not r.get('confirmed'): continue
            k = [f for f in known if f.get('status') == 'known' and f['property'] == prop and f['scenario'] == r['name'] and any((r.get('msg') or '').startswith(m) for m in f['msgs'])]
            if k: kf.append((k[0], r))
            else: viol.append(r)
        decided = [r for r in res if r['status'] in ('holds', 'violation')]
        write_evidence(prop, tier, seed, res, viol, kf, time.time() - t0)
        for k, r in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        for r in viol:
            print('violated: %s: %s (%s); native replay: %s' % (r['name'], r.get('msg'), r.get('loc'), r.get('replay_msg', '')))
            print('VIOLATION property=%s replay=%s' % (prop, r['replay']))
        n = lambda s: sum(1 for r in res if r['status'] == s)
        print('%s %s: %d scenarios: %d hold, %d violated, %d undecided (%d unknown, %d error, %d skipped); solver %.1fs, wall %.1fs' % (prop, tier, len(res), n('holds'), n('violation'), len(res) - len(decided), n('unknown'), n('error'), n('skipped'), sum(r.get('solve_s', 0) for r in res), time.time() - t0))
        if viol: return 1
        if not decided: return 2
        return 0
    finally:
        if not keep: shutil.rmtree(ctx.work, ignore_errors=True)

def write_evidence(prop, tier, seed, res, viol, kf, wall):
    S = lambda k: sum(r.get(k, 0) or 0 for r in res if isinstance(r.get(k, 0), (int, float)))
    fns = set(); unm = set()
    for r in res:
        for f in r.get('functions', []):
            if not f.startswith('__vx') and not f.startswith('vx'): fns.add(f)
        unm |= set(r.get('unmodeled', []))
    samples = []
    for r in res:
        d = {k: r.get(k) for k in ('name', 'status', 'bounds', 'segments', 'steps', 'vars', 'clauses', 'asserts', 'viol_conds', 'queries', 'encode_s', 'solve_s', 'unwind', 'covers', 'covers_ok', 'witness_ok', 'uncovered', 'unwind_locs', 'msg', 'loc', 'why', 'error') if r.get(k) not in (None, '', [])}
        d['functions_encoded'] = len(r.get('functions', [])); samples.append(d)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(viol),
      'coverage': {
        'states': int(S('segments')), 'transitions': int(S('steps')), 'traces_validated_against_impl': int(S('witness_ok') + sum(1 for r in res if r.get('confirmed'))),
        'explanation': 'states = symbolic program segments encoded (each stands for all schedules/inputs reaching it); transitions = IR instructions encoded symbolically; traces validated = solver models (reachability witnesses and counterexamples) replayed on the same code compiled to machine code',
        'scenarios': len(res), 'scenarios_holding': sum(1 for r in res if r['status'] == 'holds'), 'scenarios_undecided': sum(1 for r in res if r['status'] not in ('holds', 'violation')),
        'solver': 'kissat (bit-blasted QF_BV)', 'queries_discharged': int(S('queries')), 'solver_seconds': round(S('solve_s'), 2), 'encode_seconds': round(S('encode_s'), 2),
        'assertions_encoded': int(S('asserts')), 'violation_conditions': int(S('viol_conds')), 'sat_variables': int(S('vars')), 'sat_clauses': int(S('clauses')),
        'functions_encoded': sorted(fns), 'unmodelled_externals': sorted(unm), 'known_findings': [k['what'] for k, r in kf], 'samples': samples},
      'assumptions': ['sequentially consistent memory', 'Win32/CRT calls behave as model/winmodel.c', 'at most R schedule segments per thread and K iterations per loop as listed per scenario; "unwind": "truncated" marks loops with longer executions, which lie outside the claim']}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__':
    try: rc = main()
    except Fail as ex: print('check error:', ex); rc = 2
    sys.exit(rc)
