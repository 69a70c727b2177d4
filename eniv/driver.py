"""Run the check of one property: verify every unit, search for a failing input
when an obligation is not discharged, write the evidence file."""
import threading, sys, os, time, json, importlib, multiprocessing, subprocess, traceback, re, shutil, signal
from . import build

VERIF = build.VERIF
OBCAP = 4000


def run_unit(mod, name, tier, retry, q):
    from .spec import Ctx, UnitResult
    from .exec import Ob
    r = UnitResult(name)
    t = time.time()
    ctx = Ctx(name, tier, retry)
    kn = known(mod.upper())
    sent = []

    def on_fail(o):
        if not sent and not any(re.search(k, '%s / %s / %s' % (name, o.name, o.where)) for k, _ in kn):
            sent.append(1)
            q.put('obligation failed')
    ctx.on_fail = on_fail
    try:
        m = importlib.import_module('specs.' + mod)
        m.UNITS[name](ctx)
    except MemoryError:
        r.error = 'out of memory'
    except BaseException as e:
        r.error = '%s: %s' % (type(e).__name__, str(e)[:1500])
        r.notes.append(traceback.format_exc()[-3000:])
    for E in ctx.engines:
        r.obs += E.obs
        r.contracts |= {build.norm(x) for x in E.contracts_used}
        r.trusted |= {build.norm(x) for x in E.trusted_used}
        r.inlined |= {build.norm(x) for x in E.inlined}
        for k, v in E.loops_seen.items():
            r.loops.setdefault(build.norm(build.demangle(k[0])), []).append(sorted(v)[0][:400])
        r.solver += E.P.secs
        r.calls += E.P.calls
        r.paths += E.paths
        r.notes += E.notes
    r.funcs = ctx.funcs
    r.assumptions = ctx.assumptions
    r.secs = time.time() - t
    for o in r.obs:
        if o.model is not None:
            o.model = str(o.model)[:3000]
    r.obs = list(r.obs)
    q.put(r)


def run_units(mod, names, tier, retry, limit, procs=8, on_result=None, stop=None):
    """each unit in its own process, with a time limit"""
    from .spec import UnitResult
    res = {}
    todo = list(names)
    live = {}
    deadline = time.time() + limit
    ctxm = multiprocessing.get_context('fork')
    while todo or live:
        while todo and len(live) < procs:
            n = todo.pop(0)
            q = ctxm.SimpleQueue()
            p = ctxm.Process(target=run_unit, args=(mod, n, tier, retry, q))
            p.start()
            live[n] = (p, q, time.time())
        for n in list(live):
            p, q, t0 = live[n]
            if not q.empty():
                msg = q.get()
                if isinstance(msg, str):
                    if on_result:
                        on_result(n, None)
                    continue
                res[n] = msg
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[n]
                if on_result:
                    on_result(n, res[n])
            elif not p.is_alive():
                if not q.empty():
                    continue
                r = UnitResult(n)
                r.assumptions = []
                r.error = 'the verifier process ended (exit %s)' % p.exitcode
                res[n] = r
                del live[n]
            elif time.time() > deadline:
                p.kill()
                p.join()
                r = UnitResult(n)
                r.assumptions = []
                r.error = 'time limit of %d s' % limit
                r.secs = time.time() - t0
                res[n] = r
                del live[n]
        if stop and stop():
            for n in list(live) + todo:
                if n in live:
                    live[n][0].kill()
                    live[n][0].join()
                r = UnitResult(n)
                r.assumptions = []
                r.error = 'stopped: a failing input was found by executing the code after another obligation failed'
                res[n] = r
            return res
        if time.time() > deadline:
            for n in todo:
                r = UnitResult(n)
                r.assumptions = []
                r.error = 'not started within the time limit'
                res[n] = r
            todo = []
        time.sleep(0.02)
    return res


def failures(r):
    f = [o for o in r.obs if not o.ok]
    return f


def replay_search(pid, mod, seconds, seed, log):
    """compile the replay harness against the current tree and look for a failing input"""
    rp = getattr(mod, 'REPLAY', None)
    if not rp:
        return None
    d = build.scratch()
    exe = os.path.join(d, 'replay')
    out = os.path.join(d, 'replay.out')
    srcs = [os.path.join(VERIF, 'harness', rp['main'])] + [os.path.join(build.REPO, s) for s in rp.get('sources', [])]
    for san in (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'], []):
        cmd = ['g++', '-std=c++11', '-g', '-O1', '-w', '-fno-access-control', '-fpermissive', '-I' + os.path.join(VERIF, 'harness')] + \
            build.flags()[2:] + san + rp.get('flags', []) + srcs + ['-o', exe] + rp.get('libs', [])
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            log.append('replay build timed out')
            continue
        if r.returncode:
            log.append('replay build failed: ' + r.stderr[-1500:])
            continue
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=4096:allocator_may_return_null=0:alloc_dealloc_mismatch=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
        cwd = os.path.join(d, 'cwd')
        os.makedirs(cwd, exist_ok=True)
        if os.path.exists(out):
            os.unlink(out)
        try:
            r = subprocess.run([exe, str(seed), str(seconds), out], capture_output=True, timeout=seconds + 60, env=env, cwd=cwd)
            txt = r.stdout.decode('latin1')[-4000:] + r.stderr.decode('latin1')[-6000:]
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            txt = 'no answer within the time limit: an operation does not terminate'
            rc = 98 if os.path.exists(out) and os.path.getsize(out) else 0
        log.append('replay exit %s' % rc)
        if rc != 0:
            case = open(out, 'rb').read().decode('latin1') if os.path.exists(out) else ''
            if rc in (77,):      # harness could not run
                log.append(txt[-800:])
                return None
            return 'failing case found by executing the real code:\n%s\n%s' % (case, txt)
        return None
    return None


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(argv):
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    modname = pid.lower()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('specs.' + modname)
    names = list(mod.UNITS)
    build.scratch()
    lim = 420 if tier == 'quick' else 6000
    kn = known(pid)

    def is_known(n, o):
        return any(re.search(k, '%s / %s / %s' % (n, o.name, o.where)) for k, _ in kn)
    early = {'found': None, 'thread': None, 'log': []}

    def on_result(n, r):
        # an obligation failed: look for a concrete failing input while the other units are verified
        if early['thread'] is None and (r is None or r.error or any(not is_known(n, o) for o in failures(r))):
            def work():
                try:
                    early['found'] = replay_search(pid, mod, 40, seed, early['log'])
                except Exception as e:
                    early['log'].append('replay: %s' % e)
            early['thread'] = threading.Thread(target=work, daemon=True)
            early['thread'].start()

    def stop():
        return early['found'] is not None
    res = run_units(modname, names, tier, 0, lim, on_result=on_result, stop=stop)
    if early['thread'] is not None:
        early['thread'].join(130)
    # a second, more patient attempt at what was not discharged
    again = [n for n in names if res[n].error or any('unknown' in o.how for o in failures(res[n]))]
    left = (820 if tier == 'quick' else 12000) - (time.time() - t0) - 200
    if again and left > 60 and not early['found']:
        r2 = run_units(modname, again, tier, 1, min(left, 250 if tier == 'quick' else 4000), stop=stop)
        for n in again:
            if not r2[n].error and (res[n].error or len(failures(r2[n])) <= len(failures(res[n]))):
                res[n] = r2[n]
    fails = []
    for n in names:
        r = res[n]
        for o in failures(r):
            fails.append((n, o.name, o.where, o.how, o.model))
        if r.error:
            fails.append((n, 'verification of this unit completes', '', r.error, '\n'.join(r.notes[-1:])))
        if not r.error and not r.obs:
            fails.append((n, 'the unit generates obligations', '', 'none generated', None))
    unlisted = [f for f in fails if not any(re.search(k, f[0] + ' / ' + f[1] + ' / ' + f[2]) for k, _ in kn)]
    for k, d in kn:
        if any(re.search(k, f[0] + ' / ' + f[1] + ' / ' + f[2]) for f in fails):
            print('KNOWN-FINDING: property=%s %s' % (pid, d))
    log = []
    viol = 0
    if unlisted:
        viol = 1
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rpath = os.path.join(VERIF, 'evidence', 'replay_%s.txt' % pid)
        secs = min(90 if tier == 'quick' else 1500, max(20, (860 if tier == 'quick' else 10000) - (time.time() - t0)))
        found = early['found']
        log += early['log']
        try:
            if not found:
                found = replay_search(pid, mod, int(secs), seed + 1, log)
        except Exception as e:
            log.append('replay: %s' % e)
        with open(rpath, 'w') as fh:
            fh.write('property %s: %d obligation(s) not discharged\n\n' % (pid, len(unlisted)))
            for u, nm, wh, how, md in unlisted[:60]:
                fh.write('unit: %s\nfailed obligation: %s\nwhere: %s\nverifier: %s\n' % (u, nm, wh, how))
                if md:
                    fh.write('verifier output / counterexample: %s\n' % md)
                fh.write('\n')
            if found:
                fh.write('REPLAY ON THE REAL CODE\n' + found + '\n')
            else:
                fh.write('no failing input found by executing the real code\n')
            fh.write('\n'.join(log) + '\n')
        for u, nm, wh, how, md in unlisted[:8]:
            print('undischarged: [%s] %s @ %s: %s' % (u, nm, wh, how[:300]))
        if found:
            print(found[:1500])
        print('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if found else ' no-failing-input-found'))
    write_evidence(pid, mod, modname, tier, seed, res, names, time.time() - t0, viol, fails)
    n = sum(len(r.obs) for r in res.values())
    k = sum(o.ok for r in res.values() for o in r.obs)
    print('%s %s: %d units, %d obligations, %d discharged, %.1f s' % (pid, tier, len(names), n, k, time.time() - t0))
    sys.stdout.flush()
    return 1 if unlisted else 0


BASE_TRUST = [
    'clang 18 front end and the sroa/simplifycfg passes preserve the meaning of the C++ source',
    'the VC generator /verif/eniv (symbolic execution of LLVM IR, memory model by objects) and z3',
    'operator new/malloc/calloc return fresh non-null memory; the call stack does not overflow',
    'single-threaded execution; sizes of live objects stay below 2^62 bytes',
]


def write_evidence(pid, mod, modname, tier, seed, res, names, wall, viol, fails):
    obs = [o for r in res.values() for o in r.obs]
    by = {}
    for o in obs:
        by.setdefault(o.tag, [0, 0])
        by[o.tag][0] += 1
        by[o.tag][1] += 1 if o.ok else 0
    how = {}
    for o in obs:
        if o.ok:
            how[o.how] = how.get(o.how, 0) + 1
    trusted = sorted({x for r in res.values() for x in r.trusted})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': len(obs), 'discharged': sum(o.ok for o in obs),
            'checker_cmd': './check %s --tier %s' % (pid, tier),
            'trusted_base': BASE_TRUST + list(getattr(mod, 'TRUSTED', [])) + ['trusted library contract: ' + t for t in trusted],
            'functions_under_contract': sorted({f for r in res.values() for f in r.funcs}),
            'contracts_used_at_call_sites': sorted({f for r in res.values() for f in r.contracts}),
            'functions_executed_in_place': sorted({f for r in res.values() for f in r.inlined}),
            'units': {n: {'obligations': len(res[n].obs), 'discharged': sum(o.ok for o in res[n].obs),
                          'paths': res[n].paths, 'solver_queries': res[n].calls, 'solver_s': round(res[n].solver, 2),
                          'wall_s': round(res[n].secs, 2), 'loops': res[n].loops, 'error': res[n].error} for n in names},
            'obligations_by_kind': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(by.items())},
            'discharged_by': how, 'solver': 'z3 (python API)', 'solver_s': round(sum(r.solver for r in res.values()), 2),
            'samples': [{'unit': o.unit, 'obligation': o.name, 'where': o.where, 'verdict': o.how} for o in obs[:: max(1, len(obs) // 12)]][:14],
            'explanation': getattr(mod, 'TITLE', ''),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({a for r in res.values() for a in r.assumptions}),
        'wall_s': round(wall, 2), 'violations': viol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + '.tmp', p)
