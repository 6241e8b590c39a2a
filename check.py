#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decides one property on /repo's current tree.

1. compiles /verif/harness together with /repo to LLVM IR and (twice) natively,
2. explores the property's harness configurations symbolically (engine/: Z3 decides every
   branch and every assertion over all values of the symbolic inputs),
3. replays a model of every explored path natively and compares what was observed,
4. replays every counterexample natively and reports it.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check could not do its work.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import configs
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)
ENV['RUSTFLAGS'] = '-Awarnings'
H = V + '/harness'
SYMEX = V + '/engine/target/release/symex'

def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)

def die(m):
    log('ERROR:', m)
    sys.exit(2)

def sh(cmd, cwd, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def build_engine():
    src = sorted(glob.glob(V + '/engine/src/*.rs')) + [V + '/engine/Cargo.toml', V + '/engine/build.rs']
    h = tree_hash(src)
    stamp = V + '/engine/target/stamp'
    if os.path.exists(SYMEX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    rc, out = sh(['cargo', 'build', '--release', '--offline'], V + '/engine')
    if rc:
        die('engine does not build\n' + out[-3000:])
    open(stamp, 'w').write(h)

def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()

def sources():
    r = []
    for d, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if x not in ('target', '.git', 'browser', 'node_modules')]
        r += [os.path.join(d, f) for f in fn if f.endswith(('.rs', '.toml', '.lock'))]
    r += glob.glob(H + '/src/*.rs') + [H + '/Cargo.toml', H + '/Cargo.lock']
    return sorted(r)

BUILDS = {
    'ir': (['cargo', 'rustc', '--release', '--offline', '--', '-C', 'save-temps',
            '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all'], 'release'),
    'nrel': (['cargo', 'build', '--profile', 'nrel', '--features', 'native', '--offline'], 'nrel'),
    'ndev': (['cargo', 'build', '--profile', 'ndev', '--features', 'native', '--offline'], 'ndev'),
}

def build_all():
    """Builds from the current contents of /repo: the stamp is a hash of all sources (time stamps
    of files are not trusted), and when it differs the two crates are compiled from scratch."""
    h = tree_hash(sources())
    todo = {}
    procs = []
    for n, (cmd, prof) in BUILDS.items():
        # a target directory per build, so that the three run at the same time
        td = '%s/target/%s' % (H, n)
        stamp = td + '/stamp'
        if os.path.exists(stamp) and open(stamp).read() == h:
            continue
        os.makedirs(td, exist_ok=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        for pat in ('harness-*', 'radixdb-*', 'libradixdb-*', 'libharness-*', 'harness', 'harness.d'):
            for d in ('', 'deps/', '.fingerprint/', 'incremental/'):
                for f in glob.glob('%s/%s/%s%s' % (td, prof, d, pat)):
                    if os.path.isdir(f):
                        shutil.rmtree(f)
                    else:
                        os.remove(f)
        env = dict(ENV, CARGO_TARGET_DIR=td)
        procs.append((n, stamp, subprocess.Popen(cmd, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for n, stamp, p in procs:
        out, _ = p.communicate(timeout=800)
        if p.returncode:
            die('build %s failed\n%s' % (n, out[-4000:]))
        open(stamp, 'w').write(h)
    # the module after optimisation (also written as text, .ll)
    ll = glob.glob(H + '/target/ir/release/deps/harness-*.rcgu.bc')
    ll = [x for x in ll if 'cgu.0' in x] or ll
    if len(ll) != 1:
        die('no unique IR module: %s' % ll)
    return ll[0]

def native(prof):
    return '%s/target/%s/%s/harness' % (H, prof, prof)

def replay_one(prof, case, valgrind=False, timeout=60, repeat=1):
    env = dict(os.environ, REPEAT=str(repeat))
    cmd = [native(prof), 'one'] + case.split()
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=99', '--undef-value-errors=no', '--log-file=/dev/null'] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'no end within %d s' % timeout

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cf = configs.PROPS[prop]
    lines = list(cf[tier] if tier in cf else cf['quick'])
    os.makedirs(V + '/work', exist_ok=True)
    lock = open(V + '/work/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_engine()
    ll = build_all()
    log('built')
    fcntl.flock(lock, fcntl.LOCK_UN)
    W = '%s/work/%s-%s' % (V, prop, tier)
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    open(W + '/configs', 'w').write('\n'.join(lines) + '\n')
    deadline = cf.get('deadline', {}).get(tier, 300 if tier == 'quick' else 620)
    args = [SYMEX, ll, W + '/configs', W + '/out.json', W + '/paths', 'deadline=%d' % deadline,
            'dump_every=%d' % (500 if tier == 'quick' else 2000), 'dump_dir=' + W + '/q']
    os.makedirs(W + '/q')
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode not in (0, 1) or not os.path.exists(W + '/out.json'):
        die('symbolic execution ended with %d\n%s' % (r.returncode, r.stdout[-3000:]))
    o = json.load(open(W + '/out.json'))
    log('explored: %d paths, %d solver queries' % (sum(c['paths'] for c in o['configs']), o['queries']))

    # every explored path, natively
    chunks = []
    with open(W + '/paths') as f:
        pl = f.readlines()
    n = 8
    procs = []
    for prof in ('nrel', 'ndev'):
        for i in range(n):
            part = pl[i::n]
            if not part:
                continue
            fn = '%s/batch%d' % (W, i)
            if prof == 'nrel':
                open(fn, 'w').writelines(part)
            procs.append((prof, subprocess.Popen([native(prof), 'batch', fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    replayed = {'nrel': 0, 'ndev': 0}
    mismatches = []
    t1 = time.time()
    for prof, p in procs:
        try:
            out, _ = p.communicate(timeout=max(20, 400 - (time.time() - t1)))
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            out += '(no end)'
        m = re.search(r'replayed (\d+) mismatches (\d+)', out)
        if not m:
            mismatches.append((prof, 'replay ended early: ' + out[-300:]))
            continue
        replayed[prof] += int(m.group(1))
        if int(m.group(2)):
            mismatches += [(prof, l) for l in out.splitlines() if l and not l.startswith('replayed')][:5]
    log('replayed natively: %s, mismatches %d' % (replayed, len(mismatches)))

    # counterexamples
    known = [k for k in json.load(open(V + '/known_findings.json')) if k['property'] == prop and k.get('status') == 'known']
    seen_known = {}
    viol, odd, long = [], [], []
    confirm_t = None
    for c in o['configs']:
        for v in c['violations']:
            if not relevant(prop, v):
                continue
            case = '%s %s : %s' % (c['name'], ' '.join(map(str, c['params'])), ' '.join(map(str, v['values'])))
            kf = [k for k in known if k['harness'] == c['name'] and k['kind'] == v['kind'] and re.search(k['msg'], v['msg'])]
            threads = c['name'].startswith('h_thr')
            confirm_t = confirm_t or time.time()
            if viol and not kf and (threads and len(viol) >= 3 or len(viol) >= 40 or time.time() - confirm_t > 100):
                # enough of them were replayed
                viol.append(dict(case=case, kind=v['kind'], msg=v['msg'], count=v['count'], trace=v['trace'], native=[], output={}))
                continue
            # with threads, a native run takes one schedule of many: it is repeated, and a schedule that
            # is not met natively is still a violation
            res = {p: replay_one(p, case, timeout=20, repeat=3000 if threads else 1) for p in ('nrel', 'ndev')}
            how = [p for p in res if res[p][0] not in (0, 2)]
            if not how and not threads and v['kind'] in ('memory', 'check'):
                for p in ('nrel', 'ndev'):
                    rc, out = replay_one(p, case, valgrind=True)
                    if rc not in (0, 2):
                        how.append('valgrind ' + p)
                        res[p] = (rc, out)
            rec = dict(case=case, kind=v['kind'], msg=v['msg'], count=v['count'], trace=v['trace'], native=how,
                       output={p: res[p][1][-600:] for p in res})
            if not how and v['kind'] != 'memory' and not threads:
                if v['kind'] == 'nontermination':
                    # more steps than the engine takes, but it ends
                    long.append('%s %s: %d paths of more steps than the bound' % (c['name'], c['params'], v['count']))
                else:
                    odd.append(rec)
                continue
            if kf:
                seen_known.setdefault(kf[0]['id'], rec)
            else:
                viol.append(rec)
    os.makedirs(V + '/evidence', exist_ok=True)

    crosschecked = cross_check(W, tier)
    conf = []
    incomplete = long
    paths = sum(c['paths'] for c in o['configs'])
    for c in o['configs']:
        e = dict(harness=c['name'], params=c['params'], paths=c['paths'], infeasible=c['infeasible'], branches=c['branches'],
                 steps=c['steps'], assertions=c['checks'], complete=bool(c['complete']), reached=c['reach'])
        if c['errors']:
            e['unexplored'] = c['errors'][:5]
        if not c['complete']:
            incomplete.append('%s %s' % (c['name'], c['params']))
        conf.append(e)
    samples = [l.strip()[:400] for l in pl[:: max(1, len(pl) // 5)]][:6]
    cov = dict(
        states=paths, transitions=sum(c['branches'] for c in o['configs']),
        traces_validated_against_impl=min(replayed.values()) if pl else 0,
        samples=samples or [dict(v) for v in viol[:3]],
        exhaustive=not incomplete,
        explanation='states = execution paths of the compiled code explored to their end, each standing for all inputs that satisfy its path condition; transitions = symbolic branch decisions; traces validated = paths whose model was replayed natively (release and dev build) with identical observations',
        configurations=conf,
        bounds=cf.get('bounds', ''), outside=cf.get('outside', ''),
        solver=dict(name='z3 (libz3)', questions=o['asked'], answered_from_cache=o['cached'], answered_by_truth_table_of_one_byte=o['tabled'], queries=o['queries'], sat=o['sat'], unsat=o['unsat'],
                    unknown=o['unknown'], solver_s=o['solver_s'], longest_query_s=o['max_query_s'], cross_checked=crosschecked),
        module=dict(functions=o['functions'], instructions=o['instructions'], load_s=o['load_s']),
        functions_encoded=[dict(name=n, instructions_covered=a, instructions=b) for n, a, b in sorted(o['executed'], key=lambda x: -x[1]) if 'radixdb' in n or 'inplace' in n][:80],
        replayed=replayed, incomplete=incomplete,
        known_findings_seen=sorted(seen_known))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=['LLVM IR of harness and /repo at opt-level 1 with debug assertions and overflow checks means what the engine makes of it (validated by native replay of every path)',
                           'Z3 is right (a sample of its verdicts is repeated with other solvers)',
                           'allocation always succeeds'] + cf.get('assumptions', []),
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)

    for k in known:
        if k['id'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i, l in enumerate(incomplete):
        log('incomplete:', l)
    if viol:
        rp = '%s/work/%s-%s/violations.json' % (V, prop, tier)
        json.dump(viol, open(rp, 'w'), indent=1)
        for v in viol[:10]:
            log('%s: %s (%d paths)' % (v['kind'], v['msg'], v['count']))
            log('   replay: %s one %s' % (native('nrel'), v['case']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    if mismatches:
        # a path that the engine saw end well goes wrong natively: a failed check or panic there is a
        # violation of its own (it happens on the real code); a mere difference is an error of the engine
        bad = []
        for prof, l in mismatches:
            log('mismatch', prof, l[:500])
            m = re.search(r'(h_\w+(?: \d+)* :(?: \d+)*)', l)
            if m:
                rc, out = replay_one(prof, m.group(1), repeat=3000 if 'h_thr' in m.group(1) else 1)
                if rc not in (0, 2):
                    bad.append(dict(case=m.group(1), native=[prof], output=out[-600:]))
        if bad:
            rp = '%s/work/%s-%s/violations.json' % (V, prop, tier)
            json.dump(bad, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            sys.exit(1)
        die('native replay differs from the symbolic execution')
    if odd:
        for v in odd[:5]:
            log('NOT REPRODUCED natively:', v['kind'], v['msg'], v['case'], v['trace'][:6])
        die('a counterexample does not reproduce')
    if paths == 0 or not pl:
        die('nothing was explored: %s' % [c['errors'] for c in o['configs']][:3])
    if any(c['paths'] and not c['reach'] for c in o['configs']):
        die('a configuration never reaches its end: %s' % [c['name'] for c in o['configs'] if c['paths'] and not c['reach']])
    log('held: %d paths, %d complete of %d configurations' % (paths, len(conf) - len(incomplete), len(conf)))

def relevant(prop, v):
    # a harness can decide several properties: assertions named [C24] belong to that one alone,
    # and only those and memory errors count for it
    m = re.match(r'\[(C\d+)\]', v['msg'])
    if m and v['kind'] == 'check':
        return m.group(1) == prop
    if prop == 'C24':
        return v['kind'] == 'memory'
    return True

def cross_check(W, tier):
    """a sample of the solver's verdicts, repeated with two other solvers"""
    fs = sorted(glob.glob(W + '/q/*.smt2'))[: (12 if tier == 'quick' else 60)]
    procs = []
    for f in fs:
        want = re.search(r'\.(unsat|sat)\.', os.path.basename(f)).group(1)
        for s in (['z3-new', f], ['cvc5', '--tlimit=20000', f]):
            procs.append((want, s[0], f, subprocess.Popen(s, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    r = {'agree': 0, 'no_answer': 0}
    for want, s, f, p in procs:
        try:
            out = p.communicate(timeout=60)[0].split()
        except subprocess.TimeoutExpired:
            p.kill()
            out = []
        got = next((x for x in out if x in ('sat', 'unsat')), None)
        if got is None:
            r['no_answer'] += 1
        elif got == want:
            r['agree'] += 1
        else:
            die('%s answers %s where z3 answered %s: %s' % (s, got, want, f))
    return r

if __name__ == '__main__':
    main()
