#!/usr/bin/env python3
"""Runs the contracts of one property against the current /repo working tree.

  check.py PROPERTY            exit 0: held; exit 1 + VIOLATION line; exit 2: error of the check
  check.py --setup             build everything
  check.py --harness NAME...   run single harnesses and print their reports
  check.py --replay FILE       replay a recorded failing input on the real code
"""
import hashlib, json, os, re, subprocess, sys, time, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

D = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
OUT = D + '/out'
TRIPLE = 'x86_64-unknown-linux-gnu'
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
JOBS = 8
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def die(msg, out=''):
    say('CHECK-ERROR: ' + msg)
    if out:
        say(out[-4000:])
    sys.exit(2)


def sysroot():
    for p in ('/root/.cache/miri', D + '/mirv/target/sysroot'):
        if os.path.isdir(p + '/lib/rustlib/' + TRIPLE):
            return p
    return D + '/mirv/target/sysroot'


def env_sym():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER=D + '/wrap.sh',
             MIRV_RECORD=D + '/sym/target/args', MIRV_SYSROOT=sysroot())
    sr = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = sr + '/lib'
    e['RUST_MIN_STACK'] = str(1 << 30)
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    return e


def env_nat():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    e.pop('RUSTC_WRAPPER', None)
    return e


def tree_hash():
    """content of everything the harness crates are built from"""
    h = hashlib.sha256()
    for root in (REPO + '/rs', D + '/harness', D + '/glv'):
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d not in ('target', '.git', 'node_modules', 'npm', 'pkg'))
            for f in sorted(fn):
                if f.endswith(('.rs', '.toml', '.pest', '.md')):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    try:
                        h.update(open(p, 'rb').read())
                    except OSError:
                        pass
    return h.hexdigest()


def cargo(args, cwd, env, what, timeout=1500):
    try:
        r = subprocess.run(['cargo'] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die(what + ': timeout')
    if r.returncode != 0:
        die(what + ' failed', r.stdout + r.stderr)
    return r


LOCAL = ['glicol-wasm', 'glicol', 'glicol_synth', 'glicol_parser', 'glharness', 'glv']


def build(which):
    """(re)build the symbolic ('sym') or native ('nat') side when the sources changed"""
    cwd = D + '/' + which
    tgt = cwd + '/target'
    os.makedirs(tgt, exist_ok=True)
    stamp = tgt + '/tree.sha256'
    env = env_sym() if which == 'sym' else env_nat()
    want = tree_hash()
    if which == 'sym':
        try:
            want += hashlib.sha256(open(D + '/mirv/target/release/mirv', 'rb').read()).hexdigest()
        except OSError:
            die('the verifier is not built: run ./setup.sh first')
    have = open(stamp).read() if os.path.exists(stamp) else ''
    t = time.time()
    if have != want or (which == 'sym' and not os.path.exists(tgt + '/args')):
        # file times cannot be trusted across copies of the tree: forget what was built from it
        opts = ['--target', TRIPLE] if which == 'sym' else ['--release']
        subprocess.run(['cargo', 'clean', '--offline'] + opts + sum([['-p', p] for p in LOCAL], []), cwd=cwd, env=env,
                       capture_output=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        if which == 'sym':
            cargo(['check', '--offline', '--target', TRIPLE], cwd, env, 'compiling the harnesses against /repo')
        else:
            cargo(['build', '--offline', '--release'], cwd, env, 'compiling the native replay program against /repo')
        open(stamp, 'w').write(want)
    return round(time.time() - t, 1)


def table():
    """property -> [(harness, bound text or None)] from harness/lib.rs"""
    src = open(D + '/harness/lib.rs').read()
    m = re.search(r'^harnesses!\s*\{(.*?)^\}', src, re.S | re.M)
    res = {}
    for pid, mod, body in re.findall(r'(\w+)\s*:\s*(\w+)\s*::\s*\{(.*?)\}', re.sub(r'//[^\n]*', '', m.group(1)), re.S):
        for b, h in re.findall(r'(?:#\[\s*bound\s*\(\s*"([^"]*)"\s*\)\s*\]\s*)?(\w+)', body):
            res.setdefault(pid, []).append((h, b or None))
    return res


def run_mirv(h, args, env, limit, extra=None):
    os.makedirs(OUT, exist_ok=True)
    rep = '%s/%s%s.json' % (OUT, h, '' if not extra else '.u' + extra.get('MIRV_UNROLL', ''))
    if os.path.exists(rep):
        os.unlink(rep)
    e = dict(env)
    e['MIRV_OUT'] = rep
    e['MIRV_BUDGET'] = str(int(limit))
    if extra:
        e.update(extra)
    cmd = [D + '/mirv/target/release/mirv', '--harness', h] + args + [
        '--sysroot', e['MIRV_SYSROOT'], '-Zalways-encode-mir', '-Zmir-opt-level=1', '-Coverflow-checks=on',
        '-Cdebug-assertions=off', '-Awarnings']
    try:
        r = subprocess.run(cmd, cwd=D + '/sym', env=e, capture_output=True, text=True, timeout=limit + 30)
        err = r.stderr
    except subprocess.TimeoutExpired:
        err = 'timeout'
    try:
        d = json.load(open(rep))
    except (OSError, ValueError):
        d = {'harness': h, 'error': 'verifier gave no report: ' + err[-500:]}
    for k in ('obligations', 'trivial', 'smt', 'ival', 'real', 'failed', 'unknown', 'queries', 'steps', 'forks', 'merges'):
        d.setdefault(k, 0)
    for k in ('solver_s', 'secs', 'max_query_s'):
        d.setdefault(k, 0.0)
    d.setdefault('obs', [])
    d.setdefault('covers', {})
    d.setdefault('functions', {})
    d.setdefault('loops', [])
    return d


def nat(args, timeout):
    try:
        r = subprocess.run([D + '/nat/target/release/glnat'] + args, capture_output=True, text=True, timeout=timeout)
        return r.returncode, json.loads(r.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return 3, {'failures': [], 'error': 'timeout'}
    except (ValueError, IndexError):
        return 3, {'failures': [], 'error': 'native program ended abnormally (exit %s): %s' % (r.returncode, r.stderr[-300:])}


def sym_args():
    a = open(D + '/sym/target/args', 'rb').read().decode().split('\0')
    return [x for x in a[:-1]]


def baseline():
    try:
        return json.load(open(D + '/baseline.json'))
    except OSError:
        return {}


def judge(d, base):
    """proved | failed | undecided | vacuous"""
    if d['failed']:
        return 'failed'
    if d.get('error') or d['unknown']:
        return 'undecided'
    if d['obligations'] == 0 or not d['covers'].get('end'):
        return 'vacuous'
    for c in base.get(d['harness'], {}).get('covers', []):
        if not d['covers'].get(c):
            return 'vacuous'
    return 'proved'


def late(s):
    return TIER == 'quick' and time.time() - T0 > s


def failing_input(h, d, env, args, secs):
    """look for a concrete failing input of the real code: the verifier's own counterexample
    first, then counterexamples of bounded unrollings, then a random search"""
    tried = []

    def go(steps, tape, how):
        rc, o = nat(['run', h, steps, ','.join(tape)], 30)
        tried.append({'how': how, 'result': o.get('failures') or o.get('error') or 'passes'})
        if rc == 1 and o['failures']:
            return {'harness': h, 'steps': steps, 'tape': tape, 'failures': o['failures'], 'log': o.get('log'), 'found_by': how}
    for o in d['obs']:
        if o['failed'] and o.get('tape') is not None:
            r = go('-', o['tape'], 'counterexample of obligation "%s"' % o['name'])
            if r:
                return r, tried
    if d.get('loops') or d.get('error') or d['unknown']:
        for k in (1, 2, 3, 5):
            if late(560):
                break
            u = run_mirv(h, args, env, 40, {'MIRV_UNROLL': str(k)})
            for o in u['obs']:
                if o['failed'] and o.get('tape') is not None:
                    r = go(str(k), o['tape'], 'counterexample of obligation "%s" with %d unrolled steps' % (o['name'], k))
                    if r:
                        return r, tried
            if u.get('error') and not u['failed']:
                break
    for mx in (8, 200, 3000):
        if late(760):
            break
        rc, o = nat(['fuzz', h, str(SEED + mx), str(secs), str(mx)], secs + 30)
        if rc == 1 and o.get('failures'):
            return {'harness': h, 'steps': '-', 'tape': o['tape'], 'failures': o['failures'], 'log': o.get('log'), 'found_by': 'random search, %s runs' % o['runs']}, tried
        tried.append({'how': 'random search of %ss, at most %s steps' % (secs, mx), 'result': o.get('error') or '%s runs pass' % o.get('runs')})
    return None, tried


ASSUME = [
    'mirv (this verifier: MIR semantics, simplifier, interval analysis, real-field normal form, loop rule) and rustc nightly front end are correct; mirv is cross-checked natively on every run by executing the same harnesses on random inputs',
    'Z3 4.8.12 is correct',
    'the code is verified as compiled by the nightly toolchain with hashbrown on its generic (non-SIMD) path and fixed hash seeds; hash iteration order is therefore one concrete order per map history',
    'floating point: + - * / and library functions are uninterpreted functions of their operand bits with exact constant folding, so equal expressions give equal samples; comparisons, conversions and sign operations are precise',
    'heap allocation never fails; addresses are opaque',
    'single-threaded execution',
]


def evidence(pid, tier, seed, level, cov, assumptions, viol):
    os.makedirs(D + '/evidence', exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': viol},
              open('%s/evidence/%s.json' % (D, pid), 'w'), indent=1)


def repo_fn(n):
    return 'glicol' in n and 'glharness' not in n


def known(pid):
    """known findings of this property: (harness, needle, text)"""
    res = []
    try:
        for l in open(D + '/known_findings.jsonl'):
            l = l.strip()
            if l and not l.startswith(('#', 'fixed:')):
                k = json.loads(l)
                if k.get('property') == pid and k.get('status') == 'open':
                    res.append(k)
    except OSError:
        pass
    return res


def check(pid):
    tb = table()
    if pid not in tb:
        die('no harness for property ' + pid)
    hs = tb[pid]
    man = json.load(open(D + '/MANIFEST.json'))
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
    bs = build('sym')
    env = env_sym()
    args = sym_args()
    base = baseline()
    limit = 300 if TIER == 'quick' else 3000
    pool = ThreadPoolExecutor(JOBS)
    fut = {h: pool.submit(run_mirv, h, args, env, limit) for h, _ in hs}
    bn = build('nat')
    res = {h: f.result() for h, f in fut.items()}
    verdict = {h: judge(d, base) for h, d in res.items()}
    for h, _ in hs:
        d = res[h]
        say('%-28s %-9s obligations %-7d trivial %-7d interval %-5d z3 %-5d real %-5d failed %-3d unknown %-3d %.1fs %s' % (
            h, verdict[h], d['obligations'], d['trivial'], d['ival'], d['smt'], d['real'], d['failed'], d['unknown'], d['secs'],
            d.get('error') or ''))
    # native cross-check of the same contracts on random inputs
    fs = max(1.0, min(6.0, 40.0 / max(1, (len(hs) + JOBS - 1) // JOBS))) if TIER == 'quick' else 60.0

    def search(h):
        if TIER != 'quick':
            return nat(['fuzz', h, str(SEED), str(fs), '4000'], fs + 30)
        # harnesses over random programs get more time and shorter histories
        n, steps = (20.0, '24') if h.endswith('_more') and h != 'size_gen_more' else (fs, '64')
        return nat(['fuzz', h, str(SEED), str(n), steps], n + 30)
    fz = {h: pool.submit(search, h) for h, _ in hs}
    fuzz = {h: f.result() for h, f in fz.items()}
    found, open_, und = [], [], []
    for h, (rc, o) in fuzz.items():
        if rc == 1 and o.get('failures'):
            found.append(({'harness': h, 'steps': '-', 'tape': o['tape'], 'failures': o['failures'], 'log': o.get('log'),
                           'found_by': 'random search, %s runs' % o['runs']}, []))
    kf = known(pid)

    def listed(r):
        return next((k for k in kf if k['harness'] == r['harness'] and all(any(n in f for n in k['failures']) for f in r['failures'])), None)
    old = [f for f in found if listed(f[0])]
    found = [f for f in found if not listed(f[0])]
    have = {f[0]['harness'] for f in found + old}
    bad = [h for h, _ in hs if verdict[h] == 'failed' and h not in have]
    if not found:
        for h in bad:
            r, tried = failing_input(h, res[h], env, args, 15 if TIER == 'quick' else 120)
            if r and listed(r):
                old.append((r, tried))
                continue
            if r:
                found.append((r, tried))
                break
            # not reproduced: a solver limit met while looking for loop invariants also ends
            # here, so the proof is tried again with larger limits before it counts as failed
            if not late(560):
                d = run_mirv(h, args, env, 240, {'MIRV_PATIENCE': '8'})
                if judge(d, base) == 'proved':
                    res[h], verdict[h] = d, 'proved'
                    continue
            open_.append((h, tried))
            if late(600):
                break
    for r, _ in old:
        say('KNOWN-FINDING: property=%s %s' % (pid, listed(r)['what']))
    notes = []
    for h, _ in hs:
        if verdict[h] == 'undecided' and h not in have and not found and not late(400):
            d = run_mirv(h, args, env, 300, {'MIRV_PATIENCE': '8'})
            if judge(d, base) == 'proved':
                res[h], verdict[h] = d, 'proved'
        if verdict[h] == 'undecided' and h not in have:
            # not decided by proof on this tree: bounded stand-in, labelled as such
            u = None
            for k in (1, 2, 3):
                if late(600):
                    break
                u = run_mirv(h, args, env, 40, {'MIRV_UNROLL': str(k)})
                if u['failed']:
                    break
                if u.get('error'):
                    break
                notes.append('%s: undecided by the unbounded rule (%s); bounded to %d steps: %d obligations, %d failed, %d unknown' % (
                    h, res[h].get('error') or '%d unknown' % res[h]['unknown'], k, u['obligations'], u['failed'], u['unknown']))
            r, tried = failing_input(h, u or res[h], env, args, 10)
            if r:
                found.append((r, tried))
            und.append(h)
            notes.append('%s: UNDECIDED (%s); no failing input in the bounded search' % (h, res[h].get('error') or 'unknown') if not r else '%s: failing input' % h)
    os.makedirs(OUT + '/replay', exist_ok=True)
    tot = {k: sum(d[k] for d in res.values()) for k in ('obligations', 'trivial', 'smt', 'ival', 'real', 'failed', 'unknown', 'queries', 'steps')}
    funs = sorted({f for d in res.values() for f in d['functions']})
    mine = [f for f in funs if repo_fn(f)]
    bounds = {h: b for h, b in hs if b}
    bounded_ob = sum(res[h]['obligations'] for h in bounds)
    cov = {
        'obligations': tot['obligations'],
        'discharged': tot['trivial'] + tot['smt'] + tot['ival'] + tot['real'],
        'by_back_end': {'simplifier': tot['trivial'], 'interval': tot['ival'], 'z3': tot['smt'],
                        'real_field(machine arithmetic as mathematical)': tot['real']},
        'failed': tot['failed'], 'undischarged_unknown': tot['unknown'],
        'obligations_in_harnesses_with_bounded_parameters': bounded_ob,
        'bounded_parameters': bounds,
        'solver_s': round(sum(d['solver_s'] for d in res.values()), 3), 'solver_queries': tot['queries'],
        'symbolic_steps': tot['steps'],
        'checker_cmd': './check.py ' + pid,
        'trusted_base': ASSUME,
        'functions_under_contract': mine,
        'functions_under_contract_count': len(mine),
        'library_functions_executed': len(funs) - len(mine),
        'harnesses': {h: {'verdict': verdict[h], 'obligations': res[h]['obligations'], 'secs': res[h]['secs'],
                          'loops': res[h]['loops'], 'covers': sorted(res[h]['covers']), 'error': res[h].get('error')} for h, _ in hs},
        'native_cross_check_runs': sum(o.get('runs', 0) for _, o in fuzz.values()),
        'build_s': {'sym': bs, 'nat': bn},
        'notes': notes,
        'known_findings': [listed(r)['what'] for r, _ in old],
    }
    if level != 'proof':
        cov['explanation'] = 'obligations generated from the real code for all sample values and parameters, over the enumerated shapes in bounded_parameters'
        cov['states'] = sum(d['forks'] for d in res.values()) + len(res)
        cov['transitions'] = cov.pop('symbolic_steps')
        cov['traces_validated_against_impl'] = cov.pop('native_cross_check_runs')
        cov['samples'] = list(bounds.items())[:5]
    viol = 0
    lines = []
    for r, tried in found:
        d = res[r['harness']]
        p = '%s/replay/%s-%s.json' % (OUT, pid, r['harness'])
        json.dump({'property': pid, **r, 'replay_cmd': './check.py --replay ' + p,
                   'failed_obligations': [o for o in d['obs'] if o['failed']], 'tried': tried}, open(p, 'w'), indent=1)
        viol += 1
        lines.append('VIOLATION property=%s replay=%s' % (pid, p))
    if not found:
        for h, tried in open_:
            d = res[h]
            p = '%s/replay/%s-%s.json' % (OUT, pid, h)
            json.dump({'property': pid, 'harness': h, 'failing_input': None,
                       'failed_obligations': [o for o in d['obs'] if o['failed']], 'tried': tried,
                       'verifier_output': d}, open(p, 'w'), indent=1)
            viol += 1
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    for h in verdict:
        if verdict[h] == 'vacuous' and not viol:
            evidence(pid, TIER, SEED, level, cov, [], 0)
            die('harness %s is vacuous: obligations %d, covers %s' % (h, res[h]['obligations'], res[h]['covers']))
    assumptions = [x for x in (man.get('notes_assumptions') or {}).get(pid, [])]
    src = ''.join(open(D + '/harness/' + f).read() for f in sorted(os.listdir(D + '/harness')) if f.endswith('.rs'))
    assumptions += ['`assume` clauses in the harness sources: %d (all are preconditions on inputs, see DESIGN.md)' % len(re.findall(r'\bassume\(', src))]
    evidence(pid, TIER, SEED, level, cov, assumptions, viol)
    if und:
        say('note: %s not decided by proof on this tree (bounded search only)' % ', '.join(und))
    if lines:
        for l in lines[:5]:
            say(l)
        sys.exit(1)
    say('property %s held: %d obligations, %d discharged, %d functions of /repo under contract, %.0fs' % (
        pid, cov['obligations'], cov['discharged'], len(mine), time.time() - T0))


def main():
    a = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True)
    lock = open(OUT + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a[:1] == ['--setup']:
        if not os.path.isdir(sysroot() + '/lib/rustlib/' + TRIPLE):
            e = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', MIRI_SYSROOT=D + '/mirv/target/sysroot')
            subprocess.run(['cargo', 'miri', 'setup'], env=e, check=True)
        say('sym', build('sym'))
        say('nat', build('nat'))
    elif a[:1] == ['--replay']:
        r = json.load(open(a[1]))
        build('nat')
        if 'tape' not in r:
            say(json.dumps(r['failed_obligations'], indent=1))
            sys.exit(0)
        rc, o = nat(['run', r['harness'], r['steps'], ','.join(r['tape'])], 300)
        say(json.dumps(o, indent=1))
        sys.exit(rc)
    elif a[:1] in (['--harness'], ['--baseline']):
        tb = table()
        allh = [h for v in tb.values() for h, _ in v]
        build('sym')
        env, args = env_sym(), sym_args()
        hs = a[1:] or allh
        hs = [h for h in allh if h in hs or any(x.endswith('*') and h.startswith(x[:-1]) for x in hs)]
        with ThreadPoolExecutor(JOBS) as pool:
            res = dict(zip(hs, pool.map(lambda h: run_mirv(h, args, env, int(os.environ.get('LIMIT', '300'))), hs)))
        for h in hs:
            d = res[h]
            say('%-26s %-9s obl %-7d triv %-7d ival %-5d z3 %-5d real %-5d failed %-3d unk %-3d %.1fs (z3 %.1fs, max %.1fs) steps %d forks %d covers %s %s' % (
                h, judge(d, {}), d['obligations'], d['trivial'], d['ival'], d['smt'], d['real'], d['failed'], d['unknown'], d['secs'],
                d['solver_s'], d['max_query_s'], d['steps'], d['forks'], ','.join(k for k, v in d['covers'].items() if v), d.get('error') or ''))
            for o in d['obs']:
                if o['failed'] or o['unknown']:
                    say('     %s x%d/%d at %s: %s' % (o['name'], o['failed'] + o['unknown'], o['total'], o['loc'][-300:], o['detail'][:600]))
        if a[0] == '--baseline':
            b = baseline()
            for h in hs:
                if judge(res[h], {}) == 'proved':
                    b[h] = {'covers': sorted(k for k, v in res[h]['covers'].items() if v)}
            b = {h: b[h] for h in sorted(b) if h in allh}
            json.dump(b, open(D + '/baseline.json', 'w'), indent=1)
    elif len(a) == 1:
        check(a[0])
    else:
        say(__doc__)
        sys.exit(2)


if __name__ == '__main__':
    main()
