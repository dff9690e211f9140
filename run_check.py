#!/usr/bin/env python3
"""Decide one property: run its contract harnesses through Kani/CBMC (and, where
the property has one, the Verus file extracted from /repo), confirm every failed
obligation against the real code natively, and write evidence/<id>.json.

usage: run_check.py <PROPERTY>        tier from VERIF_TIER, seed from VERIF_SEED
"""
import json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks as CHECKS  # noqa: E402

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
START = time.time()
# Stay below the 900 s a check gets; the thorough command may take longer.
BUDGET = 820 if TIER == 'quick' else 5400
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SPEC = CHECKS.CHECKS[PROP]
MOD = PROP.lower()


def left():
    return BUDGET - (time.time() - START)


def log(*a):
    print('[%6.1f]' % (time.time() - START), *a, flush=True)


def env(internal=False, native=False):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('CARGO_TARGET_DIR', None)
    # The harnesses allocate little: keep a runaway solver from taking the box.
    flags = []
    if internal:
        flags.append('--cfg musli_verif')
    flags.append('-Awarnings')
    e['RUSTFLAGS'] = ' '.join(flags)
    e['RUST_BACKTRACE'] = '0'
    return e


def sh(cmd, cwd, e, timeout):
    """Run, kill the whole group on timeout. Returns (rc or None, output)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ''


def crate_dir(internal):
    return os.path.join(HERE, 'kani-int' if internal else 'kani')


def kani(internal, names, unwind=None, timeout=None, extra=()):
    """Run the given harnesses (exact names). Returns dict name -> result, output."""
    d = crate_dir(internal)
    tgt = os.path.join(d, 'target')
    os.makedirs(tgt, exist_ok=True)
    js = os.path.join(tgt, 'out-%s-%d.json' % (PROP, os.getpid()))
    if os.path.exists(js):
        os.remove(js)
    ht = timeout or SPEC.get('harness_timeout', 300)
    ht = int(max(20, min(ht, left() - 40)))
    cmd = ['cargo', 'kani', '-j', str(JOBS), '--output-format', 'terse', '-Z', 'unstable-options',
           '-Z', 'function-contracts', '-Z', 'stubbing', '-Z', 'loop-contracts',
           '--export-json', js, '--harness-timeout', '%ds' % ht, '--exact', '--features', MOD]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    for n in names:
        cmd += ['--harness', n]
    cmd += list(extra) + ['--cbmc-args', '--max-field-sensitivity-array-size', '96']
    rc, out = sh(cmd, d, env(internal), left())
    res = {}
    if os.path.exists(js):
        data = json.load(open(js))
        stats = {c['harness_id']: c.get('cbmc_stats') or {} for c in data.get('cbmc') or []}
        for r in data['verification_results']['results']:
            r['stats'] = stats.get(r['harness_id'], {})
            res[r['harness_id']] = r
        os.remove(js)
    return res, out, rc, cmd


BAD = ('Failure', 'FAILURE')


def classify(r):
    """-> (kind, failing obligations, obligations, discharged, vacuous)"""
    checks = r.get('checks') or []
    fails, covers_bad, n, ok = [], [], 0, 0
    for c in checks:
        st, cat = c['status'], c.get('category', '')
        if cat == 'cover' or st in ('Satisfied', 'Unsatisfiable', 'Covered', 'Uncovered'):
            if st in ('Unsatisfiable', 'Unreachable', 'Uncovered'):
                covers_bad.append(c)
            continue
        if cat == 'reachability_check':
            continue
        n += 1
        if st in ('Success', 'Unreachable'):
            ok += 1
        else:
            fails.append(c)
    if '::p_refuse' in r['harness_id'] or '::b_refuse' in r['harness_id']:
        # `should_panic`: a panic is what is asked for, and Kani's verdict takes
        # everything else into account.
        other = [c for c in fails if c.get('category') != 'assertion']
        if r['status'] == 'Success' and not other:
            return 'ok', covers_bad, n, n
        fails = other or [{'description': 'the call returns, or panics are not the only way it fails',
                           'function': r['harness_id'], 'location': {}, 'status': 'Failure', 'category': 'should_panic'}]
    if r['status'] == 'Success' and not fails:
        return ('vacuous' if covers_bad else 'ok'), covers_bad, n, ok
    real = [c for c in fails if c['status'] in BAD and c.get('category') not in ('unwind', 'unsupported_construct')]
    if real:
        return 'failed', real, n, ok
    if any(c.get('category') == 'unwind' for c in fails):
        return 'unwind', [c for c in fails if c.get('category') == 'unwind'], n, ok
    if fails:
        return 'undecided', fails, n, ok
    return 'undecided', [{'description': 'no answer (time or memory limit)', 'function': r['harness_id'],
                          'location': {}}], n, ok


# --- replay ---------------------------------------------------------------

_replay_bin = {}


def replay_bin(internal):
    if internal in _replay_bin:
        return _replay_bin[internal]
    d = crate_dir(internal)
    subprocess.run([sys.executable, os.path.join(HERE, 'kani', 'gen_registry.py'), os.path.join(d, 'src')], check=True)
    rc, out = sh(['cargo', 'build', '--offline', '--bin', 'replay', '--features', MOD, '--target-dir', os.path.join(d, 'target', 'native')],
                 d, env(internal), max(60, left()))
    b = os.path.join(d, 'target', 'native', 'debug', 'replay')
    _replay_bin[internal] = b if rc == 0 else None
    if rc != 0:
        log('replay build failed', out[-800:])
    return _replay_bin[internal]


def concrete(internal, name, unwind):
    """Ask Kani for the counterexample of one harness, as one byte stream."""
    d = crate_dir(internal)
    cmd = ['cargo', 'kani', '-Z', 'unstable-options', '-Z', 'function-contracts', '-Z', 'stubbing',
           '-Z', 'loop-contracts', '-Z', 'concrete-playback', '--concrete-playback=print',
           '--harness-timeout', '%ds' % int(max(20, min(200, left() - 60))), '--exact', '--features', MOD, '--harness', name]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    rc, out = sh(cmd, d, env(internal), max(20, min(260, left() - 30)))
    streams = []
    for body in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        bs = []
        for v in re.findall(r'vec!\[([^\]]*)\]', body):
            bs += [int(x) for x in v.replace(' ', '').split(',') if x]
        h = bytes(bs).hex()
        if h not in streams:
            streams.append(h)
    return streams, out


def confirm(internal, name, unwind, quick=False):
    """-> (hex input or None, transcript)"""
    b = replay_bin(internal)
    if not b:
        return None, 'the native replay binary does not build'
    tr = ''
    # Random inputs are quick to try; the verifier's own counterexample is next.
    def fuzz(secs, tr):
        rc, out = sh([b, 'fuzz', name, str(secs), str(SEED)], HERE, env(), secs + 20)
        tr += '$ replay fuzz %s %d %d\nexit %s\n%s\n' % (name, secs, SEED, rc, out[-1500:])
        m = re.search(r'FAIL (\w*)', out)
        return (m.group(1) if m else None), tr
    h, tr = fuzz(4, tr)
    if h is not None or quick:
        return h, tr
    if left() > 60:
        streams, _ = concrete(internal, name, unwind)
        for h in streams:
            rc, out = sh([b, 'run', name, h], HERE, env(), 30)
            tr += '$ replay run %s %s\nexit %s\n%s\n' % (name, h, rc, out[-1500:])
            if rc not in (0, 3, 4):
                return h, tr
    return fuzz(int(max(3, min(20, left() - 20))), tr)


def brief(c):
    loc = c.get('location') or {}
    return {'obligation': c.get('description'), 'function': c.get('function'), 'category': c.get('category'),
            'status': c.get('status'), 'at': '%s:%s' % (loc.get('file'), loc.get('line'))}


_confirmed = []


def report(internal, name, kind, fails, unwind, known):
    hexin, tr = (None, '')
    if internal is not None:
        # Once there is a failing input, the others are only tried quickly.
        hexin, tr = confirm(internal, name, unwind, bool(_confirmed))
        if hexin is not None:
            _confirmed.append(name)
        elif _confirmed:
            log('also not discharged:', name, kind)
            return
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%s.json' % (PROP, re.sub(r'\W+', '_', name)))
    with open(path, 'w') as f:
        json.dump({'property': PROP, 'harness': name, 'kind': kind, 'failed_obligations': [brief(c) for c in fails],
                   'input_hex': hexin, 'replay': None if hexin is None else
                   'cargo build --bin replay && target/debug/replay run %s %s' % (name, hexin),
                   'crate': None if internal is None else os.path.basename(crate_dir(internal)), 'transcript': tr}, f, indent=1)
    for c in fails[:4]:
        log('failed obligation:', json.dumps(brief(c)))
    print('VIOLATION property=%s replay=%s%s' % (PROP, path, '' if hexin is not None else ' no-failing-input-found'),
          flush=True)


# --- main -----------------------------------------------------------------

def load_known():
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return [k for k in out if k.get('property') == PROP and k.get('status') == 'open']


def select(internal):
    sys.path.insert(0, os.path.join(HERE, 'kani'))
    from gen_registry import harnesses
    src = os.path.join(crate_dir(internal), 'src')
    if not os.path.isdir(src):
        return []
    out = []
    for m, n in harnesses(src):
        if m.split('_')[0] != MOD:
            continue
        if n.startswith(('pt_', 'bt_')) and TIER != 'thorough':
            continue
        out.append('%s::%s' % (m, n))
    return out


def main():
    known = load_known()
    violations = 0
    notes, harn, cmds = [], [], []
    tot = {'p': [0, 0], 'b': [0, 0]}
    solver = 0.0
    fatal = None
    for internal in (False, True):
        names = select(internal)
        if not names:
            continue
        d = crate_dir(internal)
        if internal and left() < 120:
            notes.append('the internal contract harnesses were skipped: out of time')
            continue
        log('%s: %d harnesses' % (os.path.basename(d), len(names)))
        res, out, rc, cmd = kani(internal, names)
        cmds.append(' '.join(cmd[:12]) + ' --harness ' + MOD + '::*')
        if not res:
            if rc is None:
                undecided = names
            elif internal:
                # The hooks bind to private items: the obligations about those can
                # not be generated from this tree, so they are not discharged.
                notes.append('the internal contract harnesses do not compile against this tree: ' + out[-400:])
                violations += 1
                report(None, 'internal_harnesses', 'not generated',
                       [{'description': 'the contracts on private functions do not compile against this tree',
                         'function': MOD, 'location': {}}], None, known)
                log(out[-1500:])
                continue
            else:
                print(out[-4000:])
                fatal = 'the harnesses could not be run'
                break
        pend = list(names)
        unwind = None
        todo = []
        for n in names:
            r = res.get(n)
            if r is None:
                todo.append((n, 'undecided', [{'description': 'no answer (time or memory limit)', 'function': n}], None))
                harn.append({'harness': n, 'result': 'undecided'})
                continue
            kind, fails, nob, ok = classify(r)
            uw = None
            if kind == 'unwind':
                for k in (40, 80):
                    if left() < 90:
                        break
                    log('retry with a larger unwinding bound:', n, k)
                    r2, _, _, _ = kani(internal, [n], unwind=k, timeout=200)
                    if n in r2:
                        kind, fails, nob, ok = classify(r2[n])
                        r, uw = r2[n], k
                        if kind != 'unwind':
                            break
            short = n.split('::')[1]
            cls = 'b' if short.startswith('b') else 'p'
            tot[cls][0] += nob
            tot[cls][1] += ok
            sec = r.get('duration_ms', 0) / 1000.0
            solver += (r.get('stats') or {}).get('runtime_decision_procedure_s') or 0
            harn.append({'harness': n, 'result': kind, 'obligations': nob, 'discharged': ok, 'seconds': sec,
                         'class': 'bounded' if cls == 'b' else 'complete'})
            if kind != 'ok':
                todo.append((n, kind, fails, uw))
        # Most informative first, and only confirm a few of them.
        order = {'failed': 0, 'vacuous': 1, 'unwind': 2, 'undecided': 3}
        todo.sort(key=lambda t: order[t[1]])
        shown = 0
        for n, kind, fails, uw in todo:
            k = [f for f in known if f.get('harness') == n]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (PROP, k[0].get('what')))
                continue
            violations += 1
            if shown < 3:
                report(internal, n, kind, fails, uw, known)
                shown += 1
            else:
                log('also not discharged:', n, kind)
    verus = None
    if not fatal and SPEC.get('verus'):
        import verus_check
        verus = verus_check.run(SPEC['verus'], HERE, min(300, left()))
        for v in verus['violations']:
            violations += 1
            report(None, 'verus_' + v['name'], 'failed', [{'description': v['what'], 'function': v['name']}], None, known)
        notes += verus['notes']
        tot['p'][0] += verus['obligations']
        tot['p'][1] += verus['discharged']
    wall = time.time() - START
    complete = [h for h in harn if h.get('class') == 'complete']
    bounded = [h for h in harn if h.get('class') == 'bounded']
    level = SPEC['level']
    cov = {
        'obligations': tot['p'][0], 'discharged': tot['p'][1],
        'checker_cmd': ' ; '.join(cmds) or 'none',
        'trusted_base': SPEC.get('trusted', []) + CHECKS.TRUSTED,
        'backend': 'Kani 0.68.0 / CBMC 6.11.0 / cadical' + (' ; Verus / z3' if verus else ''),
        'functions_under_contract': SPEC.get('functions', []),
        'complete_harnesses': len(complete), 'bounded_harnesses': len(bounded),
        'bounded_obligations_not_counted_as_proved': tot['b'][0],
        'bounded_obligations_discharged': tot['b'][1],
        'bounds': SPEC.get('bounds', 'none'),
        'solver_seconds': round(solver, 2),
        'verification_seconds': round(sum(h.get('seconds', 0) for h in harn), 1),
        'harnesses': harn,
        'explanation': SPEC.get('explanation', ''),
        'samples': [h['harness'] for h in harn][:5],
    }
    if verus:
        cov['verus'] = {k: verus[k] for k in ('functions', 'obligations', 'discharged', 'seconds', 'cmd', 'dropped')}
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': SPEC.get('assumptions', []) + notes, 'wall_s': round(wall, 1), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%d harnesses, %d/%d obligations of complete harnesses, %d/%d of bounded ones, %d violations' % (
        len(harn), tot['p'][1], tot['p'][0], tot['b'][1], tot['b'][0], violations))
    for n in notes:
        log('note:', n[:300])
    if fatal:
        print('ERROR', fatal)
        sys.exit(2)
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
