#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on /repo's current tree: builds the symbolic executor
(engine/), compiles the property's harnesses with the real code of /repo to
LLVM IR, lets the engine decide every assertion for all inputs within the
stated bounds, replays counterexamples and sampled path models against a native
build of the same code, and writes evidence/<property>.json.

exit 0: the property held; 1: VIOLATION; 2: no answer (an error of the check).
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import props

BUILD = os.path.join(VERIF, 'build')
FIRST = 12  # seconds each harness gets in the first round
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Trouble(Exception):
    pass


def sources():
    """digest of everything a build depends on"""
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'stubs')):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'build'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, '/').encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def env(target, toolchain='stable', flags=''):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('CARGO_', 'RUST')) and k not in ('CARGO_HOME', 'RUSTUP_HOME'):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true',
             RUSTFLAGS=('--cfg vp_hooks -Awarnings ' + flags).strip())
    return e


def run(cmd, e, cwd, what, timeout=600):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        raise Trouble('%s failed' % what)
    return p.stdout


def build_engine():
    e = env(os.path.join(BUILD, 'engine'))
    e['RUSTFLAGS'] = ''
    run(['cargo', 'build', '--release', '--offline', '--locked'], e, os.path.join(VERIF, 'engine'), 'building the engine')
    return os.path.join(BUILD, 'engine', 'release', 'rsym')


def target_dir(kind, area, digest):
    """a directory that only ever holds the build of these very sources"""
    t = os.path.join(BUILD, '%s-%s-%s' % (kind, area, digest))
    old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                 if d.startswith('%s-%s-' % (kind, area)) and d != os.path.basename(t))
    for _, d in old[:-1] if len(old) > 1 else []:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(t, exist_ok=True)
    return t


HARNESS = os.path.join(VERIF, 'harness')


def build_ir(area, digest):
    t = target_dir('ir', area, digest)
    run(['cargo', 'rustc', '--offline', '--locked', '--release', '--lib', '--no-default-features', '--features', 'f_' + area,
         '--crate-type', 'cdylib', '--', '--emit=llvm-ir'], env(t), HARNESS, 'compiling to LLVM IR')
    return os.path.join(t, 'release', 'deps', 'harness.ll')


def build_replay(area, digest, mode='dev'):
    if mode == 'asan':
        t = target_dir('asan', area, digest)
        tr = 'x86_64-unknown-linux-gnu'
        run(['cargo', 'build', '--offline', '--locked', '--bin', 'replay', '--no-default-features', '--features', 'f_' + area, '--target', tr],
            env(t, 'nightly', '-Zsanitizer=address'), HARNESS, 'building the replay with AddressSanitizer')
        return os.path.join(t, tr, 'debug', 'replay')
    t = target_dir('rp', area, digest)
    cmd = ['cargo', 'build', '--offline', '--locked', '--bin', 'replay', '--no-default-features', '--features', 'f_' + area]
    if mode == 'user':
        cmd += ['--profile', 'user']
    run(cmd, env(t), HARNESS, 'building the replay')
    return os.path.join(t, 'user' if mode == 'user' else 'debug', 'replay')


def native(binary, args, timeout=20):
    try:
        p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', RUST_BACKTRACE='0'))
        return p.returncode, p.stdout.decode('utf8', 'replace')[-4000:]
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')[-400:]


def reproduced(kind, rc):
    if rc in (0, 11):
        return False
    if kind.startswith('hang'):
        return rc == 'timeout'
    if kind.startswith('alloc'):
        return rc == 13 or rc == 12
    return rc != 'timeout'


def label(line, src):
    """the text of the assertion at a harness line"""
    try:
        return src[line - 1].strip()
    except IndexError:
        return ''


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = props.PROPS[prop]
    area = spec['area']
    runs = list(spec['quick']) + (list(spec.get('thorough', [])) if tier == 'thorough' else [])
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    engine = build_engine()
    digest = sources()
    ll = build_ir(area, digest)
    log('built', ll)

    cap = spec.get('limit', 300) if tier == 'quick' else spec.get('thorough_limit', 3000)
    budget = 760 if tier == 'quick' else 6 * 3600
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['known'] if k['property'] == prop]

    def listed(h, v):
        return [k for k in known if k['harness'] == h['harness'] and k['kind'] in v['kind'] and k.get('at', '') in v['at']
                and (k.get('line') is None or k['line'] == v['kind'])]

    def decide(r, limit):
        left = budget - (time.time() - T0)
        if left < 5:
            raise Trouble('out of time before %s' % r['h'])
        out = os.path.join(BUILD, 'out-%s.json' % prop)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [engine, '--ll', ll, '--out', out, '--src', REPO + '/', '--threads', '8', '--limit', str(int(min(limit, left))), '--harness', r['h']]
        if not known:
            cmd += ['--after-viol', '15']
        for k in ('max-steps', 'max-alloc', 'max-depth', 'max-viol', 'solver-timeout'):
            if k in r:
                cmd += ['--' + k, str(r[k])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            print(p.stdout[-3000:])
            raise Trouble('engine failed on %s' % r['h'])
        h = json.load(open(out))['harnesses'][0]
        h['bound'] = r['b']
        h['reach'] = r.get('reach', False)
        log('%s: %d paths (%d assumed away), %d assertions, %d queries (%d decided by z3), solver %.1fs, wall %.1fs, %d violations%s' % (
            r['h'], h['paths'], h['assumed_away'], h['asserts'], h['queries'], h['z3_sat'] + h['z3_unsat'], h['solver_seconds'],
            h['wall_seconds'], len(h['violations']), ', inconclusive %s' % h['inconclusive'] if h['inconclusive'] else ''))
        return h

    # a short round first: a violation is often found in one of the other
    # harnesses long before an expensive one is through
    got = {}
    if len(runs) > 1:
        for i, r in enumerate(runs):
            h = decide(r, FIRST)
            if h['violations'] or not h['inconclusive']:
                got[i] = h
    for i, r in enumerate(runs):
        if i not in got:
            bad = any(v for h in got.values() for v in h['violations'] if not listed(h, v))
            got[i] = decide(r, 30 if bad else min(r.get('limit', cap), budget))
    results = [got[i] for i in range(len(runs))]

    # ---- the native build of the same code: does it agree?
    replay = build_replay(area, digest)
    src = {}
    trouble = []
    confirmed = []
    validated = 0
    for h in results:
        if not h['samples']:
            continue
        s = h['samples']
        step = max(1, len(s) // 24)
        s = s[seed % step::step][:32]
        f = os.path.join(BUILD, 'batch-%s.txt' % prop)
        with open(f, 'w') as fh:
            for x in s:
                fh.write('%s %s\n' % (h['harness'], x['input']))
        rc, text = native(replay, ['-b', f], 120)
        done = [l for l in text.splitlines() if l.startswith('done ')]
        for x, l in zip(s, done):
            want = 'done %d %d %s' % (x['covers'], x['asserts'], x['trace'])
            if l != want:
                trouble.append('%s input %s: native run shows "%s", the engine "%s"' % (h['harness'], x['input'], l, want))
            else:
                validated += 1
        if rc != 0 or len(done) != len(s):
            x = s[len(done)] if len(done) < len(s) else s[-1]
            trouble.append('%s input %s: native run ended with %s where the engine found no fault: %s' % (h['harness'], x['input'], rc, text[-300:]))

    known_hit = []
    for h in results:
        vs = [dict(v) for v in h['violations']]
        for v in vs:
            rc, text = native(replay, [h['harness'], v['input']])
            v['native'] = {'exit': rc, 'output': text[-600:]}
            ok = reproduced(v['kind'], rc)
            if not ok and v['kind'].startswith(('memory', 'ub', 'abort')):
                asan = build_replay(area, digest, 'asan')
                rc, text = native(asan, [h['harness'], v['input']])
                v['asan'] = {'exit': rc, 'output': text[:1500]}
                ok = rc not in (0, 11)
            if not ok:
                trouble.append('%s: %s at %s with input %s did not reproduce natively (exit %s)' % (h['harness'], v['kind'], v['at'], v['input'], rc))
                continue
            k = listed(h, v)
            if k:
                if k[0] not in known_hit:
                    known_hit.append(k[0])
                continue
            confirmed.append((h, v))
        if h['reach'] and h['covers_missing'] and not h['inconclusive'] and not vs:
            v = {'kind': 'unreachable: no input reaches the outcomes %s' % [i for i in range(64) if h['covers_missing'] >> i & 1],
                 'at': h['harness'], 'input': ''}
            k = listed(h, v)
            if k:
                known_hit += [x for x in k if x not in known_hit]
            else:
                confirmed.append((h, v))
        elif h['covers_missing'] and not vs and not h['inconclusive']:
            trouble.append('%s: nothing reaches the markers %s: the harness is vacuous there' % (h['harness'], [i for i in range(64) if h['covers_missing'] >> i & 1]))
        if not [v for v in vs if not listed(h, v)]:
            for k, n in h['inconclusive'].items():
                trouble.append('%s: inconclusive: %s (%d)' % (h['harness'], k, n))

    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    # ---- evidence
    fns = sorted({f for h in results for f in h['functions']})
    lines = {}
    for h in results:
        for f, n in h['lines'].items():
            lines[f] = max(lines.get(f, 0), n)
    paths = sum(h['paths'] for h in results)
    samples = []
    for h in results:
        for x in h['samples'][:2]:
            samples.append({'harness': h['harness'], 'input': x['input'], 'asserts_checked': x['asserts']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': paths,
            'transitions': sum(h['forks'] for h in results) + paths,
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'exhaustive': not trouble and not any(h['inconclusive'] for h in results),
            'rule': 'states: symbolic paths run to their end (each stands for all inputs with the same branch decisions); transitions: '
                    'branch decisions; validated: path models run on a native build with the same covers, assertion count and traced values',
            'solver': 'z3 (libz3) on bit-vector terms built from the LLVM IR of this tree',
            'queries': sum(h['queries'] for h in results),
            'queries_decided_by_z3': sum(h['z3_sat'] + h['z3_unsat'] for h in results),
            'queries_unknown': sum(h['z3_unknown'] for h in results),
            'assertions_decided': sum(h['asserts'] for h in results),
            'solver_seconds': round(sum(h['solver_seconds'] for h in results), 2),
            'ir_instructions_executed': sum(h['steps'] for h in results),
            'functions_encoded': fns,
            'lines_executed_per_file': lines,
            'harnesses': [{k: h[k] for k in ('harness', 'bound', 'paths', 'assumed_away', 'asserts', 'queries', 'z3_sat', 'z3_unsat', 'z3_unknown',
                                             'solver_seconds', 'wall_seconds', 'input_bytes', 'max_steps', 'covers_missing', 'inconclusive')} for h in results],
            'outside': spec.get('outside', ''),
            'no_answer': trouble[:10],
        },
        'assumptions': props.COMMON + spec.get('assume', []),
        'wall_s': round(time.time() - T0, 2),
        'violations': len(confirmed),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)

    if confirmed:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        seen = set()
        n = 0
        for h, v in confirmed:
            what = v['kind']
            if what.startswith('assert '):
                if not src:
                    for f in os.listdir(os.path.join(HARNESS, 'src')):
                        if f.startswith('h_'):
                            src[f] = open(os.path.join(HARNESS, 'src', f)).read().splitlines()
                what += ' [%s]' % label(int(what.split()[1]), src.get('h_%s.rs' % area, []))
            if (h['harness'], what) in seen:
                continue
            seen.add((h['harness'], what))
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (prop, n))
            n += 1
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'area': area, 'harness': h['harness'], 'what': what, 'at': v['at'], 'input': v['input'],
                           'native': v.get('native'), 'asan': v.get('asan'),
                           'how': 'cd /verif/harness && RUSTFLAGS="--cfg vp_hooks" cargo run --offline --features f_%s --bin replay -- %s %s' % (area, h['harness'], v['input'])},
                          fh, indent=1)
            print('%s: %s at %s, input %s' % (h['harness'], what, v['at'], v['input']))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        for t in trouble[:5]:
            log('also:', t)
        return 1
    if trouble:
        for t in trouble[:20]:
            print('NO ANSWER:', t)
        return 2
    log('%s held: %d paths, %d assertions, %d native traces' % (prop, paths, sum(h['asserts'] for h in results), validated))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Trouble as e:
        print('NO ANSWER:', e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print('NO ANSWER: timeout', e.cmd)
        sys.exit(2)
