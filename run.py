#!/usr/bin/env python3
"""Run the check of one property.

  run.py C07                 quick tier (VERIF_TIER, VERIF_SEED from the environment)
  run.py C07 thorough        thorough tier
  run.py C07 --replay FILE   run the case of a replay file again

Exit 0: the property held on every generated case. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not hold. Anything else: no
verdict (the harness or the tree does not build, no memory, ...).
"""
import collections, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, 'harness')
REPO = '/repo'
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
sys.path.insert(0, VERIF)
from plan import PLAN  # noqa: E402

SHARDS = 8


def note(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(('VERIF_', 'RAPID')) and
           k not in ('TRACE', 'DEBUG', 'INFO', 'WARN', 'WARNING', 'ERROR', 'DLOG', 'ZAP_PRETTY', 'GORACE',
                     'GODEBUG', 'GOGC', 'GOMEMLIMIT', 'GOMAXPROCS', 'GOTRACEBACK')}
    env.setdefault('HOME', '/root')
    paths = ['/opt/veriftools/go1.27.3/bin'] + env.get('PATH', '').split(':') + ['/usr/local/bin', '/usr/bin', '/bin']
    env['PATH'] = ':'.join(p for p in paths if p)
    env.update(GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOTOOLCHAIN='local', GOPROXY='off',
               GOFLAGS='-mod=readonly', GOWORK='off', GOSUMDB='off', CGO_ENABLED=env.get('CGO_ENABLED', '1'))
    env.setdefault('GOCACHE', '/root/.cache/go-build')
    return env


def build(pid, work):
    """Compile the harness with the library as it is in /repo now."""
    cfg = PLAN[pid]
    out = os.path.join(work, 'h.test')
    base = ['go', 'test', '-c', '-o', out]
    variants = [base + ['.']]
    if cfg.get('race'):
        variants = [base + ['-race', '.']]
    if cfg.get('trace'):
        ov = os.path.join(work, 'overlay.json')
        with open(ov, 'w') as f:
            json.dump({'Replace': {REPO + '/zz_verif_trace.go': os.path.join(VERIF, 'overlay', 'trace_hook.go.txt')}}, f)
        # without the tracing hook, if the package has no such switch any more
        variants = [base + ['-tags', 'veriftrace', '-overlay', ov, '.'], base + ['.']]
    err = ''
    for cmd in variants:
        p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return out, cmd
        err = p.stdout
        note('build:', ' '.join(cmd), 'failed')
    note(err)
    note('ERROR: the harness does not build against /repo')
    sys.exit(2)


def mix(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'little') >> 2 | 1


class Result:
    pass


def execute(binary, pid, work, name, seed, checks, shard, shards, limit, shrink='15s', test=None):
    cfg = PLAN[pid]
    cwd = os.path.join(work, name)
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(cwd)
    env = go_env()
    env.update(VERIF_CHECKS=str(checks), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
               VERIF_STATS=os.path.join(cwd, 'stats'), GOTRACEBACK='all', TMPDIR=cwd)
    if cfg.get('race'):
        env['GORACE'] = 'halt_on_error=1 exitcode=66 history_size=3'
    args = [binary, '-test.run', '^%s$' % (test or 'Test' + pid), '-test.timeout', '0', '-test.v=false',
            '-rapid.seed=%d' % seed, '-rapid.shrinktime=' + shrink]

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not cfg.get('race'):
            gb = 3584 << 20
            resource.setrlimit(resource.RLIMIT_AS, (gb, gb))

    r = Result()
    r.name, r.seed, r.checks, r.shard, r.shards, r.timeout = name, seed, checks, shard, shards, False
    r.cwd = cwd
    log = os.path.join(cwd, 'log')
    with open(log, 'wb') as f:
        p = subprocess.Popen(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT,
                             preexec_fn=limits)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            r.timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    r.rc = p.returncode
    with open(log, 'rb') as f:
        r.out = f.read(8 << 20).decode('utf-8', 'replace')
    r.stats, r.nt = None, b''
    try:
        with open(env['VERIF_STATS']) as f:
            r.stats = json.load(f)
        with open(env['VERIF_STATS'] + '.nt', 'rb') as f:
            r.nt = f.read()
    except (OSError, ValueError):
        pass
    return r


def library_frames(out):
    return 'github.com/gagliardetto/binary.' in out or '/repo/' in out


def classify(r):
    """ok, fail (a decided violation), suspect (confirm first), infra."""
    if r.rc == 0 and r.stats is not None and not r.timeout:
        return 'ok'
    if re.search(r'panic after \d+ tests?: harness:|panic: harness:|harness: cannot', r.out):
        return 'infra'
    if r.timeout or r.rc == 67:
        return 'suspect'
    if r.rc == 66 and 'DATA RACE' in r.out:
        return 'fail' if library_frames(r.out) else 'infra'
    if r.rc == 1 and '--- FAIL' in r.out:
        return 'suspect' if '[rapid] flaky test' in r.out else 'fail'
    if r.rc in (2, -6, -9, -11) or 'fatal error' in r.out:
        return 'suspect'
    return 'infra'


def headline(r):
    if r.timeout or r.rc == 67:
        return 'a generated case does not finish'
    m = re.search(r'\[rapid\] [^\n]*(?:\n(?!\s*To reproduce)[^\n]*){0,6}', r.out)
    if m:
        return m.group(0)
    m = re.search(r'(WARNING: DATA RACE|fatal error:[^\n]*|panic:[^\n]*)(\n[^\n]*){0,12}', r.out)
    if m:
        return m.group(0)
    return r.out[-1500:]


def save_replay(pid, r, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    rep = {'property': pid, 'tier': tier, 'test': 'Test' + pid, 'seed': r.seed, 'checks': r.checks,
           'shard': r.shard, 'shards': r.shards, 'what': headline(r)}
    m = re.search(r'To reproduce, specify -run="([^"]+)"[^\n]*-rapid\.seed=(\d+)', r.out)
    if m and '[rapid] flaky' not in r.out:
        rep['case_seed'] = int(m.group(2))  # reproduces with one case
        rep['case_test'] = m.group(1)
    fails = []
    for root, _, files in os.walk(os.path.join(r.cwd, 'testdata')):
        for f in files:
            with open(os.path.join(root, f), errors='replace') as fh:
                fails.append(fh.read(200000))
    rep['minimal_case'] = fails[:1]
    rep['output'] = r.out[:20000]
    path = os.path.join(d, '%s-%d.json' % (pid, r.seed))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    return path


def known_findings(pid):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', line.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def setup():
    """Compile every variant of the harness once."""
    work = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        for pid in ['C01'] + [p for p in sorted(PLAN) if PLAN[p].get('race') or PLAN[p].get('trace')]:
            build(pid, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    args = sys.argv[1:]
    if args[:1] == ['--setup']:
        sys.exit(setup())
    pid = args.pop(0)
    cfg = PLAN[pid]
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        del args[i:i + 2]
    tier = args[0] if args else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        note('unknown tier', tier)
        sys.exit(2)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = mix(os.environ['VERIF_SEED'])
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        code = run(pid, cfg, tier, seed, replay, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, cfg, tier, seed, replay, work, t0):
    binary, cmd = build(pid, work)
    built = time.time() - t0
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        if 'case_seed' in rep:
            r = execute(binary, pid, work, 'replay', rep['case_seed'], 1, rep['shard'], rep['shards'], 600, test=rep['test'])
        else:
            r = execute(binary, pid, work, 'replay', rep['seed'], rep['checks'], rep['shard'], rep['shards'], 600)
        print(r.out[:6000])
        c = classify(r)
        if c in ('fail', 'suspect'):
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        return 0 if c == 'ok' else 2

    total = cfg['quick'] if tier == 'quick' else cfg['thorough']
    # types made at run time stay in memory, so a process gets a limited number of cases
    chunk = cfg.get('chunk', 25000)
    shards = max(SHARDS, -(-total // chunk))
    shards += -shards % SHARDS
    per = max(1, total // shards)
    limit = 280 if tier == 'quick' else 6 * 3600
    with ThreadPoolExecutor(SHARDS) as ex:
        rs = list(ex.map(lambda i: execute(binary, pid, work, 's%d' % i, mix(seed, pid, i), per, i, shards, limit),
                         range(shards)))
    known = known_findings(pid)
    seen_known, violation, infra = set(), None, None
    reruns = 0
    for r in rs:  # the lowest shard reports, so that runs are reproducible
        c = classify(r)
        if c == 'suspect' and violation is None and reruns < 2:
            reruns += 1
            again = 1 if (r.timeout or r.rc == 67) else 3
            verdict = 'gone'
            for k in range(again):
                note('confirming shard %d (exit %s%s)' % (r.shard, r.rc, ', timeout' if r.timeout else ''))
                r2 = execute(binary, pid, work, 'c%d' % r.shard, r.seed, r.checks, r.shard, r.shards,
                             limit if tier == 'quick' else 3600)
                c2 = classify(r2)
                if c2 in ('fail', 'suspect'):
                    verdict = 'again'
                    if c2 == 'fail':
                        r = r2
                    break
            if verdict == 'again':
                crash = r.rc not in (1, 66, 67) and not r.timeout
                if crash and not library_frames(r.out) and r.rc != -9:
                    c = 'infra'
                else:
                    c = 'fail'
            else:
                note('not reproduced: shard %d of %s' % (r.shard, pid))
                c = 'ok' if r2.stats is not None else 'infra'
                r.stats, r.nt = r2.stats, r2.nt
        if c == 'fail':
            hit = [k for k in known if re.search(k[0], r.out)]
            if hit:
                seen_known.update(hit)
            elif violation is None:
                violation = r
        elif c == 'infra' and infra is None:
            infra = r

    write_evidence(pid, cfg, tier, seed, rs, time.time() - t0, built, violation, cmd)
    for _, what in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if violation is not None:
        path = save_replay(pid, violation, tier)
        print(headline(violation)[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if infra is not None:
        note(infra.out[-4000:])
        note('ERROR: shard %d of %s gave no verdict (exit %s)' % (infra.shard, pid, infra.rc))
        return 2
    ev = sum(r.stats['evaluations'] for r in rs if r.stats)
    print('OK property=%s tier=%s seed=%d evaluations=%d wall=%.1fs (build %.1fs)' % (pid, tier, seed, ev, time.time() - t0, built))
    return 0


def write_evidence(pid, cfg, tier, seed, rs, wall, built, violation, cmd):
    ev, classes, exh, samples, nts = 0, collections.Counter(), collections.Counter(), [], set()
    for r in rs:
        if not r.stats:
            continue
        ev += r.stats['evaluations']
        classes.update(r.stats.get('classes') or {})
        exh.update(r.stats.get('exhaustive') or {})
        samples += (r.stats.get('samples') or [])[:3]
        nts.update(struct.unpack('<%dQ' % (len(r.nt) // 8), r.nt))
    cov = {
        'evaluations': ev,
        'distinct_nontrivial': len(nts),
        'rule': cfg['rule'],
        'samples': samples[:12],
        'classes': dict(sorted(classes.items())),
        'shards': len(rs),
        'shards_with_statistics': sum(1 for r in rs if r.stats),
        'build_s': round(built, 2),
        'build_cmd': ' '.join(c if not c.startswith('/tmp') else os.path.basename(c) for c in cmd),
    }
    if exh:
        cov['enumerated_completely'] = dict(exh)
    out = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'), 'coverage': cov,
        'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if violation is not None else 0,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(out, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))


if __name__ == '__main__':
    main()
