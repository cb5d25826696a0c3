#!/usr/bin/env python3
"""Mutation analysis of the checks (not a check itself).

  run_mutants.py stage1 mutants.jsonl survivors.jsonl        mutants that compile and pass /repo's tests
  run_mutants.py stage2 survivors.jsonl matrix.jsonl [DIV] [IDS]   which checks report them (1/DIV of the quick cases)

Mutants are laid over /repo with go's -overlay; /repo itself is not touched.
"""
import json, os, subprocess, sys, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from plan import PLAN
from run import go_env

CACHE = '/tmp/mutcache'
REPO = os.environ.get('MUT_REPO', '/repo')
HARNESS = os.environ.get('MUT_HARNESS', os.path.join(os.path.dirname(HERE), 'harness'))
LIKELY = {
    'decoder.go': ['C10', 'C15', 'C14'], 'encoder.go': ['C11', 'C12'], 'types.go': ['C24', 'C27', 'C15', 'C21'], 'u128.go': ['C23', 'C11', 'C10'],
    'variant.go': ['C22'], 'heck.go': ['C26'], 'sighash.go': ['C26'], 'compact-u16.go': ['C14'], 'interface.go': ['C13'], 'tools.go': ['C33'],
    'utils.go': ['C33'], 'error.go': ['C32'], 'tags-parser.go': ['C34', 'C19', 'C18', 'C16'], 'tags-options.go': ['C34', 'C31', 'C16'],
    'decoder_borsh.go': ['C07', 'C01', 'C17'], 'decoder_bin.go': ['C07', 'C02'], 'decoder_compact-u16.go': ['C07', 'C03'],
    'encoder_borsh.go': ['C04', 'C17'], 'encoder_bin.go': ['C05'], 'encoder_compact-u16.go': ['C06'],
}
env = go_env()
env['GOCACHE'] = CACHE
lock = threading.Lock()


def overlay(m, d):
    src = open(REPO + '/' + m['file'], 'rb').read()
    assert src[m['off']:m['end']].decode() == m['old'], m
    p = os.path.join(d, m['file'])
    open(p, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
    o = os.path.join(d, 'ov.json')
    json.dump({'Replace': {REPO + '/' + m['file']: p}}, open(o, 'w'))
    return o


def sh(cmd, cwd, timeout, extra=None):
    e = dict(env)
    e.update(extra or {})
    try:
        p = subprocess.run(['prlimit', '--as=%d' % (12 << 30), '--'] + cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def stage1(m):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        o = overlay(m, d)
        rc, out = sh(['go', 'test', '-p', '1', '-vet=off', '-count=1', '-timeout', '20s', '-overlay', o, '.'], REPO, 60)
        return 'survives' if rc == 0 else 'killed'
    finally:
        shutil.rmtree(d)


def stage2(m, div, ids):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    res = {}
    try:
        o = overlay(m, d)
        b = os.path.join(d, 'h.test')
        likely = LIKELY.get(m['file'], [])
        ids = [i for i in likely if i in ids] + [i for i in ids if i not in likely]
        rc, out = sh(['go', 'test', '-c', '-p', '2', '-overlay', o, '-o', b, '.'], HARNESS, 120)
        if rc:
            return {'build': out[-300:]}
        for i in ids:
            n = max(50, PLAN[i]['quick'] // div)
            rc, out = sh([b, '-test.run', 'Test%s$' % i, '-rapid.seed=%d' % (m['off'] * 7 + 1), '-rapid.shrinktime=0s', '-rapid.nofailfile', '-test.failfast', '-test.timeout', '170s'],
                         d, 180, {'VERIF_CHECKS': str(n), 'GOMAXPROCS': '2', 'VERIF_HANG': '20', 'VERIF_SHARD': '0', 'VERIF_SHARDS': '8'})
            if rc:
                res[i] = rc
                if os.environ.get('FIRST'):
                    break
        return res
    finally:
        shutil.rmtree(d)


def main():
    mode, src, dst = sys.argv[1:4]
    ms = [json.loads(l) for l in open(src)]
    done = set()
    key = lambda m: (m['file'], m['off'], m['end'], m['new'])
    if os.path.exists(dst + '.log'):
        done = {tuple(json.loads(l)) for l in open(dst + '.log')}
    ms = [m for m in ms if key(m) not in done]
    out, log = open(dst, 'a'), open(dst + '.log', 'a')
    div = int(sys.argv[4]) if len(sys.argv) > 4 else 60
    ids = sys.argv[5].split(',') if len(sys.argv) > 5 else [i for i in PLAN if i not in ('C28', 'C29')]

    def one(m):
        if mode == 'stage1':
            r = stage1(m)
            keep = r == 'survives'
        else:
            m['killed_by'] = stage2(m, div, ids)
            keep = True
        with lock:
            if keep:
                out.write(json.dumps(m) + '\n')
                out.flush()
            log.write(json.dumps(key(m)) + '\n')
            log.flush()
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        list(ex.map(one, ms))


main()
