#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [quick|thorough] | run.py replay <property> <replay dir>

Builds the harness against /repo's working tree, runs it, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS  # noqa: E402

GO = '/opt/veriftools/go1.23.12/bin'


def env_base():
    e = dict(os.environ)
    for k in ('GOROOT', 'GOWORK', 'GOFLAGS'):
        e.pop(k, None)
    e['PATH'] = GO + ':' + e.get('PATH', '/usr/bin:/bin')
    e.update(GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', GOPROXY='off', GOSUMDB='off', CGO_ENABLED='1',
             GORACE='halt_on_error=0 exitcode=66 history_size=3', TZ='UTC')
    return e


def say(*a):
    print(*a, flush=True)


def build(pkg, race, out):
    # go.rice (a dependency) reads its own executable and trips over debug sections
    cmd = ['go', 'test', '-c', '-ldflags=-s -w', '-o', out] + (['-race'] if race else []) + [pkg]
    t = time.time()
    p = subprocess.run(cmd, cwd=HARNESS, env=env_base(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        say(p.stdout[-6000:])
        say('ERROR: the harness does not build against /repo')
        sys.exit(2)
    return time.time() - t


def build_program(kind, out):
    cmd = ['go', 'build', '-ldflags=-s -w', '-o', out, 'github.com/ConsenSys/fc-retrieval/%s/cmd/%s' % (kind, kind)]
    p = subprocess.run(cmd, cwd=HARNESS, env=env_base(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        say(p.stdout[-6000:])
        say('ERROR: the %s does not build' % kind)
        sys.exit(2)


def classify(rc, log, timed_out):
    """-> ('ok'|'violation'|'error', reason)"""
    if timed_out and 'VERIF-FALSIFIED' in log:
        return 'violation', 'property falsified (minimising was cut short)'
    if timed_out:
        return 'error', 'time limit reached (inconclusive)'
    if 'VERIF-HANG' in log:
        return 'violation', 'a call that must complete hangs'
    if 'VERIF-INFRA' in log:
        return 'error', 'harness infrastructure failure'
    if rc == 0:
        return 'ok', ''
    if re.search(r'out of memory|cannot allocate memory|too many open files|no space left', log):
        return 'error', 'out of resources'
    if '--- FAIL' in log:
        return 'violation', 'property falsified'
    if 'WARNING: DATA RACE' in log and '/repo/' in log:
        return 'violation', 'data race'
    m = re.search(r'^(panic: |fatal error: ).*', log, re.M)
    if m and '/repo/' in log[m.start():]:
        return 'violation', 'the process crashed: ' + m.group(0)[:200]
    return 'error', 'the harness ended with status %s' % rc


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        say('usage: run.py <property> [quick|thorough]')
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    spec = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        sys.exit(run(prop, tier, seed, spec, scratch, t0))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, spec, scratch, t0):
    thorough = tier == 'thorough'
    jobs = []
    bins = {}
    for ri, r in enumerate(spec['runs']):
        if r.get('only') and r['only'] != tier:
            continue
        for kind in r.get('bins', []):
            if kind not in bins:
                bins[kind] = os.path.join(scratch, 'bin-' + kind)
                build_program(kind, bins[kind])
        binary = os.path.join(scratch, 'bin%d' % ri)
        build(r['pkg'], r.get('race', False), binary)
        shards = r.get('tshards', 8) if thorough else r.get('shards', 2)
        scale = r.get('tscale', 10) if thorough else r.get('scale', 1)
        scale *= float(os.environ.get('VERIF_EXTRA_SCALE', '1'))
        for s in range(shards):
            # rapid treats seed 0 as random; keep every shard's seed distinct and positive
            rs = (abs(seed) * 1000003 + ri * 101 + s * 7919 + 1) % (2**62) + 1
            jobs.append((r, ri, s, binary, rs, scale / (1 if thorough else shards)))
    limit = 3 * 3600 if thorough else 780
    running, results = [], []
    maxpar = 8
    found = None  # when the first violation was reported
    shrink = 600 if thorough else 120  # seconds a job may spend on minimising what it found
    failing, checked = {}, {}
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < maxpar:
            r, ri, s, binary, rs, scale = pending.pop(0)
            d = os.path.join(scratch, 'run%d-%d' % (ri, s))
            os.makedirs(d)
            e = env_base()
            e.update(VERIF_SCALE=str(scale), VERIF_STATS=os.path.join(d, 'stats.json'), VERIF_TIER=tier, VERIF_SEED=str(seed),
                     VERIF_SHARD=str(s), HOME=d, TMPDIR=d)
            e.update(r.get('env', {}))
            for kind in r.get('bins', []):
                e['VERIF_BIN_' + kind.upper()] = bins[kind]
            cmd = [binary, '-test.run', r['run'], '-test.timeout', '0', '-rapid.seed', str(rs), '-rapid.shrinktime',
                   '60s' if thorough else '15s']
            log = open(os.path.join(d, 'log.txt'), 'w')
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            running.append((p, d, time.time(), cmd, log, rs))
        time.sleep(0.02)
        still = []
        for it in running:
            p, d, st, cmd, log, rs = it
            rc = p.poll()
            to = False
            now = time.time()
            if rc is None and (p.pid not in failing or failing[p.pid] == 0) and now - checked.get(p.pid, 0) > 2:
                checked[p.pid] = now
                with open(os.path.join(d, 'log.txt'), errors='replace') as f:
                    failing[p.pid] = now if 'VERIF-FALSIFIED' in f.read() else 0
            cut = now - t0 > limit or (failing.get(p.pid) and now - failing[p.pid] > shrink)
            drop = found and now - found > 20
            if rc is None and (cut or drop):
                os.killpg(p.pid, 9)
                rc = p.wait()
                to = True
                if not cut and not failing.get(p.pid):
                    log.close()
                    continue  # another job has already decided
            if rc is None:
                still.append(it)
                continue
            log.close()
            txt = open(os.path.join(d, 'log.txt'), errors='replace').read()
            results.append((classify(rc, txt, to), d, cmd, rs, txt))
            if results[-1][0][0] == 'violation' and not found:
                found, pending = time.time(), []
        running = still
    evals, distinct, classes, samples, nontriv = 0, set(), {}, [], 0
    for (_, d, _, _, _) in results:
        try:
            st = json.load(open(os.path.join(d, 'stats.json')))
        except Exception:
            continue
        for name, v in sorted((st or {}).items()):
            evals += v['evaluations']
            nontriv += v['nontrivial']
            distinct.update(v['distinct'] or [])
            for k, n in v['classes'].items():
                classes[name + ': ' + k] = classes.get(name + ': ' + k, 0) + n
            for smp in v['samples'] or []:
                if len([x for x in samples if x.startswith(name + ':')]) < 3:
                    samples.append(smp)
    viol = [r for r in results if r[0][0] == 'violation']
    errs = [r for r in results if r[0][0] == 'error']

    # known findings: the harness prints VERIF-FINDING <key> when a listed defect shows
    known = {}
    kf = os.path.join(VERIF, 'known_findings.txt')
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', line.strip())
        if m and m.group(1) == prop:
            known[m.group(2)] = m.group(3)
    seen = set()
    unlisted = []
    for r in results:
        for m in re.finditer(r'^VERIF-FINDING (\S+)(.*)$', r[4], re.M):
            if m.group(1) in known:
                seen.add(m.group(1))
            elif not unlisted:
                unlisted.append(((('violation', 'finding ' + m.group(1) + m.group(2))), r[1], r[2], r[3], r[4]))
    viol = viol + unlisted
    for k in sorted(seen):
        say('KNOWN-FINDING: property=%s %s' % (prop, known[k]))

    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(distinct), 'nontrivial': nontriv,
            'rule': spec['rule'], 'samples': samples[:40], 'classes': classes,
            'processes': len(results),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    if viol:
        (_, reason), d, cmd, rs, txt = viol[0]
        rep = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(rep, ignore_errors=True)
        os.makedirs(rep, exist_ok=True)
        with open(os.path.join(rep, 'log.txt'), 'w') as f:
            f.write(txt)
        ff = ''
        for p in glob.glob(os.path.join(d, 'testdata', '**', '*.fail'), recursive=True):
            shutil.copy(p, os.path.join(rep, os.path.basename(p)))
            ff = ff or os.path.basename(p)
        failed = re.findall(r'^\s*--- FAIL: (\S+)', txt, re.M)
        runspec = next((r for r in spec['runs'] if cmd[2] == r['run']), spec['runs'][0])
        info = {'property': prop, 'reason': reason, 'package': runspec['pkg'], 'race': runspec.get('race', False),
                'failed_tests': failed, 'rapid_seed': rs, 'verif_seed': seed, 'tier': tier, 'rapid_failfile': ff,
                'how': 'cd %s && go test %s%s -run "%s" %s' % (
                    HARNESS, '-race ' if runspec.get('race') else '', runspec['pkg'],
                    '^' + failed[0] + '$' if failed else runspec['run'],
                    '-rapid.failfile=' + os.path.join(rep, ff) if ff else '-rapid.seed=%d' % rs)}
        path = os.path.join(rep, 'replay.json')
        with open(path, 'w') as f:
            json.dump(info, f, indent=1)
        say(txt[-5000:] if len(txt) > 5000 else txt)
        say('property %s: %s' % (prop, reason))
        say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        for (_, reason), d, cmd, rs, txt in errs:
            say(txt[-4000:])
            say('ERROR: %s' % reason)
        return 2
    say('%s %s: %d cases, %d distinct non-trivial, %.1fs' % (prop, tier, evals, len(distinct), time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
