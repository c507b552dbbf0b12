#!/usr/bin/env python3
"""Builds and runs the monitor of one property, and turns what it observed into a verdict.

usage: run.py Cnn [--only CASE] [--keep]      (VERIF_SEED, VERIF_TIER from the environment)
       run.py --build-all                     (only builds everything, used by setup_cmd)

exit 0: property held on everything observed
exit 1: violation, with a line VIOLATION property=<id> replay=<path>
exit 2: inconclusive (build failure, watchdog, a monitor that observed too little, defect of the harness)
"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
MODULE = 'github.com/FAU-CDI/hangover'

# what each property needs: race = build with the race detector, bins = command line tools,
# watchdog in seconds (quick, thorough)
CONF = {
    'C26': dict(bins=['hangover', 'n2j']),
    'C13': dict(bins=['hangover', 'n2j', 'headache']),
    'C20': dict(race=True),
    'C21': dict(race=True),
    'C24': dict(race=True),
    'C25': dict(race=True),
    'C19': dict(race=True, bins=['hangover'], race_bins=True),
    'C29': dict(tags='ci'),  # the graphical toolkit draws to memory
    'C09': dict(oom=True),  # using up the memory is what this one looks for
}
LEVEL = {'C22': 'fault_enumeration', 'C09': 'fault_enumeration'}


def log(*a):
    print(*a, flush=True)


def go_env(cache):
    env = dict(os.environ)
    for k in ('GOROOT', 'GOMEMLIMIT', 'GODEBUG', 'GOGC', 'GOMAXPROCS'):
        env.pop(k, None)
    env.update(PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               GOENV='off', GOWORK='off', GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod',
               GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE=cache, CGO_ENABLED='1')
    env.setdefault('HOME', '/root')
    return env


def overlay(work):
    rep = {}
    root = os.path.join(VERIF, 'harness')
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.go'):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, 'internal/verifh', os.path.relpath(p, root))] = p
    path = os.path.join(work, 'overlay.json')
    with open(path, 'w') as fh:
        json.dump({'Replace': rep}, fh)
    for f in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(REPO, f), os.path.join(work, f))
    return path


def prepare_cache(work):
    cache = os.environ.get('VERIF_GOCACHE')
    if not cache:
        cache = os.path.join(work, 'gocache')
    if not os.path.isdir(cache):
        if os.path.isdir('/opt/vp/gocache'):
            subprocess.run(['cp', '-a', '--reflink=auto', '/opt/vp/gocache', cache], check=True)
        else:
            os.makedirs(cache)
    return cache


def build(work, cache, pkg, out, race=False, ov=None, tags=None):
    cmd = ['go', 'build', '-buildvcs=false', '-modfile', os.path.join(work, 'go.mod'), '-o', out]
    if race:
        cmd.append('-race')
    if tags:
        cmd += ['-tags', tags]
    if ov:
        cmd += ['-overlay', ov]
    cmd.append(pkg)
    p = subprocess.run(cmd, cwd=REPO, env=go_env(cache), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        log('INCONCLUSIVE build of %s failed' % pkg)
        return False
    os.chmod(out, 0o755)
    return True


def in_repo(stack):
    """whether the innermost frame of this module in a crash is code of the repository, not of the harness"""
    for l in stack.split('\n'):
        l = l.strip()
        if l.startswith(MODULE) or l.startswith('main.'):
            return l.startswith(MODULE) and '/verifh/' not in l
    return False


CRASH = re.compile(r'^(panic: |fatal error: |SIGSEGV|unexpected fault address)', re.M)


def crash_in(text, oom=False):
    """returns (crashed, in repo, excerpt)"""
    m = CRASH.search(text)
    if not m:
        return False, False, ''
    tail = text[m.start():]
    if not oom and ('out of memory' in tail[:300] or 'cannot allocate' in tail[:300]):
        return True, False, tail[:6000]
    # the first goroutine that is listed crashed
    goroutines = tail.split('\n\ngoroutine ')
    first = '\n\n'.join(goroutines[:2])
    return True, in_repo(first), tail[:12000]


RACE_FRAME = re.compile(r'^\s+(github\.com/\S+?)\(', re.M)


def races(files):
    """splits reports of the race detector into those that involve code of the repository and others"""
    seen, own, other = set(), [], []
    for f in files:
        try:
            text = open(f, errors='replace').read()
        except OSError:
            continue
        for block in text.split('=================='):
            if 'WARNING: DATA RACE' not in block:
                continue
            # only the two accesses, not where the goroutines were created
            acc = re.split(r'\n\s*Goroutine \d+', block)[0]
            frames = RACE_FRAME.findall(acc)
            key = re.sub(r'0x[0-9a-f]+|:\d+|goroutine \d+', '', acc)
            if key in seen:
                continue
            seen.add(key)
            if any(x.startswith(MODULE + '/') and '/verifh/' not in x for x in frames) or REPO + '/cmd/' in acc:
                own.append(block.strip())
            else:
                other.append(block.strip())
    return own, other


def known_findings(prop):
    try:
        data = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return {}
    return {f['id']: f['what'] for f in data.get('findings', []) if f['property'] == prop}


def unprivileged(work):
    """a command prefix that drops privileges, if that is possible"""
    if os.geteuid() != 0:
        return []
    pre = ['setpriv', '--reuid', '65534', '--regid', '65534', '--clear-groups', '--']
    try:
        p = subprocess.run(pre + ['test', '-w', work], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode == 0:
            return pre
    except OSError:
        pass
    return []


def main():
    args = sys.argv[1:]
    keep = '--keep' in args
    only = ''
    if '--only' in args:
        only = args[args.index('--only') + 1]
    if args and args[0] == '--build-all':
        return build_all()
    prop = args[0]
    conf = CONF.get(prop, {})
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    start = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return run(prop, conf, tier, seed, only, work, start, keep)
    finally:
        if keep:
            log('kept', work)
        else:
            subprocess.run(['chmod', '-R', 'u+rwX', work], stderr=subprocess.DEVNULL)
            shutil.rmtree(work, ignore_errors=True)


def build_all():
    work = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        cache = prepare_cache(work)
        ov = overlay(work)
        ok = True
        for d in sorted(glob.glob(os.path.join(VERIF, 'harness', 'c[0-9][0-9]'))):
            c = os.path.basename(d)
            ok = build(work, cache, './internal/verifh/' + c, os.path.join(work, c), ov=ov, tags=CONF.get(c.upper(), {}).get('tags')) and ok
        return 0 if ok else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, conf, tier, seed, only, work, start, keep):
    os.chmod(work, 0o755)
    cache = prepare_cache(work)
    ov = overlay(work)
    bins = os.path.join(work, 'bin')
    scratch = os.path.join(work, 'scratch')
    os.mkdir(bins)
    os.mkdir(scratch)
    os.chmod(scratch, 0o777)
    exe = os.path.join(bins, 'monitor')
    if not build(work, cache, './internal/verifh/' + prop.lower(), exe, race=conf.get('race', False), ov=ov, tags=conf.get('tags')):
        return 2
    for b in conf.get('bins', []):
        if not build(work, cache, './cmd/' + b, os.path.join(bins, b), race=conf.get('race_bins', False)):
            return 2
    for name, pkg in conf.get('helpers', {}).items():
        if not build(work, cache, './internal/verifh/' + pkg, os.path.join(bins, name), ov=ov):
            return 2
    build_s = time.time() - start

    out = os.path.join(scratch, 'result.json')
    env = {k: v for k, v in os.environ.items() if k in ('LANG', 'LC_ALL', 'TZ')}
    env.update(PATH='/usr/local/bin:/usr/bin:/bin', HOME=scratch, TMPDIR=scratch, HX_BIN=bins, GOTRACEBACK='all',
               GORACE='halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0 log_path=%s/race' % scratch)
    cmd = unprivileged(scratch) + [exe, '-out', out, '-seed', str(seed), '-tier', tier, '-scratch', scratch]
    if only:
        cmd += ['-only', only]
    limit = conf.get('watchdog', (600, 3600))[1 if tier == 'thorough' else 0]
    stdout, stderr = os.path.join(work, 'stdout'), os.path.join(work, 'stderr')
    timed_out = False
    with open(stdout, 'wb') as so, open(stderr, 'wb') as se:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se, start_new_session=True)
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                p.wait(20)
            except Exception:
                pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    so = open(stdout, errors='replace').read()
    se = open(stderr, errors='replace').read()
    try:
        res = json.load(open(out))
    except Exception:
        res = dict(evaluations=0, distinct=0, rule='', samples=[], counts={}, violations=[], known={}, inconclusive=[], assumptions=[], finished=False)
    for k in ('samples', 'violations', 'inconclusive', 'assumptions'):
        res[k] = res.get(k) or []

    violations = [(v['case'], v['sig'], v['detail']) for v in res['violations']]
    inconclusive = list(res['inconclusive'])
    if not res.get('finished') and not timed_out:
        crashed, repo, text = crash_in(se, conf.get('oom', False))
        if crashed and repo:
            violations.append(('process', 'the code under test crashed the process', text))
        else:
            inconclusive.append('monitor ended without a result (exit %s)\n%s' % (p.returncode, (text or se[-6000:])))
    if timed_out:
        inconclusive.append('watchdog after %d s\n%s' % (limit, se[:8000]))
    own, other = races(glob.glob(os.path.join(scratch, 'race*')))
    if conf.get('race'):
        res['counts']['race reports'] = len(own) + len(other)
    for b in own[:5]:
        violations.append(('race detector', 'data race in the code under test', b))
    for b in other[:3]:
        inconclusive.append('data race outside of the code under test:\n' + b)

    listed = known_findings(prop)
    for kid, what in sorted((res.get('known') or {}).items()):
        if kid in listed:
            log('KNOWN-FINDING: property=%s %s (%s)' % (prop, listed[kid], kid))
        else:
            violations.append((kid, what, 'not listed in known_findings.json'))

    wall = time.time() - start
    coverage = dict(evaluations=res['evaluations'], distinct_nontrivial=res['distinct'], rule=res['rule'],
                    samples=res['samples'] or ['none'], observed=res['counts'], build_s=round(build_s, 1))
    if own or other:
        coverage['race_reports'] = len(own) + len(other)
    evidence = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, 'exploration'), coverage=coverage,
                    assumptions=res['assumptions'], wall_s=round(wall, 2), violations=len(violations))
    if only == '':
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1, ensure_ascii=False)
            fh.write('\n')
    log('%s: %d evaluations, %d distinct, %.1f s (%.1f s build) %s' % (prop, res['evaluations'], res['distinct'], wall, build_s, json.dumps(res['counts'])))
    if violations:
        path = os.path.join(VERIF, 'evidence', prop + '-replay.txt')
        with open(path, 'w') as fh:
            fh.write('property %s, tier %s, seed %d\n' % (prop, tier, seed))
            for case, sig, detail in violations:
                fh.write('\n=== %s: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --only %s\n%s\n' % (case, sig, seed, tier, prop, case, detail))
        for case, sig, detail in violations[:5]:
            log('  %s: %s' % (case, sig))
            log('    ' + '\n    '.join(detail[:700].split('\n')[:12]))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if inconclusive:
        for i in inconclusive:
            log('INCONCLUSIVE', i[:5000])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
