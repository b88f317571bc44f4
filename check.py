#!/usr/bin/env python3
"""Build one property's monitors from /repo's working tree, run them, judge.

  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--only section[:idx]]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not answer (build failure, nothing observed...).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil
import signal, struct, subprocess, sys, tempfile, threading, time, mmap

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
CXX = 'g++-9'
BASE = ['-std=c++14', '-msse4', '-Wno-invalid-offsetof', '-fno-strict-aliasing',
        '-DNDEBUG', '-g1', '-fno-omit-frame-pointer', '-pthread', '-w']
VARIANTS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr',
             '-fno-sanitize-recover=all'],
    'asanfast': ['-O2', '-fsanitize=address'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O2'],
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:'
                    'allocator_may_return_null=1:max_allocation_size_mb=3000:'
                    'detect_stack_use_after_return=0:handle_segv=1:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1',
    'LC_ALL': 'C.UTF-8',
}
STALL = 40          # seconds without any case progress before a re-run decides
RERUN = 60
MEMORY = 4 << 30    # resident bytes of one process
STOP = threading.Event()  # a hang is confirmed: no use in exploring further
BUDGET = 840


class HarnessError(Exception):
    pass


def sh(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout)


def build(prop, cfg, part, outdir):
    flags = BASE + VARIANTS[part.get('variant', 'asan')] + part.get('flags', [])
    incs = ['-I' + REPO, '-I' + os.path.join(REPO, 'datas'),
            '-I' + os.path.join(HERE, 'harness')]
    srcs = [os.path.join(HERE, 'harness', s) for s in part['src']]
    srcs += [os.path.join(REPO, s) for s in part.get('repo', [])]
    tag = part['name']
    jobs = []
    for s in srcs:
        if not os.path.exists(s):
            raise HarnessError('missing source ' + s)
        o = os.path.join(outdir, tag + '.' + re.sub(r'\W', '_', s) + '.o')
        first = [] if s.startswith(REPO + os.sep) else ['-include', os.path.join(HERE, 'harness', 'std.hpp')]
        jobs.append((s, o, [CXX] + flags + first + incs + ['-c', s, '-o', o]))
    exe = os.path.join(outdir, tag)
    return jobs, exe, [CXX] + flags + [j[1] for j in jobs] + ['-o', exe] + part.get('libs', [])


def compile_all(plans):
    def one(job):
        r = sh(job[2], 500)
        return job, r
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [j for p in plans for j in p[0]]
        for job, r in ex.map(one, jobs):
            if r.returncode:
                raise HarnessError('compile failed: %s\n%s' % (
                    ' '.join(job[2]), '\n'.join(
                        x for x in r.stdout.decode('latin1').split('\n')
                        if 'error' in x or 'required from' in x)[:3000]))
        for p, r in zip(plans, ex.map(lambda p: sh(p[2], 200), plans)):
            if r.returncode and b'undefined reference' in r.stdout:
                r = link_with_all(p, ex)
            if r.returncode:
                raise HarnessError('link failed\n' + r.stdout.decode('latin1')[-4000:])


def link_with_all(plan, ex):
    """Code may move between files: offer every source of the library as an archive."""
    jobs, exe, link = plan
    have = {os.path.realpath(j[0]) for j in jobs}
    more = []
    for root in ('datas', 'uni'):
        for d, sub, files in os.walk(os.path.join(REPO, root)):
            sub[:] = [x for x in sub if x not in ('python', 'MAXex', 'test', 'tests')]
            more += [os.path.join(d, f) for f in files if f.endswith(('.cpp', '.cc', '.c'))]
    cmd = jobs[0][2]
    cut = cmd.index('-c')

    def one(src):
        o = exe + '.all.' + re.sub(r'\W', '_', src) + '.o'
        return o if not sh(cmd[:cut] + ['-c', src, '-o', o], 300).returncode else None
    objs = [o for o in ex.map(one, [m for m in more if os.path.realpath(m) not in have]) if o]
    lib = exe + '.all.a'
    if objs:
        sh(['ar', 'rcs', lib] + objs, 60)
    at = link.index('-o')
    return sh(link[:at] + ([lib] if objs else []) + link[at:] + ['-lpugixml', '-ldl'], 200)


class Status:
    def __init__(self, path):
        self.path = path

    def read(self):
        try:
            d = open(self.path, 'rb').read()
            if len(d) < 80 + 3000:
                return ('', 0, 0, '')
            sec = d[:64].split(b'\0')[0].decode('latin1')
            idx, prog = struct.unpack('<QQ', d[64:80])
            note = d[80:3080].split(b'\0')[0].decode('latin1')
            return sec, idx, prog, note
        except OSError:
            return ('', 0, 0, '')


def classify(stderr, rc):
    """A stable key for a crash: kind of report + innermost frame in /repo."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', stderr)
    if m:
        kind = 'asan-' + m.group(1)
    if not kind:
        m = re.search(r'runtime error: (.*)', stderr)
        if m:
            kind = 'ubsan-' + re.sub(r'-?(0x[0-9a-f]+|\d[\d.e+]*)', 'N', m.group(1))[:70].strip().replace(' ', '-')
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', stderr)
        if m:
            kind = 'tsan-' + m.group(1).replace(' ', '-')
    if not kind:
        if 'terminate called' in stderr:
            m = re.search(r"instance of '([^']+)'", stderr)
            kind = 'terminate-' + (m.group(1) if m else 'unknown')
        elif rc < 0:
            kind = 'signal-%d' % -rc
        else:
            kind = 'exit-%d' % rc
    return kind


def launch(exe, args, statf, errf, wrap=()):
    env = dict(os.environ)
    env.update(ENV)
    return subprocess.Popen(list(wrap) + [exe] + args + ['--status', statf],
                            stdout=open(errf + '.out', 'ab'), stderr=open(errf, 'wb'),
                            env=env, preexec_fn=os.setsid, cwd='/tmp')


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def resident(p):
    """Resident bytes of a process started here."""
    try:
        return int(open('/proc/%d/statm' % p.pid).read().split()[1]) * 4096
    except (OSError, IndexError, ValueError):
        return 0


PEAK = [0]


def wait_watch(p, status, stall, deadline):
    last, lastt = None, time.time()
    while True:
        try:
            p.wait(0.1)
            return 'done'
        except subprocess.TimeoutExpired:
            pass
        mem = resident(p)
        PEAK[0] = max(PEAK[0], mem)
        if mem > MEMORY:
            killpg(p)
            return 'memory'
        cur = status.read()[:3]
        now = time.time()
        if cur != last:
            last, lastt = cur, now
        if now - lastt > stall:
            killpg(p)
            return 'stall'
        if STOP.is_set():
            killpg(p)
            return 'stopped'
        if now > deadline:
            killpg(p)
            return 'deadline'


def run_shard(exe, base, k, n, seed, tier, only, scratch, deadline, scale, wrap):
    """Run one shard, resuming after each crash (at most a few times)."""
    out = base + '.%d.out' % k
    viol, resume, crashes = [], None, 0
    inconclusive = []
    while True:
        statf = base + '.%d.st' % k
        errf = base + '.%d.err' % k
        if os.path.exists(statf):
            os.unlink(statf)
        sc = os.path.join(scratch, 'shard%d_%d' % (k, crashes))
        os.makedirs(sc, exist_ok=True)
        args = ['--seed', str(seed), '--tier', tier, '--out', out, '--scratch', sc,
                '--scale', str(scale)]
        if only:
            args += ['--only', only]
        if n > 1 or not only:
            args += ['--shard', '%d/%d' % (k, n)]
        if resume:
            args += ['--resume', resume]
        p = launch(exe, args, statf, errf, wrap)
        st = Status(statf)
        how = wait_watch(p, st, STALL, deadline)
        sec, idx, prog, note = st.read()
        err = open(errf, errors='replace').read()
        shutil.rmtree(sc, ignore_errors=True)
        if how == 'done' and p.returncode == 0 and sec == '<end>':
            break
        if how == 'done' and 'HARNESS:' in err:
            raise HarnessError(err[-2000:])
        if how == 'stopped':
            break
        if how == 'deadline':
            inconclusive.append('deadline in %s:%d' % (sec, idx))
            break
        if not sec or sec == '<end>' and p.returncode == 0:
            raise HarnessError('harness did not start: rc=%s %s' % (p.returncode, err[-2000:]))
        case = '%s:%d' % (sec, idx)
        if how == 'memory':
            viol.append((sec + '/memory', case, 'memory grew beyond %d MB (ordinary runs stay far below); note=%s' % (MEMORY >> 20, note)))
            STOP.set()
            break
        if how == 'stall':
            # decide once more, alone, before calling it a hang
            s2, e2 = statf + '.re', errf + '.re'
            os.makedirs(sc, exist_ok=True)
            p2 = launch(exe, ['--seed', str(seed), '--tier', tier, '--out', out + '.re',
                              '--scratch', sc, '--scale', str(scale), '--only', case], s2, e2, wrap)
            how2 = wait_watch(p2, Status(s2), RERUN, time.time() + RERUN + 5)
            shutil.rmtree(sc, ignore_errors=True)
            if how2 == 'stopped':
                break
            if how2 == 'memory':
                viol.append((sec + '/memory', case, 'memory grew without bound; note=%s' % note))
                STOP.set()
                break
            if how2 == 'done' and p2.returncode == 0:
                inconclusive.append('slow case ' + case)
            else:
                viol.append((sec + '/hang', case, 'no progress for %ds, again on a lone re-run; note=%s' % (STALL, note)))
                STOP.set()
                break
        else:
            kind = classify(err, p.returncode)
            if kind.startswith('signal-9'):
                raise HarnessError('killed (memory?) in ' + case)
            viol.append((sec + '/crash:' + kind, case, 'note=' + note + ' | ' + err[:3500]))
        crashes += 1
        if crashes >= 6 or only:
            break
        resume = '%s:%d' % (sec, idx + 1)
    return out, viol, inconclusive


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    cfg = CHECKS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    outdir = os.path.join(BUILD, '%s.%d' % (a.prop, os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % a.prop, dir='/tmp')
    os.chmod(scratch, 0o755)
    try:
        rc = judge(a, cfg, tier, outdir, scratch, t0)
    except HarnessError as e:
        print('ERROR property=%s %s' % (a.prop, e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('ERROR property=%s build timed out: %s' % (a.prop, e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not a.keep:
            shutil.rmtree(outdir, ignore_errors=True)
    sys.exit(rc)


def judge(a, cfg, tier, outdir, scratch, t0):
    parts = [p for p in cfg['parts'] if tier in p.get('tiers', ('quick', 'thorough'))]
    plans = [build(a.prop, cfg, p, outdir) for p in parts]
    compile_all(plans)
    t_build = time.time() - t0
    evals, events, samples, distinct = 0, {}, [], set()
    viol, incon = [], []
    for part, plan in zip(parts, plans):
        if STOP.is_set():
            break
        n = part.get('shards', {}).get(tier, 4 if tier == 'quick' else 8)
        if a.only:
            n = 1
        exe = plan[1]
        base = exe + '.run'
        deadline = t0 + BUDGET
        scale = a.scale * (cfg['qscale'] if tier == 'quick' else cfg.get('tscale', 1))
        wrap = part.get('wrap', [])
        with cf.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(run_shard, exe, base, k, n, a.seed, tier, a.only,
                              scratch, deadline, scale, wrap) for k in range(n)]
            res = [f.result() for f in futs]
        for out, v, inc in res:
            viol += [(part['name'],) + x for x in v]
            incon += inc
            if not os.path.exists(out):
                continue
            for line in open(out, errors='replace'):
                f = line.rstrip('\n').split('\t', 3)
                if f[0] == 'V' and len(f) == 4:
                    viol.append((part['name'], f[1], f[2], f[3]))
                elif f[0] == 'E':
                    j = json.loads(line.split('\t', 1)[1])
                    evals += j['evals']
                    for kx, vx in j['events'].items():
                        events[kx] = events.get(kx, 0) + vx
                    for sec, ss in j['samples'].items():
                        for s in ss:
                            if len([x for x in samples if x['section'] == sec]) < 2:
                                samples.append({'section': sec, 'case': s[:600]})
            df = out + '.distinct'
            if os.path.exists(df):
                d = open(df, 'rb').read()
                distinct.update(struct.unpack('<%dQ' % (len(d) // 8), d))
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['known']
    known = [k for k in known if k['property'] == a.prop]
    seen_known, real = {}, []
    for part, key, case, detail in viol:
        for k in known:
            if re.fullmatch(k['key'], key):
                seen_known.setdefault(k['key'], k)
                break
        else:
            real.append((part, key, case, detail))
    cov = {'evaluations': evals, 'distinct_nontrivial': len(distinct),
           'rule': cfg['rule'], 'samples': samples[:40], 'observed_events': events,
           'build_seconds': round(t_build, 1)}
    if incon:
        cov['inconclusive'] = incon
    ev = {'property': a.prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': cfg.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    if real:
        rdir = os.path.join(BUILD, 'replay')
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for part, key, case, detail in real:
            if key in done:
                continue
            done.add(key)
            path = os.path.join(rdir, '%s-%s.txt' % (a.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                f.write('property: %s\nkey: %s\ncase: %s (part %s)\nreplay: python3 check.py %s --tier %s '
                        '--seed %d --scale %g --only %s\n\n%s\n' % (
                            a.prop, key, case, part, a.prop, tier, a.seed, a.scale, case, detail))
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            print('  %s at %s: %s' % (key, case, detail[:600]))
        return 1
    if not a.only:
        if evals == 0 or len(distinct) < cfg.get('min_distinct', 10):
            print('ERROR property=%s nothing observed (evaluations=%d distinct=%d)' % (a.prop, evals, len(distinct)))
            return 2
        need = cfg.get('need_events', [])
        miss = [e for e in need if not events.get(e)]
        if miss:
            print('ERROR property=%s never observed: %s' % (a.prop, miss))
            return 2
    if incon:
        print('INCONCLUSIVE property=%s %s' % (a.prop, incon[:5]))
        if any('deadline' in i for i in incon):
            return 2
    if os.environ.get('VERIF_PEAK'):
        print('peak resident %d MB' % (PEAK[0] >> 20))
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)' % (
        a.prop, tier, a.seed, evals, len(distinct), time.time() - t0, t_build))
    return 0


if __name__ == '__main__':
    main()
