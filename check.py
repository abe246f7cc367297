#!/usr/bin/env python3
"""Decides one property: builds the explorer from /repo's working tree, explores, replays a violation, writes evidence.

  check.py P04 --tier quick            run the check
  check.py --replay replays/P04-1.json rebuild and re-run one recorded execution
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import build as B
from plan import PLAN

def known_for(prop):
    """Keys of the recorded, unrepaired findings of this property."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                assert key.startswith('key=')
                out.append((key[4:], what))
    return out

def config_name(r):
    return '%s%s%s-L%d%s%s' % (r['arch'], '-android' if r.get('android') else '', ('-' + r['os'] if r.get('os') else '') + ('-' + r['variant'] if r.get('variant') else ''), r.get('loglevel', 2), '-cross' if r.get('cross') else '', ('-simulated' if r.get('mock') else '') + ('-' + r['twin'] if r.get('twin') else ''))

def build_run(scratch, r):
    return B.build(scratch, r['arch'], r['harness'], android=r.get('android', False), loglevel=r.get('loglevel', 2),
                   san=r.get('san', 'asan'), cross=r.get('cross', False), extra_defs=r.get('defs', ()), osname=r.get('os', 'linux'), target_defs=r.get('target_defs', ()), tools=r.get('tools', False), mock=r.get('mock', False), extra_targets=[os.path.join(B.REPO, t) for t in r.get('targets', ())])

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:quarantine_size_mb=1:malloc_context_size=2:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--family')
    ap.add_argument('--only', help='configuration name')
    ap.add_argument('--keep', action='store_true', help='go on after a violation (development)')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='cpuinfo-verif-')
    try:
        return replay(a, scratch) if a.replay else check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def extra(r):
    return (['--alias', r['alias']] if r.get('alias') else []) + (['--twin', r['twin']] if r.get('twin') else []) + (['--reduced', r['reduced']] if r.get('reduced') else [])

QEMU = {'arm64': ['qemu-aarch64', '-cpu', 'cortex-a57'], 'arm32': ['qemu-arm'], 'riscv64': ['qemu-riscv64']}

def launch(exe, r):
    if r.get('cross') and r['arch'] == 'i386' and 'i386' not in QEMU: # without an emulator if the kernel can
        try: QEMU['i386'] = [] if subprocess.run([exe, '--help'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode >= 0 else ['qemu-i386']
        except OSError: QEMU['i386'] = ['qemu-i386']
    return (QEMU.get(r['arch'], []) if r.get('cross') else []) + [exe]

def run_replay(exe, r, rec, tier, limit=120):
    cmd = launch(exe, r) + extra(r) + ['--check', rec['property'], '--family', rec['family'], '--tier', tier, '--choices', rec['choices']]
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=limit)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -999, 'no termination within %d s\n' % limit + (e.stdout or b'').decode(errors='replace')[:4000]

def replay(a, scratch):
    rec = json.load(open(a.replay))
    r = rec['config']
    exe, _ = build_run(scratch, r)
    rc, out = run_replay(exe, r, rec, rec['tier'])
    print(out)
    if 'compare' in rec:
        exe0, _ = build_run(scratch, rec['compare'])
        out0 = run_replay(exe0, rec['compare'], rec, rec['tier'])[1]
        pick = lambda o: [l for l in o.split('\n') if l.startswith('outcome ')]
        print('-- in the other build --'); print(out0)
        rc = int(pick(out) != pick(out0))
    print('reproduced' if rc != 0 else 'not reproduced', '(exit %d)' % rc)
    return 1 if rc != 0 else 0

def compare(a, prop, tier, outcomes, scratch):
    """Builds of the same architecture with other log levels or compilers must have the same outcome in every execution."""
    groups = {}
    for r, exe, fams in outcomes:
        groups.setdefault((r['arch'], r.get('os'), r.get('android', False), r.get('twin')), []).append((r, exe, fams))
    for g in groups.values():
        r0, exe0, f0 = g[0]
        ref = {f['name']: f for f in f0}
        for r, exe, fams in g[1:]:
            for f in fams:
                if f['name'] not in ref or f['outcome'] == ref[f['name']]['outcome']: continue
                print('%s: outcomes of family %s differ between %s and %s' % (prop, f['name'], config_name(r0), config_name(r)))
                both = []
                for i, (rr, ee) in enumerate(((r0, exe0), (r, exe))):
                    of = os.path.join(scratch, 'outcomes%d' % i)
                    subprocess.run(launch(ee, rr) + extra(rr) + ['--check', prop, '--tier', tier, '--workers', str(a.workers), '--out', of + '.json', '--scratch', scratch, '--family', f['name'], '--outcomes', of],
                                   env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    d = {}
                    for w in range(a.workers):
                        for line in open('%s.%d' % (of, w)):
                            c, _, v = line.rpartition(' ')
                            d[c] = v.strip()
                    both.append(d)
                bad = sorted((c for c in both[0] if both[1].get(c) != both[0][c]), key=len)
                if not bad:
                    raise RuntimeError('differing outcomes of %s were not found again' % f['name'])
                recs = [dict(property=prop, tier=tier, config=x, family=f['name'], choices=bad[0]) for x in (r0, r)]
                outs = [run_replay(e, x, rec, tier)[1] for e, x, rec in zip((exe0, exe), (r0, r), recs)]
                vals = [[l for l in o.split('\n') if l.startswith('outcome ')] for o in outs]
                if vals[0] == vals[1]:
                    raise RuntimeError('differing outcomes of %s did not reproduce' % f['name'])
                os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
                path = os.path.join(HERE, 'replays', '%s-%s-%s-outcome.json' % (prop, config_name(r), f['name']))
                recs[1].update(compare=r0, output=outs[1][-8000:], reference_output=outs[0][-8000:])
                json.dump(recs[1], open(path, 'w'), indent=1)
                print('%s (%d executions)' % (PLAN[prop]['compare'], len(bad)))
                print(outs[0][-2500:]); print('-- and in the other build --'); print(outs[1][-2500:])
                print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                return dict(config=config_name(r), family=f['name'], key='build', msg='outcomes differ', replay=path)
    return None

def check(a, scratch):
    prop, tier = a.prop, a.tier
    t0 = time.time()
    entry = PLAN[prop]
    known = known_for(prop)
    runs = [r for r in entry['runs'] if (tier == 'thorough' or not r.get('thorough_only')) and (not a.only or config_name(r) == a.only)]
    total = dict(executions=0, transitions=0, validated=0, nontrivial=0, rejected=0, states=0)
    families, samples, known_seen = [], [], {}
    exhaustive, violation, outcomes, skipped = True, None, [], []
    limit = entry.get('limit', {}).get(tier, 600 if tier == 'quick' else 7200)
    for r in runs:
        name = config_name(r)
        if time.time() - t0 > limit:
            exhaustive = False
            skipped.append(name)
            print('%s %s: not explored, time limit reached' % (prop, name))
            continue
        exe, bt = build_run(scratch, r)
        if entry.get('compare'):
            exe = shutil.copy(exe, exe + '-' + name)
        outf = os.path.join(scratch, 'out.json')
        wd = os.path.join(scratch, 'w')
        os.makedirs(wd, exist_ok=True)
        if os.path.exists(outf): os.remove(outf)
        left = limit - (time.time() - t0)
        cmd = launch(exe, r) + extra(r) + ['--check', prop, '--tier', tier, '--workers', str(a.workers), '--out', outf, '--scratch', wd, '--limit', str(int(max(left, 20)))]
        if a.family: cmd += ['--family', a.family]
        for k, _ in known: cmd += ['--known', k]
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if not os.path.exists(outf) or p.returncode not in (0, 1):
            print('check error: explorer for %s ended with %d\n%s' % (name, p.returncode, p.stdout[-3000:]))
            for w in sorted(os.listdir(wd))[:8]:
                if w.endswith('.log'): print(open(os.path.join(wd, w), errors='replace').read()[-1500:])
            return 2
        j = json.load(open(outf))
        for k in total: total[k] += j[k]
        if j['timeout']: exhaustive = False
        for f in j['families']:
            families.append(dict(config=name, **f))
        for s in j['samples'][:max(2, 12 // len(runs))]: samples.append(name + ' ' + s)
        for k in j['known']: known_seen.setdefault(k['key'], k)
        print('%s %s: %d executions, %d distinct states, %d rejected, build %.1f s, run %.1f s%s' % (prop, name, j['executions'], j['states'], j['rejected'], bt, j['wall'], ' (time limit reached)' if j['timeout'] else ''))
        if not j['timeout']: outcomes.append((r, exe, j['families']))
        for f in j['families']: print('   %-28s %10d' % (f['name'], f['executions']))
        if j['violation']:
            v = j['violation']
            rec = dict(property=prop, tier=tier, config=r, **v)
            rc, out = run_replay(exe, r, rec, tier)
            if rc == 0 or (rc == 3):
                print('check error: a reported violation did not reproduce (exit %d)' % rc)
                print(json.dumps(rec)[:2000]); print(out[-2000:])
                if 'worker' in v:
                    lf = os.path.join(wd, 'worker%d.log' % v['worker'])
                    if os.path.exists(lf): print(open(lf, errors='replace').read()[-3000:])
                return 2
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (prop, name, v['family']))
            rec['output'] = out[-12000:]
            json.dump(rec, open(path, 'w'), indent=1)
            print('%s in family %s: %s' % (prop, v['family'], v['msg']))
            print('\n'.join(out.split('\n')[:60])[:5000])
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            violation = dict(config=name, family=v['family'], key=v['key'], msg=v['msg'], replay=path)
            if not a.keep: break
    if entry.get('compare') and not violation:
        violation = compare(a, prop, tier, outcomes, scratch)
    for k, what in known:
        if k in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    cov = dict(samples=samples[:24], exhaustive=exhaustive and violation is None, families=families)
    if skipped: cov['not_explored'] = skipped
    if entry['level'] == 'model_checking':
        cov.update(states=total['states'], transitions=total['transitions'], traces_validated_against_impl=total['validated'])
        cov['executions_of_the_real_code'] = total['executions']
    else:
        cov.update(evaluations=total['executions'], distinct_nontrivial=min(total['nontrivial'], total['executions']), rule=entry['rule'], distinct_outcomes=total['states'])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED') or 0), level=entry['level'], coverage=cov,
              assumptions=entry.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    return 1 if violation else 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as e:
        print('check error:', e)
        sys.exit(2)
