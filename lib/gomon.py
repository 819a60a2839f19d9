"""Runs an in-package Go monitor (an overlay test binary) and reads the JSON lines that it records."""
import json, os, subprocess, hashlib, re

STATS = {}


def monitor(ctx, pkg, files, n, race=False, timeout=600, seed=None, tests=None, shards=4, limit=6, nontrivial=None):
    """n: cases per test, spread over the shards. Lines {"bad": kind, "what", "replay"} are violations, {"stat": name, ...} are counters,
    {"seen": key} are non-trivial observations."""
    t = ctx.b.gotest(pkg, files, race=race)
    procs = []
    for k in range(shards):
        out = ctx.tmp('gomon-%s-%d%s.jsonl' % (pkg.replace('/', '_'), k, '-race' if race else ''))
        cwd = ctx.tmp('gomon-cwd-%s-%d' % (pkg.replace('/', '_'), k), 'x'); os.makedirs(os.path.dirname(cwd), exist_ok=True)
        env = dict(os.environ, VERIF_OUT=out, VERIF_N=str(max(1, n // shards)), VERIF_SEED=str((seed if seed is not None else ctx.seed) * 100 + k), HOME='/root')
        if race: env['GORACE'] = 'halt_on_error=0 history_size=2'
        cmd = [t, '-test.v', '-test.timeout', '%ds' % timeout] + (['-test.run', tests] if tests else [])
        lf = open(out + '.log', 'wb')
        procs.append((subprocess.Popen(cmd, env=env, cwd=os.path.dirname(cwd), stdout=lf, stderr=subprocess.STDOUT), out, lf, cmd, env))
    kinds = {}
    for p, out, lf, cmd, env in procs:
        try: rc = p.wait(timeout=timeout + 30)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = None
        lf.close()
        log = open(out + '.log', errors='replace').read()
        how = 'VERIF_SEED=%s VERIF_N=%s, files %s in package %s\n' % (env['VERIF_SEED'], env['VERIF_N'], files, pkg)
        if os.path.exists(out):
            for line in open(out, errors='replace'):
                try: d = json.loads(line)
                except ValueError: continue
                if 'bad' in d:
                    kinds[d['bad']] = kinds.get(d['bad'], 0) + 1
                    if kinds[d['bad']] <= limit:
                        ctx.violation('%s:%s' % (d['bad'], hashlib.sha1(str(d.get('replay')).encode()).hexdigest()[:10]), '%s: %s\n%s' % (d['bad'], d['what'], d.get('replay', '')),
                                      how + d['what'] + '\n' + str(d.get('replay', '')))
                elif 'stat' in d:
                    for q, v in d.items():
                        if q != 'stat' and isinstance(v, (int, float)):
                            ctx.count('%s %s' % (d['stat'], q), v)
                            if q == 'cases': ctx.ev(v)
                elif 'seen' in d: ctx.nt(d['seen'])
                elif 'sample' in d: ctx.sample(d['sample'])
        if 'DATA RACE' in log:
            m = re.search(r'WARNING: DATA RACE.*?={10,}', log, re.S)
            rep = (m.group(0) if m else log)[:6000]
            fr = re.findall(r'/src/([\w/.-]+\.go):(\d+)', rep)
            ctx.violation('race:' + ';'.join(sorted({a for a, _ in fr[:6]})), 'data race in the monitored package', how + rep)
        elif rc is None or 'test timed out' in log:
            ctx.inconclusive += 1; ctx.count('timeouts of the monitor')
        elif rc != 0:
            tail = re.search(r'(panic:|fatal error:|--- FAIL).*', log, re.S)
            what = (tail.group(0) if tail else log[-1500:])
            fr = re.findall(r'/src/([\w/.-]+\.go):', what)
            ctx.violation('crash:' + ';'.join(fr[:3]), 'the monitored code fails: ' + what[:300], how + what[:6000])
    for q, v in kinds.items(): ctx.count('bad ' + q, v)
    return kinds
