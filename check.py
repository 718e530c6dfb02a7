#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by monitored executions of /repo's current code.

Builds the library's sources from /repo's working tree together with the monitors of the property
(harness/*.cpp) in a temporary directory, once per sanitizer variant, runs them on all cores for the
tier's time, and judges by what the monitors and sanitizers reported.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import collections, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MON_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 8)

# id: (parts for quick, further parts for thorough, uses threads)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from conf import CONF, RULES

ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:detect_invalid_pointer_pairs=0:malloc_context_size=12:quarantine_size_mb=64',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=1:report_thread_leaks=0:exitcode=66:history_size=4:suppress_equal_stacks=1',
}

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m: out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out

def build(variants, parts, work, defs):
    procs = []
    for v in variants:
        env = dict(os.environ, MON_REPO=REPO, MON_DEFS=defs, MON_JOBS=str(NCPU))
        procs.append((v, subprocess.Popen([os.path.join(HERE, 'harness/build.sh'), os.path.join(work, v), v] + [x for x in parts if v != 'tsan' or not x.startswith(('h_scale', 'h_hold'))],   # those use one thread only
                                         
                                          env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for v, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            print(f'build of variant {v} failed:\n' + out[-6000:])
    return ok

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CONF[pid]; t0 = time.time()
    parts = list(c['parts']) + (list(c.get('more', [])) if tier == 'thorough' else [])
    run_s = c.get('quick_s', 25) if tier == 'quick' else float(os.environ.get('MON_THOROUGH_S', c.get('thorough_s', 420)))
    run_s = float(os.environ.get('MON_RUN_S', run_s))
    variants = c.get('variants', ['asan', 'tsan'] if c.get('mt') else ['asan'])
    work = tempfile.mkdtemp(prefix='mon-' + pid + '-')
    rc = 2
    try:
        rc = run(pid, tier, seed, c, parts, run_s, variants, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, c, parts, run_s, variants, work, t0):
    if not build(variants, parts, work, ''):
        return 2
    tb = time.time() - t0
    # shards
    plan = []
    nt = 0 if 'tsan' not in variants else (NCPU if variants == ['tsan'] else max(1, NCPU * 3 // 8))
    for k in range(NCPU):
        v = 'tsan' if k < nt else [x for x in variants if x != 'tsan'][0]
        plan.append((k, v))
    cnt = collections.Counter(v for _, v in plan); idx = collections.Counter()
    fails = []; outs = []; kills = []
    ps = []
    for k, v in plan:
        i = idx[v]; idx[v] += 1
        o = os.path.join(work, f'out{k}.json'); lg = os.path.join(work, f'log{k}.txt')
        cmd = [os.path.join(work, v, 'mon'), '--props', c.get('props', pid), '--seed', str(seed * 2 + (1 if v == 'tsan' else 0)), '--shard', str(i),
               '--nshards', str(cnt[v]), '--core', str(k), '--time', str(run_s), '--min', str(c.get('min_cases', 20)), '--out', o] + (['--mt'] if v == 'tsan' else [])
        if v == 'tsan': cmd = ['setarch', '-R'] + cmd
        env = dict(os.environ, **ENV)
        ps.append([k, v, subprocess.Popen(cmd, stdout=open(lg, 'w'), stderr=subprocess.STDOUT, env=env, start_new_session=True), o, lg, cmd, i])
    deadline = time.time() + run_s * 2 + 150
    live = list(ps); early = False
    while live:
        time.sleep(0.1)
        for p in list(live):
            r = p[2].poll()
            if r is not None:
                live.remove(p)
                if r != 0: fails.append((p, r)); early = True
        if early and live:      # one failure settles it
            for p in live:
                try: os.killpg(p[2].pid, signal.SIGKILL)
                except OSError: pass
            for p in live: p[2].wait()
            live = []
        if time.time() > deadline:
            for p in live:
                try: os.killpg(p[2].pid, signal.SIGKILL)
                except OSError: pass
                p[2].wait(); kills.append(p)
            live = []
    # verdicts
    viol = []; kf = known(); seen_known = []; errors = []
    for p, r in fails:
        txt = open(p[4], errors='replace').read()
        m = re.search(r'^FAIL family=(\S+) seed=(\d+) why=(.*)$', txt, re.M)
        if not m:
            errors.append(f'shard {p[0]} ({p[1]}) ended with {r} and no report:\n' + txt[-1500:]); continue
        fam, cs, why = m.groups()
        detail = why
        s = re.search(r'^SUMMARY: (.*)$', txt, re.M)
        if s: detail = s.group(1)
        e = re.search(r'runtime error: (.*)$', txt, re.M)
        if e: detail = e.group(1)
        if why.startswith('harness:'):
            errors.append(f'{fam} {cs}: {why}'); continue
        k = next((x for x in kf if x[0] == pid and x[1].search(fam + ' ' + detail)), None)
        if k: seen_known.append(k[2]); continue
        viol.append((p, fam, cs, detail, txt))
    cov = aggregate(ps, work, tb, variants)
    cov['rule'] = RULES.get(pid, 'Random programs over the primitives of the property; a case is one program with its choices and schedule, derived from one seed. Non-trivial: its event log has at least 2 events; distinct: the hash of its event log together with its sequence of thread switches differs from all others.')
    lvl = 'exploration'
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=lvl, coverage=cov, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 0
    if viol:
        p, fam, cs, detail, txt = viol[0]
        rp = os.path.join(HERE, 'evidence', f'replay-{pid}.txt')
        rep = []
        for _ in range(2):
            cmd = [x for x in p[5][:2]] if p[1] == 'tsan' else []
            cmd += [os.path.join(work, p[1], 'mon'), '--props', c.get('props', pid), '--family', fam, '--case', cs]
            try: q = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120, env=dict(os.environ, **ENV)); rep.append(q.returncode != 0)
            except subprocess.TimeoutExpired: rep.append(True)
        with open(rp, 'w') as f:
            f.write(f'property {pid}\nfamily {fam}\ncase seed {cs}\nvariant {p[1]}\nwhat {detail}\nalone it fails in {sum(rep)} of {len(rep)} runs\n'
                    f'replay: harness/build.sh DIR {p[1]} {" ".join(parts)} && DIR/mon --props {c.get("props", pid)} --family {fam} --case {cs}\n\n')
            f.write(txt[-20000:])
        print(f'{pid}: {fam} case {cs} ({p[1]}): {detail}')
        print(f'VIOLATION property={pid} replay={rp}')
        cov['violation'] = dict(family=fam, case=cs, variant=p[1], what=detail, reproduced=sum(rep))
        rc = 1
    elif errors or (kills and not c.get('timeouts_ok')):
        for e in errors: print('no verdict: ' + e)
        for p in kills: print(f'no verdict: shard {p[0]} ({p[1]}) did not end in time')
        rc = 2
    elif cov['evaluations'] == 0:
        print('no verdict: nothing was run'); rc = 2
    for k in sorted(set(seen_known)): print(f'KNOWN-FINDING: property={pid} {k}')
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{pid} {tier}: {cov["evaluations"]} cases, {cov["distinct_nontrivial"]} distinct, {cov["thread_switches"]} switches, build {tb:.0f}s, total {time.time()-t0:.0f}s -> {rc}')
    return rc

def aggregate(ps, work, tb, variants):
    cov = collections.OrderedDict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], events=0, thread_switches=0, forced_switches=0, preemption_points=0, clock_advances=0, leak_rechecks=0)
    fam = collections.Counter(); cvr = collections.Counter(); hist = set(); sched = set(); edges = {}
    for p in ps:
        if not os.path.exists(p[3]): continue
        try: d = json.load(open(p[3]))
        except Exception: continue
        cov['evaluations'] += d['cases']; cov['events'] += d['events']; cov['thread_switches'] += d['switches']; cov['forced_switches'] += d['forced']
        cov['preemption_points'] += d['points']; cov['clock_advances'] += d['advances']; cov['leak_rechecks'] += d['leak_rechecks']
        fam.update(d['families']); cvr.update(d['cover']); edges[p[1]] = max(edges.get(p[1], 0), d['edges_hit'])
        if len(cov['samples']) < 6: cov['samples'] += [d['samples']] if d['samples'] else []
        for ext, st in (('hist', hist), ('sched', sched)):
            try: b = open(p[3] + '.' + ext, 'rb').read()
            except OSError: continue
            st.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    cov['distinct_nontrivial'] = len(sched); cov['distinct_event_histories'] = len(hist)
    cov['cases_per_family'] = dict(fam); cov['situations_seen'] = dict(cvr); cov['code_edges_reached'] = edges; cov['variants'] = variants
    cov['build_s'] = round(tb, 1)
    if not cov['samples']: cov['samples'] = ['(none)']
    return cov

if __name__ == '__main__': main()
