#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--record]: decides one property on /repo's current tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check itself failed."""
import os, re, sys, json, time, glob, subprocess, threading, collections, selectors, resource
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import vlib, props
T0 = time.time()
EV = os.path.join(vlib.VERIF, 'evidence')
EXPECTED = os.path.join(HERE, 'expected.json')
KNOWN = os.path.join(vlib.VERIF, 'known-findings.json')

def harness_names(crate, pid, tier):
    out = []
    for f in sorted(glob.glob(os.path.join(vlib.VERIF, crate, 'src/h_*.rs'))):
        out += re.findall(r'^\s+(h_%s_\w+) = ' % pid.lower(), open(f).read(), re.M)
    return [n for n in out if tier == 'thorough' or not n.endswith('_t')]

class Native:
    """the replay binary: one line in, one line out; restarted when it dies or hangs"""
    def __init__(self, path): self.path = path; self.p = None
    def start(self):
        def lim(): resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1, preexec_fn=lim)
    def run(self, h, inputs, timeout=20):
        if self.p is None: self.start()
        try: self.p.stdin.write(f'{h}\t{inputs}\n'); self.p.stdin.flush()
        except BrokenPipeError: pass
        s = selectors.DefaultSelector(); s.register(self.p.stdout, selectors.EVENT_READ)
        if not s.select(timeout): self.p.kill(); self.p.wait(); self.p = None; return 'HANG', ''
        l = self.p.stdout.readline()
        if not l: rc = self.p.wait(); self.p = None; return f'CRASH ended with status {rc}', ''
        f = l.rstrip('\n').split('\t'); f += [''] * (3 - len(f))
        self.note = f[2]
        return f[0], f[1]
    note = ''
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait()

def demangle(names):
    for t in ('/usr/lib/llvm-18/bin/llvm-cxxfilt', 'llvm-cxxfilt', 'c++filt'):
        try: return subprocess.run([t], input='\n'.join(names), stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')[:len(names)]
        except Exception: pass
    return names

def parse_out(path):
    d = dict(S={}, R=collections.defaultdict(collections.Counter), K=collections.defaultdict(collections.Counter), V=[], P=[], I=collections.Counter(), F=set(), Z=[0] * 9, U=set(), T=None)
    for l in open(path):
        f = l.rstrip('\n').split('\t')
        if f[0] == 'S': h = int(f[1]); a = [int(x) for x in f[2:]]; b = d['S'].get(h); d['S'][h] = a if b is None else [x + y for x, y in zip(a[:-1], b[:-1])] + [max(a[-1], b[-1])]
        elif f[0] == 'R': d['R'][int(f[1])][int(f[2])] += int(f[3])
        elif f[0] == 'K': d['K'][int(f[1])][int(f[2])] += int(f[3])
        elif f[0] == 'V': d['V'].append((int(f[1]), f[2], f[3], f[4], f[5] == '1'))
        elif f[0] == 'P': d['P'].append((int(f[1]), f[2], f[3], f[4], f[5] == '1'))
        elif f[0] == 'I': d['I'][(int(f[1]), f[2].split(' < ')[0])] += 1
        elif f[0] == 'F': d['F'].add(f[1])
        elif f[0] == 'Z': z = [int(x) for x in f[1:]]; d['Z'] = [max(a, b) if i == 6 else a + b for i, (a, b) in enumerate(zip(d['Z'], z))]
        elif f[0] == 'U': d['U'].add(f[1])
        elif f[0] == 'T': d['T'] = f[1:]
    return d

FLOATS = [0x3fb999999999999a, 0x7fefffffffffffff, 1, 0x4341c37937e08000, 0x433fffffffffffff, 0x4340000000000001, 0x3ff0000000000001, 0x400921fb54442d18, 0x0010000000000000, 0xbff8000000000000, 0x8000000000000000, 0x44b52d02c7e14af6, 0x3e7ad7f29abcaf48, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x41f0000000000000, 0x43e0000000000000, 0x4008000000000000, 0x405edd2f1a9fbe77]
def variants(inputs):
    """other values of the 64-bit inputs, for counterexamples that depend on the float text contract"""
    l = [x.split(':') for x in inputs.split(',') if x]; idx = [i for i, x in enumerate(l) if x[0] in ('64', '63')]
    for f in FLOATS:
        m = [list(x) for x in l]
        for i in idx: m[i][1] = str(f & ((1 << int(m[i][0])) - 1))
        yield ','.join(':'.join(x) for x in m)
    for j in idx:
        for f in FLOATS:
            m = [list(x) for x in l]; m[j][1] = str(f & ((1 << int(m[j][0])) - 1)); yield ','.join(':'.join(x) for x in m)
    # other digits in symbolic texts: under the contract 1e-0 and 1e0 may differ, 1e-7 and 1e7 do
    dig = [i for i, x in enumerate(l) if x[0] in ('7', '21') and 48 <= int(x[1]) <= 57]
    if dig:
        for d in (55, 49, 57, 50, 53):
            yield ','.join(':'.join([w, str(d)] if i in dig else [w, v]) for i, (w, v) in enumerate(l))
        for k in dig[:8]:
            for d in (55, 49, 57): yield ','.join(':'.join([w, str(d)] if i == k else [w, v]) for i, (w, v) in enumerate(l))

def bad(res): return res.startswith(('FAIL', 'PANIC', 'MISSING', 'CRASH', 'HANG'))

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    record = '--record' in sys.argv; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = props.PROPS[pid]; crate = cfg['crate']; names = harness_names(crate, pid, tier)
    os.makedirs(EV, exist_ok=True); os.makedirs(vlib.BUILD, exist_ok=True)
    evf = os.path.join(EV, pid + '.json')
    if os.path.exists(evf): os.remove(evf)
    lock = vlib.lock()
    try:
        vlib.build_engine()
        err = []
        def nat():
            try: err.append(vlib.build_native(crate))
            except Exception as e: err.append(e)
        th = threading.Thread(target=nat); th.start()
        ir = os.path.join(vlib.BUILD, f'{pid}.ll')
        try: vlib.build_ir(crate, names, ir)
        finally: th.join()
        if isinstance(err[0], Exception): raise err[0]
        native = Native(err[0])
    except vlib.BuildError as e:
        if cfg.get('derive') and vlib.repo_builds():
            p = os.path.join(EV, 'replay', f'{pid}-expansion.json'); os.makedirs(os.path.dirname(p), exist_ok=True)
            json.dump(dict(property=pid, kind='expansion', what='a struct the derive macros must support does not compile with them', output=str(e)[-5000:], replay='python3 /verif/tools/replay.py ' + p), open(p, 'w'), indent=1)
            if vlib.derive_blames(str(e)):
                evidence(evf, pid, tier, seed, cfg, names, None, [], 0, [dict(what='derive expansion does not compile')], {}, 0)
                print(str(e)[-3000:]); print(f'VIOLATION property={pid} replay={p}'); return 1
        print(e); print('CHECK ERROR: build failed'); return 3
    build_s = time.time() - T0
    out = os.path.join(vlib.BUILD, f'{pid}.out')
    limit = cfg.get('time', {}).get(tier, 420 if tier == 'quick' else 5400)
    cmd = [vlib.ENGINE, ir, '--harness', ','.join(names), '--out', out, '--jobs', str(os.cpu_count() or 4), '--time', str(limit), '--maxviol', '6', '--frontier', '3000', '--smt-ms', '20000' if tier == 'quick' else '120000']
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 120, process_group=0)
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-9', '-f', vlib.ENGINE + ' ' + ir])
        evidence(evf, pid, tier, seed, cfg, names, None, [], 0, [], dict(complete=False), build_s); print(f'{pid} {tier}: INCOMPLETE: the executor did not stop in time'); return 0
    os.remove(ir)
    if r.returncode != 0: print(r.stdout[-3000:]); print(f'CHECK ERROR: executor ended with {r.returncode}'); return 4
    d = parse_out(out); os.remove(out)
    # counterexamples: replay against the real code, compiled natively
    confirmed, unconfirmed, spurious = [], [], 0
    for h, what, inputs, stack, ghost in d['V']:
        res, ev = native.run(names[h], inputs); used = inputs
        if not bad(res) and ghost:
            for v in variants(inputs):
                res, ev = native.run(names[h], v)
                if bad(res): used = v; break
        if bad(res): confirmed.append(dict(harness=names[h], solver=what, native=res, inputs=used, note=native.note, stack=stack))
        elif ghost or what.startswith('instruction limit'): spurious += 1
        else: unconfirmed.append(dict(harness=names[h], solver=what, native=res, inputs=inputs, stack=stack))
    # sample executions: the native run has to take the same course
    validated, mism, samples = 0, [], []
    for h, end, inputs, events, ghost in d['P']:
        res, ev = native.run(names[h], inputs)
        if ghost:
            if bad(res): confirmed.append(dict(harness=names[h], solver='holds under the float text contract', native=res, inputs=inputs, note=native.note, stack=''))
            continue
        want = {'ret': 'OK', 'panic': 'EXPECTED'}[end]
        if res == want and ev == events: validated += 1
        elif bad(res) and want == 'OK' or res != want or ev != events: mism.append((names[h], inputs, events, res, ev))
        if len(samples) < 12 and (len(samples) < 4 or hash((h, inputs)) % 7 == 0): samples.append(dict(harness=names[h], inputs=inputs[:400], text=native.note[:300], outcome=end))
    native.close()
    complete = d['T'] is not None and int(d['T'][4]) == 0 and not d['V']
    # reach tags and number of completed paths, per harness
    expected = json.load(open(EXPECTED)) if os.path.exists(EXPECTED) else {}
    reached = {n: sorted(d['R'][i]) for i, n in enumerate(names)}
    missing = {n: sorted(set(expected.get(n, [])) - set(reached[n])) for n in names if set(expected.get(n, [])) - set(reached[n])}
    if record and complete:
        expected.update(reached); json.dump(expected, open(EXPECTED, 'w'), indent=0, sort_keys=True)
    known = [k for k in (json.load(open(KNOWN)).get('open', []) if os.path.exists(KNOWN) else []) if k['property'] == pid]
    news = [c for c in confirmed if not any(k['harness'] == c['harness'] and re.search(k['match'], c['native'] + ' ' + c['note']) for k in known)]
    evidence(evf, pid, tier, seed, cfg, names, d, samples, validated, news, dict(missing_reach=missing, unconfirmed=len(unconfirmed), spurious=spurious, complete=complete, mismatches=len(mism)), build_s)
    tot = [sum(s[i] for s in d['S'].values()) for i in range(10)]
    print(f"{pid} {tier}: {len(names)} harnesses, {tot[0]} paths, {tot[4] // 1000000}M instructions, {d['Z'][0]} solver queries ({d['Z'][4] / 1e6:.1f}s), inconclusive {d['Z'][8]}, native cross-checks {validated}, {'complete' if complete else 'INCOMPLETE'}, build {build_s:.1f}s total {time.time() - T0:.1f}s")
    for (h, w), n in d['I'].most_common(5): print(f'  inconclusive: {names[h]}: {w} ({n})')
    for k in known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if news:
        os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
        for i, c in enumerate(news[:6]):
            p = os.path.join(EV, 'replay', f"{pid}-{i}.json")
            c.update(property=pid, crate=crate, replay='python3 /verif/tools/replay.py ' + p); json.dump(c, open(p, 'w'), indent=1)
            print(f"  {c['harness']}: {c['solver']} | natively: {c['native']} | {c['note'][:300]}")
            print(f'VIOLATION property={pid} replay={p}')
        return 1
    if unconfirmed:
        for u in unconfirmed[:3]: print('  not reproduced natively:', json.dumps(u)[:1500])
        print('CHECK ERROR: the solver found a counterexample that the real code does not reproduce'); return 5
    if mism:
        for m in mism[:3]: print('  native execution differs:', m)
        print('CHECK ERROR: executor and native execution disagree'); return 6
    if complete and missing and not record and d['Z'][8] == 0: print('CHECK ERROR: vacuous: situations not reached:', missing); return 7
    if tot[1] + tot[3] == 0: print('CHECK ERROR: nothing was explored'); return 8
    return 0

def evidence(evf, pid, tier, seed, cfg, names, d, samples, validated, viol, extra, build_s):
    cov = dict(explanation='each harness runs the compiled code of /repo (LLVM IR, regenerated on this run) on symbolic inputs; every feasible path is followed, and the solver decides each assertion for all values of the path', harnesses=names, bounds=cfg['bounds'], outside=cfg.get('outside', ''), samples=samples or ['none'], traces_validated_against_impl=validated)
    if d:
        tot = [sum(s[i] for s in d['S'].values()) for i in range(10)]; z = d['Z']
        fns = sorted(d['F']); dem = demangle(fns); own = [x for x in dem if re.search(r'\bjson(\[|::)|json_derive', x) and not x.startswith('h_')]
        own = sorted({re.sub(r'\[[0-9a-f]+\]', '', x) for x in own})
        cov.update(states=tot[0] + tot[5], transitions=tot[4], paths=tot[0], paths_completed=tot[1], paths_assumed_away=tot[2], expected_panics=tot[3], forks=tot[5],
            assertions_checked=tot[6], assertions_decided_by_path_condition=tot[7], assertions_sent_to_solver=tot[8],
            solver=dict(queries=z[0], sat=z[1], unsat=z[2], unknown=z[3], cached=z[5], seconds=round(z[4] / 1e6, 2), slowest_s=round(z[6] / 1e6, 3), truth_tables_confirmed=z[7]),
            inconclusive_paths=z[8], inconclusive=[f'{names[h]}: {w}' for (h, w), n in d['I'].most_common(8)], unexplored_subtrees=int(d['T'][4]) if d['T'] else -1,
            functions_encoded=len(fns), functions_of_the_crate=own[:150], stubs=sorted(d['U']),
            per_harness={n: dict(paths=d['S'][i][0], reached={str(k): v for k, v in sorted(d['R'][i].items())}) for i, n in enumerate(names)}, exhaustive=bool(extra.get('complete')) and z[8] == 0)
    else: cov.update(states=0, transitions=0)
    cov.update(extra); cov['build_s'] = round(build_s, 1)
    e = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov, assumptions=props.ASSUME + cfg.get('assume', []), wall_s=round(time.time() - T0, 2), violations=len(viol))
    s = json.dumps(e, indent=1)
    if len(s) > 60000: cov['functions_of_the_crate'] = cov.get('functions_of_the_crate', [])[:20]; cov['per_harness'] = 'omitted for size'; s = json.dumps(e, indent=1)
    open(evf, 'w').write(s)

if __name__ == '__main__': sys.exit(main())
