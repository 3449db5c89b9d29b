#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current working tree.
1. the proof units of the property are extracted from the current sources and given to the verifier;
2. the executable form of the contracts (replay harness) is compiled against the current sources and run;
exit 0: held; exit 1 with a VIOLATION line; exit 2: the check itself failed."""
import os, sys, json, time, subprocess, tempfile, shutil, struct, threading, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'vtool'))
import config
REPO = os.environ.get('RK_REPO', '/repo')
EVID = os.environ.get('RK_EVIDENCE', os.path.join(VERIF, 'evidence'))
NCPU = os.cpu_count() or 4

VARIANTS = {
    'debug': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'release': ['-O2', '-DNDEBUG'],
}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99', OMP_NUM_THREADS='2')

class CheckError(Exception): pass

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def compile_harness(h, work):
    """objects of /repo's sources and the harness, both variants; returns {variant: exe}"""
    srcs = [os.path.join(REPO, 'src', s + '.cpp') for s in config.HARNESS[h]] + [os.path.join(VERIF, 'replay', h + '.cpp')]
    srcs = [s for s in srcs if os.path.exists(s)]
    def build(srcs):
        jobs = []
        for v, fl in VARIANTS.items():
            for s in srcs:
                o = os.path.join(work, '%s_%s.o' % (os.path.basename(s)[:-4], v))
                jobs.append((v, o, ['g++', '-w', '-std=c++11', '-fopenmp', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/replay'] + fl + ['-c', s, '-o', o]))
        def one(j):
            p = sh(j[2])
            return (j, p.returncode, p.stdout)
        with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, jobs))
    res = build(srcs)
    for j, rc, out in res:
        if rc: raise CheckError('compilation failed: %s\n%s' % (' '.join(j[2]), out[-4000:]))
    extra = {v: [] for v in VARIANTS}; rest = None
    exes = {}
    for v, fl in VARIANTS.items():
        e = os.path.join(work, h + '_' + v)
        def link(): return sh(['g++', '-fopenmp'] + fl + [j[1] for j, _, _ in res if j[0] == v] + extra[v] + ['-lz', '-lpthread', '-o', e])
        p = link()
        if p.returncode and rest is None:
            # code may have moved to another source file: offer all of src/ that has no main() of its own
            rest = build([s for s in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True)) if s not in srcs and not re.search(r'\bint\s+main\s*\(', open(s, errors='replace').read())])
            for w in VARIANTS:
                objs = [j[1] for j, rc, _ in rest if j[0] == w and not rc]
                if objs:
                    lib = os.path.join(work, 'rest_%s.a' % w); sh(['ar', 'rcs', lib] + objs); extra[w] = [lib]
            p = link()
        elif p.returncode: p = link()
        if p.returncode: raise CheckError('linking failed:\n' + p.stdout[-4000:])
        exes[v] = e
    return exes

def suites_of(exe, prop):
    p = sh([exe, '--list'], env=ENV)
    if p.returncode: raise CheckError('harness --list failed: ' + p.stdout[-2000:])
    r = [l.split('\t') for l in p.stdout.splitlines()]
    return r

def run_search(prop, exes, tier, seed, work, budget):
    """all shards of both variants; returns (summary, failure or None)"""
    names = [s[1] for s in suites_of(exes['debug'], prop)]
    mine = [s for s in suites_of(exes['debug'], prop) if s[0] == prop]
    if not mine: raise CheckError('no suite for ' + prop)
    procs = []
    stop = threading.Event()
    def one(a):
        v, k, n = a
        out = os.path.join(work, 'o_%s_%d.json' % (v, k)); prog = os.path.join(work, 'p_%s_%d' % (v, k)); hs = os.path.join(work, 'h_%s_%d' % (v, k))
        sd = seed if v == 'debug' else seed + 1000003
        cmd = [exes[v], '--prop', prop, '--tier', tier, '--seed', str(sd), '--out', out, '--progress', prog, '--hashes', hs, '--shard', str(k), str(n), '--budget', str(budget)]
        if stop.is_set(): return None
        try: p = sh(cmd, env=ENV, timeout=budget + 200, cwd=work)
        except subprocess.TimeoutExpired: raise CheckError('harness did not finish in time')
        if p.returncode == 2: raise CheckError('harness error: ' + p.stdout[-2000:])
        if p.returncode == 0: return ('ok', v, json.load(open(out)), hs)
        stop.set()
        si, ix, _ = struct.unpack('QQQ', open(prog, 'rb').read(24))
        return ('fail', v, {'suite': names[si], 'index': ix, 'rc': p.returncode, 'out': p.stdout[-6000:], 'cmd': cmd, 'seed': sd}, None)
    jobs = []
    n = NCPU // 2 or 1
    for k in range(n):
        for v in VARIANTS: jobs.append((v, k, n))
    with ThreadPoolExecutor(NCPU) as ex: res = [r for r in ex.map(one, jobs) if r]
    fails = [r for r in res if r[0] == 'fail']
    summ = {'evaluations': 0, 'comparisons': 0, 'suites': {}, 'samples': [], 'cut_short': False}
    hashes = set()
    for r in res:
        if r[0] != 'ok': continue
        d = r[2]
        summ['evaluations'] += d['evaluations']; summ['comparisons'] += d['comparisons']; summ['cut_short'] |= d['cut_short']
        for s in d['suites']:
            t = summ['suites'].setdefault(s['suite'], {'cases': 0, 'exhaustive': s['exhaustive'], 'rule': s['rule'], 'planned_per_variant': s['planned']})
            t['cases'] += s['cases']
        if len(summ['samples']) < 6: summ['samples'] += d['samples'][:6 - len(summ['samples'])]
        b = open(r[3], 'rb').read()
        hashes.update(struct.unpack('%dQ' % (len(b) // 8), b))
    summ['distinct'] = len(hashes)
    return summ, (fails[0][1:3] if fails else None)

def describe_failure(prop, exes, v, f):
    """re-run the single failing case"""
    cmd = [exes[v], '--prop', prop, '--seed', str(f['seed']), '--case', f['suite'], str(f['index'])]
    try:
        p = sh(cmd, env=ENV, timeout=200); again = 'exit %d' % p.returncode; txt = p.stdout
    except subprocess.TimeoutExpired: again = 'time limit'; txt = ''
    if again == 'exit 0':
        again += ' (the case alone passes: the failure needs the cases before it)'
    return cmd, again, txt

def run_proofs(units, work, tier):
    import prove
    def one(u):
        try:
            r = prove.prove(u, work, timeout=240 if tier == 'quick' else 900)
            if r['status'] in ('rejected', 'undecided') and r.get('failed_fns'):
                # the solver's search may give up on a valid obligation: a function counts as discharged when one of several solver seeds discharges it
                rl = 2 * prove.Unit(u).d.get('rlimit', 60)
                with ThreadPoolExecutor(2) as ex2:
                    rs = list(ex2.map(lambda sd: prove.prove(u, work, rlimit=rl, timeout=200 if tier == 'quick' else 900, seed=sd), (11, 12)))
                left = set(r['failed_fns']); used = {}
                for r2 in rs:
                    if 'failed_fns' in r2:
                        for f in left - set(r2['failed_fns']): used[f.split('::')[-1]] = r2['cmd'].split()[-1]
                        left &= set(r2['failed_fns'])
                if not left:
                    r['status'] = 'accepted'; r['errors'] = []; r['discharged'] = r['obligations']; r['reseeded'] = used
                else:
                    names = {f.split('::')[-1] for f in left}
                    r['errors'] = [e for r2 in [r] + rs for e in r2.get('errors', []) if e['fn'] in names] or r['errors']
                    r['status'] = 'rejected'
            if r['status'] == 'rejected':
                hard = [e for e in r['errors'] if 'esource limit' not in e['msg']]
                if not hard: r['status'] = 'undecided'
            if r['status'] == 'accepted':
                pr = prove.probe(u, work, timeout=200 if tier == 'quick' else 900)
                r['probe'] = pr
                if pr['vacuous'] and not pr['undecided']:
                    r['status'] = 'undecided'; r['reason'] = 'vacuous: assert(false) accepted at %s' % pr['vacuous']
            r['name'] = u
            return r
        except Exception as e:
            return {'status': 'extract', 'reason': 'internal: %s: %s' % (type(e).__name__, e), 'name': u, 'wall': 0}
    # extraction shares an AST cache: build the ASTs first
    for u in units:
        try: prove.get_ast(os.path.join(prove.CON, 'tu', prove.Unit(u).d['tu']))
        except Exception: pass
    with ThreadPoolExecutor(max(1, min(4, len(units)))) as ex: return list(ex.map(one, units))

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = config.CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, 'replay_%s.txt' % prop)
    if os.path.exists(replay): os.remove(replay)
    work = tempfile.mkdtemp(prefix='rkcheck_%s_' % prop)
    violations = []
    try:
        budget = c.get('budget', 60) if tier == 'quick' else 500
        proofs = []; perr = []
        def pr():
            try: proofs.extend(run_proofs(c['units'], work, tier))
            except Exception as e: perr.append(e)
        th = threading.Thread(target=pr); th.start()
        search = None; fail = None; herr = None; exes = None
        try:
            exes = compile_harness(c['h'], work)
            search, fail = run_search(prop, exes, tier, seed, work, budget)
        except CheckError as e: herr = str(e)
        th.join()
        if perr: raise CheckError(str(perr[0]))
        rejected = [r for r in proofs if r['status'] == 'rejected']
        if rejected and not fail and exes and tier == 'quick':
            # a rejected obligation: look harder for a failing input
            deep, fail = run_search(prop, exes, 'thorough', seed + 7, work, c.get('deep', 120))
        if herr and not rejected:
            print(herr); print('the harness for %s could not be built or run' % prop); return 2
        if fail:
            v, f = fail
            cmd, again, txt = describe_failure(prop, exes, v, f)
            with open(replay, 'w') as o:
                o.write('property %s: failing input found on the real code (build variant: %s)\n' % (prop, v))
                o.write('suite %s, case %d, seed %d; exit code %d\n' % (f['suite'], f['index'], f['seed'], f['rc']))
                o.write('compile: see tools/check.py compile_harness(%r); re-run: %s\n' % (c['h'], ' '.join([os.path.basename(cmd[0])] + cmd[1:])))
                o.write('re-run of the single case: %s\n\n%s\n\noutput of the search run:\n%s\n' % (again, txt, f['out']))
                for r in rejected:
                    o.write('\nproof unit %s rejected:\n' % r['name'])
                    for e in r['errors']: o.write('obligation: %s in %s at %s\n%s\n' % (e['msg'], e['fn'], e['cpp'], e['block']))
            print('\n'.join((txt or f['out']).splitlines()[-25:]))
            print('VIOLATION property=%s replay=%s' % (prop, replay)); violations.append('input')
        elif rejected:
            with open(replay, 'w') as o:
                o.write('property %s: the verifier rejects an obligation generated from the current source; no failing input found by the search on the real code\n' % prop)
                for r in rejected:
                    o.write('\nproof unit %s (%s)\n' % (r['name'], r['cmd']))
                    for e in r['errors']: o.write('failed obligation: %s in %s at %s: %s\n%s\n' % (e['msg'], e['fn'], e['cpp'], e['text'], e['block']))
            for r in rejected:
                for e in r['errors'][:5]: print('failed obligation: unit %s, %s in %s at %s: %s' % (r['name'], e['msg'], e['fn'], e['cpp'], e['text']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)); violations.append('obligation')
        write_evidence(prop, c, tier, seed, proofs, search, time.time() - t0, violations)
        for r in proofs:
            print('unit %s: %s%s' % (r['name'], r['status'], (' (%d obligations, %d discharged, %d vacuity probes refuted)' % (r['obligations'], r['discharged'], r['probe']['failed_as_expected'])) if r['status'] == 'accepted' else ': ' + str(r.get('reason', ''))[:600]))
        if search: print('replay search: %d cases, %d distinct, %d comparisons%s' % (search['evaluations'], search['distinct'], search['comparisons'], ' (cut short by the time budget)' if search['cut_short'] else ''))
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            if l.startswith('KNOWN-FINDING: property=%s ' % prop): print(l.strip())
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def write_evidence(prop, c, tier, seed, proofs, search, wall, violations):
    acc = [r for r in proofs if r['status'] == 'accepted']
    allacc = bool(proofs) and len(acc) == len(proofs)
    level = c['level'] if allacc else 'other'
    ob = sum(r.get('obligations', 0) for r in proofs); di = sum(r.get('discharged', 0) for r in proofs)
    trust = sorted({t for r in proofs for t in r.get('trust', [])})
    cov = {}
    cov['obligations'] = ob; cov['discharged'] = di
    if proofs: cov['checker_cmd'] = '; '.join(re.sub(r'/tmp/\S*/', '', r.get('cmd', 'extraction failed: ' + r.get('reason', '')[:200])) for r in proofs)
    cov['trusted_base'] = ['extraction vtool/cpp2verus.py (C++ semantics of the translated subset)', 'Verus and its z3 back end', 'clang AST'] + trust
    cov['functions_under_contract'] = {r['name']: {k: {'cpp': v['cpp'], 'file': v['file'], 'line': v['line'][1] if v['line'] else None, 'loops': v['loops'], 'inlined': v['inlined'], 'contract': v['contract']} for k, v in r.get('functions', {}).items()} for r in proofs}
    cov['solver'] = {r['name']: {'status': r['status'], 'back_end': 'Verus/z3', 'smt_ms': r.get('smt_ms'), 'obligations': r.get('obligations'), 'discharged': r.get('discharged'), 'vacuity_probes': r.get('probe'), 'reason': r.get('reason'), 'discharged_with_other_solver_seed': r.get('reseeded'), 'dropped_by_extraction': r.get('notes')} for r in proofs}
    if search:
        cov['evaluations'] = search['evaluations']; cov['distinct_nontrivial'] = search['distinct']; cov['comparisons'] = search['comparisons']
        cov['rule'] = 'bounded replay search (never counted as proved): ' + ' | '.join('%s: %s' % (k, v['rule']) for k, v in search['suites'].items())
        cov['samples'] = search['samples']; cov['suites'] = search['suites']
    cov['explanation'] = c.get('note', '') or ('every function the property depends on is under contract; the replay search only adds concrete failing inputs' if level == 'proof' else 'the listed functions are proved; the whole property is covered by the bounded replay search')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(violations),
          'assumptions': c.get('assume', []) + sorted({'dropped by extraction: ' + n for r in proofs for n in (r.get('notes') or [])}) + trust}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    try: rc = main()
    except CheckError as e: print('check error:', e); rc = 2
    sys.exit(rc)
