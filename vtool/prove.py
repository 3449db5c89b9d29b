"""Extract + verify: build the Verus file for a proof unit and run the verifier."""
import threading, os, sys, re, json, subprocess, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cppast import load_ast, ExtractError, Ast
from cpp2verus import Translator, DROPPED
from spec import Specs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RK_REPO', '/repo')
CON = os.path.join(VERIF, 'contracts')

class Unit:
    """a proof unit: contracts/<name>.unit (json) lists tu, specs, libs, roots"""
    def __init__(self, name):
        self.name = name
        d = json.load(open(os.path.join(CON, name + '.unit')))
        self.d = d

_ast_cache = {}
def get_ast(tu):
    if tu not in _ast_cache:
        _ast_cache[tu] = load_ast(tu, [REPO + '/include', REPO + '/src', CON + '/tu'])
    return _ast_cache[tu]

_T = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64)}
def cast_fn(a, b):
    """a verified integer conversion with C++ (modular) semantics"""
    lo = lambda t: -(1 << (_T[t][1] - 1)) if _T[t][0] else 0
    hi = lambda t: (1 << (_T[t][1] - 1)) - 1 if _T[t][0] else (1 << _T[t][1]) - 1
    M = 1 << _T[b][1]
    l, h = max(lo(a), lo(b)), min(hi(a), hi(b))
    ens = ['r == a as %s' % b, '%d <= a <= %d ==> r == a' % (l, h)]
    pf = ['((%d%s <= a && a <= %d%s) ==> (a as %s) == a)' % (l, a, h, a, b)]
    if lo(a) < 0 and lo(b) == 0 and -M <= lo(a):
        ens.append('a < 0 ==> r == a + %d' % M); pf.append('(a < 0 ==> (a as %s) == a + %d)' % (b, M))
    if lo(b) < 0 and hi(b) < hi(a) < M:
        ens.append('a > %d ==> r == a - %d' % (hi(b), M)); pf.append('(a > %d%s ==> (a as %s) == a - %d)' % (hi(b), a, b, M))
    if lo(a) == 0 and lo(b) == 0 and hi(b) < hi(a):
        ens.append('a > %d ==> r == a %% %d' % (hi(b), M)); pf.append('(a > %d%s ==> (a as %s) == a %% %d%s)' % (hi(b), a, b, M, a))
    return '#[verifier::truncate]\npub fn cast_%s_%s(a: %s) -> (r: %s) ensures %s { proof { %s } a as %s }' % (a, b, a, b, ', '.join(ens), ' '.join('assert(%s) by(bit_vector);' % x for x in pf), b)

def baseline_path(name): return os.path.join(CON, 'baseline', name + '.json')

LOCK = threading.RLock()   # the extractor keeps tables of the current translation unit
def build(name, probe=False):
    with LOCK: return build_(name, probe)

def build_(name, probe=False):
    u = Unit(name).d
    tu = os.path.join(CON, 'tu', u['tu'])
    ast = get_ast(tu)
    bp = baseline_path(name)
    base = json.load(open(bp)) if os.path.exists(bp) else {}
    specs = Specs([os.path.join(CON, s) for s in u['specs']], base)
    for c in specs.contracts: c.proved_in = u.get('proved_in', {}).get(c.src.split(':')[0])
    tr = Translator(ast, specs)
    tr.probe = probe
    roots = []
    for r in u['roots']:
        m = re.match(r'^(\S+?)(?:\s+sig=/(.*?)/)?(?:\s+targs=/(.*?)/)?$', r)
        fs = tr.find(m.group(1), m.group(2), m.group(3))
        if not fs: raise ExtractError('root function %s not found in the current source' % r)
        if len(fs) > 1: raise ExtractError('root function %s is ambiguous: %s' % (r, [tr.sig(f) for f in fs]))
        if tr.contract_for(fs[0]) is None: raise ExtractError('root %s has no contract' % r)
        roots.append(fs[0])
    tr.run(roots)
    lines = []
    def add(s, src=None):
        for l in s.split('\n'): lines.append((l, src))
    add('#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_assignments, dead_code, non_snake_case, unused_braces, unreachable_code)]')
    add('use vstd::prelude::*;')
    add('verus!{')
    add('global size_of usize == 8;')
    pre = open(os.path.join(CON, 'prelude.rs')).read()
    # the macro has to live outside verus!{}
    m = re.search(r'macro_rules! uint_ops.*?\n\} \} \}\n.*?;\n', pre, re.S)
    mac = None
    i = pre.index('macro_rules! uint_ops'); j = pre.index('// CASTS')
    mac = pre[i:j]; pre = pre[:i] + pre[j:]
    used = set()
    for fname, L in tr.out:
        for t_, _ in L: used.update(re.findall(r'\bcast_([ui]\d+)_([ui]\d+)\(', t_))
    pre += '\n' + '\n'.join(cast_fn(a, b) for a, b in sorted(used)) + '\n'
    add(pre)
    for s, v in tr.struct_out.items():
        if v is not None: add(v[0])
    for h, t in sorted(tr.used_helpers):
        if h == 'clone':
            add('#[verifier::external_body]\npub fn clone_%s(v: &%s) -> (r: %s) ensures r == *v { unimplemented!() }' % (t, t, t))
        if h == 'take':
            add('#[verifier::external_body]\npub fn take_%s(v: &mut %s) -> (r: %s) ensures r == *old(v) { unimplemented!() }' % (t, t, t))
    seen = {}
    for l in u.get('libs', []):
        if not l.endswith('#defs'): add(open(os.path.join(CON, l)).read(), None); continue
        # definitions only: the lemmas of the library are proved in its own unit and not used here
        for it in items(open(os.path.join(CON, l[:-5])).read()):
            m = re.match(r'pub (?:open|uninterp|closed) spec fn (\w+)', it) or re.match(r'impl (\w+) \{', it) or re.match(r'pub (?:type|struct) (\w+)', it)
            if not m or (it.startswith('impl') and m.group(1) not in tr.struct_out) or seen.get((it[:4], m.group(1))) == it: continue
            seen[(it[:4], m.group(1))] = it
            add(it)
    fnlines = {}
    for fname, L in tr.out:
        fnlines[fname] = len(lines) + 1
        for s, src in L: lines.extend((x, src) for x in s.split('\n'))
    add('fn main(){}')
    add('} // verus!')
    add(mac)
    return tr, lines, fnlines

def items(text):
    """top level items of a library file"""
    out = []; cur = []; d = 0
    for l in text.split('\n'):
        if not cur and (not l.strip() or l.startswith(('//', '#['))): continue
        cur.append(l)
        c = re.sub(r'//.*', '', l)
        d += c.count('{') - c.count('}')
        t = '\n'.join(cur)
        if d == 0 and (c.rstrip().endswith('}') or c.rstrip().endswith(';')): out.append(t); cur = []
    return out

def scan_trust(text):
    out = []
    for m in re.finditer(r'external_body\]\s*\n?\s*pub (?:broadcast )?(?:proof )?fn (\w+)', text): out.append('assumed contract: ' + m.group(1))
    if re.search(r'\bassume\s*\(', text): out.append('assume() present')
    if re.search(r'\badmit\s*\(', text): out.append('admit() present')
    for m in re.finditer(r'axiom fn (\w+)', text): out.append('axiom: ' + m.group(1))
    for m in re.finditer(r'assume_specification', text): out.append('assume_specification')
    for m in re.finditer(r'uninterp spec fn (\w+)', text): out.append('uninterpreted (arbitrary) function: ' + m.group(1))
    return out

def run_verus(path, rlimit=60, extra=(), timeout=600):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--rlimit', str(rlimit), '--num-threads', os.environ.get('RK_THREADS', '4')] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'wall': time.time() - t0, 'stderr': 'verus timed out after %ds' % timeout, 'json': None, 'cmd': ' '.join(cmd)}
    js = None
    i = p.stdout.find('{')
    if i >= 0:
        try: js = json.loads(p.stdout[i:])
        except Exception: js = None
    return {'timeout': False, 'wall': time.time() - t0, 'stderr': p.stderr, 'json': js, 'rc': p.returncode, 'cmd': ' '.join(cmd)}

def parse_errors(stderr, lines, fnlines, fname):
    """list of {msg, rust_line, cpp, fn}"""
    errs = []
    order = sorted((v, k) for k, v in fnlines.items())
    blocks = re.split(r'\n(?=error|warning|note:)', '\n' + stderr)
    for b in blocks:
        b = b.strip('\n')
        if not b.startswith('error'): continue
        first = b.split('\n', 1)[0]
        if 'aborting due to' in first: continue
        m = re.search(r'--> \S*?:(\d+):(\d+)', b)
        rl = int(m.group(1)) if m else None
        fn = None
        # all line numbers in the block, pick function containing one
        nums = [int(x) for x in re.findall(r'^\s*(\d+) +[|/]', b, re.M)] or ([rl] if rl else [])
        cand = [rl] + nums if rl else nums
        def owner(l):
            o = None
            for s, k in order:
                if s <= l: o = k
            return o
        own = [owner(l) for l in cand if l]
        fn = own[0] if own else None
        src = None
        for l in cand:
            if l and 0 < l <= len(lines) and lines[l - 1][1]: src = lines[l - 1][1]; break
        txt = lines[rl - 1][0].strip() if rl and rl <= len(lines) else ''
        errs.append({'msg': first[6:].lstrip(': '), 'rust_line': rl, 'fn': fn, 'cpp': src, 'text': txt, 'block': b})
    return errs

def prove(name, workdir, rlimit=None, timeout=600, seed=None):
    """returns dict(status = accepted|rejected|extract|undecided, ...)"""
    u = Unit(name).d
    t0 = time.time()
    try:
        tr, lines, fnlines = build(name)
    except ExtractError as e:
        return {'status': 'extract', 'reason': str(e), 'wall': time.time() - t0}
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        return {'status': 'extract', 'reason': 'extractor: %s: %s' % (type(e).__name__, e), 'wall': time.time() - t0}
    path = os.path.join(workdir, name + ('_s%d' % seed if seed else '') + '.rs')
    text = '\n'.join(l for l, _ in lines)
    open(path, 'w').write(text)
    r = run_verus(path, rlimit or u.get('rlimit', 60), ['--multiple-errors', '5'] + (['--smt-option', 'smt.random_seed=%d' % seed] if seed else []), timeout)
    res = {'unit': name, 'rust': path, 'cmd': r['cmd'], 'wall': time.time() - t0, 'functions': tr.fn_info, 'notes': sorted(tr.notes),
           'trust': scan_trust(text), 'stderr': r['stderr']}
    if r['timeout']:
        res.update(status='undecided', reason=r['stderr']); return res
    js = r['json']
    if js is None or js.get('verification-results', {}).get('encountered-vir-error', False) or (js['verification-results'].get('encountered-error') and js['verification-results'].get('errors', 0) == 0) or 'verification-results' not in js:
        res.update(status='extract', reason='the extracted text is not accepted as input by the verifier: ' + r['stderr'][:3000]); return res
    vr = js['verification-results']
    res['verified'] = vr['verified']; res['errors_n'] = vr['errors']
    fb = []
    for m in js['times-ms']['smt']['smt-run-module-times']: fb += m.get('function-breakdown', [])
    res['smt_ms'] = js['times-ms']['smt']['total']
    res['breakdown'] = {}
    for f in fb:
        k = f['function'].split('::')[-1]
        o = res['breakdown'].setdefault(k, {'success': True, 'us': 0, 'mode': f.get('mode:')})
        o['success'] = o['success'] and f['success']; o['us'] += f['time-micros']
    res['failed_fns'] = sorted({f['function'] for f in fb if not f['success']})
    res['obligations'] = len(fb); res['discharged'] = sum(1 for f in fb if f['success'])
    errs = parse_errors(r['stderr'], lines, fnlines, path)
    res['errors'] = errs
    if vr['success'] and vr['errors'] == 0:
        res['status'] = 'accepted'
    else:
        res['status'] = 'rejected'
        if errs and all('Resource limit' in e['msg'] or 'rlimit' in e['msg'] for e in errs):
            res['status'] = 'undecided'; res['reason'] = 'resource limit'
    return res

def probe(name, workdir, rlimit=None, timeout=600):
    """vacuity: an assertion of false at every function entry and loop body must be rejected"""
    u = Unit(name).d
    tr, lines, fnlines = build(name, probe=True)
    path = os.path.join(workdir, name + '_probe.rs')
    want = {i + 1 for i, (l, _) in enumerate(lines) if 'VACUITY-PROBE' in l}
    starts = sorted(fnlines.values())
    def fn_of(l):
        k = 0
        for st in starts:
            if st <= l: k = st
        return k
    miss = set(want); und = False
    t0 = time.time()
    # first all probes at once; then, for those not refuted (many refuted probes in one function can exhaust the solver's
    # resource limit), one per function at a time with the rest of the function cut off and the other functions skipped
    for rnd in range(12):
        entry = {}
        for l in sorted(want): entry.setdefault(fn_of(l), l)
        cur = {}
        for l in sorted(miss): cur.setdefault(fn_of(l), l)
        txt = []
        for n, (l, _) in enumerate(lines):
            n += 1
            if n in want and rnd:
                if cur.get(fn_of(n)) == n: l = 'proof { assert(false); }'
                elif entry[fn_of(n)] == n and fn_of(n) not in cur: l = 'proof { assume(false); }'
                else: l = ''
            txt.append(l)
        open(path, 'w').write('\n'.join(txt))
        left = timeout - (time.time() - t0)
        if left < 10: und = True; break
        r = run_verus(path, u.get('probe_rlimit', 10) if rnd == 0 else u.get('probe_rlimit2', 15), ['--multiple-errors', '1000' if rnd == 0 else '0'], left)
        if r['timeout'] or r['json'] is None: und = True; break
        hit = {int(x) for x in re.findall(r'--> \S*?_probe\.rs:(\d+):', r['stderr'])} & miss
        miss -= hit
        if not miss: break
        if rnd and not hit: und = 'esource limit' in r['stderr']; break
    return {'probes': len(want), 'failed_as_expected': len(want - miss), 'vacuous': [str(lines[l - 1][1]) for l in sorted(miss)] if not und else [],
            'undecided': und, 'wall': time.time() - t0}

def save_baseline(name):
    tr, lines, fnlines = build(name)
    d = {k: v['locals'] for k, v in tr.fn_info.items()}
    os.makedirs(os.path.join(CON, 'baseline'), exist_ok=True)
    json.dump(d, open(baseline_path(name), 'w'), indent=0, sort_keys=True)

if __name__ == '__main__':
    name = sys.argv[1]
    w = '/tmp/rkprove'; os.makedirs(w, exist_ok=True)
    if len(sys.argv) > 2 and sys.argv[2] == '--baseline':
        save_baseline(name); sys.exit(0)
    r = prove(name, w)
    print(r['status'], r.get('reason', ''), 'wall %.1f' % r['wall'], 'verified', r.get('verified'), 'errors', r.get('errors_n'))
    for e in r.get('errors', []):
        print('---', e['fn'], e['cpp']); print(e['block'][:1800])
    if r['status'] == 'accepted' or True:
        for k, v in sorted(r.get('breakdown', {}).items(), key=lambda x: -x[1]['us'])[:6]: print('  %8.2fs %s %s' % (v['us'] / 1e6, k, '' if v['success'] else 'FAILED'))
    if '--probe' in sys.argv: print(probe(name, w))
    if '-n' in sys.argv: print(r.get('notes'))
