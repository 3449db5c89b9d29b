"""Sidecar contracts."""
import re, os, json
from cppast import ExtractError

class LoopSpec:
    def __init__(self): self.invariants = []; self.decreases = None; self.isolate = False; self.ghost = {}; self.inv_eb = []; self.ens = []

class Contract:
    def __init__(self, name):
        self.name = name; self.sig = None; self.targs = None; self.rust = None; self.home = None
        self.requires = []; self.ensures = []; self.decreases = None; self.ret = None
        self.attrs = []; self.loops = {}; self.ghosts = {}; self.drop_asserts = False; self.thiscap_mut = False; self.proved_in = None; self.pointers = {}; self.gparams = []; self.callghosts = []; self.aftercalls = {}; self.hides = []; self.sharedptrs = {}; self.src = None; self.prop = None
    def loop(self, i): return self.loops.get(i)
    def ghost_at(self, where, loop):
        if loop is None: return self.ghosts.get(where, [])
        l = self.loops.get(loop)
        return l.ghost.get(where, []) if l else []
    def unused_loops(self, n): return [i for i in self.loops if i >= n]
    def all_text(self):
        out = list(self.requires) + list(self.ensures) + ([self.decreases] if self.decreases else [])
        for g in self.ghosts.values(): out += g
        out += [c[3] for c in self.callghosts]
        for g in self.aftercalls.values(): out += g
        for l in self.loops.values():
            out += l.invariants + l.inv_eb + l.ens + ([l.decreases] if l.decreases else [])
            for g in l.ghost.values(): out += g
        return '\n'.join(out)

class Specs:
    def __init__(self, files, baseline=None):
        self.contracts = []
        self.ptrfields = {}; self.arrayfields = {}; self.dropfields = {}; self.sharefields = {}
        self.functors = {}; self.functor_specs = {}; self.externs = {}; self.opaque_structs = {}; self.drop_calls = set(); self.std = {}; self.cstrings = False
        self.ptruse = {}
        self.baseline = baseline or {}
        for f in files: self.parse(f)

    def ptr_used(self, fn, f):
        return True

    def has_name(self, q): return any(c.name == q for c in self.contracts)

    def lookup(self, q, targs, sig, nparams, home=''):
        t = '<' + ','.join(targs) + '>'
        for c in self.contracts:
            if c.name != q: continue
            if c.sig and not re.search(c.sig, sig): continue
            if c.targs and not re.search(c.targs, t): continue
            if c.home and not re.search(c.home, home): continue
            return c
        return None

    def alpha(self, con, rust, locs):
        if con is None: return {}
        base = self.baseline.get(rust)
        if base is None: return {}
        base = [tuple(x) for x in base]
        cur = [tuple(x) for x in locs]
        bn = [x[0] for x in base]; cn = [x[0] for x in cur]
        m = {}
        if [x[1] for x in base] == [x[1] for x in cur]:
            for a, b in zip(bn, cn):
                if a != b and a not in cn: m.setdefault(a, b)
            return m
        text = con.all_text()
        for a, t in base:
            if a in cn or a in m: continue
            if not re.search(r'(?<![\w.])%s\b' % re.escape(a), text): continue
            c = [b for b, t2 in cur if t2 == t and b not in bn and b not in m.values()]
            if len(set(c)) == 1: m[a] = c[0]
        return m

    def missing_names(self, con, locs, amap):
        rust = None
        base = self.baseline.get(con.rust or re.sub(r'\W+', '_', con.name))
        if base is None: return []
        cn = {x[0] for x in locs}
        text = con.all_text()
        out = []
        for a, t in base:
            if a in cn or a in amap: continue
            if re.search(r'(?<![\w.])%s\b' % re.escape(a), text): out.append(a)
        return sorted(set(out))

    KW = re.compile(r'^\s*(requires|ensures|pointers\s+.*|hide\s+.*|callghost\s+.*|aftercall\s+\S+\s+\d+|sharedptr\s+.*|ghost\s+\w+\s*:.*|entry|exit|drop_asserts|thiscap_mut|ret\s+\w+|attr\s+.*|decreases\s+.*|loop\s+\d+\s+(invariant_except_break|ensures|invariant|before|begin|end_inc|end|after|isolate|decreases\s+.*))\s*$')

    def parse(self, path):
        cur = None; sect = None
        def additem(lst, line):
            s = line.strip()
            if s.startswith('- '): lst.append(s[2:])
            else:
                if not lst: raise ExtractError('%s: clause must start with "- ": %s' % (path, line))
                lst[-1] += '\n            ' + s
        for ln, line in enumerate(open(path), 1):
            line = line.rstrip('\n')
            if not line.strip() or line.strip().startswith('#'):
                continue
            w = line.split()
            if not line.startswith((' ', '\t')):
                sect = None
                if w[0] == 'fn':
                    cur = Contract(w[1]); cur.src = '%s:%d' % (os.path.basename(path), ln)
                    for x in re.findall(r'(\w+)=/(.*?)/', line):
                        if x[0] == 'sig': cur.sig = x[1]
                        elif x[0] == 'targs': cur.targs = x[1]
                        elif x[0] == 'rust': cur.rust = x[1]
                        elif x[0] == 'in': cur.home = x[1]
                    self.contracts.append(cur)
                elif w[0] == 'ptrfield': self.ptrfields.setdefault(w[1], {})[w[2]] = ' '.join(w[3:])
                elif w[0] == 'sharefield': self.sharefields.setdefault(w[1], {})[w[2]] = ' '.join(w[3:])
                elif w[0] == 'arrayfield': self.arrayfields.setdefault(w[1], {})[w[2]] = w[3]
                elif w[0] == 'dropfield': self.dropfields.setdefault(w[1], []).append(w[2])
                elif w[0] == 'functor': self.functors[w[1]] = w[2]; self.functor_specs[w[1]] = w[3] if len(w) > 3 else w[2] + '_spec'
                elif w[0] == 'extern': self.externs[w[1]] = w[2]
                elif w[0] == 'opaque': self.opaque_structs[w[1]] = ' '.join(w[2:])
                elif w[0] == 'cstrings':
                    self.cstrings = True
                    self.opaque_structs['RkCStr'] = '#[verifier::external_body] #[derive(Clone, Copy)] pub struct RkCStr { p: u64 }'
                elif w[0] == 'dropcall': self.drop_calls.add(w[1])
                else: raise ExtractError('%s:%d: %s' % (path, ln, line))
                continue
            m = self.KW.match(line)
            if m:
                s = m.group(1).split()
                if s[0] == 'requires': sect = ('l', cur.requires)
                elif s[0] == 'ensures': sect = ('l', cur.ensures)
                elif s[0] == 'ret': cur.ret = s[1]; sect = None
                elif s[0] == 'attr': cur.attrs.append(' '.join(s[1:])); sect = None
                elif s[0] == 'decreases': cur.decreases = ' '.join(s[1:]); sect = None
                elif s[0] == 'pointers':
                    k = s.index('into')
                    for x in s[1:k]: cur.pointers[x] = s[k + 1]
                    sect = None
                elif s[0] == 'sharedptr': cur.sharedptrs[s[1]] = s[2]; sect = None
                elif s[0] == 'hide': cur.hides += s[1:]; sect = None
                elif s[0] == 'callghost':
                    cg = re.match(r'callghost\s+(\S+)\s+(\w+)\s+/(.*?)/\s+(.*)$', m.group(1))
                    if not cg: raise ExtractError('%s:%d: %s' % (path, ln, line))
                    cur.callghosts.append(cg.groups()); sect = None
                elif s[0] == 'aftercall': sect = ('g', cur.aftercalls.setdefault((s[1], int(s[2])), []))
                elif s[0] == 'ghost':
                    a, b = m.group(1)[5:].split(':', 1); cur.gparams.append((a.strip(), b.strip())); sect = None
                elif s[0] == 'drop_asserts': cur.drop_asserts = True
                elif s[0] == 'thiscap_mut': cur.thiscap_mut = True
                elif s[0] in ('entry', 'exit'):
                    g = cur.ghosts.setdefault(s[0], []); sect = ('g', g)
                elif s[0] == 'loop':
                    lp = cur.loops.setdefault(int(s[1]), LoopSpec())
                    if s[2] == 'invariant_except_break': sect = ('l', lp.inv_eb)
                    elif s[2] == 'ensures': sect = ('l', lp.ens)
                    elif s[2] == 'invariant': sect = ('l', lp.invariants)
                    elif s[2] == 'decreases': lp.decreases = ' '.join(s[3:]); sect = None
                    elif s[2] == 'isolate': lp.isolate = True
                    else: sect = ('g', lp.ghost.setdefault('loop_' + s[2], []))
                continue
            if sect is None: raise ExtractError('%s:%d: %s' % (path, ln, line))
            if sect[0] == 'l': additem(sect[1], line)
            else: sect[1].append(line.strip())
