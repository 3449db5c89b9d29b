"""Mechanical translation of C++ functions (clang AST) into Verus executable functions.

What is translated: the statements and expressions of the function bodies found in /repo's
current source, node by node.  What is dropped or changed is listed in DROPPED below and in
DESIGN.md.  Contracts, loop invariants and ghost code come from sidecar files (spec.py).
"""
import re, json
from cppast import Ast, ExtractError, FUNCS

DROPPED = [
    "log_message(...) calls, timer reads and (void)x statements are dropped",
    "vector::reserve / shrink_to_fit are dropped (capacity is not observable)",
    "std::vector<T> is translated to Rust Vec<T>; operator[] becomes an indexing operation with an in-bounds obligation",
    "unsigned arithmetic is translated to helpers with wrap-around semantics; signed arithmetic carries no-overflow obligations",
    "assert(e) becomes an obligation that e is true",
    "throw becomes returning Err; functions that may throw return Result",
    "const pointer members declared 'ptrfield' become shared-reference parameters (assumed non-null and not re-seated during the call)",
    "const pointer members declared 'sharefield' become handles to an immutable value (assumed: the pointed-to object does not change while the pointer is used); null tests are kept",
    "functions without a contract are inlined at the call site",
    "memory allocation never fails",
    "raw pointer parameters named in a contract's 'pointers' line become positions in one array (assumed: they point into the same array, one past the end at most)",
    "an owning pointer member declared 'arrayfield' becomes an owned array; aligned_alloc returns fresh memory of unspecified content, throw std::bad_alloc after it is unreachable, free and destructors are dropped, a moved-from pointer has unspecified content until it is assigned",
    "gcc vector types of 8 x 64 bit become arrays of 8 words with word-wise operations",
    "const reference members become shared references (the object referred to does not change while the holder lives)",
    "a type declared 'functor' stands for an arbitrary pure function; its call operator becomes an uninterpreted function",
    "references and pointers of one call do not alias unless the contract says so",
]

INT = {'bool': 'bool', 'unsigned int': 'u32', 'unsigned': 'u32', 'int': 'i32', 'unsigned long': 'u64',
       'unsigned long long': 'u64', 'long': 'i64', 'long long': 'i64', 'unsigned short': 'u16', 'short': 'i16',
       'unsigned char': 'u8', 'signed char': 'i8', 'char': 'i8', 'uint32_t': 'u32', 'uint64_t': 'u64', 'size_t': 'u64',
       'std::size_t': 'u64', 'uint8_t': 'u8', 'uint16_t': 'u16', 'int32_t': 'i32', 'int64_t': 'i64',
       'size_type': 'u64', 'difference_type': 'i64', 'ptrdiff_t': 'i64', 'std::ptrdiff_t': 'i64',
       'double': 'f64', 'float': 'f32', '__int128': 'i128', 'unsigned __int128': 'u128',
       'uint_fast32_t': 'u64', 'value_type': None}
UINTS = ('u8', 'u16', 'u32', 'u64')
INTS = UINTS + ('i8', 'i16', 'i32', 'i64')
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
RUST_KW = {'type', 'in', 'out_', 'ref', 'move', 'match', 'loop', 'fn', 'let', 'mut', 'use', 'where', 'impl', 'trait', 'mod', 'pub',
           'self', 'super', 'crate', 'as', 'box', 'dyn', 'final', 'old', 'open', 'closed', 'spec', 'proof', 'exec', 'ghost', 'tracked',
           'requires', 'ensures', 'decreases', 'invariant', 'forall', 'exists', 'choose', 'assert', 'assume', 'by', 'yield', 'is', 'has', 'abstract'}

def rn(name):
    return name + '_' if name in RUST_KW else name

ALIAS = {}     # alias template -> {type argument: resolved type}
VECTY = {}     # typedef name -> Ty of a gcc vector type
ENUMS = {}
CSTR = []       # non-empty: const char* is a C string value (directive cstrings)
ALLOC = ('aligned_alloc', '_aligned_malloc')

class Ty:
    def __init__(self, kind, name=None, elem=None, const=False):
        self.kind = kind; self.name = name; self.elem = elem; self.const = const
    def __repr__(self):
        return 'Ty(%s,%s,%s%s)' % (self.kind, self.name, self.elem, ',const' if self.const else '')
    def is_scalar(self): return self.kind in ('int', 'bool', 'float')
    def strip(self):
        return self.elem if self.kind in ('ref', 'rref') else self

def split_targs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def alias_arg(s):
    s = re.sub(r'\b(std|RoutingKit)::', '', s).replace(' >', '>')
    return re.sub(r', allocator<[\w ]+>', '', s)

def parse_ty(s, structs):
    s = s.strip()
    if s.endswith('&&'):
        return Ty('rref', elem=parse_ty(s[:-2], structs))
    if s.endswith('&'):
        return Ty('ref', elem=parse_ty(s[:-1], structs))
    m = re.match(r'^(.*)\*\s*(const)?$', s)
    if m and CSTR and m.group(1).strip() in ('const char', 'char const'):
        return Ty('struct', 'RkCStr')
    if m:
        return Ty('ptr', elem=parse_ty(m.group(1), structs))
    const = False
    while True:
        if s.startswith('const '): s = s[6:].strip(); const = True
        elif s.endswith(' const'): s = s[:-6].strip(); const = True
        elif s.startswith('class ') or s.startswith('struct '): s = s.split(' ', 1)[1]
        elif s.startswith('typename '): s = s[9:]
        elif s.startswith('volatile '): s = s[9:]
        else: break
    m = re.match(r'^__attribute__\(\(__vector_size__\((\d+) \* sizeof\(([\w ]+)\)\)\)\) ([\w ]+)$', s)
    if m and m.group(1) == '8' and INT.get(m.group(3)) == 'u64':
        return Ty('arr', name=8, elem=Ty('int', 'u64'), const=const)
    if s.split('::')[-1] in VECTY: 
        return Ty('arr', name=8, elem=Ty('int', 'u64'), const=const)
    if s in INT and INT[s]:
        r = INT[s]
        return Ty('bool' if r == 'bool' else ('float' if r in ('f32', 'f64') else 'int'), r, const=const)
    if s == 'void': return Ty('void', const=const)
    m = re.match(r'^std::vector<(.*)>$', s)
    if m:
        a = split_targs(m.group(1))
        return Ty('vec', elem=parse_ty(a[0], structs), const=const)
    if re.match(r'^(std::)?function<void \((const std::(__cxx11::)?(basic_)?string(<char>)? ?&|std::(__cxx11::)?(basic_)?string(<char>)?)\)>$', s): return Ty('log', const=const)
    m = re.match(r'^std::pair<(.*)>$', s)
    if m:
        a = split_targs(m.group(1))
        return Ty('pair', name=[parse_ty(x, structs) for x in a], const=const)
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m:
        return Ty('arr', name=int(m.group(2)), elem=parse_ty(m.group(1), structs), const=const)
    if '(lambda' in re.split('<', s)[0]: return Ty('lambda', s)
    if '__normal_iterator<' in s or re.search(r'::(const_)?iterator$', s):
        return Ty('iter', s)
    m = re.match(r'^(?:\w+::)*(\w+)<(.*)>$', s)
    if m and m.group(1) in ALIAS and alias_arg(m.group(2)) in ALIAS[m.group(1)]:
        return parse_ty(('const ' if const else '') + ALIAS[m.group(1)][alias_arg(m.group(2))], structs)
    base = re.sub(r'<.*>$', '', s)
    b = base.replace('RoutingKit::', '').replace('(anonymous namespace)::', '')
    if b.startswith('enum '): b = b[5:]
    if b.split('::')[-1] in ENUMS: return Ty('int', ENUMS[b.split('::')[-1]], const=const)
    return Ty('struct', b, const=const)

class Contract:
    pass

class Var:
    """how a C++ variable is represented: text = Rust place text; ty; mode: 'val','ref' (text is & or &mut reference to it), 'place' (alias)"""
    def __init__(self, text, ty, mode='val', extra=None):
        self.text = text; self.ty = ty; self.mode = mode; self.extra = extra

class Inlined:
    def __init__(self): self.ret = None

class Translator:
    def __init__(self, ast, specs, opts=None):
        self.ast = ast
        self.specs = specs            # Spec object
        self.structs = {}
        self.out = []
        self.done = {}                # fn id -> rust name
        self.queue = []
        self.lam_info = {}; self.lam_home = {}
        self.struct_out = {}
        self.views = set()
        self.used_helpers = set()
        self.fn_info = {}
        self.opts = opts or {}
        self.trust = set()
        self.notes = set()
        self._throws = {}
        ALIAS.clear(); VECTY.clear(); CSTR.clear(); ENUMS.clear()
        self.enumval = {}
        for i in ast.by_id.values():
            if i.get('kind') == 'EnumDecl' and i.get('name'):
                u = i.get('fixedUnderlyingType', {}).get('desugaredQualType', i.get('fixedUnderlyingType', {}).get('qualType', 'unsigned int'))
                if INT.get(u) and INT[u][0] in 'ui': ENUMS[i['name']] = INT[u]
                v = 0
                for c in i.get('inner', []):
                    if c.get('kind') != 'EnumConstantDecl': continue
                    for e in c.get('inner', []):
                        if 'value' in e: v = int(e['value'])
                    self.enumval[c['id']] = '%d%s' % (v, INT.get(u)); v += 1
        if specs.cstrings: CSTR.append(1)
        for i in ast.by_id.values():
            if i.get('kind') == 'TypedefDecl' and i.get('name') and 'vector_size' in json.dumps(i.get('type', {})):
                t = parse_ty(i['type'].get('desugaredQualType', i['type']['qualType']), {})
                if t.kind == 'arr': VECTY[i['name']] = t
        for i in ast.by_id.values():
            if i.get('kind') != 'TypeAliasTemplateDecl': continue
            for c in i.get('inner', []):
                m = re.match(r'^typename (\w+)<\w+>::(\w+)$', c.get('type', {}).get('qualType', '')) if c.get('kind') == 'TypeAliasDecl' else None
                if not m: continue
                for h in ast.by_id.values():
                    if h.get('kind') != 'ClassTemplateSpecializationDecl' or h.get('name') != m.group(1): continue
                    a = self.targs(h)
                    for d in h.get('inner', []):
                        if d.get('kind') == 'TypedefDecl' and d.get('name') == m.group(2) and len(a) == 1:
                            ALIAS.setdefault(i['name'], {})[alias_arg(a[0])] = d['type'].get('desugaredQualType', d['type']['qualType'])

    # ---------- naming
    def qual(self, n):
        rec = self.ast.parent_record(n)
        name = n['name']
        if rec is not None and rec.get('name'):
            chain = [rec['name']]
            p = self.ast.parent.get(rec['id'])
            while p is not None and p['kind'] == 'CXXRecordDecl' and p.get('name'):
                chain.insert(0, p['name']); p = self.ast.parent.get(p['id'])
            # use innermost class name only (matches how types are printed without namespaces)
            return '::'.join(chain) + '::' + name
        return name

    def params(self, n):
        return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def sig(self, n):
        t = n['type']['qualType']
        return t

    def targs(self, n):
        out = []
        for c in self.ast.template_args(n):
            if 'type' in c: out.append(c['type']['qualType'])
            elif 'value' in c: out.append(str(c['value']))
        return out

    def ty(self, node):
        t = node['type'] if 'type' in node else None
        if t is None: return Ty('void')
        return self.ty_of(t)

    def ty_of(self, t):
        for k in ('desugaredQualType', 'qualType'):
            if k in t:
                s = t[k]
                p = parse_ty(s, self.structs)
                q = p.strip()
                if q.kind == 'struct' and ('::' in (q.name or '') and k == 'desugaredQualType') and 'qualType' in t:
                    p2 = parse_ty(t['qualType'], self.structs)
                    if p2.strip().kind != 'struct': return p2
                if q.kind == 'vec' and q.elem.kind == 'struct' and q.elem.name in ('value_type',):
                    continue
                return p
        raise ExtractError('no type in %r' % t)

    # ---------- Rust types
    def rty(self, t):
        if t.kind in ('int', 'bool', 'float'): return t.name
        if t.kind == 'void': return '()'
        if t.kind == 'vec': return 'Vec<%s>' % self.rty(t.elem)
        if t.kind == 'pair': return '(%s)' % ', '.join(self.rty(x) for x in t.name)
        if t.kind == 'arr': return '[%s; %d]' % (self.rty(t.elem), t.name)
        if t.kind == 'struct':
            self.need_struct(t.name)
            return self.struct_rust_name(t.name)
        if t.kind in ('ref', 'rref'): return self.rty(t.elem)
        raise ExtractError('type not supported by the extractor: %r' % t)

    def struct_rust_name(self, name):
        return re.sub(r'\W+', '_', name.split('::')[-1]) if name.split('::')[-1] not in ('Query',) else re.sub(r'\W+', '_', name)

    def find_record(self, name):
        last = name.split('::')[-1]
        c = self.ast.records.get(last, [])
        c = [x for x in c if any(y.get('kind') == 'FieldDecl' for y in x.get('inner', []))] or c
        c = [x for x in c if x['kind'] == 'ClassTemplateSpecializationDecl'] or c
        if not c: raise ExtractError('record %s not found' % name)
        return c[0]

    def need_struct(self, name):
        rn_ = self.struct_rust_name(name)
        if rn_ in self.struct_out: return
        self.struct_out[rn_] = None
        if name in self.specs.opaque_structs:
            self.struct_out[rn_] = (self.specs.opaque_structs[name], True, [])
            return
        rec = self.find_record(name)
        fields = []
        copy = True
        ptrf = self.specs.ptrfields.get(name.split('::')[-1], {})
        bs = [b for b in rec.get('bases', [])]
        if len(bs) > 1: raise ExtractError('multiple inheritance')
        for b in bs:
            bt = parse_ty(b['type'].get('desugaredQualType', b['type']['qualType']), {})
            fields.append(('base_', self.rty(bt)))
            if not self.is_copy(bt): copy = False
        for f in rec.get('inner', []):
            if f.get('kind') != 'FieldDecl': continue
            if f['name'] in ptrf or f['name'] in self.specs.dropfields.get(name.split('::')[-1], ()): continue
            ft = self.ty(f)
            af = self.specs.arrayfields.get(name.split('::')[-1], {})
            if f['name'] in af:
                fields.append((rn(f['name']), 'Vec<%s>' % af[f['name']])); copy = False; continue
            if f['name'] in self.specs.sharefields.get(name.split('::')[-1], {}):
                tgt = self.specs.sharefields[name.split('::')[-1]][f['name']]
                if re.match(r'^\w+$', tgt): tgt = self.rty(Ty('struct', tgt)); self.specs.sharefields[name.split('::')[-1]][f['name']] = tgt
                fields.append((rn(f['name']), 'RkShared<%s>' % self.specs.sharefields[name.split('::')[-1]][f['name']])); copy = False; continue
            if ft.kind == 'ref':
                # const reference members become shared references, function objects are dropped
                e = ft.elem
                if e.kind == 'lambda' or (e.kind == 'struct' and e.name in self.specs.functors): continue
                if not e.const: raise ExtractError('reference field %s::%s' % (name, f['name']))
                et = self.rty(e)
                fields.append((rn(f['name']), "&'a %s%s" % (et, "<'a>" if et in self.views else ''))); self.views.add(rn_); continue
            if ft.kind == 'ptr' : 
                raise ExtractError('pointer field %s::%s without ptrfield declaration' % (name, f['name']))
            rt = self.rty(ft)
            if not self.is_copy(ft): copy = False
            fields.append((rn(f['name']), rt))
        der = '#[derive(Clone, Copy)]\n' if copy else ''
        txt = der + 'pub struct %s%s { %s }\n' % (rn_, "<'a>" if rn_ in self.views else '', ', '.join('pub %s: %s' % f for f in fields))
        self.struct_out[rn_] = (txt, copy, fields)

    def is_copy(self, t):
        if t.kind in ('int', 'bool', 'float'): return True
        if t.kind == 'pair': return all(self.is_copy(x) for x in t.name)
        if t.kind == 'arr': return self.is_copy(t.elem)
        if t.kind == 'struct':
            self.need_struct(t.name)
            s = self.struct_out[self.struct_rust_name(t.name)]
            return s is not None and s[1]
        return False

    # ---------- lookup of function definition
    def definition(self, fid):
        return self.ast.defs.get(fid)

    def contract_for(self, fn):
        home = ' '.join(h for _l, _c, _t, h in self.lam_info.get(fn['id'], {}).values())
        return self.specs.lookup(self.qual(fn), self.targs(fn), self.sig(fn), len(self.params(fn)), home)

    # lambdas passed to functions with contracts: the callee gets the captured variables as parameters
    def register_lambda(self, d, i, lam, caps, this_rec, home):
        self.lam_info.setdefault(d['id'], {}).setdefault(i, (lam, caps, this_rec, self.lam_home.setdefault(lam['id'], home)))

    def throws(self, fn):
        i = fn['id']
        if i in self._throws: return self._throws[i]
        self._throws[i] = False
        r = self._node_throws(Ast.body(fn) or {})
        self._throws[i] = r
        return r

    def _node_throws(self, n):
        if not isinstance(n, dict): return False
        k = n.get('kind')
        if k == 'CXXThrowExpr': return not self.is_bad_alloc(n)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            d = self.callee_decl(n)
            if d is not None:
                df = self.definition(d)
                if df is not None and self.throws(df): return True
        if k == 'LambdaExpr': return False
        return any(self._node_throws(c) for c in n.get('inner', []))

    def is_bad_alloc(self, n):
        return bool(n.get('inner')) and 'bad_alloc' in json.dumps(n['inner'][0].get('type', {}))

    def callee_decl(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c['kind'] == 'MemberExpr': return c.get('referencedMemberDecl')
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl']['id']
        return None

    # ---------- emit a function
    def rust_fn_name(self, fn):
        q = self.qual(fn)
        con = self.contract_for(fn)
        if con is not None and con.rust: return con.rust
        return re.sub(r'\W+', '_', q)

    def request(self, fn):
        if fn['id'] not in self.done:
            nm = self.rust_fn_name(fn); k = 2; base = nm
            while nm in self.done.values(): nm = '%s_%d' % (base, k); k += 1
            self.done[fn['id']] = nm
            self.queue.append(fn)
        return self.done[fn['id']]

    def run(self, roots):
        self.root_names = {self.request(f) for f in roots}
        while self.queue:
            f = self.queue.pop(0)
            ft = FnTrans(self, f, self.contract_for(f))
            self.out.append(ft.translate())
            self.fn_info[self.done[f['id']]] = ft.info

    def find(self, q, sigre=None, targs=None):
        c = [f for f in self.ast.all_funcs if self.qual(f) == q and Ast.body(f) is not None]
        def isinst(f):
            p = self.ast.parent.get(f['id'])
            if p is not None and p['kind'] == 'FunctionTemplateDecl':
                return bool(self.ast.template_args(f))
            return True
        c = [f for f in c if isinst(f)]
        if sigre: c = [f for f in c if re.search(sigre, self.sig(f))]
        if targs is not None: c = [f for f in c if re.search(targs, '<' + ','.join(self.targs(f)) + '>')]
        # dedupe
        seen = set(); r = []
        for f in c:
            if f['id'] not in seen: seen.add(f['id']); r.append(f)
        return r


class FnTrans:
    def __init__(self, tr, fn, con):
        self.tr = tr; self.ast = tr.ast; self.fn = fn; self.con = con
        self.env = {}
        self.tmp = 0
        self.loopno = 0
        self.lines = []
        self.locals = []      # (name, type) in declaration order
        self.ind = 1
        self.loop_stack = []  # increments for 'continue'
        self.inl_depth = 0
        self.ret_target = None
        self.this_text = 'this'
        self.this_rec = tr.ast.parent_record(fn)
        self.names_in_use = {}
        self.cur_line = None
        self.info = {}
        self.this_stack = []
        self.inline_chain = [fn['id']]
        self.inlined_names = []
        self.hook_names = {k for k, _ in con.aftercalls} if con is not None else set(); self.call_counts = {}; self.call_hooked = set()
        self.fobjs = {}
        self.ret_flag = None
        self.log_only = set(); self.read_ids = set()

    # ---- helpers
    def t(self, hint='t'):
        self.tmp += 1
        return '%s__%d' % (hint, self.tmp)

    def emit(self, s):
        for key in self.hook_names: self.call_counts[key] = self.call_counts.get(key, 0) + len(re.findall(r'\b%s(?:::<\w+>)?\(' % key, s))
        self.lines.append(('    ' * self.ind + s, self.cur_line))

    def fail(self, node, msg):
        loc = node.get('range', {}).get('begin', {}) if isinstance(node, dict) else {}
        raise ExtractError('%s [%s] at %s:%s in %s' % (msg, node.get('kind') if isinstance(node, dict) else '', loc.get('file'), loc.get('line'), self.tr.qual(self.fn)))

    # ---- top
    def translate(self):
        fn = self.fn; tr = self.tr; con = self.con
        name = tr.done[fn['id']]
        ps = []
        is_ctor = fn['kind'] == 'CXXConstructorDecl'
        static = fn.get('storageClass') == 'static'
        if self.this_rec is not None and not is_ctor and not static:
            const = bool(re.search(r'\)\s*const', tr.sig(fn)))
            rec = self.this_rec['name']
            force_mut = False
            sname = tr.rty(Ty('struct', tr.qual(fn).rsplit('::', 1)[0]))
            ps.append('this: &%s%s' % ('' if const else 'mut ', sname))
            self.this_mode = 'ref'
        if self.this_rec is not None and not static:
            for f, ft in tr.specs.ptrfields.get(self.this_rec['name'], {}).items():
                if is_ctor and True:
                    continue
                if not tr.specs.ptr_used(fn, f): continue
                ps.append('this_%s: &%s' % (f, ft))
        pre = []; bases = set()
        for i, p in enumerate(tr.params(fn)):
            pt = tr.ty(p)
            nm = rn(p.get('name', 'unnamed_%d' % i))
            if pt.strip().kind == 'log': self.env[p['id']] = Var('log', pt.strip(), 'log'); continue
            self.locals.append((nm, repr(pt)))
            if con and p.get('name') in con.pointers:
                base = con.pointers[p['name']]
                q = pt.elem if pt.kind == 'ref' else pt
                if q.kind != 'ptr': self.fail(p, 'parameter declared as pointer in the contract')
                if base not in bases:
                    bases.add(base); ps.append('%s: &%sVec<%s>' % (base, '' if q.elem.const else 'mut ', tr.rty(q.elem)))
                if pt.kind == 'ref':
                    ps.append('%s: &mut u64' % nm); self.env[p['id']] = Var('(*%s)' % nm, q, 'iter', extra=base)
                else:
                    ps.append('%s: u64' % nm); pre.append((nm, Ty('int', 'u64'))); self.env[p['id']] = Var(nm, q, 'iter', extra=base)
                continue
            if con and p.get('name') in con.sharedptrs:
                ps.append('%s: &RkShared<%s>' % (nm, con.sharedptrs[p['name']])); self.env[p['id']] = Var(nm, pt, 'sharep'); continue
            if i in tr.lam_info.get(fn['id'], {}):
                lam, caps, this_rec, _h = tr.lam_info[fn['id']][i]
                taken = {rn(q.get('name', '')) for q in tr.params(fn)}
                for dr, cty, mut in caps:
                    cid = dr['referencedDecl']['id']
                    if cid in self.env: continue
                    cn = rn(dr['referencedDecl']['name'])
                    if cn in taken: cn = 'cap_' + cn
                    taken.add(cn)
                    self.locals.append((cn, repr(cty)))
                    if not mut and tr.is_copy(cty): ps.append('%s: %s' % (cn, tr.rty(cty))); self.env[cid] = Var(cn, cty, 'val')
                    else:
                        ps.append('%s: &%s%s' % (cn, 'mut ' if mut else '', tr.rty(cty)))
                        self.env[cid] = Var('(*%s)' % cn if tr.is_copy(cty) else cn, cty, 'mutref' if mut else 'ref')
                if this_rec is not None:
                    if self.this_rec is not None and self.this_text != 'this_cap': self.fail(p, 'lambda that captures this passed to a method')
                    if self.this_text != 'this_cap':
                        self.this_text = 'this_cap'; self.this_stack = [this_rec[1]]
                        ps.append('this_cap: &%s%s' % ('mut ' if con and con.thiscap_mut else '', tr.rty(Ty('struct', this_rec[0]))))
                self.env[p['id']] = Var('lambda', pt, 'lambda', extra=(lam, dict(self.env), self.this_text)); continue
            if pt.kind == 'ref':
                e = pt.elem
                if e.kind == 'lambda' or (e.kind == 'struct' and e.name in tr.specs.functors):
                    self.env[p['id']] = Var(e.name, e, 'functor'); continue
                if e.const:
                    if tr.is_copy(e):
                        ps.append('%s: %s' % (nm, tr.rty(e))); self.env[p['id']] = Var(nm, e, 'val')
                    else:
                        ps.append('%s: &%s' % (nm, tr.rty(e))); self.env[p['id']] = Var(nm, e, 'ref')
                else:
                    ps.append('%s: &mut %s' % (nm, tr.rty(e)))
                    self.env[p['id']] = Var('(*%s)' % nm if tr.is_copy(e) else nm, e, 'mutref')
            elif pt.kind == 'rref':
                ps.append('%s: &mut %s' % (nm, tr.rty(pt.elem)))
                self.env[p['id']] = Var(nm, pt.elem, 'mutref')
            elif pt.kind == 'lambda' or (pt.kind == 'struct' and pt.name in tr.specs.functors):
                self.env[p['id']] = Var(pt.name, pt, 'functor')
            elif pt.kind == 'ptr':
                e = pt.elem
                if pt.elem.kind in ('int',):
                    # pointer into an array: passed as slice (Vec) + position
                    self.fail(p, 'raw pointer parameter')
                ps.append('%s: &%s%s' % (nm, '' if e.const else 'mut ', tr.rty(e)))
                self.env[p['id']] = Var('(*%s)' % nm if tr.is_copy(e) else nm, pt, 'ptrparam')
            else:
                ps.append('%s: %s' % (nm, tr.rty(pt)))
                pre.append((nm, pt))
                self.env[p['id']] = Var(nm, pt, 'val')
        self.base_params = bases
        rt = self.ret_ty()
        self.throws = tr.throws(fn)
        rts = tr.rty(rt) if rt.kind != 'void' else '()'
        if is_ctor:
            rts = tr.rty(Ty('struct', tr.qual(fn).rsplit('::', 1)[0]))
        if self.throws: rts = 'Result<%s, ()>' % rts
        rname = con.ret if con and con.ret else 'r'
        rdecl = ' -> (%s: %s)' % (rname, rts) if rts != '()' else ''
        body = Ast.body(fn)
        self.is_ctor = is_ctor
        self.rname = rname
        self.cur_line = self.line_of(fn)
        self.ret_is_void = (rt.kind == 'void' and not is_ctor)
        if con and con.proved_in and name not in tr.root_names:
            # only the contract is used here; it is discharged in another unit
            head = '#[verifier::external_body]\npub fn %s(%s)%s\n' % (name, ', '.join(ps + ['Ghost(%s): Ghost<%s>' % g for g in con.gparams]), rdecl)
            if con.requires: head += '    requires\n' + ''.join('        %s,\n' % x for x in con.requires)
            if con.ensures: head += '    ensures\n' + ''.join('        %s,\n' % x for x in con.ensures)
            head += '{ unimplemented!() }\n'
            amap = tr.specs.alpha(con, name, self.locals)
            for a, b in amap.items(): head = re.sub(r'(?<![\w.])%s\b(?!\s*::)' % re.escape(a), b, head)
            self.info = {'cpp': tr.qual(fn), 'file': fn['loc'].get('file'), 'line': self.line_of(fn), 'loops': 0, 'inlined': [], 'locals': self.locals, 'contract': True, 'proved_in': con.proved_in}
            tr.notes.add('contract of %s used as proved in unit %s' % (tr.qual(fn), con.proved_in))
            return (name, [(h, self.line_of(fn)) for h in head.split('\n')])
        # body
        for x in (con.hides if con else []): self.emit('hide(%s);' % x)
        for nm, pt in pre:
            if self.assigned_in(body, nm):
                self.emit('let ghost %s_0 = %s;' % (nm, nm))
                self.emit('let mut %s: %s = %s;' % (nm, tr.rty(pt), nm))
        if is_ctor: self.ctor_init(fn)
        self.ghost('entry')
        self.stmts(body)
        if self.ret_is_void and not self.ends_with_return(body):
            self.ghost('exit')
            if self.throws: self.emit('Ok(())')
        if is_ctor:
            self.ghost('exit')
            self.emit('Ok(this)' if self.throws else 'this')
        for i, nm_ in self.log_only:
            if i in self.read_ids: raise ExtractError('%s: %s is changed in a logging block and used elsewhere' % (name, nm_))
        # alpha-map the contract text
        amap = tr.specs.alpha(con, name, self.locals)
        def mp(s):
            for a, b in amap.items():
                s = re.sub(r'(?<![\w.])%s\b(?!\s*::)' % re.escape(a), b, s)
            return s
        L = []
        attrs = (con.attrs if con else [])
        head = ''.join('#[%s]\n' % a for a in attrs)
        head += 'pub fn %s(%s)%s\n' % (name, ', '.join(ps), rdecl)
        if con:
            for g in con.gparams: ps.append('Ghost(%s): Ghost<%s>' % g)
            head = head.rsplit('pub fn', 1)[0] + 'pub fn %s(%s)%s\n' % (name, ', '.join(ps), rdecl)
            if con.requires: head += '    requires\n' + ''.join('        %s,\n' % mp(x) for x in con.requires)
            if con.ensures: head += '    ensures\n' + ''.join('        %s,\n' % mp(x) for x in con.ensures)
            if con.decreases: head += '    decreases %s\n' % mp(con.decreases)
        head += '{\n'
        for h in head.split('\n')[:-1]: L.append((h, self.line_of(fn)))
        for s, ln in self.lines:
            L.append((s, ln))
        L.append(('}', None)); L.append(('', None))
        L = [(mp(s[1:]) if s.startswith('\x00') else s, ln) for s, ln in L]
        if con:
            unused = con.unused_loops(self.loopno)
            if unused:
                raise ExtractError('%s: contract names loop(s) %s but the function now has %d loop(s)' % (name, unused, self.loopno))
            miss = tr.specs.missing_names(con, self.locals, amap)
            if miss:
                raise ExtractError('%s: contract mentions local(s) %s that the function no longer declares' % (name, miss))
        self.info = {'cpp': tr.qual(fn), 'file': fn['loc'].get('file'), 'line': self.line_of(fn), 'loops': self.loopno,
                     'inlined': sorted(set(self.inlined_names)), 'locals': self.locals, 'contract': con is not None}
        return (name, L)

    def line_of(self, n):
        l = n.get('range', {}).get('begin', {})
        if l.get('file'): return (l['file'], l.get('line'))
        return None

    def ret_ty(self):
        s = self.tr.sig(self.fn)
        # return type text = everything before the parameter list
        m = self.split_fn_type(s)
        t = parse_ty(m, self.tr.structs)
        if t.kind == 'struct' and self.fn['type'].get('desugaredQualType'):
            t2 = parse_ty(self.split_fn_type(self.fn['type']['desugaredQualType']), self.tr.structs)
            t = t2
        if t.kind == 'ref' and self.this_rec is not None and t.elem.kind == 'struct' and t.elem.name.split('::')[-1] == self.this_rec.get('name') and not t.elem.const:
            return Ty('void')     # 'return *this'
        return self.known_ty(t.strip() if t.kind in ('ref', 'rref') else t, self.fn)

    def known_ty(self, t, fn):
        """a return type spelled through an alias template: the type of the returned expression"""
        if t.kind != 'struct' or t.name in self.tr.specs.functors or t.name in self.tr.specs.opaque_structs: return t
        try: self.tr.find_record(t.name); return t
        except ExtractError: pass
        def f(n):
            if not isinstance(n, dict) or n.get('kind') == 'LambdaExpr': return None
            if n.get('kind') == 'ReturnStmt' and n.get('inner'): return self.tr.ty(n['inner'][0])
            for c in n.get('inner', []):
                r = f(c)
                if r is not None: return r
            return None
        r = f(Ast.body(fn) or {})
        return r.strip() if r is not None else t

    @staticmethod
    def split_fn_type(s):
        d = 0
        # find the '(' that opens the parameter list: the last top-level '(' group
        i = len(s) - 1
        while i >= 0 and s[i] != ')': i -= 1
        d = 0
        while i >= 0:
            if s[i] == ')': d += 1
            elif s[i] == '(':
                d -= 1
                if d == 0: break
            i -= 1
        return s[:i].strip()

    def assigned_in(self, body, nm):
        return True

    def ghost(self, where, loop=None):
        con = self.con
        if getattr(self.tr, 'probe', False) and not (self.inl_depth and where == 'entry') and where in ('entry', 'loop_begin'):
            self.lines.append(('    ' * self.ind + 'if rk_any::<bool>() { proof { assert(false); } } // VACUITY-PROBE', self.cur_line))
        if not con or self.inl_depth and where in ('entry', 'exit'): return
        txt = con.ghost_at(where, loop)
        for l in txt:
            self.lines.append(('\x00' + '    ' * self.ind + self.returned(l), self.cur_line))

    def returned(self, l):
        """RETURNED in the text of a loop of an inlined function: has the function returned from within the loop?"""
        return re.sub(r'\bRETURNED\b', self.ret_flag[0] if self.ret_flag else 'false', l)

    def ends_with_return(self, body):
        inner = body.get('inner', [])
        return bool(inner) and inner[-1]['kind'] == 'ReturnStmt'

    # ---- constructor
    def ctor_init(self, fn):
        tr = self.tr
        cname = tr.qual(fn).rsplit('::', 1)[0]
        sname = tr.rty(Ty('struct', cname))
        fields = dict(tr.struct_out[sname][2])
        order = tr.struct_out[sname][2]
        vals = {}
        for c in fn.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer': continue
            if 'baseInit' in c:
                e = self.strip(c['inner'][0])
                self.emit('let init_base_: %s = %s;' % (fields['base_'], self.rv(c['inner'][0]))); vals['base_'] = 'init_base_'; continue
            if 'anyInit' not in c:
                e = self.strip(c['inner'][0])
                if 'delegatingInit' in c or e.get('kind') == 'CXXConstructExpr' and self.tr.ty(e).kind == 'struct' and tr.rty(self.tr.ty(e)) == sname:
                    self.emit('let mut this: %s = %s;' % (sname, self.rv(c['inner'][0]))); return
                self.fail(c, 'base/delegating initializer')
            f = rn(c['anyInit']['name'])
            if f not in fields:
                continue
            e = c['inner'][0]
            if e.get('kind') == 'CXXDefaultInitExpr': continue
            if fields[f].startswith('RkShared<'): v = self.share_rv(e)
            elif c['anyInit']['name'] in tr.specs.arrayfields.get(cname.split('::')[-1], {}): v = self.own_rv(e)
            else: v = self.rv(e)
            self.emit('let init_%s: %s = %s;' % (f, fields[f], v))
            vals[f] = 'init_' + f
            self.ctor_vals = vals
        self.ctor_vals = {}
        for f, t_ in order:
            if f not in vals:
                vals[f] = 'Vec::new()' if t_.startswith('Vec<') and f not in tr.specs.arrayfields.get(cname.split('::')[-1], {}) else 'rk_any::<%s>()' % t_
        self.emit('let mut this = %s { %s };' % (sname, ', '.join('%s: %s' % (f, vals[f]) for f, _ in order)))

    # ---- statements
    def stmts(self, n):
        if n is None: return
        if n['kind'] == 'CompoundStmt':
            for c in n.get('inner', []): self.stmt(c)
        else:
            self.stmt(n)

    def block(self, n):
        self.emit('{'); self.ind += 1
        self.stmts(n)
        self.ind -= 1; self.emit('}')

    def stmt(self, n):
        k = n['kind']
        ln = self.line_of(n)
        if ln: self.cur_line = ln
        m = getattr(self, 's_' + k, None)
        if m and k not in ('DeclStmt', 'ExprWithCleanups'): return m(n)
        # expression statement or declaration
        if m: m(n)
        else: self.expr_stmt(n)
        for key in self.con.aftercalls if self.con is not None else []:
            if self.call_counts.get(key[0], 0) > key[1] and key not in self.call_hooked:
                self.call_hooked.add(key)
                for l in self.con.aftercalls[key]: self.lines.append(('\x00' + '    ' * self.ind + l, self.cur_line))

    def s_NullStmt(self, n): pass
    def s_CompoundStmt(self, n): self.block(n)
    def s_TypedefDecl(self, n): pass
    def s_ExprWithCleanups(self, n): self.expr_stmt(n['inner'][0])

    def s_DeclStmt(self, n):
        for d in n['inner']:
            if d['kind'] in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'TypeAliasDecl'): continue
            if d['kind'] != 'VarDecl': self.fail(d, 'declaration')
            self.var_decl(d)

    def fresh_name(self, name):
        nm = rn(name)
        if self.inl_depth and nm in self.guard_names():
            nm = self.t(nm)
        return nm

    def guard_names(self):
        # names occurring in texts of aliases of the current inlining
        g = set()
        for v in self.env.values():
            if v.mode in ('place', 'iter', 'ref', 'mutref'):
                g.update(re.findall(r'[A-Za-z_]\w*', v.text))
        return g

    def var_decl(self, d):
        tr = self.tr
        t = tr.ty(d)
        init = [c for c in d.get('inner', []) if 'kind' in c and not c['kind'].endswith('Attr') and c['kind'] != 'FullComment']
        init = init[0] if init else None
        name = d['name']
        if t.kind == 'lambda' or (init is not None and self.strip(init)['kind'] == 'LambdaExpr'):
            self.env[d['id']] = Var('lambda', t, 'lambda', extra=(self.strip(init), dict(self.env), self.this_text)); return
        if t.kind == 'struct' and t.name in tr.specs.functors:
            self.env[d['id']] = Var(t.name, t, 'functor'); return
        if t.kind in ('iter',) or (t.kind == 'ptr' and t.elem.kind in ('int', 'bool') or t.kind == 'ptr' and init is None and t.elem.kind == 'arr' or t.kind == 'ptr' and init is not None and self.is_iter_expr(init)):
            if init is not None and self.own_member(init) and self.owns(d['id']):
                nm = self.fresh_name(name); self.locals.append((nm, 'own'))
                self.emit('let mut %s = %s;' % (nm, self.own_rv(init))); self.env[d['id']] = Var(nm, t, 'own'); return
            if init is None:
                base, idx = None, 'rk_any::<u64>()'
            else: base, idx = self.iter(init)
            nm = self.fresh_name(name)
            self.locals.append((nm, 'iter'))
            self.emit('let mut %s: u64 = %s;' % (nm, idx))
            self.env[d['id']] = Var(nm, t, 'iter', extra=base)
            return
        if t.kind in ('ref', 'rref'):
            if t.elem.kind == 'lambda':
                self.env[d['id']] = Var('lambda', t, 'lambda', extra=(self.strip(init), dict(self.env), self.this_text)); return
            i = self.strip(init, keep_lv=True)
            if self.is_lvalue(i):
                pl = self.place(i, freeze=True)
                nm = rn(name)
                self.locals.append((nm, repr(t)))
                self.env[d['id']] = Var(pl, t.elem, 'place')
                return
            t = t.elem
        if t.kind == 'ptr':
            i = self.strip(init)
            if i['kind'] == 'UnaryOperator' and i['opcode'] == '&':
                pl = self.place(i['inner'][0], freeze=True)
                self.env[d['id']] = Var(pl, t.elem, 'ptr'); return
            self.fail(d, 'pointer local')
        nm = self.fresh_name(name)
        self.locals.append((nm, repr(t)))
        if init is None:
            v = 'rk_any::<%s>()' % tr.rty(t)
            if t.kind == 'vec': v = 'Vec::new()'
        else:
            v = self.rv(init, want=t)
        self.emit('let mut %s: %s = %s;' % (nm, tr.rty(t), v))
        self.env[d['id']] = Var(nm, t, 'val')

    # ---- owned arrays (pointer members declared 'arrayfield'): allocation, null, ownership transfer
    def own_member(self, n):
        m = self.strip(n)
        return m['kind'] == 'MemberExpr' and self.tr.ty(m).strip().kind == 'ptr' and self.is_iter_expr(m) and not self.is_share(m)

    def owns(self, did):
        """is the local pointer later assigned to an owning member?"""
        def f(n):
            if not isinstance(n, dict): return False
            if n.get('kind') == 'BinaryOperator' and n['opcode'] == '=':
                r = self.strip(n['inner'][1])
                if r['kind'] == 'DeclRefExpr' and r['referencedDecl']['id'] == did and self.strip(n['inner'][0], keep_lv=True)['kind'] == 'MemberExpr': return True
            return any(f(c) for c in n.get('inner', []))
        return f(Ast.body(self.ast.by_id[self.inline_chain[-1]]) or {}) 

    def own_rv(self, n):
        m = self.strip(n)
        while m['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and m['castKind'] in ('NullToPointer', 'BitCast', 'NoOp'): m = self.strip(m['inner'][0])
        if m['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral'): return 'Vec::new()'
        if m['kind'] == 'CallExpr' and self.callee_name(m) in ALLOC:
            a = m['inner'][2 if self.callee_name(m) == 'aligned_alloc' else 1]
            x = self.t('n'); self.emit('let %s: u64 = %s;' % (x, self.rv(a))); return 'rk_alloc_u64(%s)' % x
        if self.own_member(m):
            b, i = self.iter(m)
            return 'rk_move_out(&mut %s)' % b
        if m['kind'] == 'DeclRefExpr':
            v = self.env.get(m['referencedDecl']['id'])
            if v is not None and v.mode == 'own': return 'rk_move_out(&mut %s)' % v.text
        self.fail(n, 'value of an owning pointer')

    def v8_lv(self, n):
        """(array, block index) when n is an lvalue that designates a whole block of an array of words"""
        n = self.strip(n, keep_lv=True)
        if self.tr.ty(n).strip().kind != 'arr': return None
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '*' and self.is_iter_expr(n['inner'][0]):
            b, i = self.iter(n['inner'][0])
        elif n['kind'] == 'ArraySubscriptExpr' and self.is_iter_expr(n['inner'][0]):
            b, i0 = self.iter(n['inner'][0]); i = self.conv_ix(n['inner'][1])
            if i0 != '0': i = 'add_u64(%s, %s)' % (i0, i)
        else: return None
        if not b.startswith('v8:'): return None
        if not self.simple_text(i):
            x = self.t('ix'); self.emit('let %s: u64 = %s;' % (x, i)); i = x
        return b[3:], i

    def s_IfStmt(self, n):
        inner = n['inner']
        if n.get('hasInit') or n.get('hasVar'): self.fail(n, 'if with init')
        if any(self.is_log(x) for x in self.conjuncts(inner[0])):
            if n.get('hasElse'): self.fail(n, 'logging block with else')
            self.drop_log(inner[1]); return
        c = self.rv(inner[0])
        if c in ('(!true)', 'false', '(!false)', 'true'):
            if c in ('(!false)', 'true'): self.block(inner[1])
            elif n.get('hasElse'): self.block(inner[2])
            return
        if self.const_bool(inner[0]) is not None:
            b = self.const_bool(inner[0])
            if b: self.block(inner[1])
            elif n.get('hasElse'): self.block(inner[2])
            return
        self.emit('if %s {' % c); self.ind += 1
        self.stmts(inner[1])
        self.ind -= 1
        if n.get('hasElse'):
            self.emit('} else {'); self.ind += 1
            self.stmts(inner[2])
            self.ind -= 1
        self.emit('}')

    def is_log(self, n):
        # the conversion of the log callback to bool
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXMemberCallExpr', 'MemberExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'): n = n['inner'][0]
        return n.get('kind') == 'DeclRefExpr' and self.tr.ty(n).strip().kind == 'log'

    def drop_log(self, body):
        """drop a block that only reports progress: it may change variables declared in it and variables used by such blocks only"""
        own = set()
        def decls(x):
            if isinstance(x, dict):
                if x.get('kind') == 'VarDecl': own.add(x['id'])
                for c in x.get('inner', []): decls(c)
        decls(body)
        def root(x):
            while True:
                x = self.strip(x, keep_lv=True)
                k = x['kind']
                if k == 'DeclRefExpr': return x
                if k == 'CXXOperatorCallExpr': x = x['inner'][1]
                elif k in ('MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator'): x = x['inner'][0]
                else: self.fail(x, 'assignment in a logging block')
        def target(x):
            r = root(x)
            i = r['referencedDecl']['id']
            if i not in own: self.log_only.add((i, r['referencedDecl']['name']))
        def walk(x):
            if not isinstance(x, dict): return
            k = x.get('kind')
            if k in ('CXXThrowExpr', 'ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt', 'LambdaExpr', 'CXXNewExpr', 'CXXDeleteExpr'): self.fail(x, 'logging block with %s' % k)
            if k == 'BinaryOperator' and x['opcode'] == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and x['opcode'] in ('++', '--'): target(x['inner'][0])
            if k == 'CXXOperatorCallExpr' and self.callee_name(x) not in ('operator+', 'operator[]', 'operator()', 'operator<<'): self.fail(x, 'logging block calls %s' % self.callee_name(x))
            if k == 'CXXOperatorCallExpr' and self.callee_name(x) == 'operator()' and self.tr.ty(x['inner'][1]).strip().kind != 'log': self.fail(x, 'logging block calls a function object')
            if k == 'CallExpr':
                nm = self.callee_name(x)
                if nm in ('max_to', 'min_to'): target(x['inner'][1])
                elif nm not in ('get_micro_time', 'to_string', 'max', 'min'): self.fail(x, 'logging block calls %s' % nm)
            if k == 'CXXMemberCallExpr' and self.callee_name(x) not in ('size', 'local_id_count', 'empty', 'back', 'front'): self.fail(x, 'logging block calls %s' % self.callee_name(x))
            for c in x.get('inner', []): walk(c)
        walk(body)
        self.tr.notes.add('DROPPED: blocks guarded by the log callback in %s (checked: they call only the callback, the clock and string conversion and change no variable used elsewhere)' % self.tr.qual(self.fn))

    def const_bool(self, n):
        n = self.strip(n)
        if n['kind'] == 'SubstNonTypeTemplateParmExpr': n = self.strip(n['inner'][-1])
        if n['kind'] == 'CXXBoolLiteralExpr': return n['value']
        return None

    def has(self, n, kinds, stop=()):
        if not isinstance(n, dict): return False
        if n.get('kind') in kinds: return True
        for c in n.get('inner', []):
            if c.get('kind') in stop: continue
            if self.has(c, kinds, stop): return True
        return False

    def loop_head(self, no, cond, simple):
        """emit loop header with invariants; returns after opening brace"""
        con = self.con
        iso = '#[verifier::loop_isolation(false)]'
        sp = con.loop(no) if con else None
        if sp and sp.isolate: iso = '#[verifier::loop_isolation(true)]'
        if sp and (sp.inv_eb or sp.ens) and not sp.isolate: self.emit('#[verifier::allow_complex_invariants]')
        self.emit(iso)
        self.emit(('while %s' % cond) if simple else 'loop')
        if sp:
            for kw, cl in (('invariant_except_break', sp.inv_eb), ('invariant', sp.invariants), ('ensures', sp.ens)):
                if not cl: continue
                self.lines.append(('\x00' + '    ' * self.ind + '    ' + kw, self.cur_line))
                for x in cl: self.lines.append(('\x00' + '    ' * self.ind + '        ' + self.returned(x) + ',', self.cur_line))
            if sp.decreases:
                self.lines.append(('\x00' + '    ' * self.ind + '    decreases ' + sp.decreases.rstrip(',') + ',', self.cur_line))
        elif False:
            pass
        self.emit('{'); self.ind += 1

    def gen_loop(self, n, cond, inc, body, post_cond=False, pre_body=None):
        no = self.loopno; self.loopno += 1
        self.ghost('loop_before', no)
        simple = False
        side = cond is not None and self.side_effects(cond)
        if post_cond:
            self.loop_head(no, None, False)
            self.ghost('loop_begin', no)
            self.loop_stack.append(lambda: self.do_cond(cond))
            self.stmts(body)
            self.loop_stack.pop()
            self.ghost('loop_end', no)
            self.do_cond(cond)
        else:
            if cond is not None and not side:
                n0 = len(self.lines)
                c = self.rv(cond)
                simple = (len(self.lines) == n0)
                if not simple:
                    del self.lines[n0:]
                else:
                    self.loop_head(no, c, True)
            if not simple:
                self.loop_head(no, None, False)
                if cond is not None:
                    c = self.rv(cond)
                    self.emit('if !(%s) { break; }' % c)
            if pre_body: pre_body()
            self.ghost('loop_begin', no)
            def do_inc():
                if inc is not None: self.expr_stmt(inc) if isinstance(inc, dict) else inc()
            self.loop_stack.append(do_inc)
            self.stmts(body)
            self.loop_stack.pop()
            self.ghost('loop_end', no)
            do_inc()
            self.ghost('loop_end_inc', no)
        self.ind -= 1; self.emit('};')
        self.ghost('loop_after', no)

    def do_cond(self, cond):
        c = self.rv(cond)
        self.emit('if !(%s) { break; }' % c)

    def s_ForStmt(self, n):
        init, condvar, cond, inc, body = n['inner']
        self.emit('{'); self.ind += 1
        if init.get('kind'): self.stmt(init)
        self.gen_loop(n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
        self.ind -= 1; self.emit('}')

    def s_WhileStmt(self, n):
        inner = n['inner']
        self.gen_loop(n, inner[0], None, inner[-1])

    def s_DoStmt(self, n):
        body, cond = n['inner']
        cb = self.const_bool(cond)
        if cb is False and not self.has(body, ('BreakStmt', 'ContinueStmt'), stop=('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr')):
            self.block(body); return
        self.gen_loop(n, cond, None, body, post_cond=True)

    def s_CXXForRangeStmt(self, n):
        # inner: init?, range decl, begin, end, cond, inc, loopvar, body
        inner = [c for c in n['inner']]
        rng = None; lv = None
        for c in inner:
            if c.get('kind') == 'DeclStmt':
                v = c['inner'][0]
                if v['name'].startswith('__range'): rng = v
                elif not v['name'].startswith('__'): lv = v
        body = inner[-1]
        ri = [c for c in rng['inner'] if 'kind' in c][0]
        ri = self.strip(ri, keep_lv=True)
        if not self.is_lvalue(ri):
            nm = self.t('rng')
            self.emit('let %s = %s;' % (nm, self.rv(ri)))
            base = nm
        else:
            base = self.place(ri, freeze=True)
        lname = lv['name']
        idx = 'idx_' + lname
        self.emit('{'); self.ind += 1
        self.locals.append((idx, 'u64'))
        self.emit('let mut %s: u64 = 0;' % idx)
        vt = self.tr.ty(lv)
        def inc(): self.emit('%s = %s + 1;' % (idx, idx))
        no = self.loopno; self.loopno += 1
        self.ghost('loop_before', no)
        self.loop_head(no, '%s < %s.len() as u64' % (idx, base), True)
        if vt.kind == 'ref':
            self.env[lv['id']] = Var('%s[%s as usize]' % (base, idx), vt.elem, 'place')
            self.locals.append((rn(lname), repr(vt)))
        else:
            self.env[lv['id']] = Var(rn(lname), vt, 'val')
            self.locals.append((rn(lname), repr(vt)))
            self.emit('let mut %s: %s = %s;' % (rn(lname), self.tr.rty(vt), self.copy_of('%s[%s as usize]' % (base, idx), vt)))
        self.ghost('loop_begin', no)
        self.loop_stack.append(inc)
        self.stmts(body)
        self.loop_stack.pop()
        self.ghost('loop_end', no)
        inc()
        self.ghost('loop_end_inc', no)
        self.ind -= 1; self.emit('};')
        self.ghost('loop_after', no)
        self.ind -= 1; self.emit('}')

    def s_BreakStmt(self, n): self.emit('break;')
    def s_ContinueStmt(self, n):
        self.loop_stack[-1]()
        self.emit('continue;')

    def s_ReturnStmt(self, n):
        if self.inl_depth and self.ret_target != 'TAIL':
            self.inl_return(n)
            if self.loop_stack:
                if not self.ret_flag: self.fail(n, 'return inside a loop of an inlined function')
                self.ret_flag[1] = True
                self.emit('%s = true;' % self.ret_flag[0]); self.emit('break;')
            return
        e = n.get('inner', [None])[0]
        if self.is_ctor: self.fail(n, 'return in ctor')
        if self.ret_is_void or e is None:
            if e is not None:
                s = self.strip(e, keep_lv=True)
                if not (s['kind'] == 'UnaryOperator' and s['opcode'] == '*'): self.expr_stmt(e)
            self.ghost('exit')
            self.emit('return Ok(());' if self.throws else 'return;')
            return
        s0 = self.strip(e)
        if s0['kind'] == 'CXXThrowExpr': self.expr_stmt(e); return
        if s0['kind'] in ('CallExpr', 'CXXMemberCallExpr') and self.inlinable(s0):
            # 'return f(...)' with f inlined: the returns of f are the returns of this function
            self.tail_next = True
            if self.call(s0) == '!TAIL': return
            self.fail(n, 'tail call')
        v = self.rv(e, want=self.ret_ty())
        if self.con and self.con.ghost_at('exit', None):
            self.emit('let %s: %s = %s;' % (self.rname, self.tr.rty(self.ret_ty()), v))
            depth = self.inl_depth; self.inl_depth = 0
            self.ghost('exit')
            self.inl_depth = depth
            v = self.rname
        self.emit('return Ok(%s);' % v if self.throws else 'return %s;' % v)

    def inlinable(self, n):
        did = self.tr.callee_decl(n)
        d = self.tr.definition(did) if did else None
        if d is None or self.tr.contract_for(d) is not None: return False
        q = self.tr.qual(d)
        if q in self.tr.specs.externs or q in self.tr.specs.drop_calls: return False
        body = Ast.body(d)
        if body is None: return False
        return any(c['kind'] != 'ReturnStmt' and self.contains_return(c) and self.has(c, ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')) for c in body.get('inner', [])) or (
            len(body.get('inner', [])) == 1 and body['inner'][0]['kind'] == 'ReturnStmt' and bool(body['inner'][0].get('inner')) and
            self.strip(body['inner'][0]['inner'][0])['kind'] in ('CallExpr', 'CXXMemberCallExpr') and self.inlinable(self.strip(body['inner'][0]['inner'][0])))

    def s_CXXTryStmt(self, n): self.fail(n, 'try')
    def s_SwitchStmt(self, n):
        if n.get('hasInit') or n.get('hasVar'): self.fail(n, 'switch with declaration')
        cond, body = n['inner'][0], n['inner'][-1]
        t = self.tr.ty(cond)
        x = self.t('sw'); self.emit('let %s: %s = %s;' % (x, self.tr.rty(t), self.rv(cond)))
        groups = []      # (labels or None for default, statements)
        def addlabel(c):
            if c['kind'] == 'CaseStmt':
                if len(c['inner']) != 2: self.fail(c, 'case range')
                groups[-1][0].append(c['inner'][0]); nxt = c['inner'][1]
            else: groups[-1][0].append(None); nxt = c['inner'][0]
            if nxt['kind'] in ('CaseStmt', 'DefaultStmt'): addlabel(nxt)
            else: groups[-1][1].append(nxt)
        for c in body.get('inner', []):
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                groups.append(([], [])); addlabel(c)
            elif not groups: self.fail(c, 'statement before first case')
            else: groups[-1][1].append(c)
        LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr', 'SwitchStmt')
        def flat(ss):
            # a trailing block is spliced so that its final break is seen
            if ss and ss[-1]['kind'] == 'CompoundStmt' and any(d['kind'] == 'BreakStmt' for d in ss[-1].get('inner', [])) and len(ss) == 1: return flat(list(ss[-1]['inner']))
            return ss
        out = []
        for gi, (labs, ss) in enumerate(groups):
            ss = flat(list(ss))
            ended = False
            for i, st in enumerate(ss):
                if st['kind'] == 'BreakStmt': ss = ss[:i]; ended = True; break
            if not ended:
                last = self.strip(ss[-1], keep_lv=True) if ss else None
                ended = gi == len(groups) - 1 or (last is not None and (self.always_returns(last) or last['kind'] in ('CXXThrowExpr', 'ContinueStmt')))
            if not ended: self.fail(n, 'switch case falls through')
            if any(self.has(st, ('BreakStmt',), stop=LOOPS) for st in ss): self.fail(n, 'break inside a switch case')
            out.append((labs, ss))
        defs = [g for g in out if None in g[0]]
        first = True
        for labs, ss in [g for g in out if None not in g[0]] + defs:
            if None in labs:
                if first: self.emit('{')
                else: self.emit('} else {')
            else:
                c = ' || '.join('%s == %s' % (x, self.rv(l)) for l in labs)
                self.emit(('if %s {' if first else '} else if %s {') % c)
            first = False
            self.ind += 1
            env = dict(self.env)
            for st in ss: self.stmt(st)
            self.env = env
            self.ind -= 1
        if not first: self.emit('}')
    def s_GotoStmt(self, n): self.fail(n, 'goto')

    # ---- expressions
    def strip(self, n, keep_lv=False):
        while True:
            k = n['kind']
            if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr'):
                n = n['inner'][0]
            elif k == 'ImplicitCastExpr' and n['castKind'] in ('NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion'):
                n = n['inner'][0]
            elif k == 'ImplicitCastExpr' and n['castKind'] == 'LValueToRValue' and not keep_lv:
                n = n['inner'][0]
            elif k == 'CXXConstructExpr' and n.get('elidable') and len(n.get('inner', [])) == 1:
                n = n['inner'][0]
            else:
                return n

    def is_lvalue(self, n):
        return n.get('valueCategory') == 'lvalue'

    def side_effects(self, n):
        if not isinstance(n, dict): return False
        k = n.get('kind')
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return True
        if k == 'BinaryOperator' and n['opcode'] in ('=', ','): return True
        if k == 'CompoundAssignOperator': return True
        if k == 'CXXThrowExpr': return True
        if k == 'CXXOperatorCallExpr':
            c = n['inner'][0]
            while c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
            nm = c.get('referencedDecl', {}).get('name', '')
            if nm in ('operator=', 'operator++', 'operator--', 'operator+='): return True
        return any(self.side_effects(c) for c in n.get('inner', []))

    def is_assert(self, n):
        if n['kind'] == 'ConditionalOperator' or n['kind'] == 'ParenExpr':
            m = n
            while m['kind'] == 'ParenExpr': m = m['inner'][0]
            if m['kind'] == 'ConditionalOperator':
                f = m['inner'][2]
                while f['kind'] in ('ParenExpr',): f = f['inner'][0]
                if f['kind'] == 'CallExpr':
                    c = f['inner'][0]
                    while c['kind'] in ('ImplicitCastExpr',): c = c['inner'][0]
                    if c.get('referencedDecl', {}).get('name') == '__assert_fail': return m
        return None

    def expr_stmt(self, n):
        n0 = n
        a = self.is_assert(n)
        if a is not None:
            self.do_assert(a['inner'][0]); return
        n = self.strip(n, keep_lv=True)
        a = self.is_assert(n)
        if a is not None:
            self.do_assert(a['inner'][0]); return
        k = n['kind']
        if k in ('CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr') and n.get('castKind') == 'ToVoid':
            return
        if k == 'BinaryOperator' and n['opcode'] == '=':
            self.assign(n); return
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.expr_stmt(n['inner'][0]); self.expr_stmt(n['inner'][1]); return
        if k == 'CompoundAssignOperator':
            self.compound(n); return
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            self.incdec(n); return
        if k == 'ConditionalOperator':
            self.emit('if %s {' % self.rv(n['inner'][0])); self.ind += 1
            self.expr_stmt(n['inner'][1]); self.ind -= 1; self.emit('} else {'); self.ind += 1
            self.expr_stmt(n['inner'][2]); self.ind -= 1; self.emit('}')
            return
        if k == 'CXXThrowExpr':
            # a throw inside a lambda: control does not come back to the function under contract
            self.emit('rk_alloc_failed();' if self.tr.is_bad_alloc(n) else 'return Err(());' if self.throws else 'rk_throw();'); return
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(n, stmt=True)
            if r: self.emit(r + ';')
            return
        v = self.rv(n)
        self.emit('let _ = %s;' % v)

    def do_assert(self, cond):
        if self.con and self.con.drop_asserts: 
            self.tr.notes.add('assert dropped in %s (contract says drop_asserts)' % self.tr.qual(self.fn)); return
        # assert(cond && "text")
        c = self.strip_bool(cond)
        for s in self.conjuncts(c):
            if self.is_string(s): continue
            try:
                n0 = len(self.lines)
                self.in_assert = True
                v = self.rv(s)
                self.in_assert = False
            except ExtractError as e:
                self.in_assert = False
                del self.lines[n0:]
                self.tr.notes.add('assert not translatable, dropped: %s' % e)
                continue
            self.emit('rk_assert(%s);' % v)

    def strip_bool(self, n):
        while n['kind'] in ('CXXStaticCastExpr', 'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr'): 
            if n['kind'] == 'ImplicitCastExpr' and n['castKind'] not in ('NoOp', 'LValueToRValue'): break
            n = n['inner'][0]
        return n

    def conjuncts(self, n):
        m = self.strip_bool(n)
        if m['kind'] == 'BinaryOperator' and m['opcode'] == '&&':
            return self.conjuncts(m['inner'][0]) + self.conjuncts(m['inner'][1])
        return [n]

    def is_string(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
        return n['kind'] == 'StringLiteral'

    # -- places
    def this_member(self, n):
        """is this MemberExpr of 'this'? returns base text"""
        b = n['inner'][0]
        b = self.strip(b)
        if b['kind'] == 'CXXThisExpr': return self.this_text
        return None

    def place(self, n, freeze=False):
        """Rust place text of an lvalue"""
        n = self.strip(n, keep_lv=True)
        k = n['kind']
        if k in ('UnaryOperator', 'ArraySubscriptExpr'):
            q = self.v8_lv(n)
            if q is not None:
                x = self.t('blk'); self.emit('let %s: [u64; 8] = v8_load(&%s, %s);' % (x, q[0], q[1])); return x
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            v = self.env.get(rd['id'])
            if v is None: 
                g = self.global_const(rd)
                if g is not None: return g
                self.fail(n, 'unknown variable %s' % rd.get('name'))
            if v.mode == 'iter': return v.text
            return v.text
        if k == 'MemberExpr':
            b = self.strip(n['inner'][0])
            md = n.get('referencedMemberDecl')
            dn = self.ast.by_id.get(md)
            if dn is not None and dn.get('kind') == 'VarDecl':
                g = self.global_const(dn)
                if g is not None: return g
            if b['kind'] == 'CXXThisExpr':
                rec = self.this_rec_name()
                if n['name'] in self.tr.specs.ptrfields.get(rec, {}):
                    return self.ptr_text(n['name'])
                if getattr(self, 'ctor_vals', None) and self.this_text == 'this': return self.ctor_vals.get(rn(n['name'])) or self.fail(n, 'member used before it is initialised')
                return '%s.%s' % (self.this_text, rn(n['name']))
            if n.get('isArrow'):
                if self.is_iter_expr(n['inner'][0]):
                    base, idx = self.iter(n['inner'][0])
                    return '%s[(%s) as usize].%s' % (base, idx, rn(n['name']))
                return '%s.%s' % (self.deref_ptr(n['inner'][0]), rn(n['name']))
            bt = self.tr.ty(n['inner'][0]).strip()
            fld = rn(n['name'])
            if bt.kind == 'pair': fld = {'first': '0', 'second': '1'}[n['name']]
            return '%s.%s' % (self.place(n['inner'][0], freeze), fld)
        if k == 'CXXOperatorCallExpr':
            c = n['inner'][0]
            while c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
            op = c['referencedDecl']['name']
            if op == 'operator[]' and self.tr.ty(n['inner'][1]).strip().kind in ('vec', 'arr'):
                b = self.place(n['inner'][1], freeze)
                i = self.rv(n['inner'][2])
                i = self.freeze_ix(i, n['inner'][2], freeze)
                return '%s[%s]' % (b, self.as_usize(i))
            if op == 'operator*':
                base, idx = self.iter(n['inner'][1])
                return '%s[%s]' % (base, self.as_usize(self.freeze_ix(idx, n['inner'][1], freeze)))
            if op == 'operator[]' and self.is_iter_expr(n['inner'][1]):
                base, idx = self.iter(n['inner'][1])
                return '%s[%s]' % (base, self.as_usize('add_u64(%s, %s)' % (idx, self.rv(n['inner'][2]))))
        if k == 'ArraySubscriptExpr' and self.is_cstr(n['inner'][0]):
            it = self.tr.ty(n['inner'][1])
            return 'rk_cstr_at(%s, %s)' % (self.rv(n['inner'][0]), self.conv(self.rv(n['inner'][1]), it, Ty('int', 'u64')))
        if k == 'ArraySubscriptExpr':
            if self.is_iter_expr(n['inner'][0]):
                base, idx = self.iter(n['inner'][0])
                it = self.tr.ty(n['inner'][1])
                i = self.rv(n['inner'][1])
                ix = 'add_u64(%s, %s)' % (idx, self.conv(i, it, Ty('int', 'u64'))) if idx != '0' else i
                return '%s[%s]' % (base, self.as_usize(self.freeze_ix(ix, n['inner'][1], freeze)))
            b = n['inner'][0]
            while b['kind'] == 'ImplicitCastExpr' and b['castKind'] == 'ArrayToPointerDecay': b = b['inner'][0]
            return '%s[%s]' % (self.place(b, freeze), self.as_usize(self.freeze_ix(self.rv(n['inner'][1]), n['inner'][1], freeze)))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            e = self.strip(n['inner'][0])
            if e['kind'] == 'CXXThisExpr': return self.this_text
            if self.is_iter_expr(n['inner'][0]):
                base, idx = self.iter(n['inner'][0])
                return '%s[%s]' % (base, self.as_usize(self.freeze_ix(idx, n['inner'][0], freeze)))
            return self.deref_ptr(n['inner'][0])
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            if me['kind'] == 'MemberExpr' and self.tr.ty(me['inner'][0]).strip().kind == 'vec':
                b = self.place(me['inner'][0], freeze)
                if me['name'] == 'back':
                    if getattr(self, 'spec_mode', False): return '%s[rk_last(%s.len())]' % (b, b)
                    x = self.t('ix'); self.emit('let %s = rk_last(%s.len());' % (x, b))
                    return '%s[%s]' % (b, x)
                if me['name'] == 'front': return '%s[0]' % b
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') :
            self.incdec(n); return self.place(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] == '=':
            self.assign(n); return self.place(n['inner'][0])
        if k == 'CompoundAssignOperator':
            self.compound(n); return self.place(n['inner'][0])
        if k == 'CallExpr':
            nm = self.callee_name(n)
            if nm in ('move', 'forward'):
                return self.place(n['inner'][1], freeze)
            # reference returning function
            v = self.rv(n)
            x = self.t('tmp'); self.emit('let %s = %s;' % (x, v)); return x
        if k == 'ConditionalOperator':
            v = self.rv(n); x = self.t('tmp'); self.emit('let %s = %s;' % (x, v)); return x
        if n.get('valueCategory') in ('prvalue', 'xvalue'):
            if k == 'CXXStaticCastExpr': return self.place(n['inner'][0], freeze)
            v = self.rv(n); x = self.t('tmp'); self.emit('let mut %s = %s;' % (x, v)); return x
        v = self.rv(n); x = self.t('tmp'); self.emit('let mut %s = %s;' % (x, v)); return x

    def this_rec_name(self):
        return self.this_stack[-1] if self.this_stack else self.this_rec['name']

    def ptr_text(self, f):
        if self.this_text == 'this': return 'this_%s' % f
        return '%s__%s' % (self.this_text.replace('.', '_'), f)

    def is_share(self, n):
        """pointer member declared 'sharefield'"""
        n = self.strip(n)
        if n['kind'] == 'DeclRefExpr':
            v = self.env.get(n['referencedDecl']['id'])
            return v is not None and v.mode == 'sharep'
        if n['kind'] != 'MemberExpr': return False
        b = self.strip(n['inner'][0])
        if b['kind'] == 'CXXThisExpr': rec = self.this_rec_name()
        else:
            bt = self.tr.ty(n['inner'][0]).strip()
            if bt.kind == 'ptr': bt = bt.elem
            rec = bt.name.split('::')[-1] if bt.kind == 'struct' else None
        return n['name'] in self.tr.specs.sharefields.get(rec, {})

    def share_place(self, n):
        n = self.strip(n)
        if n['kind'] == 'DeclRefExpr': return self.env[n['referencedDecl']['id']].text
        b = self.strip(n['inner'][0])
        if b['kind'] == 'CXXThisExpr': return '%s.%s' % (self.this_text, rn(n['name']))
        if n.get('isArrow'): return '%s.%s' % (self.deref_ptr(n['inner'][0]), rn(n['name']))
        return '%s.%s' % (self.place(n['inner'][0]), rn(n['name']))

    def share_rv(self, n):
        m = self.strip(n)
        while m['kind'] == 'ImplicitCastExpr' and m['castKind'] == 'NullToPointer': m = self.strip(m['inner'][0])
        if m['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral'): return 'rk_null()'
        if self.is_share(m): return 'rk_share_copy(%s%s)' % ('' if m['kind'] == 'DeclRefExpr' else '&', self.share_place(m))
        if m['kind'] == 'UnaryOperator' and m['opcode'] == '&': return 'rk_share(%s)' % self.refarg(m['inner'][0], False)
        if m['kind'] == 'DeclRefExpr':
            v = self.env.get(m['referencedDecl']['id'])
            if v is not None and v.mode == 'ptrparam': return 'rk_share(%s)' % v.text
            if v is not None and v.mode == 'sharep': return 'rk_share_copy(%s)' % v.text
        if m['kind'] == 'CXXMemberCallExpr' and m['inner'][0].get('name') == 'data' and self.tr.ty(m['inner'][0]['inner'][0]).strip().kind == 'vec':
            return 'rk_share(%s)' % self.refarg(m['inner'][0]['inner'][0], False)
        if m['kind'] == 'CXXMemberCallExpr' and self.ptr_getter(m) is not None: return 'rk_share(&%s)' % self.iter(m)[0]
        self.fail(n, 'pointer value')

    def deref_ptr(self, n):
        n = self.strip(n)
        if n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('DerivedToBase', 'UncheckedDerivedToBase'):
            e = self.strip(n['inner'][0])
            return '%s.base_' % (self.this_text if e['kind'] == 'CXXThisExpr' else self.deref_ptr(e))
        if n['kind'] == 'CXXThisExpr': return self.this_text
        if self.is_share(n): return '%s.get()' % self.share_place(n)
        if n['kind'] == 'MemberExpr':
            b = self.strip(n['inner'][0])
            if b['kind'] == 'CXXThisExpr' and self.this_text in self.fobjs: return self.fobjs[self.this_text].get(n['name']) or self.fail(n, 'function object member')
            if b['kind'] == 'CXXThisExpr' and n['name'] in self.tr.specs.ptrfields.get(self.this_rec_name(), {}):
                return self.ptr_text(n['name'])
            if b['kind'] == 'DeclRefExpr':
                v = self.env.get(b['referencedDecl']['id'])
                if v is not None and v.mode == 'functorval':
                    return '%s__%s' % (v.text, n['name'])
        if n['kind'] == 'DeclRefExpr':
            v = self.env.get(n['referencedDecl']['id'])
            if v is not None and v.mode in ('ptr', 'ptrparam'): return v.text
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '&': return self.place(n['inner'][0])
        self.fail(n, 'dereference')

    def freeze_ix(self, i, node, freeze):
        simple = re.match(r'^\(?[a-zA-Z_0-9]+( as \w+)?\)?$', i) is not None
        if getattr(self, 'spec_mode', False): return i
        if not simple and (freeze or '[' in i or '(' in i):
            x = self.t('ix'); self.emit('let %s = %s;' % (x, i)); return x
        if freeze and not re.match(r'^\d', i):
            x = self.t('ix'); self.emit('let %s = %s;' % (x, i)); return x
        return i

    @staticmethod
    def as_usize(i):
        m = re.match(r'^\((\w+) as u64\)$', i)
        if m: return '%s as usize' % m.group(1)
        if re.match(r'^\d+$', i): return i
        m = re.match(r'^(\d+)u(32|64)$', i)
        if m: return m.group(1)
        if re.match(r'^\w+$', i): return '%s as usize' % i
        return '(%s) as usize' % i

    # -- iterators / pointers into vectors
    def is_cstr(self, n):
        t = self.tr.ty(n).strip()
        return t.kind == 'struct' and t.name == 'RkCStr'

    def is_iter_expr(self, n):
        t = self.tr.ty(n).strip()
        if t.kind == 'iter': return True
        if t.kind == 'ptr':
            m = self.strip(n)
            if m['kind'] in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr') and m['castKind'] in ('BitCast', 'NoOp'):
                if t.elem.kind == 'arr' or m['castKind'] == 'NoOp': return self.is_iter_expr(m['inner'][0])
                return False
            if m['kind'] == 'CXXMemberCallExpr': return self.ptr_getter(m) is not None
            if m['kind'] == 'DeclRefExpr':
                v = self.env.get(m['referencedDecl']['id'])
                return v is not None and v.mode in ('iter', 'sharep')
            if m['kind'] == 'MemberExpr':
                if t.elem.kind in ('int', 'bool') and self.is_share(m): return True
                b = self.strip(m['inner'][0])
                rec = None
                if b['kind'] == 'CXXThisExpr': rec = self.this_rec_name()
                else:
                    bt = self.tr.ty(m['inner'][0]).strip()
                    if bt.kind == 'struct': rec = bt.name.split('::')[-1]
                return rec in self.tr.specs.arrayfields and m['name'] in self.tr.specs.arrayfields[rec]
            if m['kind'] == 'BinaryOperator' and m['opcode'] in ('+', '-'):
                return self.is_iter_expr(m['inner'][0])
            if m['kind'] == 'UnaryOperator' and m['opcode'] in ('++', '--'):
                return self.is_iter_expr(m['inner'][0])
            if m['kind'] == 'UnaryOperator' and m['opcode'] == '&':
                e = self.strip(m['inner'][0], keep_lv=True)
                return e['kind'] in ('CXXOperatorCallExpr', 'ArraySubscriptExpr')
        return False

    def ptr_getter(self, m):
        """call of a member function that only returns an owning pointer member: (object node, field name)"""
        me = m['inner'][0]
        if me['kind'] != 'MemberExpr': return None
        d = self.tr.definition(me.get('referencedMemberDecl'))
        if d is None: return None
        body = Ast.body(d)
        inner = body.get('inner', []) if body else []
        if len(inner) != 1 or inner[0]['kind'] != 'ReturnStmt' or not inner[0].get('inner'): return None
        e = self.strip(inner[0]['inner'][0])
        if e['kind'] != 'MemberExpr' or self.strip(e['inner'][0])['kind'] != 'CXXThisExpr': return None
        rec = self.ast.parent_record(d)['name']
        if e['name'] not in self.tr.specs.arrayfields.get(rec, {}): return None
        return me['inner'][0], e['name']

    def iter(self, n):
        """returns (base place, index text : u64)"""
        n = self.strip(n)
        if n['kind'] in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr') and n.get('castKind') == 'BitCast':
            t = self.tr.ty(n).strip()
            if t.kind == 'ptr' and t.elem.kind == 'arr':
                b, i = self.iter(n['inner'][0])
                if i != '0' or b.startswith('v8:'): self.fail(n, 'cast of a pointer')
                return 'v8:' + b, '0'
            self.fail(n, 'cast of a pointer')
        if n['kind'] in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr') and n.get('castKind') == 'NoOp': return self.iter(n['inner'][0])
        if n['kind'] == 'CXXMemberCallExpr':
            g = self.ptr_getter(n)
            if g is not None:
                o = self.strip(g[0])
                return '%s.%s' % (self.this_text if o['kind'] == 'CXXThisExpr' else self.place(g[0]), rn(g[1])), '0'
        if n['kind'] == 'CXXConstructExpr' and len(n.get('inner', [])) == 1: return self.iter(n['inner'][0])
        k = n['kind']
        if k == 'ImplicitCastExpr': return self.iter(n['inner'][0])
        if k == 'DeclRefExpr':
            v = self.env.get(n['referencedDecl']['id'])
            if v is not None and v.mode == 'iter': return v.extra, v.text
            if v is not None and v.mode == 'sharep': return '%s.get()' % v.text, '0'
        if k == 'MemberExpr' and self.tr.ty(n).strip().kind == 'ptr':
            if self.is_share(n): return '%s.get()' % self.share_place(n), '0'
            b = self.strip(n['inner'][0])
            if b['kind'] == 'CXXThisExpr': return '%s.%s' % (self.this_text, rn(n['name'])), '0'
            return '%s.%s' % (self.place(n['inner'][0]), rn(n['name'])), '0'
        if k == 'CXXMemberCallExpr':
            me = n['inner'][0]
            if me['kind'] == 'MemberExpr' and self.tr.ty(me['inner'][0]).strip().kind == 'vec':
                b = self.place(me['inner'][0])
                if me['name'] in ('begin', 'cbegin', 'data'): return b, '0'
                if me['name'] in ('end', 'cend'): return b, '(%s.len() as u64)' % b
        if k in ('CXXOperatorCallExpr', 'BinaryOperator'):
            if k == 'BinaryOperator': op = 'operator' + n['opcode']; l, r = n['inner'][0], n['inner'][1]
            else:
                c = n['inner'][0]
                while c['kind'] == 'ImplicitCastExpr': c = c['inner'][0]
                op = c['referencedDecl']['name']; l = n['inner'][1]; r = n['inner'][2] if len(n['inner']) > 2 else None
            if op in ('operator+', 'operator-'):
                base, idx = self.iter(l)
                rt = self.tr.ty(r)
                d = self.conv_ix(r)
                if idx == '0' and op == 'operator+': return base, d
                return base, '%s_u64(%s, %s)' % ('add' if op == 'operator+' else 'sub', idx, d)
            if op in ('operator++', 'operator--'):
                base, idx = self.iter(l)
                if self.strip(l, keep_lv=True)['kind'] == 'CXXMemberCallExpr' and r is None:
                    return base, '1' if idx == '0' and op == 'operator++' else '%s_u64(%s, 1)' % ('add' if op == 'operator++' else 'sub', idx)
                post = r is not None
                if post:
                    x = self.t('it'); self.emit('let %s = %s;' % (x, idx))
                self.emit('%s = %s_u64(%s, 1);' % (idx, 'add' if op == 'operator++' else 'sub', idx))
                return base, (x if post else idx)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            base, idx = self.iter(n['inner'][0])
            x = None
            if n.get('isPostfix'):
                x = self.t('it'); self.emit('let %s = %s;' % (x, idx))
            self.emit('%s = %s_u64(%s, 1);' % (idx, 'add' if n['opcode'] == '++' else 'sub', idx))
            return base, (x or idx)
        if k == 'UnaryOperator' and n['opcode'] == '&':
            e = self.strip(n['inner'][0], keep_lv=True)
            if e['kind'] == 'CXXOperatorCallExpr':
                return self.place(e['inner'][1]), self.conv_ix(e['inner'][2])
            if e['kind'] == 'ArraySubscriptExpr':
                b, i0 = self.iter(e['inner'][0])
                return b, 'add_u64(%s, %s)' % (i0, self.conv_ix(e['inner'][1])) if i0 != '0' else self.conv_ix(e['inner'][1])
        if k == 'CallExpr':
            nm = self.callee_name(n)
            if nm == 'unique' and len(n['inner']) == 3:
                b, f = self.iter(n['inner'][1]); b2, l = self.iter(n['inner'][2])
                if b != b2: self.fail(n, 'iterators into different vectors')
                x = self.t('e'); self.emit('let %s = %s;' % (x, l))
                return b, 'rk_unique(%s, %s, %s)' % (self.mutb(b), f, x)
            if nm == 'lower_bound' and len(n['inner']) == 4:
                b, f = self.iter(n['inner'][1]); b2, l = self.iter(n['inner'][2])
                return b, 'rk_lower_bound(&%s, %s, %s, %s)' % (b, f, l, self.rv(n['inner'][3]))
            if nm == 'upper_bound' and len(n['inner']) == 4:
                b, f = self.iter(n['inner'][1]); b2, l = self.iter(n['inner'][2])
                return b, 'rk_upper_bound(&%s, %s, %s, %s)' % (b, f, l, self.rv(n['inner'][3]))
        self.fail(n, 'iterator expression')

    def conv_ix(self, n):
        """integer expression as u64 (index offset; negative offsets wrap)"""
        m = self.strip(n)
        if m['kind'] == 'ImplicitCastExpr' and m['castKind'] == 'IntegralCast':
            it = self.tr.ty(m['inner'][0])
            if it.kind == 'int' and it.name in UINTS: return self.conv(self.rv(m['inner'][0]), it, Ty('int', 'u64'))
        t = self.tr.ty(m)
        if m['kind'] == 'IntegerLiteral': return '%s' % m['value']
        return self.conv(self.rv(m), t, Ty('int', 'u64'))

    # -- assignment
    def coerce_copy(self, text, node, t):
        return text

    def set_place(self, pl, v, node):
        self.emit('%s = %s;' % (pl, v))

    def simple_text(self, v):
        return '[' not in v and '(' not in v and '{' not in v

    def assign(self, n):
        l, r = n['inner']
        lt = self.tr.ty(l).strip()
        if lt.kind == 'ptr' and self.is_share(l):
            self.emit('%s = %s;' % (self.share_place(l), self.share_rv(r))); return
        if lt.kind == 'ptr' and self.own_member(l):
            v = self.own_rv(r)
            b, i = self.iter(l)
            self.emit('%s = %s;' % (b, v)); return
        if lt.kind == 'arr':
            v = self.rv(r, want=lt)
            if not self.simple_text(v):
                x = self.t('v'); self.emit('let %s: %s = %s;' % (x, self.tr.rty(lt), v)); v = x
            q = self.v8_lv(l)
            if q is not None: self.emit('v8_store(&mut %s, %s, %s);' % (q[0], q[1], v))
            else: self.emit('%s = %s;' % (self.place(l), v))
            return
        if lt.kind == 'ptr' and self.is_iter_expr(l):
            b, i = self.iter(l); b2, i2 = self.iter(r)
            if b is None:
                lm = self.strip(l, keep_lv=True)
                self.env[lm['referencedDecl']['id']].extra = b = b2
            if b != b2: self.fail(n, 'pointer re-based')
            self.emit('%s = %s;' % (i, i2)); return
        if lt.kind == 'ptr' and self.is_share(l):
            self.emit('%s = %s;' % (self.share_place(l), self.share_rv(r))); return
        if lt.kind == 'ptr':
            m = self.strip(l, keep_lv=True)
            if m['kind'] == 'MemberExpr' and m['name'] in self.tr.specs.ptrfields.get(self.this_rec_name(), {}):
                self.tr.notes.add('assignment to pointer member %s dropped (ptrfield)' % m['name'])
                return
        v = self.rv(r, want=lt)
        rs = self.side_effects(r)
        if not self.simple_text(v):
            x = self.t('v'); self.emit('let %s: %s = %s;' % (x, self.tr.rty(lt), v)); v = x
        pl = self.place(l)
        self.set_place(pl, v, l)

    def binop(self, op, a, b, t, node=None, bt=None):
        """a op b where both have type t (after usual conversions); bt is the type of b for shifts"""
        n = t.name
        if t.kind == 'arr':
            nm = {'&': 'v8_and', '|': 'v8_or', '^': 'v8_xor'}.get(op) or self.fail(node or {}, 'vector operator')
            return '%s(%s, %s)' % (nm, a, b)
        ma, mb = re.match(r'^(\d+)([ui]\d+)$', a), re.match(r'^(\d+)([ui]\d+)$', b)
        if ma and mb and t.kind == 'int' and ma.group(2) == n and op in ('+', '-', '*', '<<', '>>', '&', '|'):
            x, y = int(ma.group(1)), int(mb.group(1))
            hi = 2 ** (BITS[n] - (0 if n[0] == 'u' else 1))
            if op not in ('<<', '>>') or y < BITS[n]:
                v = {'+': x + y, '-': x - y, '*': x * y, '<<': x << y if y < 64 else -1, '>>': x >> y, '&': x & y, '|': x | y}[op]
                if 0 <= v < hi: return '%d%s' % (v, n)
        if t.kind == 'float':
            self.used_float(node)
            return '(%s %s %s)' % (a, op, b)
        if op in ('+', '-', '*'):
            nm = {'+': 'add', '-': 'sub', '*': 'mul'}[op]
            if n in UINTS:
                return '%s_%s(%s, %s)' % (nm, n, a, b)
            return '(%s %s %s)' % (a, op, b)
        if op in ('/', '%'):
            return '(%s %s %s)' % (a, op, b)
        if op in ('<<', '>>'):
            if bt is not None and bt.name != n:
                b = self.conv(b, bt, t) if not re.match(r'^\d+\w*$', b) else re.sub(r'(u|i)\d+$', '', b) + n
            return '(%s %s %s)' % (a, op, b)
        if op in ('&', '|', '^'):
            return '(%s %s %s)' % (a, op, b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return '(%s %s %s)' % (a, op, b)
        if op in ('&&', '||'):
            return '(%s %s %s)' % (a, op, b)
        self.fail(node or {}, 'operator ' + op)

    def used_float(self, node):
        self.fail(node or {}, 'floating point')

    def compound(self, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        if self.is_iter_expr(l):
            b, i = self.iter(l)
            self.emit('%s = %s_u64(%s, %s);' % (i, 'add' if op == '+' else 'sub', i, self.conv_ix(r))); return
        lt = self.tr.ty(l).strip()
        if lt.kind == 'arr':
            nm = {'&': 'v8_and', '|': 'v8_or', '^': 'v8_xor'}.get(op) or self.fail(n, 'vector operator')
            b = self.rv(r)
            if not self.simple_text(b):
                x = self.t('v'); self.emit('let %s: [u64; 8] = %s;' % (x, b)); b = x
            q = self.v8_lv(l)
            if q is not None:
                x = self.t('v'); self.emit('let %s = %s(v8_load(&%s, %s), %s);' % (x, nm, q[0], q[1], b))
                self.emit('v8_store(&mut %s, %s, %s);' % (q[0], q[1], x))
            else:
                pl = self.place(l); self.emit('%s = %s(%s, %s);' % (pl, nm, pl, b))
            return
        ct = self.tr.ty_of(n['computeLHSType'])
        rt = self.tr.ty(r)
        b = self.rv(r)
        if not self.simple_text(b):
            x = self.t('v'); self.emit('let %s = %s;' % (x, b)); b = x
        pl = self.place(l, freeze=False)
        a = self.conv(pl, lt, ct)
        v = self.binop(op, a, b, ct, n, bt=rt)
        v = self.conv(v, ct, lt)
        x = self.t('v'); self.emit('let %s: %s = %s;' % (x, self.tr.rty(lt), v))
        self.set_place(pl, x, l)

    def incdec(self, n):
        l = n['inner'][0]
        if self.is_iter_expr(l):
            b, i = self.iter(l)
            self.emit('%s = %s_u64(%s, 1);' % (i, 'add' if n['opcode'] == '++' else 'sub', i)); return
        t = self.tr.ty(l).strip()
        pl = self.place(l)
        op = 'add' if n['opcode'] == '++' else 'sub'
        if t.name in UINTS: v = '%s_%s(%s, 1)' % (op, t.name, pl)
        else: v = '%s %s 1' % (pl, '+' if op == 'add' else '-')
        if re.match(r'^[\w.]+$', pl):
            self.emit('%s = %s;' % (pl, v))
        else:
            x = self.t('v'); self.emit('let %s = %s;' % (x, v)); self.set_place(pl, x, l)

    # -- conversions
    def conv(self, v, a, b):
        if a.kind == 'bool' and b.kind == 'int':
            return '(if %s {1%s} else {0%s})' % (v, b.name, b.name)
        if b.kind == 'bool' and a.kind == 'int':
            return '(%s != 0)' % v
        if a.kind == 'int' and b.kind == 'int':
            if a.name == b.name: return v
            m = re.match(r'^(\d+)([ui]\d+)?$', v)
            if m and int(m.group(1)) < 2 ** (BITS[b.name] - (0 if b.name[0] == 'u' else 1)):
                return m.group(1) + b.name
            if a.name[0] == 'u' and BITS[b.name] > BITS[a.name]:
                return '(%s as %s)' % (v, b.name)
            if a.name[0] == 'i' and b.name[0] == 'i' and BITS[b.name] > BITS[a.name]:
                return '(%s as %s)' % (v, b.name)
            return 'cast_%s_%s(%s)' % (a.name, b.name, v)
        if a.kind == b.kind: return v
        if a.kind == 'float' or b.kind == 'float': self.used_float({})
        raise ExtractError('conversion %r -> %r' % (a, b))

    # -- rvalues
    def rv(self, n, want=None):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: self.fail(n, 'expression')
        return m(n, want)

    def e_ParenExpr(self, n, w):
        a = self.is_assert(n)
        return self.rv(n['inner'][0], w)
    def e_ExprWithCleanups(self, n, w): return self.rv(n['inner'][0], w)
    def e_MaterializeTemporaryExpr(self, n, w): return self.rv(n['inner'][0], w)
    def e_CXXBindTemporaryExpr(self, n, w): return self.rv(n['inner'][0], w)
    def e_ConstantExpr(self, n, w): return self.rv(n['inner'][0], w)
    def e_SubstNonTypeTemplateParmExpr(self, n, w): return self.rv(n['inner'][-1], w)
    def e_CXXDefaultArgExpr(self, n, w):
        for c in n.get('inner', []):
            return self.rv(c, w)
        self.fail(n, 'default argument')

    def e_IntegerLiteral(self, n, w):
        t = self.tr.ty(n)
        return '%s%s' % (n['value'], t.name)
    def e_CXXBoolLiteralExpr(self, n, w): return 'true' if n['value'] else 'false'
    def e_CharacterLiteral(self, n, w): return '%s%s' % (n['value'], self.tr.ty(n).name)
    def e_CXXScalarValueInitExpr(self, n, w):
        t = self.tr.ty(n)
        return '0' + t.name if t.kind == 'int' else 'false'
    def e_ImplicitValueInitExpr(self, n, w): return self.e_CXXScalarValueInitExpr(n, w)

    def mutb(self, b): return '&mut *' + b if re.match(r'^\w+$', b) and self.is_mutref(b) else '&mut ' + b

    def global_const(self, rd):
        d = self.ast.by_id.get(rd['id'], rd)
        if rd.get('kind') == 'EnumConstantDecl' or d.get('kind') == 'EnumConstantDecl': return self.tr.enumval.get(rd['id'])
        def lit(x):
            x = x
            while x['kind'] in ('ImplicitCastExpr', 'ConstantExpr', 'ParenExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr') and x.get('inner'):
                x = x['inner'][0]
            return x
        t = self.tr.ty(d) if 'type' in d else None
        if d.get('kind') == 'VarDecl' and t is not None and t.kind == 'struct' and (t.const or d.get('constexpr')):
            nm = self.tr.rty(t)
            if self.tr.struct_out[nm] is not None and not self.tr.struct_out[nm][2]: return '%s {}' % nm
        if d.get('kind') == 'VarDecl' and t is not None and (t.const or d.get('constexpr')):
            for c in d.get('inner', []):
                if 'kind' in c:
                    if c.get('kind') == 'ConstantExpr' and 'value' in c and t.kind == 'int': return '%s%s' % (c['value'], t.name)
                    x = lit(c)
                    if x['kind'] == 'IntegerLiteral' and t.kind == 'int': return '%s%s' % (x['value'], t.name)
                    if x['kind'] == 'CXXBoolLiteralExpr': return 'true' if x['value'] else 'false'
                    if t.kind in ('int', 'bool'):
                        return self.rv(c)
        return None

    def e_DeclRefExpr(self, n, w):
        rd = n['referencedDecl']
        self.read_ids.add(rd['id'])
        v = self.env.get(rd['id'])
        if v is None:
            g = self.global_const(rd)
            if g is not None: return g
            self.fail(n, 'unknown name %s' % rd.get('name'))
        if v.mode == 'iter': return v.text
        return self.copy_of(v.text, v.ty)

    def copy_of(self, text, t):
        if self.tr.is_copy(t): return text
        if t.kind == 'vec': return 'rk_clone(&%s)' % text
        if t.kind == 'struct':
            self.tr.used_helpers.add(('clone', self.tr.rty(t)))
            return 'clone_%s(&%s)' % (self.tr.rty(t), text)
        return text

    def e_MemberExpr(self, n, w):
        t = self.tr.ty(n)
        return self.copy_of(self.place(n), t.strip())

    def e_ArraySubscriptExpr(self, n, w): return self.place(n)
    def e_CXXNullPtrLiteralExpr(self, n, w): return 'rk_cstr_null()' if CSTR else self.fail(n, 'null pointer')
    def e_CXXThisExpr(self, n, w): return self.this_text

    def e_ImplicitCastExpr(self, n, w):
        ck = n['castKind']
        e = n['inner'][0]
        if ck == 'FloatingCast': return 'rk_float_cast(%s)' % self.rv(e)
        if ck == 'LValueToRValue':
            t = self.tr.ty(n)
            if t.kind == 'float' and self.strip(e)['kind'] == 'UnaryOperator': return self.rv(self.strip(e, keep_lv=True))
            return self.copy_of(self.place(e), t)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.rv(e, w)
        if ck == 'IntegralCast':
            return self.conv(self.rv(e), self.tr.ty(e).strip(), self.tr.ty(n))
        if ck == 'IntegralToBoolean':
            return '(%s != 0)' % self.rv(e)
        if ck == 'NullToPointer' and self.is_cstr(n): return 'rk_cstr_null()'
        if ck == 'PointerToBoolean' and self.is_cstr(e): return '(!rk_cstr_is_null(%s))' % self.rv(e)
        if ck == 'PointerToBoolean':
            self.fail(n, 'pointer test')
        self.fail(n, 'cast ' + ck)

    def cast_expr(self, n, w):
        ck = n['castKind']
        e = n['inner'][0]
        if ck in ('NoOp', 'ConstructorConversion'): return self.rv(e, w)
        if ck == 'IntegralCast': return self.conv(self.rv(e), self.tr.ty(e).strip(), self.tr.ty(n).strip())
        if ck == 'IntegralToBoolean': return '(%s != 0)' % self.rv(e)
        self.fail(n, 'cast ' + ck)
    e_CStyleCastExpr = cast_expr
    e_CXXStaticCastExpr = cast_expr
    e_CXXFunctionalCastExpr = cast_expr

    def e_UnaryOperator(self, n, w):
        op = n['opcode']; e = n['inner'][0]
        if op in ('++', '--'):
            if n.get('isPostfix'):
                if self.is_iter_expr(e): self.fail(n, 'postfix on iterator')
                pl = self.place(e)
                x = self.t('old'); self.emit('let %s = %s;' % (x, pl))
                self.incdec(n)
                return x
            self.incdec(n)
            return self.place(e)
        if op == '!': return '(!%s)' % self.rv(e)
        if op == '~' and self.tr.ty(e).strip().kind == 'arr': return 'v8_not(%s)' % self.rv(e)
        if op == '~':
            v = self.rv(e)
            m = re.match(r'^(\d+)(u\d+)$', v)
            if m: return '%d%s' % (2 ** BITS[m.group(2)] - 1 - int(m.group(1)), m.group(2))
            return '(!%s)' % v
        if op == '-':
            t = self.tr.ty(n)
            if t.name in UINTS: return 'sub_%s(0, %s)' % (t.name, self.rv(e))
            v = self.rv(e)
            return '(-%s)' % v
        if op == '+': return self.rv(e)
        if op == '*' and self.strip(e)['kind'] == 'CXXReinterpretCastExpr' and self.tr.ty(n).kind == 'float' and self.is_iter_expr(self.strip(e)['inner'][0]):
            b, i = self.iter(self.strip(e)['inner'][0])
            return 'rk_read_%s(%s, %s)' % (self.tr.ty(n).name, self.base_ref(b, False), i)
        if op == '*': return self.copy_of(self.place(n), self.tr.ty(n).strip())
        self.fail(n, 'unary ' + op)

    def e_BinaryOperator(self, n, w):
        op = n['opcode']; l, r = n['inner']
        if op == '=':
            self.assign(n); return self.place(l)
        if op == ',':
            self.expr_stmt(l); return self.rv(r)
        if op in ('&&', '||'):
            a = self.rv(l)
            n0 = len(self.lines)
            b = self.rv(r)
            if len(self.lines) > n0:
                # the right operand needs statements: make them conditional
                extra = self.lines[n0:]; del self.lines[n0:]
                x = self.t('c')
                self.emit('let mut %s: bool = %s;' % (x, a))
                self.emit('if %s%s {' % ('' if op == '&&' else '!', x))
                self.lines += [('    ' + s, ln) if not s.startswith('\x00') else (s, ln) for s, ln in extra]
                self.emit('    %s = %s;' % (x, b))
                self.emit('}')
                return x
            return '(%s %s %s)' % (a, op, b)
        if op in ('==', '!='):
            for x, y in ((l, r), (r, l)):
                ym = self.strip(y)
                while ym['kind'] == 'ImplicitCastExpr' and ym['castKind'] == 'NullToPointer': ym = self.strip(ym['inner'][0])
                if ym['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral') and self.is_cstr(x):
                    return '(%srk_cstr_is_null(%s))' % ('!' if op == '!=' else '', self.rv(x))
                if ym['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') and self.own_member(x):
                    return '(%srk_is_null(&%s))' % ('!' if op == '!=' else '', self.iter(x)[0])
        if self.is_iter_expr(l) and self.is_iter_expr(r):
            b1, i1 = self.iter(l); b2, i2 = self.iter(r)
            if b1 != b2: self.fail(n, 'pointers into different arrays')
            if op == '-': return 'cast_u64_i64(sub_u64(%s, %s))' % (i1, i2)
            return '(%s %s %s)' % (i1, op, i2)
        lt = self.tr.ty(l).strip()
        if lt.kind == 'ptr':
            if op in ('==', '!='):
                for x, y in ((l, r), (r, l)):
                    ym = self.strip(y)
                    while ym['kind'] == 'ImplicitCastExpr' and ym['castKind'] == 'NullToPointer': ym = self.strip(ym['inner'][0])
                    if self.is_share(x) and ym['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral'):
                        return '(%s%s.is_null())' % ('!' if op == '!=' else '', self.share_place(x))
            if op in ('==', '!=') and self.is_share(l) and self.is_share(r):
                return '(%srk_share_eq(&%s, &%s))' % ('!' if op == '!=' else '', self.share_place(l), self.share_place(r))
            # null tests on ptrfields are dropped to true/false
            lm = self.strip(l)
            if lm['kind'] == 'MemberExpr' and lm['name'] in self.tr.specs.ptrfields.get(self.this_rec_name(), {}):
                self.tr.notes.add('null test of pointer member %s assumed non-null' % lm['name'])
                return 'true' if op == '!=' else 'false'
            self.fail(n, 'pointer comparison')
        a = self.rv(l)
        if self.side_effects(r) and not re.match(r'^\d', a):
            x = self.t('v'); self.emit('let %s = %s;' % (x, a)); a = x
        b = self.rv(r)
        return self.binop(op, a, b, lt, n, bt=self.tr.ty(r).strip())

    def e_CompoundAssignOperator(self, n, w):
        self.compound(n); return self.place(n['inner'][0])

    def e_ConditionalOperator(self, n, w):
        c = self.rv(n['inner'][0])
        out = []
        for i in (1, 2):
            n0 = len(self.lines); self.ind += 1
            v = self.rv(n['inner'][i], w)
            self.ind -= 1
            out.append((self.lines[n0:], v)); del self.lines[n0:]
        if not out[0][0] and not out[1][0]:
            return '(if %s { %s } else { %s })' % (c, out[0][1], out[1][1])
        x = self.t('c')
        self.emit('let %s: %s;' % (x, self.tr.rty(self.tr.ty(n).strip())))
        self.emit('if %s {' % c); self.lines += out[0][0]; self.emit('    %s = %s;' % (x, out[0][1]))
        self.emit('} else {'); self.lines += out[1][0]; self.emit('    %s = %s;' % (x, out[1][1])); self.emit('}')
        return x

    def e_CXXThrowExpr(self, n, w):
        self.emit('return Err(());'); return '()'

    def e_InitListExpr(self, n, w):
        t = self.tr.ty(n).strip()
        if t.kind == 'struct':
            sname = self.tr.rty(t)
            flds = self.tr.struct_out[sname][2]
            vals = [self.rv(c) for c in n.get('inner', [])]
            return '%s { %s }' % (sname, ', '.join('%s: %s' % (f, v) for (f, _), v in zip(flds, vals)))
        if t.is_scalar():
            if not n.get('inner'): return '0' + t.name if t.kind == 'int' else 'false'
            return self.rv(n['inner'][0])
        if t.kind == 'pair':
            return '(%s)' % ', '.join(self.rv(c) for c in n['inner'])
        if t.kind == 'arr':
            el = n.get('inner') or [c for c in n.get('array_filler', []) if c.get('kind') != 'ImplicitValueInitExpr']
            vals = [self.rv(c) for c in el]
            if t.elem.kind not in ('int', 'bool'): self.fail(n, 'array initialiser')
            z = self.zero(t.elem)
            if not vals or all(v == z for v in vals): return '[%s; %d]' % (z, t.name) if 'vector_size' not in json.dumps(n.get('type', {})) and n.get('type', {}).get('qualType', '').split('::')[-1] not in VECTY else 'v8_const([%s; %d])' % (z, t.name)
            return '[%s]' % ', '.join(vals + [z] * (t.name - len(vals)))
        self.fail(n, 'init list of %r' % t)

    def e_CXXTemporaryObjectExpr(self, n, w): return self.e_CXXConstructExpr(n, w)

    def zero(self, t):
        if t.kind == 'int': return '0' + t.name
        if t.kind == 'bool': return 'false'
        if t.kind == 'struct' and t.name == 'RkCStr': return 'rk_cstr_null()'
        if t.kind == 'struct' and self.tr.is_copy(t):
            rec = self.tr.find_record(t.name)
            if any(c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') for c in rec.get('inner', [])) or rec.get('bases'): return None
            out = []
            for f in rec.get('inner', []):
                if f.get('kind') != 'FieldDecl': continue
                z = self.zero(self.tr.ty(f).strip()) if not f.get('hasInClassInitializer') else None
                if z is None: return None
                out.append('%s: %s' % (rn(f['name']), z))
            return '%s { %s }' % (self.tr.rty(t), ', '.join(out))
        return None

    def e_CXXConstructExpr(self, n, w):
        tr = self.tr
        t = tr.ty(n).strip()
        args = [c for c in n.get('inner', []) if c['kind'] != 'CXXDefaultArgExpr']
        if t.kind == 'vec':
            if not args: return 'Vec::new()'
            if args[0]['kind'] == 'CXXStdInitializerListExpr':
                il = args[0]['inner'][0]
                while il['kind'] in ('MaterializeTemporaryExpr', 'ExprWithCleanups'): il = il['inner'][0]
                if il['kind'] != 'InitListExpr' or not tr.is_copy(t.elem): self.fail(n, 'initializer list')
                els = [self.rv(c) for c in il.get('inner', [])]
                nm = 'rk_il'
                return '{ let mut %s: Vec<%s> = Vec::new(); %s%s }' % (nm, tr.rty(t.elem), ''.join('%s.push(%s); ' % (nm, e) for e in els), nm)
            a0t = tr.ty(args[0]).strip()
            if a0t.kind == 'vec' and len(args) == 1:
                if args[0].get('valueCategory') == 'lvalue': return 'rk_clone(&%s)' % self.place(args[0])
                s = self.strip(args[0], keep_lv=True)
                if s['kind'] == 'CallExpr' and self.callee_name(s) == 'move':
                    pl = self.place(s['inner'][1])
                    return self.take(pl, s['inner'][1])
                if s['kind'] == 'DeclRefExpr': return 'rk_take(&mut %s)' % self.place(s)
                return self.rv(args[0])
            if a0t.kind == 'int' and len(args) == 1:
                z = self.zero(t.elem)
                if t.elem.kind == 'vec': return 'rk_vec_empties::<%s>(%s)' % (tr.rty(t.elem.elem), self.rv(args[0]))
                if z is None: return 'rk_vec_any::<%s>(%s)' % (tr.rty(t.elem), self.rv(args[0]))
                return 'rk_vec_fill::<%s>(%s, %s)' % (tr.rty(t.elem), self.rv(args[0]), z)
            if a0t.kind == 'int' and len(args) == 2:
                v = self.rv(args[1])
                if not tr.is_copy(t.elem): self.fail(n, 'vector of non-copy elements')
                return 'rk_vec_fill::<%s>(%s, %s)' % (tr.rty(t.elem), self.rv(args[0]), v)
            if a0t.kind == 'iter':
                b, f = self.iter(args[0]); b2, l = self.iter(args[1])
                return 'rk_subvec(&%s, %s, %s)' % (b, f, l)
            self.fail(n, 'vector constructor')
        if t.kind == 'pair':
            if len(args) == 1: return self.rv(args[0])
            return '(%s)' % ', '.join(self.rv(a) for a in args)
        if t.kind == 'struct':
            # copy/move construction
            if len(args) == 1 and tr.ty(args[0]).strip().kind == 'struct' and tr.ty(args[0]).strip().name.split('::')[-1] == t.name.split('::')[-1]:
                s = self.strip(args[0], keep_lv=True)
                ct = n.get('ctorType', {}).get('qualType')
                for f in tr.find_record(t.name).get('inner', []):
                    if f.get('kind') == 'CXXConstructorDecl' and f['type']['qualType'] == ct:
                        d = tr.definition(f['id']) or f
                        if Ast.body(d) is not None and tr.contract_for(d) is not None:
                            return '%s(%s)' % (tr.request(d), ', '.join(self.args_for(d, args)))
                if args[0].get('valueCategory') == 'lvalue': return self.copy_of(self.place(args[0]), t)
                if s['kind'] == 'CallExpr' and self.callee_name(s) == 'move':
                    return self.take(self.place(s['inner'][1]), s['inner'][1])
                return self.rv(args[0])
            # user constructor
            ct = n.get('ctorType', {}).get('qualType')
            rec = tr.find_record(t.name)
            cands = [f for f in rec.get('inner', []) if f.get('kind') == 'CXXConstructorDecl' and len(tr.params(f)) == len(n.get('inner', [])) and (ct is None or re.sub(r'\w+::', '', f['type']['qualType']) == re.sub(r'\w+::', '', ct))]
            if not cands:
                cands = [f for f in rec.get('inner', []) if f.get('kind') == 'CXXConstructorDecl' and len(tr.params(f)) == len(n.get('inner', [])) and not f.get('isImplicit')]
                if len(cands) > 1: cands = []
            if not cands and ct is not None:
                cands = [f for g in rec.get('inner', []) if g.get('kind') == 'FunctionTemplateDecl' for f in g.get('inner', []) if f.get('kind') == 'CXXConstructorDecl' and self.ast.template_args(f) and len(tr.params(f)) == len(n.get('inner', [])) and re.sub(r'\w+::', '', f['type']['qualType']) == re.sub(r'\w+::', '', ct)]
            if not cands: self.fail(n, 'constructor of %s' % t.name)
            c = cands[0]
            d = tr.definition(c['id']) or c
            if tr.rty(t) in tr.views: return self.view(n, t, d)
            if Ast.body(d) is None and c.get('isImplicit') or c.get('explicitlyDefaulted'):
                return 'rk_default_%s()' % tr.rty(t)
            nm = tr.request(d)
            as_ = self.args_for(d, n.get('inner', []))
            return '%s(%s)' % (nm, ', '.join(as_))
        if t.is_scalar():
            return self.rv(args[0])
        self.fail(n, 'construction of %r' % t)

    def view(self, n, t, d):
        """construction of an object that only holds references"""
        b = Ast.body(d)
        if b is None or b.get('inner'): self.fail(n, 'constructor with a body')
        by = {p['id']: a for p, a in zip(self.tr.params(d), n.get('inner', []))}
        fields = dict(self.tr.struct_out[self.tr.rty(t)][2]); vals = {}
        for i in d.get('inner', []):
            if i.get('kind') != 'CXXCtorInitializer' or 'anyInit' not in i: continue
            f = rn(i['anyInit']['name'])
            if f not in fields: continue
            e = self.strip(i['inner'][0], keep_lv=True)
            if e['kind'] != 'DeclRefExpr' or e['referencedDecl']['id'] not in by: self.fail(i, 'initializer of a reference')
            vals[f] = self.refarg(by[e['referencedDecl']['id']], False)
        if set(vals) != set(fields): self.fail(n, 'initializer of a reference')
        return '%s { %s }' % (self.tr.rty(t), ', '.join('%s: %s' % (f, vals[f]) for f in fields))

    def take(self, pl, node):
        t = self.tr.ty(node).strip()
        if self.tr.is_copy(t): return pl
        s = self.strip(node, keep_lv=True)
        if s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is not None and v.mode == 'mutref': return 'rk_take(%s)' % pl
            if v is not None and v.mode == 'ref': return 'rk_clone(%s)' % pl
        if t.const: return 'rk_clone(&%s)' % pl
        if t.kind == 'vec': return 'rk_take(&mut %s)' % pl
        self.tr.used_helpers.add(('take', self.tr.rty(t)))
        return 'take_%s(&mut %s)' % (self.tr.rty(t), pl)

    def e_LambdaExpr(self, n, w): self.fail(n, 'lambda value')
    def e_CXXNullPtrLiteralExpr(self, n, w): self.fail(n, 'nullptr')
    def e_StringLiteral(self, n, w): self.fail(n, 'string')
    def e_UnaryExprOrTypeTraitExpr(self, n, w):
        if n.get('name') == 'sizeof':
            t = n.get('argType', {}).get('qualType')
            if t is None and n.get('inner'): t = n['inner'][0]['type']['qualType']
            p = parse_ty(t, {})
            if p.kind == 'int': return '%du64' % (BITS[p.name] // 8)
        self.fail(n, 'sizeof')
    def e_CXXDefaultInitExpr(self, n, w): return self.rv(n['inner'][0], w)

    # -- calls
    def callee_name(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl']['name']
        if c['kind'] == 'MemberExpr': return c['name']
        return None

    def e_CallExpr(self, n, w): return self.call(n)
    def e_CXXMemberCallExpr(self, n, w): return self.call(n)
    def e_CXXOperatorCallExpr(self, n, w): return self.call(n)

    def refarg(self, node, mut):
        """text to pass an lvalue node by reference"""
        s = self.strip(node, keep_lv=True)
        pl = self.place(node, freeze=False)
        t = self.tr.ty(node).strip()
        if s['kind'] == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            if v is not None and v.mode in ('ref', 'mutref', 'ptrparam') and not v.text.startswith('(*') and re.match(r'^\w+$', v.text):
                if mut: return v.text
                return v.text if v.mode == 'ref' else '&*' + v.text
        if pl == 'this' and not self.is_ctor:
            return 'this' if mut else '&*this'
        if s['kind'] == 'MemberExpr' and not mut:
            fd = self.ast.by_id.get(s.get('referencedMemberDecl'))
            if fd is not None and fd.get('kind') == 'FieldDecl' and self.tr.ty(fd).kind == 'ref': return pl
        if re.match(r'^this_\w+$', pl) or pl.endswith('.get()') : return pl
        return ('&mut ' if mut else '&') + pl

    def args_for(self, d, nodes):
        out = []
        tr = self.tr
        con = tr.contract_for(d)
        bases = {}
        for i_, (p, a) in enumerate(zip(tr.params(d), nodes)):
            pt = tr.ty(p)
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'): a = self.default_arg(d, i_, a)
            if i_ in tr.lam_info.get(d['id'], {}):
                lam, caps, this_rec, _h = tr.lam_info[d['id']][i_]
                for dr, cty, mut in caps:
                    if not mut and tr.is_copy(cty): out.append(self.rv(dr))
                    else: out.append(self.refarg(dr, mut))
                if this_rec is not None:
                    cn_ = tr.contract_for(d)
                    if cn_ is not None and cn_.thiscap_mut: out.append('&mut *this' if self.this_text == 'this' and not self.is_ctor else '&mut ' + self.this_text)
                    else: out.append('&*this' if self.this_text == 'this' and not self.is_ctor else 'this_cap' if self.this_text == 'this_cap' else '&' + self.this_text)
                continue
            if con and p.get('name') in con.pointers:
                b, i = self.iter(a)
                nb = con.pointers[p['name']]
                if nb in bases:
                    if bases[nb] != b: self.fail(a, 'pointers into different arrays')
                else:
                    bases[nb] = b
                    q = pt.elem if pt.kind == 'ref' else pt
                    out.append(self.base_ref(b, not q.elem.const))
                out.append(('&mut ' + i if not i.startswith('(*') else i[2:-1]) if pt.kind == 'ref' else i)
                continue
            if con and p.get('name') in con.sharedptrs:
                m = self.strip(a)
                if m['kind'] == 'DeclRefExpr' and self.is_share(m): out.append(self.share_place(m))
                else:
                    x = self.t('sp'); self.emit('let %s = %s;' % (x, self.share_rv(a))); out.append('&' + x)
                continue
            if pt.kind in ('ref',):
                e = pt.elem
                if e.kind == 'lambda' or (e.kind == 'struct' and e.name in tr.specs.functors): continue
                if e.const:
                    if tr.is_copy(e): out.append(self.rv(a))
                    elif self.is_lvalue(self.strip(a, keep_lv=True)): out.append(self.refarg(a, False))
                    else:
                        x = self.t('tmp'); self.emit('let %s = %s;' % (x, self.rv(a))); out.append('&' + x)
                else:
                    out.append(self.refarg(a, True))
            elif pt.kind == 'rref':
                s = self.strip(a, keep_lv=True)
                if s['kind'] == 'CallExpr' and self.callee_name(s) in ('move', 'forward'):
                    out.append(self.refarg(s['inner'][1], True))
                elif s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] in self.env: out.append(self.refarg(s, True))
                else:
                    x = self.t('tmp'); self.emit('let mut %s = %s;' % (x, self.rv(a))); out.append('&mut ' + x)
            elif pt.kind == 'lambda' or (pt.kind == 'struct' and pt.name in tr.specs.functors): continue
            elif pt.kind == 'ptr' and pt.elem.kind != 'int':
                m = self.strip(a)
                if m['kind'] == 'UnaryOperator' and m['opcode'] == '&': out.append(self.refarg(m['inner'][0], not pt.elem.const))
                else: out.append(self.refarg_ptr(m, not pt.elem.const))
            else:
                out.append(self.rv(a, want=pt))
        # freeze arguments that read what a later &mut argument borrows
        if any(o.startswith('&mut ') or o == 'this' for o in out):
            for i, o in enumerate(out):
                if not o.startswith('&') and not self.simple_text(o) and o != 'this':
                    x = self.t('arg'); self.emit('let %s = %s;' % (x, o)); out[i] = x
        return out

    def default_arg(self, d, i, a):
        for k, n in self.ast.by_id.items():
            if n.get('kind') in FUNCS and (k == d['id'] or self.ast.defs.get(k, {}).get('id') == d['id']):
                ps = self.tr.params(n)
                if i < len(ps):
                    for c in ps[i].get('inner', []):
                        if 'kind' in c and not c['kind'].endswith('Attr'): return c
        self.fail(a, 'default argument')

    def refarg_ptr(self, m, mut):
        t = self.deref_ptr(m)
        if re.match(r'^\w+$', t): return t
        return ('&mut ' if mut else '&') + t

    def base_ref(self, b, mut):
        if re.match(r'^\w+$', b) and b in self.base_params: return b
        if b.endswith('.get()'): return b
        return ('&mut ' if mut else '&') + b

    def call(self, n, stmt=False):
        tr = self.tr
        k = n['kind']
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        args = n['inner'][1:]
        if k == 'CXXOperatorCallExpr':
            op = c['referencedDecl']['name']
            if op == 'operator()':
                return self.functor_call(n, args[0], args[1:], c['referencedDecl']['id'], stmt)
            if op == 'operator=' and tr.definition(c['referencedDecl']['id']) is not None and tr.contract_for(tr.definition(c['referencedDecl']['id'])) is not None:
                return self.user_call(n, c['referencedDecl']['id'], args[0], args[1:], stmt)
            if op == 'operator=':
                lt = tr.ty(args[0]).strip()
                v = self.assign_value(args[1], lt)
                x = self.t('v'); self.emit('let %s = %s;' % (x, v))
                pl = self.place(args[0])
                s = self.strip(args[0], keep_lv=True)
                if s['kind'] == 'DeclRefExpr' and self.env[s['referencedDecl']['id']].mode == 'mutref' and not pl.startswith('('):
                    self.emit('*%s = %s;' % (pl, x))
                elif pl == 'this' : self.emit('*this = %s;' % x)
                else: self.emit('%s = %s;' % (pl, x))
                return None if stmt else self.place(args[0])
            if op in ('operator[]', 'operator*'):
                if op == 'operator[]' and tr.ty(args[0]).strip().kind not in ('vec', 'arr', 'iter', 'ptr'):
                    return self.user_call(n, c['referencedDecl']['id'], args[0], args[1:], stmt)
                t = tr.ty(n).strip()
                if t.kind == 'struct' and 'Bit_reference' in (t.name or ''): t = Ty('bool', 'bool')
                return self.copy_of(self.place(n), t)
            if op in ('operator==', 'operator!=', 'operator<', 'operator-', 'operator>', 'operator<=', 'operator>=') and tr.ty(args[0]).strip().kind == 'iter':
                b1, i1 = self.iter(args[0]); b2, i2 = self.iter(args[1])
                if b1 != b2: self.fail(n, 'iterators into different vectors')
                if op == 'operator-': return 'cast_u64_i64(sub_u64(%s, %s))' % (i1, i2)
                return '(%s %s %s)' % (i1, op[8:], i2)
            if op in ('operator++', 'operator--', 'operator+=', 'operator-=') and self.is_iter_expr(args[0]):
                if op in ('operator+=', 'operator-='):
                    b, i = self.iter(args[0])
                    self.emit('%s = %s_u64(%s, %s);' % (i, 'add' if op == 'operator+=' else 'sub', i, self.conv_ix(args[1])))
                    return None if stmt else i
                b, i = self.iter(n)
                return None if stmt else i
            if op in ('operator==', 'operator!=') and tr.ty(args[0]).strip().kind == 'vec':
                return '(%srk_vec_eq(&%s, &%s))' % ('!' if op == 'operator!=' else '', self.place(args[0]), self.place(args[1]))
            if tr.definition(c['referencedDecl']['id']) is not None:
                d = tr.definition(c['referencedDecl']['id'])
                if d['kind'] == 'CXXMethodDecl':
                    return self.user_call(n, d['id'], args[0], args[1:], stmt)
                return self.user_call(n, d['id'], None, args, stmt)
            self.fail(n, 'operator call ' + op)
        if k == 'CXXMemberCallExpr':
            if c['kind'] != 'MemberExpr': self.fail(n, 'member call')
            obj = c['inner'][0]
            ot = tr.ty(obj).strip()
            if ot.kind == 'ptr': ot = ot.elem
            if ot.kind == 'vec': return self.vec_call(n, c['name'], obj, args, stmt)
            if ot.kind == 'struct' and ('_Bit_reference' in ot.name): return self.copy_of(self.place(obj), Ty('bool', 'bool'))
            return self.user_call(n, c['referencedMemberDecl'], obj, args, stmt, arrow=c.get('isArrow'))
        # plain call
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            nm = rd['name']
            d = tr.definition(rd['id'])
            if d is None: return self.std_call(n, nm, args, stmt)
            return self.user_call(n, rd['id'], None, args, stmt)
        self.fail(n, 'call')

    def assign_value(self, node, t):
        s = self.strip(node, keep_lv=True)
        if s['kind'] == 'CallExpr' and self.callee_name(s) in ('move',):
            return self.take(self.place(s['inner'][1]), s['inner'][1])
        if self.is_lvalue(s): return self.copy_of(self.place(s), t)
        return self.rv(node, want=t)

    def std_call(self, n, nm, args, stmt):
        tr = self.tr
        if nm == '__builtin_expect': return self.rv(args[0])
        if nm in ('strlen', 'strcmp') and CSTR: return 'rk_%s(%s)' % (nm, ', '.join(self.rv(a) for a in args))
        if nm in ('log_message', 'get_micro_time'): return None if stmt else '0i64'
        if nm in ('move', 'forward'):
            return self.take(self.place(args[0]), args[0])
        if nm in ('min', 'max') and len(args) == 2:
            t = tr.ty(n).strip()
            return '%s_%s(%s, %s)' % (nm, t.name, self.rv(args[0]), self.rv(args[1]))
        if nm == 'swap':
            t = tr.ty(args[0]).strip()
            a = self.place(args[0]); b = self.place(args[1])
            if self.tr.is_copy(t) or (t.kind == 'struct' and 'Bit_ref' in t.name):
                x = self.t('sw'); y = self.t('sw')
                self.emit('let %s = %s;' % (x, a)); self.emit('let %s = %s;' % (y, b))
                self.emit('%s = %s;' % (a, y)); self.emit('%s = %s;' % (b, x))
                return None
            self.emit('rk_swap(%s, %s);' % (self.refarg(args[0], True), self.refarg(args[1], True)))
            return None
        if nm == 'distance' and len(args) == 2:
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            if b != b2: self.fail(n, 'iterators into different vectors')
            return '(sub_u64(%s, %s) as i64)' % (l, f)
        if nm == 'unique' and len(args) == 2:
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            if b != b2: self.fail(n, 'iterators into different vectors')
            x = self.t('e'); self.emit('let %s = %s;' % (x, l))
            return 'rk_unique(%s, %s, %s)' % (self.mutb(b), f, x)
        if nm == 'copy' and len(args) == 3:
            b, f = self.iter(args[0]); b2, l = self.iter(args[1]); bo, o = self.iter(args[2])
            if b != b2: self.fail(n, 'iterators into different vectors')
            if bo == b: self.fail(n, 'copy within a vector')
            self.emit('rk_copy(&%s, %s, %s, %s, %s);' % (b, f, l, self.mutb(bo), o)); return None
        if nm == 'merge' and len(args) == 5:
            b, f = self.iter(args[0]); b2, l = self.iter(args[1]); c, g = self.iter(args[2]); c2, m = self.iter(args[3]); bo, o = self.iter(args[4])
            if b != b2 or c != c2 or bo in (b, c): self.fail(n, 'iterators of merge')
            self.emit('rk_merge(&%s, %s, %s, &%s, %s, %s, %s, %s);' % (b, f, l, c, g, m, self.mutb(bo), o)); return None
        if nm == 'fill':
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            et = tr.ty(args[2]).strip()
            v = self.rv(args[2])
            m = re.match(r'^(\d+)[ui]\d+$', v)
            if m: v = m.group(1)
            x = self.t('e'); self.emit('let %s = %s;' % (x, l))
            self.emit('rk_fill(%s, %s, %s, %s);' % (self.mutb(b), f, x, v)); return None
        if nm == 'reverse':
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            if f == '0' and l == '(%s.len() as u64)' % b:
                self.emit('rk_reverse(%s);' % self.mutb(b)); return None
            x = self.t('e'); self.emit('let %s = %s;' % (x, l))
            self.emit('rk_reverse_range(%s, %s, %s);' % (self.mutb(b), f, x)); return None
        if nm == 'is_sorted' and len(args) == 2:
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            return 'rk_is_sorted(&%s, %s, %s)' % (b, f, l)
        if nm in ('__builtin_ctzll', '__builtin_ctzl', '__builtin_ctz', '__builtin_popcountll', '__builtin_popcountl', '__builtin_popcount', '__builtin_clzll', '__builtin_ffsll', '__builtin_ffsl'):
            return 'rk%s(%s)' % (nm, self.rv(args[0]))
        if nm in ('sort', 'stable_sort') and len(args) in (2, 3):
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            if b != b2: self.fail(n, 'iterators into different vectors')
            x = self.t('e'); self.emit('let %s = %s;' % (x, l))
            et = self.elem_ty(args[0])
            less = self.cmp_spec(args[2], et) if len(args) == 3 else '|a: %s, b: %s| a < b' % (et, et)
            self.emit('rk_%s(&mut %s, %s, %s, Ghost(%s));' % (nm, b if not re.match(r'^\w+$', b) or not self.is_mutref(b) else '*' + b, f, x, less)); return None
        if nm == 'is_permutation': self.fail(n, 'std is_permutation')
        if nm == 'all_of':
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            lam = self.strip(args[2])
            return self.all_of(n, b, f, l, lam)
        h = tr.specs.std.get(nm)
        if h: return h(self, n, args, stmt)
        self.fail(n, 'call of external function %s' % nm)

    def is_mutref(self, b):
        return any(v.mode == 'mutref' and v.text == b for v in self.env.values())

    def elem_ty(self, it):
        m = self.strip(it)
        while m['kind'] == 'CXXConstructExpr' or m['kind'] == 'ImplicitCastExpr': m = self.strip(m['inner'][0])
        if m['kind'] == 'CXXMemberCallExpr': return self.tr.rty(self.tr.ty(m['inner'][0]['inner'][0]).strip().elem)
        if m['kind'] == 'CXXOperatorCallExpr': return self.elem_ty(m['inner'][1])
        self.fail(it, 'element type')

    def to_spec(self, s):
        s = re.sub(r'\[(\w+) as usize\]', r'@[\1 as int]', s)
        for k, ex in self.tr.specs.functors.items():
            s = re.sub(r'\b%s\(' % re.escape(ex), self.tr.specs.functor_specs[k] + '(', s)
        return s

    def cmp_spec(self, node, et):
        """spec closure computing what the comparator returns"""
        f = self.strip(node)
        if f['kind'] in ('CXXConstructExpr',) and f.get('inner'): f = self.strip(f['inner'][0])
        while f['kind'] == 'CallExpr' and self.callee_name(f) in ('ref', 'cref', 'move'): f = self.strip(f['inner'][1])
        if f['kind'] == 'DeclRefExpr':
            v = self.env.get(f['referencedDecl']['id'])
            if v is not None and v.mode == 'functor':
                return '|a: %s, b: %s| %s(a, b)' % (et, et, self.tr.specs.functor_specs[v.ty.name])
            if v is not None and v.mode == 'lambda':
                return self.lambda_spec(v.extra[0], v.extra[1], et)
        if f['kind'] == 'LambdaExpr': return self.lambda_spec(f, dict(self.env), et)
        self.fail(node, 'comparator')

    def lambda_spec(self, lam, env0, et):
        op = self.lambda_op(lam)
        ps = self.tr.params(op)
        env = self.env; self.env = dict(env0)
        for kk, vv in env.items(): self.env.setdefault(kk, vv)
        a, b = self.t('a'), self.t('b')
        self.env[ps[0]['id']] = Var(a, self.tr.ty(ps[0]).strip(), 'val')
        self.env[ps[1]['id']] = Var(b, self.tr.ty(ps[1]).strip(), 'val')
        n0 = len(self.lines)
        body = Ast.body(op)['inner']
        if not body or body[-1]['kind'] != 'ReturnStmt': self.fail(lam, 'comparator lambda')
        for st in body[:-1]:
            if self.is_assert(st) is None: self.fail(lam, 'comparator lambda')
        self.spec_mode = True
        v = self.rv(body[-1]['inner'][0])
        self.spec_mode = False
        if len(self.lines) != n0: self.fail(lam, 'comparator lambda needs statements')
        self.env = env
        return '|%s: %s, %s: %s| %s' % (a, et, b, et, self.to_spec(v))

    def all_of(self, n, b, f, l, lam):
        # only inside assert: translated to a quantified obligation
        if not getattr(self, 'in_assert', False): self.fail(n, 'std::all_of')
        op = self.lambda_op(lam)
        ret = Ast.body(op)['inner']
        if len(ret) != 1 or ret[0]['kind'] != 'ReturnStmt': self.fail(n, 'std::all_of predicate')
        prm = self.tr.params(op)[0]
        env = self.env; self.env = dict(env)
        self.env[prm['id']] = Var('elem__k', self.tr.ty(prm).strip(), 'val')
        n0 = len(self.lines)
        body = self.rv(ret[0]['inner'][0])
        self.env = env
        if len(self.lines) != n0: self.fail(n, 'std::all_of predicate')
        self.emit('proof { assert(forall|k__: int| %s <= k__ < %s ==> ({ let elem__k = #[trigger] %s@[k__]; %s })); }' % (f, l, b, body))
        return 'true'

    def vec_call(self, n, name, obj, args, stmt):
        tr = self.tr
        ot = tr.ty(obj).strip()
        if ot.kind == 'ptr': ot = ot.elem; pl = self.deref_ptr(obj)
        else: pl = self.place(obj)
        if name == 'size': return '(%s.len() as u64)' % pl
        if name == 'empty': return '(%s.len() == 0)' % pl
        if name in ('back', 'front', 'operator[]', 'at'):
            if name == 'at': return self.copy_of('%s[%s]' % (pl, self.as_usize(self.rv(args[0]))), ot.elem)
            return self.copy_of(self.place(n), ot.elem)
        if name in ('push_back', 'emplace_back'):
            v = self.rv(args[0], want=ot.elem)
            if not self.simple_text(v):
                x = self.t('v'); self.emit('let %s: %s = %s;' % (x, tr.rty(ot.elem), v)); v = x
            self.emit('%s.push(%s);' % (pl, v)); return None
        if name == 'pop_back': self.emit('rk_pop_back(%s);' % self.refarg(obj, True)); return None
        if name == 'clear': self.emit('%s.clear();' % pl); return None
        if name in ('reserve', 'shrink_to_fit'): return None
        if name == 'resize':
            a = self.rv(args[0])
            z = self.rv(args[1]) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else self.zero(ot.elem)
            if z is None: self.fail(n, 'resize')
            x = self.t('n'); self.emit('let %s = %s;' % (x, a))
            self.emit('rk_resize(%s, %s, %s);' % (self.refarg(obj, True), x, z)); return None
        if name == 'assign':
            a = self.rv(args[0]); v = self.rv(args[1])
            x = self.t('n'); self.emit('let %s = %s;' % (x, a))
            y = self.t('v'); self.emit('let %s = %s;' % (y, v))
            self.emit('rk_assign(%s, %s, %s);' % (self.refarg(obj, True), x, y)); return None
        if name == 'swap':
            self.emit('rk_swap(%s, %s);' % (self.refarg(obj, True), self.refarg(args[0], True))); return None
        if name == 'erase' and len(args) == 2:
            b, f = self.iter(args[0]); b2, l = self.iter(args[1])
            if l == '(%s.len() as u64)' % b:
                x = self.t('n'); self.emit('let %s = %s;' % (x, f))
                self.emit('rk_truncate(%s, %s);' % (self.refarg(obj, True), x)); return None
        self.fail(n, 'vector::%s' % name)

    def funcobj(self, node):
        """construction of a local function object whose pointer members are bound to constructor arguments"""
        f = self.strip(node)
        while f['kind'] in ('CXXFunctionalCastExpr', 'CXXStaticCastExpr') and f.get('inner'): f = self.strip(f['inner'][0])
        if f['kind'] == 'DeclRefExpr':
            v = self.env.get(f['referencedDecl']['id'])
            return v if v is not None and v.mode == 'funcobj' else None
        if f['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return None
        t = self.tr.ty(f).strip()
        if t.kind != 'struct': return None
        try: rec = self.tr.find_record(t.name)
        except ExtractError: return None
        if not any(c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' for c in rec.get('inner', [])): return None
        args = f.get('inner', [])
        if len(args) == 1 and self.tr.ty(args[0]).strip().kind == 'struct' and self.tr.ty(args[0]).strip().name.split('::')[-1] == t.name.split('::')[-1]: return self.funcobj(args[0])
        ct = f.get('ctorType', {}).get('qualType')
        cands = [c for c in rec.get('inner', []) if c.get('kind') == 'CXXConstructorDecl' and len(self.tr.params(c)) == len(args) and (ct is None or c['type']['qualType'] == ct)]
        if not cands: return None
        c = self.tr.definition(cands[0]['id']) or cands[0]
        by = {p['id']: a for p, a in zip(self.tr.params(c), args)}
        mem = {}
        for i in c.get('inner', []):
            if i.get('kind') != 'CXXCtorInitializer' or 'anyInit' not in i: continue
            e = self.strip(i['inner'][0])
            if e['kind'] == 'UnaryOperator' and e['opcode'] == '&':
                d = self.strip(e['inner'][0], keep_lv=True)
                if d['kind'] == 'DeclRefExpr' and d['referencedDecl']['id'] in by:
                    mem[i['anyInit']['name']] = self.place(by[d['referencedDecl']['id']], freeze=True); continue
            return None
        return Var('funcobj', t, 'funcobj', extra=mem)

    def functor_call(self, n, fobj, args, opid, stmt):
        tr = self.tr
        f = self.strip(fobj)
        fo = self.funcobj(fobj)
        if fo is not None:
            d = tr.definition(opid)
            if d is None: self.fail(n, 'function object')
            tok = '@%d' % len(self.fobjs); self.fobjs[tok] = fo.extra
            return self.inline_body(n, d, Ast.body(d), args, (tok, self.ast.parent_record(d)), stmt, self.env)
        if f['kind'] == 'DeclRefExpr':
            v = self.env.get(f['referencedDecl']['id'])
            if v is not None and v.mode == 'functor' and v.ty.name in tr.specs.functors:
                fs = tr.specs.functors[v.ty.name]
                as_ = []
                for a in args:
                    if self.is_iter_expr(a):
                        b, i = self.iter(a)
                        if self.base_ref(b, False) not in as_: as_.append(self.base_ref(b, False))
                        as_.append(i)
                    else: as_.append(self.rv(a))
                return '%s(%s)' % (fs, ', '.join(as_))
            if v is not None and v.mode == 'functor':
                pass
            if v is not None and v.mode == 'lambda':
                lam, env, this_text = v.extra
                return self.inline_lambda(n, lam, env, this_text, args, stmt)
        if f['kind'] == 'MemberExpr':
            t = tr.ty(f).strip()
            if t.kind == 'struct' and t.name in tr.specs.functors:
                return '%s(%s)' % (tr.specs.functors[t.name], ', '.join(self.rv(a) for a in args))
        if f['kind'] == 'LambdaExpr':
            return self.inline_lambda(n, f, dict(self.env), self.this_text, args, stmt)
        d = tr.definition(opid)
        if d is not None: return self.user_call(n, opid, fobj, args, stmt)
        self.fail(n, 'functor call')

    def lambda_op(self, lam):
        def findop(x):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()': return x
            for c in x.get('inner', []):
                r = findop(c)
                if r: return r
            return None
        return findop(lam['inner'][0])

    def inline_lambda(self, n, lam, env, this_text, args, stmt):
        op = self.lambda_op(lam)
        if op is None: self.fail(n, 'lambda')
        body = Ast.body(op)
        return self.inline_body(n, op, body, args, None, stmt, env)

    def lift_lambdas(self, d, args):
        tr = self.tr
        for i, (p, a) in enumerate(zip(tr.params(d), args)):
            m = self.strip(a)
            if m['kind'] == 'LambdaExpr': lam = m
            elif m['kind'] == 'DeclRefExpr' and m['referencedDecl']['id'] in self.env and self.env[m['referencedDecl']['id']].mode == 'lambda': lam = self.env[m['referencedDecl']['id']].extra[0]
            else: continue
            op = self.lambda_op(lam)
            if op is None: continue
            body = Ast.body(op)
            own = set(); refs = {}; uses_this = [False]
            def walk(x, mut):
                if not isinstance(x, dict): return
                k = x.get('kind')
                if k in ('VarDecl', 'ParmVarDecl'): own.add(x['id'])
                if k == 'CXXThisExpr': uses_this[0] = True
                if k == 'DeclRefExpr' and x['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl'):
                    if any(str(x.get('type', {}).get(q, '')).startswith('const ') for q in ('qualType', 'desugaredQualType')): mut = False
                    o = refs.get(x['referencedDecl']['id'])
                    if o is None: refs[x['referencedDecl']['id']] = [x, mut]
                    else: o[1] = o[1] or mut
                for c in x.get('inner', []):
                    # anything not read through an lvalue-to-rvalue conversion or a const view counts as changed
                    cm = mut
                    if k == 'ImplicitCastExpr' and x.get('castKind') == 'LValueToRValue': cm = False
                    elif k == 'ImplicitCastExpr' and x.get('castKind') == 'NoOp' and x.get('type', {}).get('qualType', '').startswith('const '): cm = False
                    elif k in ('CompoundStmt', 'DeclStmt', 'ReturnStmt', 'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): cm = True
                    walk(c, cm)
            for q in tr.params(op): own.add(q['id'])
            walk(body, True)
            caps = []
            for cid, (x, mut) in refs.items():
                if cid in own or cid not in self.env: continue
                v = self.env[cid]
                if v.mode == 'log': continue
                if v.mode in ('lambda', 'functor'): self.fail(a, 'lambda that captures a lambda')
                caps.append((x, tr.ty(x).strip(), mut))
            rec = None
            if uses_this[0]:
                nm = self.this_rec_name() if self.this_text != 'this_cap' else self.this_stack[-1]
                rec = (nm, nm)
            tr.register_lambda(d, i, lam, caps, rec, tr.qual(self.fn))

    def user_call(self, n, did, obj, args, stmt, arrow=False):
        tr = self.tr
        d = tr.definition(did)
        if d is None:
            dn = self.ast.by_id.get(did)
            nm = (dn or {}).get('name')
            ext = tr.specs.externs.get(tr.qual(dn)) if dn else None
            if ext is None: 
                # implicit operator= etc.
                self.fail(n, 'call of undefined function %s' % nm)
        q = tr.qual(d) if d is not None else tr.qual(dn)
        if q in tr.specs.drop_calls: return None
        if d is not None and tr.specs.has_name(q): self.lift_lambdas(d, args)
        con = tr.contract_for(d) if d is not None else None
        ext = tr.specs.externs.get(q)
        if con is None and ext is None:
            return self.inline_call(n, d, obj, args, stmt, arrow)
        if ext is not None:
            nm = ext
            d = d or dn
        else:
            nm = tr.request(d)
        out = []
        const = bool(re.search(r'\)\s*const', tr.sig(d)))
        static = d.get('storageClass') == 'static'
        if d['kind'] == 'CXXMethodDecl' and not static:
            if obj is None: self.fail(n, 'no object')
            o = self.strip(obj)
            if o['kind'] == 'CXXThisExpr':
                ot = self.this_text
                if ot == 'this' and not self.is_ctor: out.append('this' if not const else '&*this')
                else: out.append(('&mut ' if not const else '&') + ot)
                recv = ot
            elif tr.ty(obj).strip().kind == 'ptr':
                pt = self.deref_ptr(obj); recv = pt
                out.append(pt if re.match(r'^\w+$', pt) else ('&' + pt))
            else:
                out.append(self.refarg(obj, not const)); recv = self.place(obj)
            for f, ft in tr.specs.ptrfields.get(self.ast.parent_record(d)['name'], {}).items():
                if not tr.specs.ptr_used(d, f): continue
                if recv == 'this': out.append('this_%s' % f)
                else: out.append('%s__%s' % (recv.replace('.', '_'), f))
        a = self.args_for(d, args)
        if out and (out[0].startswith('&mut') or out[0] == 'this') :
            for i, x in enumerate(a):
                if not self.simple_text(x) and not x.startswith('&'):
                    y = self.t('arg'); self.emit('let %s = %s;' % (y, x)); a[i] = y
        if con is not None and con.gparams:
            atext = ', '.join(out + a)
            for g, _t in con.gparams:
                ce = None
                for cal, nm2, rx, ex in (self.con.callghosts if self.con is not None else []):
                    if cal in (nm, con.name) and nm2 == g and re.search(rx, atext): ce = self.t('gh'); self.emit('let ghost %s = %s;' % (ce, ex)); break
                if ce is None:
                    if self.con is None or g not in [x for x, _ in self.con.gparams]: self.fail(n, 'ghost parameter of the callee')
                    ce = g
                a.append('Ghost(%s)' % ce)
        res = '%s(%s)' % (nm, ', '.join(out + a))
        if d is not None and tr.definition(did) is not None and tr.throws(d):
            res = '%s?' % res
        if not stmt and (out and not const):
            x = self.t('res'); self.emit('let %s = %s;' % (x, res)); return x
        if not stmt and any(y.startswith('&mut') for y in a):
            x = self.t('res'); self.emit('let %s = %s;' % (x, res)); return x
        return res

    # -- inlining
    def inline_call(self, n, d, obj, args, stmt, arrow):
        tr = self.tr
        if d['id'] in self.inline_chain: self.fail(n, 'recursive function without contract')
        if len(self.inline_chain) > 12: self.fail(n, 'inlining too deep')
        this_text = None
        if d['kind'] == 'CXXMethodDecl' and d.get('storageClass') != 'static':
            o = self.strip(obj)
            if o['kind'] == 'CXXThisExpr': this_text = self.this_text
            elif tr.ty(obj).strip().kind == 'ptr': this_text = self.deref_ptr(obj)
            else: this_text = self.place(obj, freeze=True)
        self.inlined_names.append(tr.qual(d))
        return self.inline_body(n, d, Ast.body(d), args, (this_text, self.ast.parent_record(d)), stmt, self.env)

    def inline_body(self, n, d, body, args, this, stmt, env0):
        tr = self.tr
        saved_env = self.env
        tail = getattr(self, 'tail_next', False); self.tail_next = False
        newenv = dict(env0)
        for kk, vv in saved_env.items(): newenv.setdefault(kk, vv)
        binds = []
        for p, a in zip(tr.params(d), args):
            pt = tr.ty(p)
            nm = rn(p.get('name', self.t('p')))
            s = self.strip(a, keep_lv=False)
            if pt.strip().kind == 'log': newenv[p['id']] = Var('log', pt.strip(), 'log'); continue
            if s['kind'] == 'LambdaExpr' :
                newenv[p['id']] = Var('lambda', pt, 'lambda', extra=(s, dict(self.env), self.this_text)); continue
            if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] in self.env and self.env[s['referencedDecl']['id']].mode in ('lambda', 'functor'):
                newenv[p['id']] = self.env[s['referencedDecl']['id']]; continue
            e = pt.elem if pt.kind in ('ref', 'rref') else pt
            if e.kind == 'struct' and e.name in tr.specs.functors:
                newenv[p['id']] = Var(e.name, e, 'functor'); continue
            if e.kind == 'struct':
                fo = self.funcobj(a)
                if fo is not None: newenv[p['id']] = fo; continue
            if pt.kind == 'ref' and not (e.const and tr.is_copy(e)):
                sl = self.strip(a, keep_lv=True)
                if self.is_lvalue(sl):
                    mode = 'place'
                    pl = self.place(a, freeze=True)
                    if sl['kind'] == 'DeclRefExpr' and sl['referencedDecl']['id'] in self.env:
                        mode = self.env[sl['referencedDecl']['id']].mode
                        if mode == 'val': mode = 'place'
                    newenv[p['id']] = Var(pl, e, mode); continue
            if pt.kind == 'rref':
                sl = self.strip(a, keep_lv=True)
                if sl['kind'] == 'CallExpr' and self.callee_name(sl) in ('move', 'forward'):
                    src = self.strip(sl['inner'][1], keep_lv=True)
                    md = 'place'
                    if src['kind'] == 'DeclRefExpr' and src['referencedDecl']['id'] in self.env and self.env[src['referencedDecl']['id']].mode == 'mutref': md = 'mutref'
                    newenv[p['id']] = Var(self.place(sl['inner'][1], freeze=True), e, md); continue
            if pt.kind == 'iter' or (pt.kind == 'ptr' and self.is_iter_expr(a)):
                b, i = self.iter(a)
                binds.append((p, nm, 'u64', i, ('iter', b, pt))); continue
            if pt.kind == 'ptr':
                newenv[p['id']] = Var(self.deref_ptr(a), pt.elem, 'ptr'); continue
            v = self.rv(a, want=e)
            binds.append((p, nm, tr.rty(e), v, e))
        inner = body.get('inner', [])
        if not stmt and not tail and len(inner) == 1 and inner[0]['kind'] == 'ReturnStmt' and inner[0].get('inner') and all(not isinstance(e, tuple) for *_x, e in binds):
            ok = True
            for p, nm, rt_, v, e in binds:
                if re.match(r'^[\w.]+$', v) or getattr(self, 'spec_mode', False): newenv[p['id']] = Var(v, e, 'place')
                else:
                    x = self.t('a'); self.emit('let %s: %s = %s;' % (x, rt_, v)); newenv[p['id']] = Var(x, e, 'val')
            self.env = newenv
            saved_this = self.this_text
            if this is not None and this[0] is not None:
                self.this_text = this[0]; self.this_stack.append(this[1].get('name', '(lambda)'))
            self.inl_depth += 1; self.inline_chain.append(d['id'])
            v = self.rv(inner[0]['inner'][0], want=self.fn_ret_ty(d))
            self.inline_chain.pop(); self.inl_depth -= 1
            if this is not None and this[0] is not None: self.this_stack.pop()
            self.this_text = saved_this; self.env = saved_env
            return v
        # emit
        rt = None
        ftrans = self
        kind = d['kind']
        ret_t = self.fn_ret_ty(d)
        resv = None
        want_val = not stmt and ret_t.kind != 'void'
        if ret_t.kind != 'void' and self.returns_value(body) and not tail:
            resv = self.t('res')
        guard = set()
        for v in newenv.values():
            if v.mode in ('place', 'iter', 'ref', 'mutref', 'val'):
                guard.update(re.findall(r'[A-Za-z_]\w*', v.text))
        if resv is not None:
            # single trailing return with a pure body: expression result
            lp = any(c['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and self.contains_return(c) for c in inner)
            self.emit('let mut %s: %s%s;' % (resv, tr.rty(ret_t), ' = rk_any()' if lp else ''))
        self.emit('{'); self.ind += 1
        tmpn = []
        for p, nm, rt_, v, e in binds:
            if len(binds) > 1 or nm in re.findall(r'\w+', v):
                x = self.t('a'); self.emit('let %s: %s = %s;' % (x, rt_, v)); tmpn.append((p, nm, rt_, x, e))
            else: tmpn.append((p, nm, rt_, v, e))
        places = set()
        for v in newenv.values():
            if v.mode in ('place', 'iter'): places.update(re.findall(r'[A-Za-z_]\w*', v.text if v.mode == 'place' else (v.extra or '')))
        for p, nm, rt_, v, e in tmpn:
            n2 = nm
            # avoid capturing a live outer variable that the body can still reach through an alias
            if nm in places or nm == 'this': n2 = self.t(nm)
            self.emit('let mut %s: %s = %s;' % (n2, rt_, v))
            self.locals.append((n2, rt_))
            if isinstance(e, tuple): newenv[p['id']] = Var(n2, e[2], 'iter', extra=e[1])
            else: newenv[p['id']] = Var(n2, e, 'val')
        self.env = newenv
        saved_this = self.this_text
        if this is not None:
            if this[0] is not None:
                self.this_text = this[0]
                self.this_stack.append(this[1].get('name', '(lambda)'))
        self.inl_depth += 1
        self.inline_chain.append(d['id'])
        saved_target = self.ret_target
        self.ret_target = (resv, ret_t) if not tail else 'TAIL'
        saved_loops = self.loop_stack; self.loop_stack = []
        if tail: self.stmts(body); resv = '!TAIL'
        else: self.inl_stmts(body.get('inner', []), tail=True)
        self.loop_stack = saved_loops
        self.ret_target = saved_target
        self.inline_chain.pop()
        self.inl_depth -= 1
        if this is not None and this[0] is not None: self.this_stack.pop()
        self.this_text = saved_this
        self.env = saved_env
        self.ind -= 1; self.emit('}')
        if inner and inner[-1]['kind'] == 'ReturnStmt' and not any(self.contains_return(c) for c in inner[:-1]) and inner[-1].get('inner'):
            cb = self.const_bool(inner[-1]['inner'][0])
            if cb is not None and resv != '!TAIL': return 'true' if cb else 'false'
        return resv

    def fn_ret_ty(self, d):
        f = self.fn; tr = self.this_rec
        self.fn = d; self.this_rec = self.ast.parent_record(d)
        try: return self.ret_ty()
        finally: self.fn = f; self.this_rec = tr

    def returns_value(self, body):
        if body.get('kind') == 'ReturnStmt': return bool(body.get('inner'))
        if body.get('kind') == 'LambdaExpr': return False
        return any(self.returns_value(c) for c in body.get('inner', []))

    def contains_return(self, n):
        if n.get('kind') == 'ReturnStmt': return True
        if n.get('kind') == 'LambdaExpr': return False
        return any(self.contains_return(c) for c in n.get('inner', []))

    def always_returns(self, n):
        k = n.get('kind')
        if k == 'ReturnStmt': return True
        if k == 'CompoundStmt': return any(self.always_returns(c) for c in n.get('inner', []))
        if k == 'IfStmt' and n.get('hasElse'): return self.always_returns(n['inner'][1]) and self.always_returns(n['inner'][2])
        return False

    def inl_stmts(self, ss, tail):
        """statements of an inlined body; 'return' only in tail positions (if/else chains are restructured)"""
        for i, s in enumerate(ss):
            if not self.contains_return(s):
                self.stmt(s); continue
            rest = ss[i + 1:]
            k = s['kind']
            if k == 'ReturnStmt':
                self.inl_return(s); return
            if k == 'CompoundStmt':
                self.emit('{'); self.ind += 1
                self.inl_stmts(s.get('inner', []) + rest, tail)
                self.ind -= 1; self.emit('}'); return
            if k == 'IfStmt':
                cb = self.const_bool(s['inner'][0])
                th = s['inner'][1]; el = s['inner'][2] if s.get('hasElse') else None
                thl = th.get('inner', []) if th['kind'] == 'CompoundStmt' else [th]
                ell = ([] if el is None else (el.get('inner', []) if el['kind'] == 'CompoundStmt' else [el]))
                if cb is not None:
                    self.inl_stmts((thl if cb else ell) + rest, tail); return
                c = self.rv(s['inner'][0])
                env = dict(self.env)
                self.emit('if %s {' % c); self.ind += 1
                self.inl_stmts(thl + ([] if self.always_returns(th) else rest), tail)
                self.ind -= 1; self.emit('} else {'); self.ind += 1
                self.env = env
                self.inl_stmts(ell + ([] if el is not None and self.always_returns(el) else rest), tail)
                self.ind -= 1; self.emit('}')
                return
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                if any(self.contains_return(c) and self.has(c, ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')) for c in s.get('inner', []) if c.get('kind')) and self.nested_ret(s): self.fail(s, 'return inside nested loops of an inlined function')
                fl = self.t('ret'); pos = len(self.lines)
                saved = self.ret_flag; self.ret_flag = [fl, False] if self.contains_return(s) else None
                self.stmt(s)
                used = self.ret_flag is not None and self.ret_flag[1]; self.ret_flag = saved
                if not used: continue
                self.lines.insert(pos, ('    ' * self.ind + 'let mut %s: bool = false;' % fl, self.cur_line))
                if rest:
                    self.emit('if !%s {' % fl); self.ind += 1
                    self.inl_stmts(rest, tail)
                    self.ind -= 1; self.emit('}')
                return
            self.fail(s, 'return inside a loop of an inlined function')

    def nested_ret(self, s):
        LP = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
        def f(n, depth):
            if not isinstance(n, dict) or n.get('kind') == 'LambdaExpr': return False
            if n.get('kind') == 'ReturnStmt': return depth > 1
            d = depth + (1 if n.get('kind') in LP else 0)
            return any(f(c, d) for c in n.get('inner', []))
        return f(s, 0)

    def inl_return(self, n):
        resv, rt = self.ret_target
        e = n.get('inner', [None])[0]
        if e is None or rt.kind == 'void':
            if e is not None:
                s = self.strip(e, keep_lv=True)
                if not (s['kind'] == 'UnaryOperator' and s['opcode'] == '*'): self.expr_stmt(e)
            return
        v = self.rv(e, want=rt)
        self.emit('%s = %s;' % (resv, v))
