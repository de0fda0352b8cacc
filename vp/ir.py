"""Parser for the subset of textual LLVM-18 IR that clang -O1 emits (opaque pointers)."""
import re, struct

TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\.)*")|
 (?P<name>[@%](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>![-a-zA-Z$._0-9]*)|
 (?P<attr>\#\d+)|
 (?P<qstr>"(?:[^"\\]|\\.)*")|
 (?P<word>[-+a-zA-Z$._0-9]+)|
 (?P<p>\.\.\.|[=,(){}\[\]<>*:|])
)''', re.X)


def toks(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ValueError('tok: ' + s[i:i + 60])
        k = m.lastgroup
        out.append(m.group(k)); i = m.end()
        if out[-1] == '':
            break
    return out


class IRError(Exception):
    pass


ATTR = set('''noundef signext zeroext inreg nocapture readonly writeonly readnone noalias nonnull returned nofree nest immarg
 swiftself swifterror inbounds nuw nsw exact disjoint fast nnan ninf nsz arcp contract afn reassoc tail musttail notail
 fastcc ccc coldcc local_unnamed_addr unnamed_addr dso_local internal private linkonce_odr weak_odr available_externally
 linkonce weak external hidden protected noinline alwaysinline comdat constant_ allockind volatile noreturn common appending
 dllimport thread_local nneg writable dead_on_unwind'''.split())


class Ty:
    """('i',n) 'ptr' 'double' 'float' 'void' ('arr',n,t) ('st',(t..),packed) ('vec',n,t) ('named',x)"""


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (type, init tokens or None, const)
        self.funcs = {}     # name -> Func
        self.decls = set()
        self._parse(text)
        self._sz = {}

    # ---- types
    def ptype(self, t, i):
        w = t[i]
        if w == '[':
            n = int(t[i + 1]); assert t[i + 2] == 'x'
            e, j = self.ptype(t, i + 3); assert t[j] == ']'
            ty, i = ('arr', n, e), j + 1
        elif w == '<' and t[i + 1] != '{':
            n = int(t[i + 1]); e, j = self.ptype(t, i + 3); assert t[j] == '>'
            ty, i = ('vec', n, e), j + 1
        elif w == '{' or (w == '<' and t[i + 1] == '{'):
            pk = w == '<'
            j = i + (2 if pk else 1); el = []
            while t[j] != '}':
                e, j = self.ptype(t, j); el.append(e)
                if t[j] == ',': j += 1
            j += 1
            if pk: assert t[j] == '>'; j += 1
            ty, i = ('st', tuple(el), pk), j
        elif w[0] == '%':
            ty, i = ('named', w), i + 1
        elif re.fullmatch(r'i\d+', w):
            ty, i = ('i', int(w[1:])), i + 1
        elif w in ('ptr', 'double', 'float', 'void', 'label', 'metadata', 'token', 'opaque', 'x86_fp80', 'half', 'fp128'):
            ty, i = w, i + 1
        else:
            raise IRError('type? ' + ' '.join(t[i:i + 6]))
        if i < len(t) and t[i] == '(' and ty not in ('ptr',):   # function type
            d = 0
            j = i
            while True:
                if t[j] == '(': d += 1
                if t[j] == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            # only used in calls of varargs: keep return type
            return ('fn', ty), j + 1
        return ty, i

    def res(self, ty):
        while isinstance(ty, tuple) and ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def align(self, ty):
        ty = self.res(ty)
        if ty == 'ptr' or ty == 'double': return 8
        if ty == 'float': return 4
        if ty == 'x86_fp80': return 16
        k = ty[0]
        if k == 'i':
            n = ty[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == 'arr': return self.align(ty[2])
        if k == 'vec': return self.size(ty)
        if k == 'st': return 1 if ty[2] else max([1] + [self.align(e) for e in ty[1]])
        raise IRError(str(ty))

    def size(self, ty):
        try:
            return self._sz[ty]
        except KeyError:
            pass
        t = self.res(ty)
        if t == 'ptr' or t == 'double': r = 8
        elif t == 'float': r = 4
        elif t == 'x86_fp80': r = 16
        elif t == 'opaque': r = 0
        elif t[0] == 'i':
            b = (t[1] + 7) // 8; a = self.align(t); r = (b + a - 1) // a * a
        elif t[0] == 'arr': r = t[1] * self.size(t[2])
        elif t[0] == 'vec': r = t[1] * self.size(t[2])
        elif t[0] == 'st': r = self.layout(t)[1]
        else: raise IRError(str(t))
        self._sz[ty] = r
        return r

    def layout(self, t):
        t = self.res(t); off = 0; offs = []
        for e in t[1]:
            a = 1 if t[2] else self.align(e)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.size(e)
        a = self.align(t)
        return offs, (off + a - 1) // a * a

    # ---- operands; returns ('c',value,ty) | ('r',name) | ('g',name) | ('cx',op,...) | ('agg',[...]) | ('undef',ty) | ('zero',ty)
    def pval(self, t, i, ty):
        w = t[i]
        if w[0] == '%': return ('r', w), i + 1
        if w[0] == '@': return ('g', w), i + 1
        rt = self.res(ty)
        if w == 'true': return ('c', 1), i + 1
        if w == 'false': return ('c', 0), i + 1
        if w == 'null': return ('c', 0), i + 1
        if w in ('undef', 'poison'): return ('undef', ty), i + 1
        if w == 'zeroinitializer': return ('zero', ty), i + 1
        if w in ('dso_local_equivalent', 'no_cfi'): return self.pval(t, i + 1, ty)
        if w == 'getelementptr':
            i += 1
            while t[i] in ATTR or t[i] == 'inrange': i += 1
            assert t[i] == '('
            bt, i = self.ptype(t, i + 1); args = []
            while t[i] == ',':
                i += 1
                while t[i] == 'inrange': i += 1
                aty, i = self.ptype(t, i); v, i = self.pval(t, i, aty); args.append((aty, v))
            assert t[i] == ')'
            return ('cx', 'gep', bt, args), i + 1
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            assert t[i + 1] == '('
            aty, i2 = self.ptype(t, i + 2); v, i2 = self.pval(t, i2, aty)
            assert t[i2] == 'to'; tt, i2 = self.ptype(t, i2 + 1)
            return ('cx', w, aty, v, tt), i2 + 1
        if w in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'icmp', 'select'):
            i += 1; pred = None
            while t[i] in ATTR: i += 1
            if w == 'icmp': pred = t[i]; i += 1
            assert t[i] == '('; i += 1; args = []
            while True:
                aty, i = self.ptype(t, i); v, i = self.pval(t, i, aty); args.append((aty, v))
                if t[i] == ')': break
                i += 1
            return ('cx', w, pred, args), i + 1
        if w == '{' or w == '[' or w == '<':
            close = {'{': '}', '[': ']', '<': '>'}[w]
            pk = w == '<' and t[i + 1] == '{'
            i += 2 if pk else 1
            if pk: close = '}'
            el = []
            while t[i] != close:
                ety, i = self.ptype(t, i); v, i = self.pval(t, i, ety); el.append((ety, v))
                if t[i] == ',': i += 1
            return ('agg', el), i + (2 if pk else 1)
        if w.startswith('c"'):
            s = w[2:-1]; b = bytearray(); k = 0
            while k < len(s):
                if s[k] == '\\':
                    b.append(int(s[k + 1:k + 3], 16)); k += 3
                else:
                    b.append(ord(s[k])); k += 1
            return ('bytes', bytes(b)), i + 1
        if rt in ('double', 'float'):
            if w.startswith('0x'):
                return ('c', struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0]), i + 1
            return ('c', float(w)), i + 1
        if rt == 'x86_fp80':
            return ('c', float('nan')), i + 1
        if isinstance(rt, tuple) and rt[0] == 'i':
            return ('c', int(w) & ((1 << rt[1]) - 1)), i + 1
        raise IRError('val? %s : %s' % (ty, ' '.join(t[i:i + 8])))

    def skip_attr(self, t, i):
        while i < len(t):
            w = t[i]
            if w in ATTR: i += 1
            elif w in ('align', 'addrspace') and t[i + 1] != '(': i += 2
            elif re.fullmatch(r'[a-z_]+', w) and i + 1 < len(t) and t[i + 1] == '(' and w not in (
                    'getelementptr', 'ptrtoint', 'inttoptr', 'void', 'ptr', 'double', 'float', 'bitcast', 'label', 'trunc'):
                d = 0; i += 1
                while True:
                    if t[i] == '(': d += 1
                    if t[i] == ')':
                        d -= 1
                        if d == 0: break
                    i += 1
                i += 1
            else: break
        return i

    def _parse(self, text):
        lines = text.split('\n'); n = len(lines); i = 0
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                nm, rest = l.split(' = type ', 1)
                t = toks(rest)
                self.types[nm] = 'opaque' if t[0] == 'opaque' else self.ptype(t, 0)[0]
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.decls.add('@' + m.group(1))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._func(l, lines[i + 1:j]); i = j
            i += 1

    def _global(self, l):
        t = toks(l.split(', comdat')[0] if False else l)
        nm = t[0]; i = 2
        if 'alias' in t[:10]:
            k = t.index('alias'); ty, j = self.ptype(t, k + 1); assert t[j] == ','
            ty2, j = self.ptype(t, j + 1); v, j = self.pval(t, j, ty2)
            self.globals[nm] = ('alias', v, True); return
        while t[i] not in ('global', 'constant'):
            i += 1
        const = t[i] == 'constant'; i += 1
        ty, i = self.ptype(t, i)
        init = None
        if i < len(t) and t[i] != ',' :
            self.globals[nm] = (ty, (t, i), const)
        else:
            self.globals[nm] = (ty, None, const)

    def ginit(self, nm):
        ty, init, const = self.globals[nm]
        if init is None: return None
        return self.pval(init[0], init[1], ty)[0]

    def _func(self, hdr, body):
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', hdr)
        name = '@' + m.group(1)
        # return type
        pre = toks(hdr[len('define'):m.start()])
        i = self.skip_attr(pre, 0)
        rty, _ = self.ptype(pre, i)
        t = toks(hdr[m.end() - 1:].split(' personality ')[0].split(' !dbg')[0].rstrip('{ '))
        assert t[0] == '('
        i = 1; params = []
        while t[i] != ')':
            if t[i] == '...': i += 1; break
            ty, i = self.ptype(t, i); i = self.skip_attr(t, i)
            if t[i][0] == '%': params.append((t[i], ty)); i += 1
            else: params.append((None, ty))
            if t[i] == ',': i += 1
        self.funcs[name] = Func(self, name, rty, params, body)


CAST = ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast')
BIN = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem')


class Func:
    def __init__(self, mod, name, rty, params, body):
        self.mod, self.name, self.rty, self.params, self._body = mod, name, rty, params, body
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._build()
        return self._blocks

    def _build(self):
        # unnamed params/entry numbering
        blocks = {}; cur = None; order = []
        cnt = sum(1 for p in self.params)
        first = True
        lines = []
        buf = None
        for l in self._body:        # join multi-line switch
            s = l.strip()
            if not s: continue
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'): lines.append(buf); buf = None
                continue
            if s.startswith('switch ') and not ']' in s:
                buf = s; continue
            if s.startswith('invoke ') or ' = invoke ' in s:
                buf2 = s
            if s.startswith('to label'):
                lines[-1] += ' ' + s; continue
            if (s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter ')) : continue
            lines.append(s)
        for s in lines:
            m = re.match(r'^("[^"]*"|[-\w$.]+):', s)
            if m:
                cur = '%' + m.group(1); blocks[cur] = []; order.append(cur); first = False; continue
            if first:
                cur = '%' + str(cnt); blocks[cur] = []; order.append(cur); first = False
            blocks[cur].append(s)
        self.order = order
        self.entry = order[0]
        self._blocks = {}
        for b in order:
            self._blocks[b] = [self.instr(s) for s in blocks[b]]
        self._succ()
        self._rt = None; self._live = None

    def rtype(self, r):
        if self._rt is None:
            d = {}
            for k, (n, t) in enumerate(self.params): d[n or '%' + str(k)] = t
            for b in self.order:
                for x in self._blocks[b]:
                    if not x[1]: continue
                    op = x[0]
                    if op in CAST: d[x[1]] = x[4]
                    elif op in ('icmp', 'fcmp'):
                        t = self.mod.res(x[2])
                        d[x[1]] = ('vec', t[1], ('i', 1)) if t[0] == 'vec' else ('i', 1)
                    elif op in ('gep', 'alloca'): d[x[1]] = 'ptr'
                    elif op == 'extractvalue':
                        t = x[2]
                        for k in x[4]:
                            t = self.mod.res(t); t = t[1][k] if t[0] == 'st' else t[2]
                        d[x[1]] = t
                    elif op == 'extractelement': d[x[1]] = self.mod.res(x[2])[2]
                    elif op == 'shufflevector': d[x[1]] = ('vec', self.mod.res(x[5])[1], self.mod.res(x[2])[2])
                    elif op in ('landingpad', 'unsup', 'asm'): pass
                    else: d[x[1]] = x[2]
            self._rt = d
        return self._rt[r]

    def livein(self, b):
        """registers live after the phis of block b (phi results included)"""
        if self._live is None:
            use = {}; dfn = {}; phiuse = {}
            def regs(o, acc):
                if isinstance(o, tuple):
                    if len(o) == 2 and o[0] == 'r': acc.add(o[1]); return
                    for e in o: regs(e, acc)
                elif isinstance(o, list):
                    for e in o: regs(e, acc)
            for b0 in self.order:
                u = set(); d = set()
                for x in self._blocks[b0]:
                    if x[0] == 'phi':
                        d.add(x[1])
                        for p, v in x[3].items():
                            if v[0] == 'r': phiuse.setdefault(p, {}).setdefault(b0, set()).add(v[1])
                        continue
                    acc = set()
                    for e in x[2:]: regs(e, acc)
                    u |= acc - d
                    if x[1]: d.add(x[1])
                use[b0] = u; dfn[b0] = d
            live = {b0: set() for b0 in self.order}; ch = True
            while ch:
                ch = False
                for b0 in reversed(self.order):
                    out = set()
                    for s in self.succ[b0]:
                        out |= live[s]
                        out |= phiuse.get(b0, {}).get(s, set())
                    n = use[b0] | (out - dfn[b0])
                    if n != live[b0]: live[b0] = n; ch = True
            # after phis: live-in plus uses (phi results are uses or flow out)
            self._live = {}
            for b0 in self.order:
                out = set()
                for s in self.succ[b0]: out |= live[s] | phiuse.get(b0, {}).get(s, set())
                ph = {x[1] for x in self._blocks[b0] if x[0] == 'phi'}
                self._live[b0] = live[b0] | ph
                # phi results used inside the block
        return self._live[b]

    def _succ(self):
        self.succ = {}
        for b in self.order:
            ins = self._blocks[b][-1]; op = ins[0]
            if op == 'br': s = [ins[2]]
            elif op == 'cbr': s = [ins[3], ins[4]]
            elif op == 'switch': s = [ins[4]] + [x[1] for x in ins[5]]
            elif op == 'invoke': s = [ins[7]]
            else: s = []
            self.succ[b] = list(dict.fromkeys(s))
        # post dominators, exits = ret blocks; blocks that cannot reach a ret are ignored
        exits = [b for b in self.order if self._blocks[b][-1][0] == 'ret']
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succ[b]: pred[s].append(b)
        live = set(exits); st = list(exits)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live: live.add(p); st.append(p)
        # iterative on reversed graph
        EX = '<exit>'
        # post order of reverse cfg
        seen = set(); po = []
        def dfs(root):
            stack = [(root, iter(exits if root == EX else [p for p in pred[root] if p in live]))]
            seen.add(root)
            while stack:
                n, it = stack[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c); stack.append((c, iter([p for p in pred[c] if p in live]))); break
                else:
                    po.append(n); stack.pop()
        dfs(EX)
        num = {b: i for i, b in enumerate(po)}
        ip = {EX: EX}
        changed = True
        while changed:
            changed = False
            for b in reversed(po):
                if b == EX: continue
                ss = [s for s in self.succ[b] if s in live] or []
                if b in exits: ss = [EX]
                new = None
                for s in ss:
                    if s in ip:
                        if new is None: new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] < num[y]: x = ip[x]
                                while num[y] < num[x]: y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new; changed = True
        self.ipdom = {b: (None if ip.get(b) in (None, EX) else ip[b]) for b in self.order}
        self.live = live

    def instr(self, s):
        M = self.mod
        # strip metadata
        s0 = s
        k = s.find(', !')
        if k >= 0: s = s[:k]
        t = toks(s)
        d = None; i = 0
        if len(t) > 1 and t[1] == '=':
            d = t[0]; i = 2
        while t[i] in ATTR: i += 1
        op = t[i]; i += 1
        if op in BIN:
            flags = []
            while t[i] in ATTR: i += 1
            ty, i = M.ptype(t, i); a, i = M.pval(t, i, ty); assert t[i] == ','; b, i = M.pval(t, i + 1, ty)
            return (op, d, ty, a, b)
        if op == 'fneg':
            while t[i] in ATTR: i += 1
            ty, i = M.ptype(t, i); a, i = M.pval(t, i, ty)
            return (op, d, ty, a)
        if op in CAST:
            while t[i] in ATTR: i += 1
            ty, i = M.ptype(t, i); a, i = M.pval(t, i, ty); assert t[i] == 'to', s0; t2, i = M.ptype(t, i + 1)
            return (op, d, ty, a, t2)
        if op in ('icmp', 'fcmp'):
            while t[i] in ATTR: i += 1
            p = t[i]; i += 1
            ty, i = M.ptype(t, i); a, i = M.pval(t, i, ty); b, i = M.pval(t, i + 1, ty)
            return (op, d, ty, p, a, b)
        if op == 'select':
            while t[i] in ATTR: i += 1
            cty, i = M.ptype(t, i); c, i = M.pval(t, i, cty)
            ty, i = M.ptype(t, i + 1); a, i = M.pval(t, i, ty)
            ty, i = M.ptype(t, i + 1); b, i = M.pval(t, i, ty)
            return (op, d, ty, c, a, b, cty)
        if op == 'phi':
            while t[i] in ATTR: i += 1
            ty, i = M.ptype(t, i); inc = {}
            while True:
                assert t[i] == '['
                v, i = M.pval(t, i + 1, ty); assert t[i] == ','
                inc[t[i + 1]] = v; i += 3
                if i < len(t) and t[i] == ',': i += 1
                else: break
            return (op, d, ty, inc)
        if op == 'br':
            if t[i] == 'label': return ('br', None, t[i + 1])
            ty, i = M.ptype(t, i); c, i = M.pval(t, i, ty)
            return ('cbr', None, c, t[i + 2], t[i + 5])
        if op == 'switch':
            ty, i = M.ptype(t, i); c, i = M.pval(t, i, ty); assert t[i + 1] == 'label'
            dflt = t[i + 2]; i += 4; cases = []
            while t[i] != ']':
                ty2, i = M.ptype(t, i); v, i = M.pval(t, i, ty2); cases.append((v[1], t[i + 2])); i += 3
            return ('switch', None, ty, c, dflt, cases)
        if op == 'ret':
            if t[i] == 'void': return ('ret', None, 'void', None)
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty)
            return ('ret', None, ty, v)
        if op in ('unreachable', 'resume'):
            return ('unreachable', None)
        if op == 'landingpad':
            return ('landingpad', d)
        if op == 'load':
            while t[i] in ATTR: i += 1
            ty, i = M.ptype(t, i); assert t[i] == ','; pt, i = M.ptype(t, i + 1); p, i = M.pval(t, i, pt)
            return ('load', d, ty, p)
        if op == 'store':
            while t[i] in ATTR: i += 1
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty); pt, i = M.ptype(t, i + 1); p, i = M.pval(t, i, pt)
            return ('store', None, ty, v, p)
        if op == 'alloca':
            ty, i = M.ptype(t, i); n = ('c', 1)
            if i < len(t) and t[i] == ',' and t[i + 1] != 'align':
                nt, i = M.ptype(t, i + 1); n, i = M.pval(t, i, nt)
            return ('alloca', d, ty, n)
        if op == 'getelementptr':
            while t[i] in ATTR: i += 1
            bt, i = M.ptype(t, i); args = []
            while i < len(t) and t[i] == ',':
                aty, i = M.ptype(t, i + 1); v, i = M.pval(t, i, aty); args.append((aty, v))
            return ('gep', d, bt, args)
        if op in ('call', 'invoke'):
            i = M.skip_attr(t, i)
            rty, i = M.ptype(t, i)
            if isinstance(rty, tuple) and rty[0] == 'fn': rty = rty[1]
            if t[i] == 'asm':
                return ('asm', d, s0)
            f, i = M.pval(t, i, 'ptr')
            assert t[i] == '(', s0
            i += 1; args = []
            while t[i] != ')':
                aty, i = M.ptype(t, i); i = M.skip_attr(t, i)
                if aty == 'metadata':
                    while t[i] not in (',', ')'): i += 1
                    v = None
                else:
                    v, i = M.pval(t, i, aty)
                args.append((aty, v))
                if t[i] == ',': i += 1
            if op == 'call': return ('call', d, rty, f, args)
            k = t.index('to', i)
            return ('invoke', d, rty, f, args, None, None, t[k + 2], t[k + 5])
        if op == 'extractvalue':
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty); idx = []
            while i < len(t) and t[i] == ',': idx.append(int(t[i + 1])); i += 2
            return (op, d, ty, v, idx)
        if op == 'insertvalue':
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty); ty2, i = M.ptype(t, i + 1); e, i = M.pval(t, i, ty2); idx = []
            while i < len(t) and t[i] == ',': idx.append(int(t[i + 1])); i += 2
            return (op, d, ty, v, ty2, e, idx)
        if op == 'freeze':
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty)
            return (op, d, ty, v)
        if op == 'extractelement':
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty); t2, i = M.ptype(t, i + 1); x, i = M.pval(t, i, t2)
            return (op, d, ty, v, x)
        if op == 'insertelement':
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty); t1, i = M.ptype(t, i + 1); e, i = M.pval(t, i, t1)
            t2, i = M.ptype(t, i + 1); x, i = M.pval(t, i, t2)
            return (op, d, ty, v, e, x)
        if op == 'shufflevector':
            ty, i = M.ptype(t, i); v, i = M.pval(t, i, ty); t1, i = M.ptype(t, i + 1); e, i = M.pval(t, i, t1)
            t2, i = M.ptype(t, i + 1); x, i = M.pval(t, i, t2)
            return (op, d, ty, v, e, t2, x)
        if op in ('atomicrmw', 'cmpxchg', 'fence'):
            return ('unsup', d, s0)
        return ('unsup', d, s0)
