"""Reader for textual LLVM 18 IR (opaque pointers): types with x86-64 layout, globals, functions, instructions.

Only what clang emits for this code base is understood; an instruction that is not understood is kept as
op='unknown' and evaluated to an unknown value by the analyser, never silently dropped."""
import re

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<md>!(?:[a-zA-Z_.0-9]+)?)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
  | (?P<word>[a-zA-Z_.][a-zA-Z_.0-9]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*|:])
  | (?P<ws>\s+)
''', re.X)


def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            out.append(s[i])
            i += 1
            continue
        i = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out


class Ty:
    __slots__ = ('k', 'bits', 'elt', 'n', 'fields', 'name', 'packed')

    def __init__(s, k, bits=0, elt=None, n=0, fields=None, name=None, packed=False):
        s.k, s.bits, s.elt, s.n, s.fields, s.name, s.packed = k, bits, elt, n, fields, name, packed

    def __repr__(s):
        return {'i': 'i%d' % s.bits, 'named': str(s.name), 'arr': '[%d x %r]' % (s.n, s.elt)}.get(s.k, s.k)


PTR = Ty('ptr')
VOID = Ty('void')
I1, I8, I16, I32, I64 = (Ty('i', b) for b in (1, 8, 16, 32, 64))


class Const:
    """constant operand: kind in int,null,undef,global,gep,cast,fp,agg,zero,str,bin"""
    __slots__ = ('kind', 'ty', 'v')

    def __init__(s, kind, ty, v=None):
        s.kind, s.ty, s.v = kind, ty, v

    def __repr__(s):
        return '%s:%r' % (s.kind, s.v)


class Reg:
    __slots__ = ('name',)

    def __init__(s, name):
        s.name = name

    def __repr__(s):
        return s.name


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'dbg', 'fn', 'bb', 'idx', 'text')

    def __repr__(s):
        return s.text


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []
        s.blocks = {}
        s.order = []
        s.rty = VOID
        s.dbg = None
        s.noreturn = False
        s.vararg = False
        s.headers = None
        s.internal = False


class Global:
    def __init__(s, name, ty, init, tls, const, internal, external):
        s.name, s.ty, s.init, s.tls, s.const, s.internal, s.external = name, ty, init, tls, const, internal, external


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
               'inreg', 'immarg', 'readnone', 'nofree', 'allocptr', 'noinline', 'dead_on_unwind', 'writable', 'swiftself', 'nest'}
FAST = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
        'fptrunc', 'addrspacecast'}


class P:
    def __init__(s, mod, toks):
        s.m, s.t, s.i = mod, toks, 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        t = s.t[s.i] if s.i < len(s.t) else None
        s.i += 1
        return t

    def eat(s, t):
        if s.peek() == t:
            s.i += 1
            return True
        return False

    def expect(s, t):
        x = s.next()
        if x != t:
            raise ValueError('expected %r got %r in %s' % (t, x, ' '.join(map(str, s.t))))

    def type(s):
        t = s.next()
        if t == 'ptr':
            ty = PTR
        elif t == 'void':
            ty = VOID
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            ty = Ty(t)
        elif t in ('label', 'metadata', 'token'):
            ty = Ty(t)
        elif re.match(r'i[0-9]+$', t or ''):
            ty = Ty('i', int(t[1:]))
        elif t == '[':
            n = int(s.next())
            s.expect('x')
            e = s.type()
            s.expect(']')
            ty = Ty('arr', n=n, elt=e)
        elif t == '{':
            fs = []
            if not s.eat('}'):
                while True:
                    fs.append(s.type())
                    if s.eat('}'):
                        break
                    s.expect(',')
            ty = Ty('struct', fields=fs)
        elif t == '<':
            if s.peek() == '{':
                ty = s.type()
                ty.packed = True
                s.expect('>')
            else:
                n = int(s.next())
                s.expect('x')
                e = s.type()
                s.expect('>')
                ty = Ty('vec', n=n, elt=e)
        elif t and t[0] == '%':
            ty = Ty('named', name=t)
        else:
            raise ValueError('type? %r in %s' % (t, ' '.join(map(str, s.t))))
        if s.peek() == 'addrspace':
            s.next(); s.expect('('); s.next(); s.expect(')')
        while s.peek() == '(':  # function type
            depth = 0
            while True:
                x = s.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            ty = Ty('fn', elt=ty)
        return ty

    def attrs(s):
        while True:
            t = s.peek()
            if t in PARAM_ATTRS:
                s.next()
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'captures',
                       'allocalign', 'range', 'nofpclass', 'initializes', 'memory', 'byref', 'inalloca', 'preallocated'):
                s.next()
                if s.peek() == '(':
                    d = 0
                    while True:
                        x = s.next()
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
                elif t == 'align':
                    s.next()
            else:
                return

    def value(s, ty):
        t = s.next()
        if t[0] == '%':
            return Reg(t)
        if t[0] == '@':
            return Const('global', ty, t)
        if t == 'null':
            return Const('null', ty)
        if t in ('undef', 'poison'):
            return Const('undef', ty)
        if t == 'zeroinitializer':
            return Const('zero', ty)
        if t == 'true':
            return Const('int', ty, 1)
        if t == 'false':
            return Const('int', ty, 0)
        if t[0] == '-' or t[0].isdigit():
            if ty.k == 'i':
                return Const('int', ty, int(t))
            return Const('fp', ty, t)
        if t[:2] == 'c"':
            return Const('str', ty, unesc(t[2:-1]))
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            s.expect('(')
            bt = s.type()
            ops = []
            while s.eat(','):
                if s.peek() == 'inrange':
                    s.next()
                t2 = s.type()
                ops.append((t2, s.value(t2)))
            s.expect(')')
            return Const('gep', ty, (bt, ops))
        if t in CAST:
            s.expect('(')
            t1 = s.type()
            v = s.value(t1)
            s.expect('to')
            t2 = s.type()
            s.expect(')')
            return Const('cast', t2, (t, t1, v))
        if t in BIN or t == 'icmp':
            while s.peek() in ('nuw', 'nsw', 'exact') or (t == 'icmp' and s.peek() != '('):
                s.next()
            s.expect('(')
            t1 = s.type(); a = s.value(t1)
            s.expect(',')
            t2 = s.type(); b = s.value(t2)
            s.expect(')')
            return Const('bin', ty, (t, a, b))
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and s.peek() == '{':
                s.next()
                packed = True
                close = '}'
            vals = []
            if not s.eat(close):
                while True:
                    t1 = s.type()
                    vals.append(s.value(t1))
                    if s.eat(close):
                        break
                    s.expect(',')
            if packed:
                s.expect('>')
            return Const('agg', ty, vals)
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            raise ValueError(t)
        raise ValueError('value? %r in %s' % (t, ' '.join(map(str, s.t))))

    def tv(s):
        ty = s.type()
        s.attrs()
        return ty, s.value(ty)


def unesc(x):
    out = bytearray()
    i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16))
                i += 3
        else:
            out += x[i].encode('latin1', 'replace')
            i += 1
    return bytes(out)


class Module:
    def __init__(s, text):
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
        s.md = {}
        s._size = {}
        s.attr = {}
        s.parse(text)

    # ---- layout
    def resolve(s, ty):
        while ty.k == 'named':
            ty = s.types[ty.name]
        return ty

    def align(s, ty):
        ty = s.resolve(ty)
        if ty.k == 'i':
            b = max(1, (ty.bits + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return min(p, 16)
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'x86_fp80' or ty.k == 'fp128':
            return 16
        if ty.k == 'arr':
            return s.align(ty.elt)
        if ty.k == 'vec':
            return s.size(ty)
        if ty.k == 'struct':
            return 1 if ty.packed else max([s.align(f) for f in ty.fields] or [1])
        return 1

    def size(s, ty):
        ty = s.resolve(ty)
        if ty.k == 'i':
            b = max(1, (ty.bits + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k in ('x86_fp80', 'fp128'):
            return 16
        if ty.k in ('arr', 'vec'):
            return ty.n * s.size(ty.elt)
        if ty.k == 'struct':
            return s.layout(ty)[1]
        if ty.k == 'fn':
            return 1
        return 0

    def layout(s, ty):
        ty = s.resolve(ty)
        key = id(ty)
        if key in s._size:
            return s._size[key]
        off, offs, al = 0, [], 1
        for f in ty.fields:
            a = 1 if ty.packed else s.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s.size(f)
        off = (off + al - 1) // al * al
        s._size[key] = (offs, off)
        return s._size[key]

    def gep(s, bt, idx):
        """constant part and [(scale, operand)] for the index operands (type, value)"""
        c = 0
        var = []
        cur = bt
        for n, (ty, v) in enumerate(idx):
            if n == 0:
                sc = s.size(cur)
            else:
                r = s.resolve(cur)
                if r.k == 'struct':
                    i = v.v
                    c += s.layout(r)[0][i]
                    cur = r.fields[i]
                    continue
                sc = s.size(r.elt)
                cur = r.elt
            if isinstance(v, Const) and v.kind == 'int':
                c += sc * v.v
            elif isinstance(v, Const) and v.kind in ('null', 'zero', 'undef'):
                pass
            else:
                var.append((sc, ty, v))
        return c, var

    # ---- parsing
    def parse(s, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                name, rest = ln.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    s.types[name] = Ty('struct', fields=[])
                else:
                    s.types[name] = P(s, tokens(rest)).type()
            elif c == '@':
                s.parse_global(ln)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    s.md[int(m.group(1))] = m.group(2)
            elif ln.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                s.attr[m.group(1)] = m.group(2)
            elif ln.startswith('declare'):
                f = s.parse_sig(ln)
                s.decls[f.name] = f
            elif ln.startswith('define'):
                f = s.parse_sig(ln)
                m = re.search(r'!dbg !(\d+)', ln)
                f.dbg = int(m.group(1)) if m else None
                f.internal = ' internal ' in ln
                cur = None
                pend = None
                while True:
                    ln = lines[i]
                    i += 1
                    if ln == '}':
                        break
                    if not ln.strip():
                        continue
                    m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                    if m and not ln.startswith(' '):
                        cur = m.group(1)
                        f.blocks[cur] = []
                        f.order.append(cur)
                        continue
                    if cur is None:
                        cur = '0'
                        f.blocks[cur] = []
                        f.order.append(cur)
                    if ln.lstrip().startswith('switch') and ln.rstrip().endswith('['):
                        while True:
                            ln2 = lines[i]
                            i += 1
                            ln = ln + ' ' + ln2.strip()
                            if ln2.strip().startswith(']'):
                                break
                    ins = s.parse_instr(ln.strip())
                    if ins is None:
                        continue
                    ins.fn = f
                    ins.bb = cur
                    ins.idx = len(f.blocks[cur])
                    f.blocks[cur].append(ins)
                s.funcs[f.name] = f
        for f in list(s.funcs.values()) + list(s.decls.values()):
            at = s.attr.get(f.attrref or '', '')
            f.noreturn = 'noreturn' in at

    def parse_sig(s, ln):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        f = Func(m.group(1).strip('"'))
        toks = tokens(ln[m.end() - 1:])
        p = P(s, toks)
        p.expect('(')
        k = 0
        f.sret = None
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            ty = p.type()
            at0 = p.i
            p.attrs()
            ats = toks[at0:p.i]
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%%%d' % k
            f.params.append((ty, nm, 'byval' in ats, 'sret' in ats))
            k += 1
            p.eat(',')
        pre = ln[:m.start()]
        w = tokens(pre)
        q = P(s, w)
        f.rty = VOID
        # return type is the last type in the prefix
        for st in range(len(w) - 1, -1, -1):
            try:
                q = P(s, w)
                q.i = st
                ty = q.type()
                q.attrs()
                if q.i == len(w):
                    f.rty = ty
                    break
            except (ValueError, IndexError, TypeError):
                continue
        rest = toks[p.i:]
        f.attrref = next((t for t in rest if t.startswith('#')), None)
        return f

    def parse_global(s, ln):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name = '@' + m.group(1)
        rest = m.group(2)
        toks = tokens(rest)
        p = P(s, toks)
        internal = external = tls = False
        while True:
            t = p.peek()
            if t in ('internal', 'private'):
                internal = True
            elif t == 'external':
                external = True
            elif t == 'thread_local':
                tls = True
                p.next()
                if p.peek() == '(':
                    p.next(); p.next(); p.next()
                continue
            elif t in ('dso_local', 'local_unnamed_addr', 'unnamed_addr', 'common', 'weak', 'linkonce_odr', 'hidden', 'available_externally', 'extern_weak', 'appending'):
                pass
            elif t in ('global', 'constant'):
                break
            elif t == 'alias':
                return
            else:
                raise ValueError('global %s' % ln)
            p.next()
        const = p.next() == 'constant'
        ty = p.type()
        init = None
        if p.peek() not in (None, ','):
            init = p.value(ty)
        s.globals[name] = Global(name, ty, init, tls, const, internal, external)

    def parse_instr(s, ln):
        ins = Instr()
        ins.text = ln
        ins.dst = None
        ins.ty = VOID
        ins.ops = []
        ins.x = None
        m = re.search(r'!dbg !(\d+)', ln)
        ins.dbg = int(m.group(1)) if m else None
        body = re.sub(r', ![a-zA-Z_.]+ !\d+', '', ln)
        t = tokens(body)
        p = P(s, t)
        if len(t) > 1 and t[1] == '=':
            ins.dst = t[0]
            p.i = 2
        try:
            if s._instr(ins, p) is None:
                return None
        except (ValueError, IndexError, TypeError, AttributeError):
            ins.op = 'unknown'
        return ins

    def _instr(s, ins, p):
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        if op in BIN:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FAST:
                fl.append(p.next())
            ins.ty = p.type()
            a = p.value(ins.ty)
            p.expect(',')
            ins.ops = [a, p.value(ins.ty)]
            ins.x = fl
        elif op in CAST:
            while p.peek() in ('nuw', 'nsw', 'nneg'):
                p.next()
            t1 = p.type()
            v = p.value(t1)
            p.expect('to')
            ins.ty = p.type()
            ins.ops = [v]
            ins.x = t1
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FAST or p.peek() == 'samesign':
                p.next()
            pred = p.next()
            t1 = p.type()
            a = p.value(t1)
            p.expect(',')
            ins.ops = [a, p.value(t1)]
            ins.x = (pred, t1)
            ins.ty = I1
        elif op == 'alloca':
            while p.peek() in ('inalloca',):
                p.next()
            ty = p.type()
            cnt = Const('int', I32, 1)
            while p.eat(','):
                if p.peek() == 'align':
                    p.next(); p.next()
                else:
                    t1 = p.type()
                    cnt = p.value(t1)
            ins.ty = PTR
            ins.x = ty
            ins.ops = [cnt]
        elif op == 'load':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ins.ty = p.type()
            p.expect(',')
            t1 = p.type()
            ins.ops = [p.value(t1)]
            order = None
            while p.peek():
                w = p.next()
                if w in ('seq_cst', 'acquire', 'release', 'monotonic', 'acq_rel', 'unordered'):
                    order = w
            ins.x = order if atomic else None
        elif op == 'store':
            atomic = p.eat('atomic')
            p.eat('volatile')
            t1 = p.type()
            v = p.value(t1)
            p.expect(',')
            t2 = p.type()
            a = p.value(t2)
            order = None
            while p.peek():
                w = p.next()
                if w in ('seq_cst', 'acquire', 'release', 'monotonic', 'acq_rel', 'unordered'):
                    order = w
            ins.ty = t1
            ins.ops = [v, a]
            ins.x = order if atomic else None
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            t1 = p.type()
            base = p.value(t1)
            idx = []
            while p.eat(','):
                idx.append(p.tv())
            ins.ty = PTR
            ins.ops = [base]
            ins.x = s.gep(bt, idx)
        elif op == 'phi':
            while p.peek() in FAST:
                p.next()
            ins.ty = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(ins.ty)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc[b[1:].strip('"') if b[1] == '"' else b[1:]] = v
                if not p.eat(','):
                    break
            ins.x = inc
        elif op == 'select':
            while p.peek() in FAST:
                p.next()
            t0, c = p.tv()
            p.expect(',')
            t1, a = p.tv()
            p.expect(',')
            t2, b = p.tv()
            ins.ty = t1
            ins.ops = [c, a, b]
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins.x = [lbl(p.next())]
            else:
                t1 = p.type()
                ins.ops = [p.value(t1)]
                p.expect(','); p.expect('label')
                a = lbl(p.next())
                p.expect(','); p.expect('label')
                ins.x = [a, lbl(p.next())]
        elif op == 'switch':
            t1, v = p.tv()
            p.expect(','); p.expect('label')
            d = lbl(p.next())
            p.expect('[')
            cases = []
            while not p.eat(']'):
                t2, c = p.tv()
                p.expect(','); p.expect('label')
                cases.append((c.v, lbl(p.next())))
            ins.ops = [v]
            ins.ty = t1
            ins.x = (d, cases)
        elif op == 'ret':
            ty = p.type()
            ins.ty = ty
            if ty.k != 'void':
                ins.ops = [p.value(ty)]
        elif op == 'unreachable':
            pass
        elif op == 'call':
            while p.peek() in FAST or p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            ins.ty = p.type()
            fixed = None
            if ins.ty.k == 'fn':
                ins.ty = ins.ty.elt
            callee = p.next()
            if callee == 'asm':
                ins.op = 'asm'
                return ins
            if callee[0] == '%':
                tgt = Reg(callee)
            elif callee[0] == '@':
                tgt = Const('global', PTR, callee)
            else:
                p.i -= 1
                tgt = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                ty = p.type()
                at0 = p.i
                p.attrs()
                ats = p.t[at0:p.i]
                if ty.k == 'metadata':
                    return None  # debug intrinsic
                args.append((ty, p.value(ty), 'byval' in ats, 'sret' in ats))
                p.eat(',')
            ins.ops = [tgt]
            ins.x = args
            if isinstance(tgt, Const) and tgt.kind == 'global' and tgt.v.startswith('@llvm.dbg'):
                return None
        elif op == 'extractvalue':
            t1, v = p.tv()
            ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            ins.ops = [v]
            ins.x = ix
            r = s.resolve(t1)
            for i in ix:
                r = s.resolve(r.fields[i] if r.k == 'struct' else r.elt)
            ins.ty = r
        elif op == 'insertvalue':
            t1, v = p.tv()
            p.expect(',')
            t2, w = p.tv()
            ix = []
            while p.eat(','):
                ix.append(int(p.next()))
            ins.ty = t1
            ins.ops = [v, w]
            ins.x = ix
        elif op == 'atomicrmw':
            p.eat('volatile')
            rop = p.next()
            t1, a = p.tv()
            p.expect(',')
            t2, v = p.tv()
            order = None
            while p.peek():
                w = p.next()
                if w in ('seq_cst', 'acquire', 'release', 'monotonic', 'acq_rel'):
                    order = w
            ins.ty = t2
            ins.ops = [a, v]
            ins.x = (rop, order)
        elif op == 'cmpxchg':
            weak = bool(p.eat('weak'))
            p.eat('volatile')
            t1, a = p.tv()
            p.expect(',')
            t2, c = p.tv()
            p.expect(',')
            t3, n = p.tv()
            order = []
            while p.peek():
                w = p.next()
                if w in ('seq_cst', 'acquire', 'release', 'monotonic', 'acq_rel'):
                    order.append(w)
            ins.ty = Ty('struct', fields=[t2, I1])
            ins.ops = [a, c, n]
            ins.x = (t2, order[0] if order else None, order[1] if len(order) > 1 else None, weak)
        elif op == 'fence':
            ins.x = p.t[-1]
        elif op == 'freeze':
            t1, v = p.tv()
            ins.ty = t1
            ins.ops = [v]
        elif op in ('fneg',):
            while p.peek() in FAST:
                p.next()
            t1, v = p.tv()
            ins.ty = t1
            ins.ops = [v]
        else:
            ins.op = 'unknown'
        return ins

    # ---- debug info
    def loc(s, dbg):
        """(file, line, function) of a DILocation id"""
        if dbg is None or dbg not in s.md:
            return None
        t = s.md[dbg]
        m = re.search(r'line: (\d+)', t)
        line = int(m.group(1)) if m else 0
        m = re.search(r'(?:^|[ (])scope: !(\d+)', t)
        sc = int(m.group(1)) if m else None
        fn = None
        fil = None
        seen = 0
        while sc is not None and seen < 20:
            seen += 1
            u = s.md.get(sc, '')
            if fil is None:
                m = re.search(r'file: !(\d+)', u)
                if m:
                    m2 = re.search(r'filename: "([^"]*)"', s.md.get(int(m.group(1)), ''))
                    fil = m2.group(1) if m2 else None
            if 'DISubprogram' in u:
                m = re.search(r'name: "([^"]*)"', u)
                fn = m.group(1) if m else None
                break
            m = re.search(r'scope: !(\d+)', u)
            sc = int(m.group(1)) if m else None
        return (fil, line, fn)

    def where(s, ins):
        l = s.loc(ins.dbg)
        if not l:
            return '%s/%s' % (ins.fn.name, ins.bb)
        return '%s:%d (%s)' % (l[0], l[1], l[2] or ins.fn.name)

    def cstr(s, gname):
        g = s.globals.get(gname)
        if g is None or g.init is None:
            return None
        if g.init.kind == 'str':
            return g.init.v.split(b'\0')[0].decode('latin1')
        if g.init.kind == 'zero':
            return ''
        return None


def lbl(t):
    t = t[1:]
    return t.strip('"')


def succs(ins):
    if ins.op == 'br':
        return ins.x
    if ins.op == 'switch':
        return [ins.x[0]] + [b for _, b in ins.x[1]]
    return []


def loop_headers(f):
    """block names that are targets of DFS back edges"""
    if f.headers is not None:
        return f.headers
    color = {}
    heads = set()
    start = f.order[0]
    st = [(start, iter(succs(f.blocks[start][-1])))]
    color[start] = 1
    while st:
        b, it = st[-1]
        for t in it:
            c = color.get(t, 0)
            if c == 0:
                color[t] = 1
                st.append((t, iter(succs(f.blocks[t][-1]))))
                break
            if c == 1:
                heads.add(t)
        else:
            color[b] = 2
            st.pop()
    f.headers = heads
    return heads
