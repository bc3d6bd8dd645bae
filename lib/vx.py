"""Extraction: the source files of a crate, with contracts spliced in, as one Verus file.

Every byte of every extracted function body is the byte of the file in /repo, except the edits
listed by `Extract.dropped` / `Extract.rewrites` (reported as evidence)."""
import os
import re
import rustlex


class Contract:
    def __init__(self, path):
        self.path = path
        self.ret = 'r'
        self.spec = ''
        self.begin = ''
        self.loops = {}
        self.attr = ''
        self.drop = False
        self.closures = {}
        self.origin = ''
        self.used = False
        self.ghost = ''
        self.loop_begin = {}
        self.iters = {}          # loop -> name of its ghost iterator
        self.stub = False        # the body is set aside, only the contract remains


def read_contracts(fn, expanded=True):
    """Blocks:  @fn PATH [ret NAME] / @spec / @begin / @loop N / @attr / @drop / @module PATH"""
    out, mods = {}, {}
    cur, sect, arg = None, None, None
    for no, line in enumerate(open(fn), 1):
        m = re.match(r'@(\w+)\s*(.*)', line)
        if m:
            k, a = m.group(1), m.group(2).strip()
            if k == 'fn':
                w = a.split()
                cur = Contract(w[0])
                cur.origin = f'{os.path.basename(fn)}:{no}'
                if len(w) == 3 and w[1] == 'ret':
                    cur.ret = w[2]
                assert w[0] not in out, w[0]
                out[w[0]] = cur
                sect = 'spec'
            elif k == 'drop':
                cur.drop = True
            elif k == 'module':
                cur, sect, arg = None, 'module', a
                mods.setdefault(a, '')
            elif k in ('spec', 'begin', 'attr', 'ghost'):
                sect = k
            elif k in ('loop', 'loopbegin', 'closure'):
                sect, arg = k, int(a.split()[0])
                if len(a.split()) == 2:
                    cur.iters[arg] = a.split()[1]
            else:
                raise ValueError(f'{fn}:{no}: {line}')
            continue
        if line.startswith('//#'):
            continue
        if sect == 'module':
            mods[arg] += line
        elif sect == 'loop':
            cur.loops[arg] = cur.loops.get(arg, '') + line
        elif sect == 'loopbegin':
            cur.loop_begin[arg] = cur.loop_begin.get(arg, '') + line
        elif sect == 'closure':
            cur.closures[arg] = cur.closures.get(arg, '') + line
        elif sect is not None and cur is not None:
            setattr(cur, sect, getattr(cur, sect) + line)
    for c in out.values() if expanded else ():
        c.spec = expand(c.spec)
    return out, mods


def expand(spec):
    """Clauses that stand for several, so that each is an obligation of its own:
    encodes(A, B, ok, X)                -> appends(A, B), sound(ok, X), encodes(A, B, ok, X)
    match X { Some(..) .. None .. }     -> sound(r is Ok, X), match ..
    decodes_chars(b, o, l, u, e, r, q)  -> sound(r is Ok, dec_chars(b, o, oint(l), oint(u), e)), decodes_chars(..)"""
    out, i = '', 0
    for m in re.finditer(r'^ {8}(encodes\(|decodes_chars\(|match )', spec, re.M):
        a = m.start()
        out += spec[i:a]
        i = a
        if m.group(1) == 'match ':
            x = spec[m.end():spec.index('{\n', m.end())].strip()
            out += f'        sound(r is Ok, {x}),\n'
            continue
        args, d, k = [], 0, m.end()
        st = k
        while True:
            ch = spec[k]
            if ch in '([{':
                d += 1
            elif ch in ')]}' and d:
                d -= 1
            elif ch in ',)' and d == 0:
                if spec[st:k].strip():
                    args.append(spec[st:k].strip())
                st = k + 1
                if ch == ')':
                    break
            k += 1
        if m.group(1) == 'encodes(':
            out += f'        appends({args[0]}, {args[1]}),\n        sound({args[2]}, {args[3]}),\n'
        else:
            b, o, lb, ub, e = args[:5]
            out += f'        sound(r is Ok, dec_chars({b}, {o}, oint({lb}), oint({ub}), {e})),\n'
    return out + spec[i:]


def is_comparison(expr):
    ok = expr and expr[0].s == '!'
    d = 0
    for i, x in enumerate(expr):
        if x.s in ('(', '['):
            if i and (expr[i - 1].k == 'ident' or expr[i - 1].s in (')', ']', '>', '!')):
                return False
            d += 1
        elif x.s in (')', ']'):
            d -= 1
        elif x.s in ('?', '{', '=>', 'return') or x.k == 'str':
            return False
        elif d == 0 and x.s in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            ok = True
    return ok


class Extract:
    def __init__(self, contracts, modtext):
        self.contracts, self.modtext = contracts, modtext
        self.plain_attr = getattr(self, 'plain_attr', '')    # of functions without contract
        self.out = []            # (text, origin) ; origin = (file, offset) | ('contract', what)
        self.functions = []      # (path, file, line, has_contract)
        self.dropped = []
        self.rewrites = {}
        self.lost = []
        self.trusted = []
        self.fn_at = []          # (path, index into out)
        self.mark = None         # text put first in every contracted body (vacuity runs)
        self.bodies = {}         # path -> (token list, first, last) of the body
        self.unannotated = {}    # path -> closures without contract
        self.texts = {}          # file -> its text as extracted from
        self.heads = {}          # path -> what its loops go through
        self.new_loops = {}      # path -> loops without invariants

    def emit(self, text, origin=None):
        if text:
            self.out.append((text, origin))

    # -------------------------------------------------------------- edits of expressions
    def body_edits(self, src, fn, c):
        """(a, b, replacement) edits inside a function body."""
        ed = []
        t = fn.toks
        lo, hi = fn.i_fn, fn.i_end
        for i in range(lo, hi):
            if t[i].k == 'ident' and t[i].s in ('to_be_bytes',) and t[i - 1].s == '.':
                ed.append((t[i].a, t[i].b, 'vx_' + t[i].s))
                self.note('`.to_be_bytes()` -> `.vx_to_be_bytes()` (contracted wrapper of the same call)')
            if t[i].k == 'ident' and t[i].s == 'extend' and t[i - 1].s == '.' and t[i + 1].s == '(':
                ed.append((t[i].a, t[i].b, 'vx_extend'))
                self.note('`.extend(` -> `.vx_extend(` (contracted wrapper of the same call)')
        mutself = [i for i in range(lo, fn.i_body or lo) if t[i].s == 'mut' and t[i + 1].s == 'self'
                   and t[i - 1].s == '(']
        if mutself and fn.i_body:
            m = mutself[0]
            ed.append((t[m].a, t[m + 1].a, ''))
            p = t[fn.i_body].b
            ed.append((p, p, ' let mut vx_self = self; '))
            for i in range(fn.i_body, hi):
                if t[i].s == 'self' and t[i].k == 'ident':
                    ed.append((t[i].a, t[i].b, 'vx_self'))
            self.note('`mut self` -> `self` + `let mut vx_self = self;`')
        ed += self.closure_edits(src, fn, c)
        return ed

    def note(self, what):
        self.rewrites[what] = self.rewrites.get(what, 0) + 1

    def closure_edits(self, src, fn, c):
        """Verus does not look inside closures.  A closure whose body is a comparison free of calls
        becomes its own contract: `|x| E` -> `|x| -> (vr: bool) ensures vr == (E) { E }`.  Others
        get the contract written for them (`@closure N`, `$1` standing for the parameter)."""
        ed = []
        t = fn.toks
        i = fn.i_body + 1
        n = 0
        while i < fn.i_end:
            if t[i].s in ('|', '||') and t[i].k == 'punct' and t[i - 1].s in ('(', ',', '=', 'move', 'return'):
                j = i
                if t[i].s != '||':
                    j = i + 1
                    while t[j].s != '|':
                        if t[j].s in rustlex.OPEN:
                            j = rustlex.match_close(t, j)
                        if t[j].s == '_' and t[j - 1].s in ('|', ','):
                            ed.append((t[j].a, t[j].b, '_vx'))
                            self.note('closure parameter `_` -> `_vx`')
                        j += 1
                b0 = j + 1
                e = b0
                while t[e].s not in (')', ',', ';', ']', '}'):
                    if t[e].s in rustlex.OPEN:
                        e = rustlex.match_close(t, e)
                    e += 1
                expr = t[b0:e]
                param = src[t[i].b:t[j].a] if j > i else ''
                unpack = ''
                if j > i and t[i + 1].s in ('&', '(') and c and n in c.closures and self.patterns:
                    unpack = f'let {param} = vx_p; ' if t[i + 1].s == '(' else f'let {param[1:]} = *vx_p; '
                    ed.append((t[i].b, t[j].a, 'vx_p'))
                    self.note('closure parameter pattern `|P| E` -> `|vx_p| { let P = vx_p; E }`')
                    param = 'vx_p'
                txt = c.closures.get(n) if c else None
                if txt is not None:
                    txt = txt.replace('$1', param.split(':')[0].strip())
                elif t[b0].s not in ('{', '->') and is_comparison(expr):
                    txt = f'-> (vr: bool) ensures vr == ({src[t[b0].a:t[e - 1].b]})'
                    self.note('comparison closures annotated with their own text as contract')
                if txt is None and t[b0].s != '->':
                    self.unannotated[fn.path] = self.unannotated.get(fn.path, 0) + 1
                if txt is not None and t[b0].s != '->':
                    brace = t[b0].s != '{'
                    ed.append((t[b0].a, t[b0].a, ' ' + txt.rstrip() + (' { ' + unpack if brace else ' ')))
                    if unpack and not brace:
                        ed.append((t[b0].b, t[b0].b, ' ' + unpack))
                    if brace:
                        ed.append((t[e - 1].b, t[e - 1].b, ' }'))
                n += 1
                i = b0
                continue
            i += 1
        return ed

    # -------------------------------------------------------------- functions
    def emit_fn(self, src, it, fname):
        fn = it.fn
        t = fn.toks
        c = self.contracts.get(fn.path)
        line = src.count('\n', 0, t[fn.i_fn].a) + 1
        if c and c.drop:
            c.used = True
            self.dropped.append(f'fn {fn.path}')
            return
        if c:
            c.used = True
        self.functions.append((fn.path, fname, line, bool(c and c.spec.strip())))
        self.fn_at.append((fn.path, len(self.out)))
        if fn.i_body:
            self.bodies[fn.path] = [x.s for x in t[fn.i_body:fn.i_end]]
            heads = []
            for k, j in fn.loops():
                if t[k].s == 'for':
                    k = next(x for x in range(k, j) if t[x].s == 'in')
                    heads.append('for_in_' + '_'.join(x.s for x in t[k + 1:j]))
                else:
                    heads.append(t[k].s)
            self.heads[fn.path] = heads
            nl = len(fn.loops()) - (len(c.loops) if c else 0)
            if nl > 0:
                self.new_loops[fn.path] = nl
        edits = []   # (a, b, text, origin)
        for (tx, a, b) in it.attrs:
            if re.match(r'#\[\s*(doc|inline|must_use|cold|allow|deprecated|track_caller)', tx):
                continue
        if c and c.attr:
            edits.append((it.a, it.a, c.attr, ('contract', c.origin)))
            if 'external_body' in c.attr:
                self.trusted.append(fn.path)
        if not c and self.plain_attr:
            edits.append((it.a, it.a, self.plain_attr, ('contract', 'default')))
        # visibility
        if not fn.in_trait_impl and not fn.in_trait:
            if fn.vis:
                edits.append((fn.vis[0], fn.vis[1], 'pub', None))
            else:
                edits.append((fn.qual_at, fn.qual_at, 'pub ', None))
        if c and c.spec.strip():
            sig_end = t[fn.i_where].a if fn.i_where else (t[fn.i_body].a if fn.i_body else t[fn.i_end].a)
            if fn.arrow is not None:
                ta = t[fn.arrow].b
                edits.append((ta, ta, f' ({c.ret}:', ('contract', c.origin)))
                # end of return type = last token before sig_end
                last = (fn.i_where or fn.i_body or fn.i_end) - 1
                edits.append((t[last].b, t[last].b, ')', ('contract', c.origin)))
            at = t[fn.i_body].a if fn.i_body else t[fn.i_end].a
            edits.append((at, at, '\n' + c.spec, ('contract', c.origin)))
        if fn.i_body and c and c.stub:
            edits.append((t[fn.i_body].a, it.b, '{ unimplemented!() }', ('contract', c.origin)))
        elif fn.i_body:
            if c and c.begin:
                p = t[fn.i_body].b
                edits.append((p, p, '\n' + c.begin, ('contract', c.origin)))
            if self.mark and c and c.spec.strip() and 'external_body' not in c.attr:
                p = t[fn.i_body].b
                edits.append((p, p, '\n' + self.mark, ('contract', 'mark')))
            if c and (c.loops or c.loop_begin):
                lp = fn.loops()
                for n, txt in c.loops.items():
                    if n < len(lp):
                        p = t[lp[n][1]].a
                        edits.append((p, p, '\n' + txt, ('contract', c.origin)))
                        if n in c.iters and t[lp[n][0]].s == 'for':
                            k = lp[n][0]
                            while t[k].s != 'in':
                                k = rustlex.match_close(t, k) if t[k].s in rustlex.OPEN else k + 1
                            edits.append((t[k].b, t[k].b, f' {c.iters[n]}:', ('contract', c.origin)))
                        if n in c.loop_begin:
                            p = t[lp[n][1]].b
                            edits.append((p, p, '\n' + c.loop_begin[n], ('contract', c.origin)))
                    else:
                        self.lost.append(f'loop {n} of {fn.path}')
                if len(lp) > len(c.loops):
                    self.lost.append(f'{len(lp) - len(c.loops)} new loop(s) in {fn.path}')
            for (a, b, txt) in self.body_edits(src, fn, c):
                edits.append((a, b, txt, None))
        self.apply(src, it.a, it.b, edits, fname)
        self.emit('\n')

    def apply(self, src, a, b, edits, fname):
        edits = sorted(enumerate(edits), key=lambda e: (e[1][0], e[1][1], e[0]))
        pos = a
        for _, (x, y, txt, org) in edits:
            assert x >= pos, 'overlapping edits'
            self.emit(src[pos:x], (fname, pos))
            self.emit(txt, org)
            pos = y
        self.emit(src[pos:b], (fname, pos))

    # -------------------------------------------------------------- items
    def keep_attr(self, tx):
        return not tx.startswith('#[derive') or True

    def emit_items(self, src, toks, items, fname, modpath, moddir, inside=False):
        for it in items:
            if any(re.match(r'#\[\s*cfg\s*\(\s*test', x[0]) for x in it.attrs):
                self.dropped.append(f'#[cfg(test)] {it.kind} {"::".join(it.path)}')
                continue
            if it.kind == 'innerattr':
                continue
            p = '::'.join(it.path)
            if it.kind == 'fn':
                self.emit_fn(src, it, fname)
            elif it.kind == 'mod':
                if it.inner is None:
                    self.emit_mod_file(it.name, it.path, moddir)
                else:
                    self.open_mod(it.name, it.path)
                    self.emit_items(src, toks, it.children, fname, it.path, os.path.join(moddir, it.name))
                    self.close_mod(it.path)
            elif it.kind in ('impl', 'trait'):
                if self.drop_impl(it, src):
                    self.dropped.append(f'{it.header.strip()}')
                    continue
                self.emit('\n')
                for x in it.attrs:
                    if not x[0].startswith('#[doc'):
                        self.emit(x[0] + '\n', (fname, x[1]))
                hdr = src[toks[it.i0].a:it.inner[0]]
                if it.kind == 'trait':
                    hdr = 'pub ' + hdr
                self.emit(hdr, (fname, toks[it.i0].a))
                self.emit('\n')
                g = self.modtext.get(('impl ' if it.kind == 'impl' else 'trait ') + p)
                if g:
                    self.emit(g, ('contract', p))
                self.emit_items(src, toks, it.children, fname, it.path, moddir, True)
                self.emit('}\n')
            elif it.kind in ('struct', 'enum'):
                self.emit_adt(src, toks, it, fname)
            elif it.kind == 'use':
                self.emit(self.use_text(src, toks, it) + '\n', (fname, it.a))
            elif it.kind in ('type', 'const', 'static'):
                tx = self.const_text(src[toks[it.i0].a:it.b])
                self.emit(('' if inside else 'pub ') + tx + '\n', (fname, toks[it.i0].a))
            elif it.kind in ('macro_rules', 'macrocall'):
                self.emit(src[it.a:it.b] + '\n', (fname, it.a))
            else:
                raise ValueError(f'{fname}: item {it.kind}')

    def use_text(self, src, toks, it):
        tx = src[toks[it.i0].a:it.b]
        if it.vis:
            tx = 'pub ' + tx
        return tx

    def const_text(self, tx):
        return tx

    def drop_impl(self, it, src):
        return any(re.search(x, it.header) for x in self.drop_headers)

    drop_headers = ()
    patterns = False

    def emit_adt(self, src, toks, it, fname):
        p = '::'.join(it.path)
        edits = []
        dflt, fields = False, []
        for (tx, a, b) in it.attrs:
            if tx.startswith('#[derive'):
                new = self.derives(p, tx)
                if it.kind == 'struct' and self.modtext.get('default ' + p) and re.search(r'\bDefault\b', new):
                    new = re.sub(r'\bDefault\b\s*,?\s*', '', new)
                    dflt = True
                edits.append((a, b, new, None))
        if it.vis:
            edits.append((it.vis[0], it.vis[1], 'pub', None))
        else:
            edits.append((toks[it.i0].a, toks[it.i0].a, 'pub ', None))
        if it.kind == 'struct':
            # fields: make public
            i = it.i0
            while i <= it.i1 and toks[i].s not in ('{', '(', ';'):
                if toks[i].s == '<':
                    i = rustlex.skip_angle(toks, i)
                    continue
                i += 1
            if i <= it.i1 and toks[i].s in ('{', '('):
                close = rustlex.match_close(toks, i)
                j = i + 1
                while j < close:
                    while toks[j].s == '#':
                        j = rustlex.match_close(toks, j + 1) + 1
                    if j >= close:
                        break
                    fields.append(toks[j].s)
                    if toks[j].s == 'pub':
                        a = toks[j].a
                        b = toks[j].b
                        k = j + 1
                        if toks[j + 1].s == '(' and toks[j + 2].s in ('crate', 'super', 'in', 'self'):
                            k = rustlex.match_close(toks, j + 1) + 1
                            b = toks[k - 1].b
                        fields[-1] = toks[k].s
                        edits.append((a, b, 'pub', None))
                    else:
                        edits.append((toks[j].a, toks[j].a, 'pub ', None))
                    while j < close and toks[j].s != ',':
                        if toks[j].s in rustlex.OPEN:
                            j = rustlex.match_close(toks, j)
                        elif toks[j].s == '<':
                            j = rustlex.skip_angle(toks, j)
                            continue
                        j += 1
                    j += 1
        self.emit('\n')
        self.apply(src, it.a, it.b, edits, fname)
        self.emit('\n')
        if dflt:
            self.note('#[derive(Default)] -> the impl it stands for')
            body = ', '.join(f'{f}: Default::default()' for f in fields if f != 'pub')
            self.emit(f'impl Default for {it.name} {{\n    fn default() -> (r: Self)\n'
                      f'{self.modtext["default " + p]}    {{ Self {{ {body} }} }}\n}}\n', ('contract', 'default ' + p))

    def derives(self, p, tx):
        return tx

    def open_mod(self, name, path):
        self.emit(f'\npub mod {name} {{\n')
        self.emit(self.modtext.get('*', ''), ('contract', 'prelude'))
        if path:
            self.emit(self.modtext.get(path[0] + '::*', ''), ('contract', 'prelude'))

    def close_mod(self, path):
        m = self.modtext.get('::'.join(path))
        if m:
            self.emit('\n' + m, ('contract', '::'.join(path)))
        self.emit('\n}\n')

    def emit_mod_file(self, name, path, moddir):
        f = os.path.join(moddir, name + '.rs')
        d = os.path.join(moddir, name)
        if not os.path.exists(f):
            f = os.path.join(moddir, name, 'mod.rs')
        self.emit_file(f, name, path, d)

    def emit_file(self, f, name, path, d):
        src = self.load(f)
        self.texts[f] = src
        toks, items = rustlex.parse_file(src, path)
        self.open_mod(name, path)
        self.emit_items(src, toks, items, f, path, d)
        self.close_mod(path)

    def load(self, f):
        return open(f).read()

    def finish(self):
        for c in self.contracts.values():
            if not c.used:
                self.lost.append(f'fn {c.path}')

    def text(self):
        return ''.join(x for x, _ in self.out)

    def fn_lines(self, base=0):
        """[(path, first line, last line)] of every emitted function in the generated text."""
        starts, line = {}, 1 + base
        at = []
        for i, (txt, _) in enumerate(self.out):
            at.append(line)
            line += txt.count('\n')
        at.append(line)
        r = []
        for k, (path, i) in enumerate(self.fn_at):
            j = self.fn_at[k + 1][1] if k + 1 < len(self.fn_at) else len(self.out)
            r.append((path, at[i], at[j]))
        return r

    def line_map(self, base=0):
        """generated line -> (file, line) for source text; ('contract', what) for inserted text."""
        m, line = {}, 1 + base
        cache = {}
        for txt, org in self.out:
            if org and org[0] != 'contract':
                f, off = org
                if f not in cache:
                    cache[f] = self.texts.get(f) or open(f).read()
                l0 = cache[f].count('\n', 0, off) + 1
                for k in range(txt.count('\n') + 1):
                    m.setdefault(line + k, (f, l0 + k))
                    if txt.strip():
                        m[line + k] = (f, l0 + k)
            elif org:
                for k in range(txt.count('\n') + 1):
                    m.setdefault(line + k, org)
            line += txt.count('\n')
        return m
