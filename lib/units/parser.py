"""/repo/asn-compiler's parser, every function `parse` can reach, under contract."""
import os
import re
import rustlex
import vx
from units import tokenizer

HERE = tokenizer.HERE
DIR = tokenizer.DIR

CHAINS = [
    ('. iter ( ) . zip ( tokens . iter ( ) ) . all (', '.vx_zip_all(tokens, '),
    ('. iter ( ) . map (', '.vx_iter_map('),
    ('. collect :: < Vec < & str > > ( )', ''),
    ('. collect :: < Vec < String > > ( )', ''),
    ('. join (', '.vx_join('),
    ('. parse :: < u32 > ( )', '.vx_parse_u32()'),
    ('. split ( Token :: is_and_identifier ) . next ( )', '.vx_split_first(Token::is_and_identifier)'),
    ('WELL_KNOWN_OID_NAMES . get (', 'crate::stdx2::vx_oid_name('),
    ('. retain (', '.vx_retain('),
    ('. iter ( ) . any ( Token ::', '.vx_iter_any(Token::'),
    ('. clone ( )', '.clone()'),
]
CHAINS = [(a.split(), b) for a, b in CHAINS]
OUTSIDE = ('topological_sort', 'lazy_static')


def known():
    """Loops of each function as of the tree the contracts were written for (dev/known.py writes it)."""
    f = os.path.join(DIR, 'known.txt')
    return {a: b for a, b in (x.split() for x in open(f))} if os.path.exists(f) else {}


class X(tokenizer.X):
    drop_headers = tokenizer.X.drop_headers + (r'impl .*std::fmt::Debug for',)
    cone = None                       # names of the functions the roots can reach, None: all

    def __init__(self, *a):
        super().__init__(*a)
        self.known, self.shape = known(), {}

    def load(self, f):
        src = super().load(f)
        if f.endswith('error.rs'):
            src = src.replace('format!($($arg)*)', 'vx_format!($($arg)*)')
            self.note('format!, eprintln! -> macros that evaluate the arguments and yield an arbitrary text')
        if '/parser/' in f:
            src = self.hoist(src)
            src = re.sub(r'\beprintln!', 'vx_format!', src)
        if f.endswith('structs/defs.rs'):
            src = self.defs_macros(src)
        return src

    def hoist(self, src):
        """A function defined inside another one -> a function of the module."""
        t = rustlex.lex(src)
        cut, depth, i, fns = [], 0, 0, []
        stack = []
        while i < len(t):
            s = t[i].s
            if s == 'fn' and t[i + 1].k == 'ident' and t[i + 2].s == '(':
                j = rustlex.match_close(t, i + 2)
                while t[j].s not in ('{', ';'):
                    j += 1
                if t[j].s == '{':
                    if stack and stack[-1] > i:
                        e = rustlex.match_close(t, j)
                        cut.append((t[i].a, t[e].b))
                        i = e + 1
                        continue
                    stack = [rustlex.match_close(t, j)]
                    i = j + 1
                    continue
            if stack and i >= stack[-1]:
                stack = []
            i += 1
        tail = ''
        test = src.find('#[cfg(test)]')
        for a, b in reversed(cut):
            if 0 <= test < a:
                continue
            body = src[a:b]
            self.note('function inside a function -> function of the same module')
            tail += '\n' + body + '\n'
            src = src[:a] + re.sub(r'[^\n]', ' ', body) + src[b:]
            test = src.find('#[cfg(test)]')
        return src + tail

    def defs_macros(self, src):
        """is_assignment_kind!, get_inner! are about definitions after parsing: left out."""
        for name in ('is_assignment_kind', 'get_inner'):
            while True:
                m = re.search(r'(macro_rules!\s*)?\b%s\b!?\s*\{' % name, src)
                if not m:
                    break
                t = rustlex.lex(src)
                k = next(i for i in range(len(t)) if t[i].a == m.end() - 1)
                e = rustlex.match_close(t, k)
                src = src[:m.start()] + re.sub(r'[^\n]', ' ', src[m.start():t[e].b]) + src[t[e].b:]
        return src

    def derives(self, p, tx):
        tx = super().derives(p, tx)
        if p.startswith('parser::'):
            tx = re.sub(r'\bDebug\b\s*,?\s*', '', tx)
            if re.search(r'structs::(types|defs)::', p) and 'Copy' not in tx and re.search(r'\bClone\b', tx):
                tx = re.sub(r'\bClone\b\s*,?\s*', '', tx)
                self.cloned.append(p.split('::')[-1])
            if re.match(r'#\[derive\(\s*\)\]', tx):
                tx = ''
        return tx

    def emit_adt(self, src, toks, it, fname):
        self.cloned = []
        super().emit_adt(src, toks, it, fname)
        for n in self.cloned:
            self.note('#[derive(Clone)] of a recursive type -> impl of the same signature, its outcome left open')
            self.emit(f'impl Clone for {n} {{\n    #[verifier::external_body]\n    fn clone(&self) -> Self {{ unimplemented!() }}\n}}\n', ('contract', 'clone'))

    def use_text(self, src, toks, it):
        tx = super().use_text(src, toks, it)
        if any(re.search(r'\b%s\b' % x, tx) for x in OUTSIDE):
            self.dropped.append(tx)
            return ''
        tx = re.sub(r'(use |[{,]\s*)int::', r'\1self::int::', tx)
        return re.sub(r'pub\((?:super|crate|in [\w:]+)\)', 'pub', tx)

    def emit_items(self, src, toks, items, fname, modpath, moddir, inside=False):
        keep = [it for it in items if not (it.kind == 'macrocall' and 'lazy_static' in src[it.a:it.b][:40])]
        if len(keep) < len(items):
            self.dropped.append('lazy_static! table of the well-known object identifier names')
        super().emit_items(src, toks, keep, fname, modpath, moddir, inside)

    def emit_fn(self, src, it, fname):
        fn = it.fn
        p = fn.path
        if p.startswith('parser::'):
            if self.cone is not None and p.split('::')[-1] not in self.cone:
                c = self.contracts.setdefault(p, vx.Contract(p))
                c.spec, c.begin, c.loops, c.loop_begin, c.closures, c.stub = '', '', {}, {}, {}, True
                c.attr = '#[verifier::external]\n'
                self.dropped.append(f'body of {p} (parse does not reach it)')
            else:
                self.entries = []
                self.shape[p] = s = '.' + ''.join(fn.toks[k].s[0] for k, _ in fn.loops()) if fn.i_body else '.'
                if p in self.known and self.known[p] != s:
                    self.lost.append(f'{p} has other loops than those its invariants were written for')
                self.default(src, fn)
        super().emit_fn(src, it, fname)

    def default(self, src, fn):
        """The contract of a parsing function nobody wrote one for."""
        t = fn.toks
        e = fn.i_where or fn.i_body or fn.i_end
        sig = re.sub(r'\s+', ' ', src[t[fn.i_fn].a:t[e].a]).strip()
        c = self.contracts.get(fn.path)
        if not re.search(r'\btokens: &\[Token\]', sig) or not re.search(r'-> Result<\(.*, usize\), Error>$', sig):
            return
        if c is None:
            c = self.contracts[fn.path] = vx.Contract(fn.path)
            c.origin = 'default'
        if fn.path not in self.known:
            self.lost.append(f'{fn.path} is new; its contract is the default one')
        rank = ''
        m = re.search(r'^//rank (\d+)$', c.spec, re.M)
        if m or not c.spec.strip():
            rank = m.group(1) if m else '0'
            c.spec = c.spec.replace(m.group(), '') if m else c.spec
        if 'requires' not in c.spec:
            c.spec = '    requires parsable(tokens@)\n    ensures taken(r, tokens@),\n' + c.spec
        if 'decreases' not in c.spec:
            c.spec = c.spec.rstrip().rstrip(',') + f',\n    decreases tokens@.len(), {rank or 0}int\n'
        for n, (k, _) in enumerate(fn.loops() if fn.i_body else ()):
            if n not in c.loops:
                entry = t[k - 1].s in (';', '}', '{')
                c.loops[n] = ('    invariant parsable(tokens@), ' + (f'vx_entry{n} <= ' if entry else '') + 'consumed <= tokens@.len(),\n'
                              + ('    decreases tokens@.len() - consumed,\n' if t[k].s != 'for' else ''))
                if entry:
                    self.entries.append((t[k].a, t[k].a, f'let ghost vx_entry{n} = consumed as int; '))

    def body_edits(self, src, fn, c):
        if not fn.path.startswith('parser::'):
            return super().body_edits(src, fn, c)
        t = fn.toks
        lo, hi = fn.i_body, fn.i_end
        own = []
        bound = {'checker'}
        for i in range(fn.i_fn, hi):
            # names bound by let, parameters and closures, called
            if t[i].s == 'let' and t[i + 1].k == 'ident':
                n = i + 2 if t[i + 1].s == 'mut' else i + 1
                if t[n + 1].s in ('=', ':', ';'):
                    bound.add(t[n].s)
            if t[i].s == '|' and t[i + 1].k == 'ident' and t[i + 2].s == '|':
                bound.add(t[i + 1].s)
            if t[i].s == '|' and t[i + 1].s == '&' and t[i + 3].s == '|':
                bound.add(t[i + 2].s)
        done = set()
        i = lo
        while i < hi:
            hit = False
            for pat, by in CHAINS:
                if t[i].s == pat[0] and [x.s for x in t[i:i + len(pat)]] == pat and by != ''.join(pat):
                    own.append((t[i].a, t[i + len(pat) - 1].b, by))
                    self.note(f'`{"".join(pat)}` -> `{by}` (contracted wrapper of the same call)')
                    done |= set(range(i, i + len(pat)))
                    i += len(pat)
                    hit = True
                    break
            if hit:
                continue
            if t[i].k == 'ident' and t[i].s in bound and t[i + 1].s == '(' and t[i - 1].s not in ('.', '::', 'fn'):
                own.append((t[i].b, t[i].b, '.vx_call'))
                self.note('call through a function value `f(x)` -> `f.vx_call(x)`')
            if t[i].s == 'Token' and t[i + 1].s == '::' and t[i + 2].s.startswith('is_') and t[i + 3].s != '(':
                own.append((t[i].a, t[i].b, 'TokenChecker'))
                self.note('`Token::is_x` used as a value -> the variant of that name')
            if t[i].s in getattr(self, 'hoisted', ('is_min_max_keyword',)) and t[i + 1].s != '(' and t[i - 1].s != 'fn':
                own.append((t[i].a, t[i].a, 'TokenChecker::'))
            if t[i].s == 'SubtypeElements' and t[i + 1].s == '::' and t[i + 3].s in ('}', ';', ',') :
                own.append((t[i].a, t[i].b, 'crate::stdx2::VxSubtype'))
                self.note('enum constructor used as a value -> the variant of that name of an enum of constructors')
            i += 1
        if any(t[k].s == '&' and t[k + 1].s == 'mut' for k in range(fn.i_fn, lo)):
            own += self.split_arms(src, t, lo, hi)
        rest = [e for e in super().body_edits(src, fn, c) if not any(a < e[1] and e[0] < b for a, b, _ in own if a < b)]
        return rest + own + self.entries


    def split_arms(self, src, t, lo, hi):
        """`A { .. } | B { .. } => { E }` -> `A { .. } => { E } B { .. } => { E }`"""
        ed = []
        for i in range(lo, hi):
            if t[i].s == '|' and t[i - 1].s == '}' and t[i + 1].k == 'ident' and t[i + 2].s == '::':
                k = i + 1
                while t[k].s not in ('=>', '|', ';'):
                    k = rustlex.match_close(t, k) + 1 if t[k].s in rustlex.OPEN else k + 1
                if t[k].s == '=>' and t[k + 1].s == '{':
                    e = rustlex.match_close(t, k + 1)
                    ed.append((t[i].a, t[i].b, ' => ' + src[t[k + 1].a:t[e].b]))
                    self.note('match arm `A | B => { E }` binding by mutable reference -> `A => { E } B => { E }`')
        return ed


class Unit(tokenizer.Unit):
    name = 'parser'
    props = ['P02']
    files = ('tokenizer.vc', 'parser.vc')
    modules = ('error', 'tokenizer', 'parser')
    prelude = tokenizer.PRELUDE + ['parse.rs']
    extract = X
    ROOTS = ['parse']
    plain = known()

    def generate(self, repo, external=(), mark=None, dropped=()):
        src = os.path.join(repo, 'asn-compiler/src')
        X.cone = self.reach(src)
        r = super().generate(repo, external, mark, dropped)
        self.last = r[0]
        return r

    def reach(self, src):
        by = {}
        for d, _, fs in os.walk(os.path.join(src, 'parser')):
            for f in fs:
                if f.endswith('.rs'):
                    s = open(os.path.join(d, f)).read()
                    toks, items = rustlex.parse_file(s, ['x'])
                    self.fns(items, by)
        seen, todo = set(), list(self.ROOTS)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for body in by.get(n, ()):
                todo += [x for x in body if x in by and x not in seen]
        return seen

    def fns(self, items, by):
        for it in items:
            if any(re.match(r'#\[\s*cfg\s*\(\s*test', x[0]) for x in it.attrs):
                continue
            if it.kind == 'fn' and it.fn.i_body:
                for k in range(it.fn.i_body, it.fn.i_end):     # functions inside it
                    if it.fn.toks[k].s == 'fn' and it.fn.toks[k + 1].k == 'ident':
                        by.setdefault(it.fn.toks[k + 1].s, []).append(set())
                by.setdefault(it.fn.path.split('::')[-1], []).append({x.s for x in it.fn.toks[it.fn.i_body:it.fn.i_end]})
            elif it.children:
                self.fns(it.children, by)

    def own(self, prop):
        return [p for p, _, _, c in self.last.functions if p.startswith('parser::') and c] if getattr(self, 'last', None) else [], []

    def blame(self, path, kind, clause):
        return ['P02'] if path and path.startswith('parser::') else []

    assumptions = tokenizer.Unit.assumptions + [
        'a module has fewer than 2^31 tokens',
        'the stack is deep enough for the nesting of the text',
    ]
