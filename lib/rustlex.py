"""A small Rust lexer and item scanner, enough to splice contracts into real source text.

Nothing here interprets the code: it finds where items, signatures, bodies and loops begin and
end, so that the verified file is the source text plus insertions."""
import re

IDENT = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*')
RAWSTR = re.compile(r'(?:b|c)?r(#*)"')
PUNCT3 = ('..=', '...', '<<=', '>>=')
PUNCT2 = ('::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=',
          '&=', '|=', '..')


class Tok:
    __slots__ = ('k', 's', 'a', 'b')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f'{self.k}:{self.s}'


def lex(src):
    """Tokens (comments dropped).  k in ident, num, str, char, life, punct."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif src.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
            continue
        m = RAWSTR.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.index(end, m.end()) + len(end)
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in 'bc' and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == 'b' and i + 1 < n and src[i + 1] == "'"):
            s = i + (1 if c == "'" else 2)
            if src[s] == '\\':
                j = src.index("'", s + 2) + 1
                out.append(Tok('char', src[i:j], i, j))
                i = j
                continue
            if s + 1 < n and src[s + 1] == "'":
                out.append(Tok('char', src[i:s + 2], i, s + 2))
                i = s + 2
                continue
            m = IDENT.match(src, s)
            j = m.end()
            out.append(Tok('life', src[i:j], i, j))
            i = j
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok('ident', m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            out.append(Tok('num', m.group(), i, m.end()))
            i = m.end()
            continue
        for p in PUNCT3 + PUNCT2:
            if src.startswith(p, i):
                out.append(Tok('punct', p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok('punct', c, i, i + 1))
            i += 1
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


def match_close(t, i):
    """Index of the token closing the bracket at i."""
    d = 0
    for j in range(i, len(t)):
        s = t[j].s
        if t[j].k == 'punct':
            if s in OPEN:
                d += 1
            elif s in (')', ']', '}'):
                d -= 1
                if d == 0:
                    return j
    raise ValueError('unbalanced bracket')


def skip_angle(t, i):
    """i at '<'; index after the matching '>' (types and generics only)."""
    d = 0
    while i < len(t):
        s = t[i].s
        if t[i].k == 'punct':
            if s == '<':
                d += 1
            elif s == '<<':
                d += 2
            elif s == '>':
                d -= 1
            elif s == '>>':
                d -= 2
            elif s == '>=' or s == '>>=':
                d -= s.count('>')
            elif s in OPEN:
                i = match_close(t, i)
        i += 1
        if d <= 0:
            return i
    raise ValueError('unbalanced <')


class Fn:
    """A function: token indices into its file's token list."""

    def __init__(self, path, name, toks, i_fn, i_params, arrow, i_where, i_body, i_end, attrs_at, vis):
        self.path = path          # e.g. aper::AperCodecData::decode_align
        self.name = name
        self.toks = toks
        self.i_fn, self.i_params = i_fn, i_params
        self.arrow = arrow        # token index of '->' or None
        self.i_where = i_where    # token index of 'where' or None
        self.i_body = i_body      # token index of '{' or None (trait method without body: ';')
        self.i_end = i_end        # token index of closing '}' or ';'
        self.attrs_at = attrs_at  # offset where the item begins (attributes included)
        self.vis = vis            # (a,b) offsets of visibility text, or None
        self.in_trait_impl = False
        self.in_trait = False

    def loops(self):
        """Token indices (kw, body '{') of loops, in source order, nested included."""
        res = []
        t, i = self.toks, self.i_body + 1
        while i < self.i_end:
            tk = t[i]
            if tk.k == 'ident' and tk.s in ('loop', 'while', 'for') and t[i - 1].s != '.':
                if tk.s == 'for' and t[i + 1].s == '<':   # for<'a> in types
                    i += 1
                    continue
                j = i + 1
                while t[j].s != '{':
                    if t[j].s in ('(', '['):
                        j = match_close(t, j)
                    j += 1
                res.append((i, j))
            i += 1
        return res

    def text(self, src):
        return src[self.toks[self.i_fn].a:self.toks[self.i_end].b]


class Item:
    def __init__(self, kind, name, path, a, b, i0, i1, attrs):
        self.kind, self.name, self.path = kind, name, path
        self.a, self.b = a, b          # offsets of the whole item, attributes included
        self.i0, self.i1 = i0, i1      # token indices: item keyword .. last token
        self.attrs = attrs             # list of attribute texts
        self.children = []
        self.fn = None
        self.inner = None              # (a,b) offsets of inside of braces
        self.vis = None


def parse_items(src, toks, i, end, path, in_impl=None):
    """Items between token indices i..end."""
    items = []
    while i < end:
        start_i = i
        attrs = []
        while i < end and toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!':
                j += 1
            j2 = match_close(toks, j)
            attrs.append((src[toks[i].a:toks[j2].b], toks[i].a, toks[j2].b))
            i = j2 + 1
        if i >= end:
            if attrs:
                it = Item('innerattr', '', path, toks[start_i].a, attrs[-1][2], start_i, i - 1, attrs)
                items.append(it)
            break
        # separate inner attributes
        inner = [x for x in attrs if x[0].startswith('#!')]
        attrs = [x for x in attrs if not x[0].startswith('#!')]
        for x in inner:
            items.append(Item('innerattr', '', path, x[1], x[2], start_i, start_i, [x]))
        a = attrs[0][1] if attrs else toks[i].a
        vis = None
        if toks[i].s == 'pub':
            va = toks[i].a
            vb = toks[i].b
            i += 1
            if toks[i].s == '(':
                j = match_close(toks, i)
                vb = toks[j].b
                i = j + 1
            vis = (va, vb)
        k0 = i
        # qualifiers
        while toks[i].s in ('const', 'async', 'unsafe', 'extern', 'default') and \
                (toks[i + 1].s in ('fn', 'unsafe', 'extern', 'async', 'impl', 'trait') or
                 (toks[i].s == 'extern' and toks[i + 1].k == 'str')):
            i += 2 if toks[i + 1].k == 'str' else 1
        kw = toks[i].s
        if kw == 'fn':
            name = toks[i + 1].s
            i_fn = i
            j = i + 2
            if toks[j].s == '<':
                j = skip_angle(toks, j)
            i_params = j
            j = match_close(toks, j) + 1
            arrow = None
            if toks[j].s == '->':
                arrow = j
                j += 1
            i_where = None
            while toks[j].s not in ('{', ';'):
                if toks[j].s == 'where':
                    i_where = j
                if toks[j].s in ('(', '['):
                    j = match_close(toks, j)
                elif toks[j].s == '<':
                    j = skip_angle(toks, j) - 1
                j += 1
            if toks[j].s == '{':
                i_body = j
                i_end = match_close(toks, j)
            else:
                i_body = None
                i_end = j
            it = Item('fn', name, path + [name], a, toks[i_end].b, k0, i_end, attrs)
            it.fn = Fn('::'.join(path + [name]), name, toks, i_fn, i_params, arrow, i_where, i_body,
                       i_end, a, vis)
            it.fn.qual_at = toks[k0].a
            it.vis = vis
            items.append(it)
            i = i_end + 1
            continue
        if kw in ('mod', 'impl', 'trait', 'struct', 'enum', 'union', 'type', 'use', 'static', 'const',
                  'extern') or (kw == 'macro_rules' and toks[i + 1].s == '!'):
            name = toks[i + 1].s if i + 1 < end else ''
            if kw == 'macro_rules':
                name = toks[i + 2].s
            j = i + 1
            if kw == 'impl' and toks[j].s == '<':
                j = skip_angle(toks, j)
            hdr0 = j
            while toks[j].s not in ('{', ';'):
                if toks[j].s in ('(', '['):
                    j = match_close(toks, j)
                elif toks[j].s == '=' and kw in ('static', 'const', 'type'):
                    while toks[j].s != ';':
                        if toks[j].s in OPEN:
                            j = match_close(toks, j)
                        j += 1
                    break
                elif kw == 'use' and toks[j].s == '::' and toks[j + 1].s == '{':
                    j = match_close(toks, j + 1)
                j += 1
            brace = None
            if kw == 'use' and toks[j].s == '{':
                j = match_close(toks, j) + 1
            elif toks[j].s == '{':
                brace = j
                j = match_close(toks, j)
            if kw == 'macro_rules' and j + 1 < end and toks[j + 1].s == ';' and brace is None:
                j += 1
            trait_impl = False
            if kw == 'impl':
                # header: [Trait for] Type
                stop = brace
                seg, h, tr = [], hdr0, False
                while h < stop:
                    if toks[h].s == 'where':
                        break
                    if toks[h].s == '<':
                        h = skip_angle(toks, h)
                        continue
                    if toks[h].s == 'for':
                        tr = True
                        seg = []
                    elif toks[h].k == 'ident':
                        seg.append(toks[h].s)
                    h += 1
                name = seg[-1] if seg else '?'
                trait_impl = tr
            it = Item(kw, name, path + [name], a, toks[j].b, k0, j, attrs)
            it.vis = vis
            it.header = src[toks[k0].a:toks[brace].a] if brace is not None else src[toks[k0].a:toks[j].b]
            if brace is not None:
                it.inner = (toks[brace].b, toks[j].a)
                it.brace = brace
            if kw in ('mod', 'impl', 'trait') and brace is not None:
                it.children = parse_items(src, toks, brace + 1, j, path + [name], kw)
                for ch in it.children:
                    if ch.fn:
                        ch.fn.in_trait_impl = trait_impl
                        ch.fn.in_trait = kw == 'trait'
            items.append(it)
            i = j + 1
            continue
        # macro call item or stray token: name ! ( ) ;
        if toks[i].k == 'ident' and i + 1 < end and (toks[i + 1].s == '!' or toks[i + 1].s == '::'):
            j = i + 1
            while toks[j].s not in OPEN:
                j += 1
            br = toks[j].s
            j = match_close(toks, j)
            if br != '{' and j + 1 < end and toks[j + 1].s == ';':
                j += 1
            items.append(Item('macrocall', kw, path + [kw], a, toks[j].b, k0, j, attrs))
            i = j + 1
            continue
        if toks[i].s == ';':
            i += 1
            continue
        raise ValueError(f'cannot parse item at offset {toks[i].a}: {src[toks[i].a:toks[i].a + 60]!r}')
    return items


def parse_file(src, path):
    toks = lex(src)
    return toks, parse_items(src, toks, 0, len(toks), path)


def walk(items):
    for it in items:
        yield it
        yield from walk(it.children)
