"""/repo/asn-compiler's tokenizer, every function, under contract."""
import os
import re
import rustlex
import vx

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DIR = os.path.join(HERE, 'contracts', 'parser')
PRELUDE = ['shim.rs', 'words.rs', 'lex.rs']

# method chain -> the contracted wrapper of the same calls
CHAINS = [
    ('. iter ( ) . collect :: < String > ( )', '.vx_iter_string()'),
    ('. windows ( 2 ) . enumerate ( )', '.vx_windows_enum(2)'),
    ('. to_lowercase ( ) . to_string ( )', '.vx_lowercase()'),
    ('. iter ( ) . any (', '.vx_iter_any('),
    ('. iter ( ) . all (', '.vx_iter_all('),
    ('. iter ( ) . position (', '.vx_iter_position('),
    ('. chars ( ) . all (', '.vx_chars_all('),
    ('. lines (', '.vx_lines('),
    ('. replace (', '.vx_replace('),
    ('. contains (', '.vx_contains('),
    ('. starts_with (', '.vx_starts_with('),
    ('char :: is_whitespace', 'VxWhitespace'),
    ('char :: is_lowercase', 'VxIsLower'),
    ('char :: is_uppercase', 'VxIsUpper'),
    ('. text [ 1 .. ]', '.text.vx_tail()'),
    ('] [ .. ]', ']'),
]
CHAINS = [(a.split(), b) for a, b in CHAINS]


class X(vx.Extract):
    patterns = True
    drop_headers = (r'impl .*Display for', r'impl .*std::error::Error for', r'impl From<Error> for')

    def load(self, f):
        src = open(f).read()
        return self.is_fns(src, f)

    def is_fns(self, src, f):
        """create_is_tokentype_fns! { (name, Type), .. } -> the functions its one rule stands for."""
        if f.endswith('tokenizer/types.rs'):
            m = re.search(r'macro_rules!\s*create_is_tokentype_fns\s*\{', src)
            self.is_rule = re.search(r'\(\(\$fn\s*:\s*ident\s*,\s*\$toktype\s*:\s*path\)\)\s*=>\s*\{(.*?)\n    \};', src, re.S).group(1) if m else None
            t = rustlex.lex(src)
            for i in range(len(t)):
                if t[i].s == 'macro_rules' and t[i + 2].s == 'create_is_tokentype_fns':
                    e = rustlex.match_close(t, i + 3)
                    a = t[i].a
                    src = src[:a] + re.sub(r'[^\n]', ' ', src[a:t[e].b]) + src[t[e].b:]
                    break
            m = re.search(r'pub\(crate\) type TokenChecker = fn\(&Token\) -> bool;', src)
            if m:
                src = src.replace(m.group(), 'pub(crate) use crate::checker::TokenChecker;')
                self.note('`type TokenChecker = fn(&Token) -> bool` -> an enum with one variant per function used as a value')
            return src
        m = re.search(r'create_is_tokentype_fns!\s*\{(.*?)\n\s*\}', src, re.S)
        if m:
            types = os.path.join(os.path.dirname(f), 'types.rs')
            keep, self.is_rule = getattr(self, 'is_rule', None), None
            self.is_fns(open(types).read(), types)
            rule = re.sub(r'\s+', ' ', re.sub(r'#\[[^\]]*\]', '', self.is_rule)).strip()
            out, n = '', 0
            for a, b in re.findall(r'\(\s*(\w+)\s*,\s*([\w:]+)\s*\)', m.group(1)):
                out += rule.replace('$fn', a).replace('$toktype', b) + ' '
                n += 1
            out += '\n' * m.group().count('\n')
            src = src.replace(m.group(), out)
            self.note('create_is_tokentype_fns! expanded by its own rule')
        return src

    def const_text(self, src):
        """const T: &[&str] = &[..]  ->  the same constant, with its contents as contract."""
        def f(m):
            spec = {'KEYWORDS': 'keywords', 'BASE_TYPES': 'base_types', 'CONSTRUCTED_TYPES': 'constructed_types',
                    'WITH_SYNTAX_RESERVED_WORDS': 'syntax_words'}.get(m.group(1))
            self.note('string tables: the lifetimes a constant has by elision written out')
            ens = f' ensures views({m.group(1)}@) =~= {spec}()' if spec else ''
            return f'exec const {m.group(1)}: &\'static [&\'static str]{ens} {{ {m.group(2)} }}'
        return re.sub(r'\bconst (\w+): &\[&str\] = (&\[.*?\]);', f, src, flags=re.S)

    def derives(self, p, tx):
        if p.split('::')[-1] in ('TokenType', 'LineColumn'):
            return re.sub(r'\bPartialEq\b', 'PartialEq, Eq', tx)
        return tx

    def open_mod(self, name, path):
        self.emit('\n#[macro_use]')
        super().open_mod(name, path)

    def body_edits(self, src, fn, c):
        ed = self.closure_edits(src, fn, c)
        t = fn.toks
        lo, hi = fn.i_body, fn.i_end
        i = lo
        while i < hi:
            for pat, by in CHAINS:
                if t[i].s == pat[0] and [x.s for x in t[i:i + len(pat)]] == pat:
                    if pat[0] == 'char' and t[i + 3].s == '(':
                        continue
                    ed.append((t[i].a, t[i + len(pat) - 1].b, by))
                    self.note(f'`{"".join(pat)}` -> `{by}` (contracted wrapper of the same call)')
                    i += len(pat) - 1
                    break
            i += 1
        return ed


def contracts(files, d=DIR):
    c, m = {}, {}
    for f in files:
        a, b = vx.read_contracts(os.path.join(d, f), False)
        c.update(a)
        for k, v in b.items():
            m[k] = m.get(k, '') + v
    return c, m


def checkers(ex, c):
    """`TokenChecker = fn(&Token) -> bool`, by its values: one variant per predicate of Token."""
    local = 'crate::parser::asn::types::constraints::is_min_max_keyword(t)' if any(p.endswith('::is_min_max_keyword') for p, _, _, _ in ex.functions) else 'true'
    names = [p.split('::')[-1] for p, _, _, _ in ex.functions if re.match(r'tokenizer::Token::is_\w+$', p)]
    names = [n for n in names if n not in ('is_given_keyword',)]
    o = ('pub mod checker {\n' + ex.modtext.get('*', '') + 'use crate::tokenizer::Token;\nuse crate::tokenizer::types::TokenType;\n'
         '#[allow(non_camel_case_types)]\n#[derive(Clone, Copy)]\npub enum TokenChecker { ' + ', '.join(names + ['is_min_max_keyword']) + ' }\n'
         'impl TokenChecker {\n    pub open spec fn holds(self, t: Token) -> bool {\n        match self {\n')
    for n in names:
        k = c.get('tokenizer::Token::' + n)
        m = re.search(r'ensures r == (.*),\s*$', k.spec.strip()) if k else None
        o += f'            TokenChecker::{n} => {re.sub(chr(92) + "bself" + chr(92) + "b", "t", m.group(1)).replace("*t", "t") if m else "arbitrary()"},\n'
    o += '            TokenChecker::is_min_max_keyword => ' + ('is_kw(t, "MIN"@) || is_kw(t, "MAX"@)' if local != 'true' else 'true') + ',\n        }\n    }\n'
    o += ('    pub fn vx_call(self, t: &Token) -> (r: bool)\n        requires tok_wf(*t)\n        ensures r == self.holds(*t)\n    {\n        match self {\n')
    for n in names:
        o += f'            TokenChecker::{n} => t.{n}(),\n'
    o += '            TokenChecker::is_min_max_keyword => ' + local + ',\n        }\n    }\n}\n}\n'
    return o


T = 'tokenizer::'
LEXERS = [T + x for x in ('tokenize', 'get_string_token', 'get_bit_or_hex_string_token', 'get_at_component_id_list', 'get_number_token',
                          'get_identifier_or_keyword_token', 'get_range_or_extension_token', 'get_assignment_or_colon_token',
                          'get_seq_extension_or_square_brackets_token', 'get_single_char_token', 'get_maybe_comment_token')]


class Unit:
    name = 'tokenizer'
    props = ['P01']
    harness = 'compiler'
    binary = 'hcompiler'
    shim = True
    sources = 'asn-compiler/src'
    files = ('tokenizer.vc',)
    modules = ('error', 'tokenizer')
    prelude = PRELUDE
    extract = X
    dir = DIR
    again = ('--rlimit', '200')

    def generate(self, repo, external=(), mark=None, dropped=()):
        c, m = contracts(self.files, self.dir)
        for f in external:
            k = c.setdefault(f, vx.Contract(f))
            if 'external_body' not in k.attr:
                k.attr = '#[verifier::external_body]\n'
            k.begin, k.loops, k.loop_begin, k.closures, k.stub = '', {}, {}, {}, True
        for f in dropped:
            c.setdefault(f, vx.Contract(f)).drop = True
        ex = self.extract(c, m)
        ex.mark = mark
        pre = '#![feature(print_internals, allocator_api, sized_hierarchy)]\n#![allow(unused)]\nuse vstd::prelude::*;\n'
        for f in self.prelude:
            pre += open(os.path.join(self.dir, f)).read()
        src = os.path.join(repo, 'asn-compiler/src')
        ex.emit('verus! {\n')
        for mod in self.modules:
            ex.emit_mod_file(mod, [mod], src)
        ex.emit(self.checkers(ex, c), ('contract', 'TokenChecker'))
        ex.emit('\n} // verus!\n')
        ex.finish()
        return ex, pre, pre + ex.text() + '\nfn main(){}\n'

    def checkers(self, ex, c):
        return checkers(ex, c)

    def own(self, prop):
        return LEXERS, []

    def blame(self, path, kind, clause):
        return ['P01'] if path in LEXERS else []

    assumptions = [
        'usize is 64 bits wide, and a Vec<char> has at most isize::MAX bytes',
        'the contracts of the std functions without a vstd contract (contracts/parser/shim.rs: readers, String::from_utf8, the iterator '
        'chains any/all/position/windows/lines over slices and text, trim, replace, character classes) are assumed; each run compares '
        'the executable ones with std on random texts and the character classes on every character',
        'what a white-space, lower-case or upper-case character is beyond ASCII, the lines of a text and what trimming removes are std\'s, uninterpreted',
        'memory is not exhausted; Display and Debug of tokens and errors are outside the verified text',
    ]
