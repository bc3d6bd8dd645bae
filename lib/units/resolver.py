"""/repo/asn-compiler's resolver, with the constraints, under contract."""
import os
import re
import rustlex
import vx
from units import tokenizer, parser

HERE = tokenizer.HERE
DIR = os.path.join(HERE, 'contracts', 'resolver')

CHAINS = [
    ('. resolved_defs . get (', '.resolved_defs.vx_get('),
    ('. parameterized_defs . get (', '.parameterized_defs.vx_get('),
    ('. classes . get (', '.classes.vx_get('),
    ('. resolved_defs . insert (', '.resolved_defs.vx_insert('),
    ('. definitions . get_mut (', '.definitions.vx_get_mut('),
    ('. insert (', '.vx_insert('),
    ('. fields . clone ( )', '.fields.vx_clone()'),
    ('. lookup_table . clone ( )', '.lookup_table.vx_clone()'),
    ('. fields . get (', '.fields.vx_get('),
    (". trim_matches ( | c | matches ! ( c , '{' | '}' ) ) . trim ( ) . to_string ( )", '.vx_bare()'),
    (". trim_matches ( | c | matches ! ( c , '@' | '.' ) ) . to_string ( )", '.vx_undotted()'),
    ('. trim ( ) . to_string ( )', '.vx_trimmed_string()'),
    ('. values ( )', '.vx_values()'),
    ('. definitions . iter ( )', '.definitions'),
    ('. imports . get (', '.imports.vx_get('),
    ('. extend (', '.vx_extend('),
    ('. iter ( ) . min ( )', '.vx_iter_min()'),
    ('. iter ( ) . max ( )', '.vx_iter_max()'),
    ('. iter ( ) . enumerate ( )', '.vx_enumerate()'),
    ('. iter ( ) . map (', '.vx_iter_map('),
    ('. values . contains (', '.values.vx_contains('),
    ('given . contains (', 'given.vx_contains('),
    ('. parse :: < i128 > ( )', '.vx_parse_i128()'),
    ('. parse :: < BaseInteger > ( )', '.vx_parse_i128()'),
    ('. parse :: < u8 > ( )', '.vx_parse_u8()'),
    ('. to_string ( )', '.vx_to_string()'),
    ('std :: cmp :: min (', 'crate::stdr::vx_min('),
    ('std :: cmp :: max (', 'crate::stdr::vx_max('),
]
CHAINS = [(a.split(), b) for a, b in CHAINS]

# not verified
TRUSTED = tuple('resolver::' + x for x in (
    'int::Resolver::get_resolved_types',
))


def known():
    """The functions as of the tree the contracts were written for (dev/known.py writes it)."""
    f = os.path.join(DIR, 'known.txt')
    return {l.split()[0]: l.split()[1:] for l in open(f)} if os.path.exists(f) else {}


class X(parser.X):
    plain_attr = '#[verifier::exec_allows_no_decreases_clause]\n'
    clone_spec = ' -> (r: Self)\n        ensures r == *self'

    def load(self, f):
        src = super().load(f)
        if '/resolver/' in f:
            src = re.sub(r'\be?println!', 'vx_format!', src)
            src = re.sub(r'(?<!\w)format!', 'vx_show!', src)
        return src

    def defs_macros(self, src):
        """is_assignment_kind!, get_inner!: expanded."""
        out = ''
        for name in ('is_assignment_kind', 'get_inner'):
            m = re.search(r'macro_rules!\s*%s\s*\{\s*\(\(([^()]*)\)\)\s*=>\s*\{(.*?)\n    \};' % name, src, re.S)
            u = re.search(r'^%s! \{(.*?)^\}' % name, src, re.S | re.M)
            if m and u:
                params = re.findall(r'\$(\w+)', m.group(1))
                for args in re.findall(r'\(([^()]*)\)', u.group(1)):
                    args = [x.strip() for x in args.split(',')]
                    out += re.sub(r'\$(\w+)', lambda x: args[params.index(x.group(1))] if x.group(1) in params else x.group(), m.group(2)) + '\n'
                self.note(f'{name}! expanded')
        return super().defs_macros(src) + '\n' + out

    def use_text(self, src, toks, it):
        tx = vx.Extract.use_text(self, src, toks, it)
        if re.search(r'\btopological_sort\b', tx):
            self.note('topological_sort::TopologicalSort -> its contract (crate::topo)')
            return tx.replace('topological_sort::', 'crate::topo::')
        return super().use_text(src, toks, it)

    def emit_items(self, src, toks, items, fname, modpath, moddir, inside=False):
        keep = [it for it in items if not (it.kind == 'const' and '&[&str]' in src[it.a:it.b])]
        super().emit_items(src, toks, keep, fname, modpath, moddir, inside)

    def const_text(self, src):
        return vx.Extract.const_text(self, src)

    def derives(self, p, tx):
        tx = super().derives(p, tx)
        if p.startswith('resolver::'):
            tx = re.sub(r'\bDebug\b\s*,?\s*', '', tx)
            if re.search(r'\bClone\b', tx):
                tx = re.sub(r'\s*,?\s*\bClone\b', '', tx)
                self.cloned.append(p.split('::')[-1])
            if re.match(r'#\[derive\(\s*\)\]', tx):
                tx = ''
        return tx

    def emit_adt(self, src, toks, it, fname):
        self.cloned = []
        vx.Extract.emit_adt(self, src, toks, it, fname)
        for n in self.cloned:
            self.note('#[derive(Clone)] -> an assumed impl of the same signature: a clone is equal')
            self.emit(f'impl Clone for {n} {{\n    #[verifier::external_body]\n    fn clone(&self){self.clone_spec}\n    {{ unimplemented!() }}\n}}\n', ('contract', 'clone'))

    def emit_fn(self, src, it, fname):
        fn = it.fn
        p = fn.path
        c = self.contracts.get(p)
        if (p in TRUSTED or p.startswith('parser::')) and c and 'external_body' in c.attr:
            c.stub = True
        elif p in TRUSTED or p.startswith('tokenizer::') or (p.startswith('parser::') and not c):
            c = self.contracts.setdefault(p, vx.Contract(p))
            c.spec, c.begin, c.loops, c.loop_begin, c.closures, c.stub = '', '', {}, {}, {}, True
            c.attr = '#[verifier::external_body]\n' if fn.in_trait_impl else '#[verifier::external]\n'
            self.dropped.append(f'body of {p}')
        vx.Extract.emit_fn(self, src, it, fname)
        if self.contracts.get(p) and self.contracts[p].stub:
            self.new_loops.pop(p, None)
            self.unannotated.pop(p, None)

    def continue_edits(self, t, i):
        """`for P in E { .. if C { A continue; } REST }` -> `for P in E { .. if C { A } else { REST } }`."""
        b = i + 1
        while t[b].s != '{':
            b = (rustlex.match_close(t, b) if t[b].s in rustlex.OPEN else b) + 1
        end = rustlex.match_close(t, b)
        ed, j, start = [], b + 1, True
        while j < end:
            if start and t[j].s == 'if':
                o = j + 1
                while t[o].s != '{':
                    o = (rustlex.match_close(t, o) if t[o].s in rustlex.OPEN else o) + 1
                e = rustlex.match_close(t, o)
                if t[e - 1].s == ';' and t[e - 2].s == 'continue' and t[e + 1].s != 'else':
                    ed += [(t[e - 2].a, t[e - 1].b, ''), (t[e].b, t[e].b, ' else {'), (t[end].a, t[end].a, '}\n')]
                    self.note('`if C { A continue; } REST` at the top of a loop -> `if C { A } else { REST }`')
                j = e + 1
                continue
            start = t[j].s in (';', '}')
            if t[j].s in rustlex.OPEN:
                j = rustlex.match_close(t, j)
                start = t[j].s == '}'
            j += 1
        return ed

    def body_edits(self, src, fn, c):
        ed = self.closure_edits(src, fn, c)
        t = fn.toks
        lo, hi = fn.i_body, fn.i_end
        i = lo
        while i < hi:
            if t[i].s == 'for' and t[i + 1].s == '(':
                # `for (k, v) in M`
                a = rustlex.match_close(t, i + 1) + 2
                b = a
                while t[b].s != '{':
                    b = (rustlex.match_close(t, b) if t[b].s in rustlex.OPEN else b) + 1
                if t[a - 1].s == 'in' and not any(x.s == 'enumerate' for x in t[a:b]):
                    ed.append((t[a].a, t[a].a, '('))
                    ed.append((t[b - 1].b, t[b - 1].b, ').vx_each()'))
                    self.note('`for (K, V) in M` -> `for (K, V) in (M).vx_each()` (contracted wrapper of the same iteration)')
            if t[i].s == 'for':
                ed += self.continue_edits(t, i)
            for pat, by in CHAINS:
                if t[i].s == pat[0] and [x.s for x in t[i:i + len(pat)]] == pat:
                    ed.append((t[i].a, t[i + len(pat) - 1].b, by))
                    self.note(f'`{"".join(pat)}` -> `{by}` (contracted wrapper of the same call)')
                    i += len(pat) - 1
                    if pat[3:4] == ['|'] and fn.path in self.unannotated:
                        self.unannotated[fn.path] -= 1      # the closure is inside of the call
                    break
            i += 1
        return ed


class Unit(tokenizer.Unit):
    name = 'resolver'
    props = ['R01', 'R02', 'R03', 'R04', 'R05']
    dir = DIR
    files = ('resolver.vc', 'refs.vc', 'module.vc')
    modules = ('error', 'tokenizer', 'parser', 'resolver')
    prelude = ['std.rs', 'spec.rs', 'refs.rs', 'module.rs']
    extract = X
    plain = heads = known()

    def generate(self, repo, external=(), mark=None, dropped=()):
        r = super().generate(repo, external, mark, dropped)
        self.last = r[0]
        return r

    def checkers(self, ex, c):
        return 'pub mod checker { use vstd::prelude::*; pub struct TokenChecker; }\n'

    def own(self, prop):
        return [p for p, _, _, c in self.last.functions if c and prop in props_of(p) and 'external_body' not in self.last.contracts[p].attr] if getattr(self, 'last', None) else [], []

    def blame(self, path, kind, clause):
        if not path:
            return []
        if kind == 'entry' and path.endswith('::dependent_references'):
            return []           # what is there before a loop may as well be added behind it
        r = props_of(path)
        if 'R02' in r and kind == 'postcondition':
            r = ['R02'] if 'width' in clause or '.bits' in clause else [x for x in r if x != 'R02']
        return r

    assumptions = [
        'usize is 64 bits wide; the stack is deep enough for the nesting of types',
        'the contracts of the std functions without a vstd contract (contracts/resolver/std.rs: parsing numbers, BTreeMap and HashMap lookup, insertion and get_mut, '
        'minimum and maximum of a sequence, iterator chains, the strings that patterns compare) are assumed; each run compares the executable ones with std',
        '#[derive(Clone)] yields an equal value; derived Debug and the messages of errors are outside the verified text',
        'a parameterized definition expands as apply_params of the parser says (the same parameters give the same type or an error); '
        'what that type is, is compared concretely only',
        'for K, V in a HashMap goes over each of its keys once; a cloned map is equal; which text is shown for a number, or is left of a string without braces, blanks, @ and dots, '
        'is not said (only that it is the same everywhere); the number that stands for an item of an ENUMERATED as a value is left open',
        'resolve_value and the values it yields, dependent_references, definitions_sorted and resolve_definitions are not verified to terminate',
        'resolve_object_classes changes none but the kinds of definitions (contracts/resolver/module.vc); '
        'the parser marks no definition as resolved',
        'topological_sort::TopologicalSort hands out what nothing left has to come before (contracts/resolver/std.rs: topo; each run compares it with the crate); '
        'that refs.rs has every name which the contracts of the resolver look up is read off, not proved',
    ]


BASE = 'resolver::asn::types::base::'
IOC = tuple('resolver::asn::' + x for x in (
    'types::ioc::', 'values::', 'structs::values::', 'structs::types::ioc::', 'defs::resolve_value_definition', 'defs::resolve_object_definition', 'defs::resolve_object_set_definition',
    'types::constructed::resolve_sequence_classfield_components', 'types::constructed::first_constraint', 'types::constructed::resolve_seq_components_for_objects',
    'types::constructed::get_seq_component_for_object_set'))


def props_of(p):
    """The properties that a function's contract is about."""
    if p.endswith(('::dependent_references', '::definitions_sorted')):
        return ['R04']
    if p.startswith('resolver::int::') or p.endswith(('::get_definitions', '::get_definition_mut', '::get_module_name')):
        return ['R03', 'R04', 'R05']
    if p.endswith(('::get_inner_class', '::is_class_assignment', '::get_first_unique_field_id')):
        return ['R05']
    if not p.startswith('resolver::'):
        return []
    if p.startswith(IOC) or p.endswith(('::get_set_reference', '::get_comp_reference', '::get_single_string_value')) or re.search(r'::Asn1Constraint::is_(subtype|single_value|simple_table_constraint)$', p):
        return ['R05']
    if p.startswith('resolver::asn::structs::types::constraints::') or '::types::constraints::' in p or p.endswith(('_from_constraint', '_from_constraints')):
        return ['R01', 'R02'] if p.endswith(('::min', '::max')) else ['R01']
    if p.startswith(BASE + 'integer'):
        return ['R01', 'R02']
    if p.startswith(BASE + 'enumerated'):
        return ['R02', 'R03']
    if p.startswith((BASE + 'octet', )):
        return ['R01']
    if p.startswith((BASE + 'bit', BASE + 'char')) or p.endswith('resolve_sequence_of_type'):
        return ['R01', 'R03']
    return ['R03']
