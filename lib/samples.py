"""The declarations on which the code the derive macro generates is verified.

One declaration is written here once; from it come the annotated Rust type (what the macro sees), the
type as a term of the specification (what its code must do: contracts/derive/typespec.rs) and, for the
concrete harness, the same term as data."""

RANGE = {f'{s}{w}': ((0, 2 ** w - 1) if s == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)) for s in 'iu' for w in (8, 16, 32, 64)}


def D(kind, name, **k):
    return dict(kind=kind, name=name, **k)


def Int(name, rust, lb=None, ub=None, ext=None):
    return D('INTEGER', name, rust=rust, lb=lb, ub=ub, ext=ext)


def Enum(name, rust, ub, ext=None, lb=0):
    return D('ENUMERATED', name, rust=rust, lb=lb, ub=ub, ext=ext)


def Sized(kind, name, lb=None, ub=None, ext=None):
    return D(kind, name, lb=lb, ub=ub, ext=ext)


def Of(name, item, lb=None, ub=None, ext=None):
    return D('SEQUENCE-OF', name, item=item, lb=lb, ub=ub, ext=ext)


def Seq(name, *fields, ext=False):
    """fields: 'name Type', 'name Type?' (optional), 'name Type!' (key)"""
    fs, opt = [], 0
    for f in fields:
        n, t = f.split()
        o = k = None
        if t.endswith('?'):
            t, o = t[:-1], opt
            opt += 1
        elif t.endswith('!'):
            t, k = t[:-1], True
        fs.append(dict(name=n, ty=t, opt=o, key=bool(k)))
    return D('SEQUENCE', name, fields=fs, nopt=opt, ext=ext)


def Choice(name, *alts, ub, ext=False, lb=0):
    """alts: 'Variant Type key' or 'Variant Type key+' (an extension addition)"""
    r = []
    for a in alts:
        n, t, k = a.split()
        r.append(dict(name=n, ty=t, key=int(k.rstrip('+')), extended=k.endswith('+')))
    return D('CHOICE', name, alts=r, lb=lb, ub=ub, ext=ext)


def Open(name, *alts):
    r = []
    for a in alts:
        n, t, k = a.split()
        r.append(dict(name=n, ty=t, key=int(k), extended=False))
    return D('OPEN', name, alts=r)


SAMPLES = [
    D('BOOLEAN', 'TBool'), D('NULL', 'TNull'), D('OBJECT-IDENTIFIER', 'TOid'),
    Int('IntOne', 'u8', 7, 7), Int('IntSmall', 'u8', 1, 8), Int('IntU8', 'u8', 0, 255), Int('IntNeg', 'i8', -5, 10, False),
    Int('IntI8', 'i8', -128, 127), Int('IntExt', 'u8', 1, 100, True), Int('IntU16', 'u16', 0, 65535), Int('IntOff', 'u16', 300, 555),
    Int('IntI16', 'i16', -32768, 32767), Int('IntBig', 'u32', 1000, 70000), Int('IntU32', 'u32', 0, 4294967295),
    Int('IntI32Ext', 'i32', -2147483648, 2147483647, True), Int('IntI64', 'i64', -2 ** 63, 2 ** 63 - 1), Int('IntU64', 'u64', 0, 2 ** 64 - 1),
    Int('IntSemi', 'i64', -1), Int('IntSemiU', 'u64', 0), Int('IntUpper', 'i32', None, 10), Int('IntAny', 'i64'), Int('IntAnyExt', 'i16', None, None, True),
    Int('IntNarrow', 'u8', 0, 1000),
    Enum('EnumTwo', 'u8', 1), Enum('EnumOne', 'u8', 0, False), Enum('EnumExt', 'u8', 4, True), Enum('EnumWide', 'u16', 299), Enum('EnumNarrow', 'u8', 299, True),
    Sized('BITSTRING', 'BitsAny'), Sized('BITSTRING', 'BitsFix8', 8, 8), Sized('BITSTRING', 'BitsFix20', 20, 20, False), Sized('BITSTRING', 'BitsVar', 1, 160, True),
    Sized('BITSTRING', 'BitsMin', 4), Sized('BITSTRING', 'BitsMax', None, 30),
    Sized('OCTET-STRING', 'OctAny'), Sized('OCTET-STRING', 'OctFix2', 2, 2), Sized('OCTET-STRING', 'OctFix4', 4, 4, True), Sized('OCTET-STRING', 'OctVar', 0, 3),
    Sized('OCTET-STRING', 'OctVarExt', 3, 8, True), Sized('OCTET-STRING', 'OctLarge', 1, 65536, False),
    Sized('PrintableString', 'PrintExt', 1, 150, True), Sized('PrintableString', 'PrintOne', 0, 1), Sized('PrintableString', 'PrintAny'),
    Sized('VisibleString', 'VisFix2', 2, 2, False), Sized('VisibleString', 'VisVar', 2, 16), Sized('UTF8String', 'Utf8Any'), Sized('UTF8String', 'Utf8Sized', 1, 150, True),
    # SEQUENCE OF
    Of('OfFix', 'IntU16', 3, 3), Of('OfVar', 'EnumTwo', 0, 5), Of('OfExt', 'IntU8', 1, 4, True), Of('OfAny', 'TBool', None, None), Of('OfMin', 'OctVar', 1, None, False),
    Of('OfLarge', 'IntSmall', 1, 70000), Of('OfMax', 'BitsVar', None, 40),
    # SEQUENCE
    Seq('SeqEmpty'), Seq('SeqEmptyExt', ext=True),
    Seq('SeqPlain', 'a IntU8', 'b TBool', 'c OctAny'),
    Seq('SeqOpt', 'a IntSmall', 'b IntU16?', 'c TBool', 'd PrintExt?', 'e EnumTwo?'),
    Seq('SeqExt', 'a TBool', 'b IntU8', ext=True),
    Seq('SeqOptExt', 'a OctVar?', 'b BitsFix8', 'c TNull?', ext=True),
    Seq('SeqSix', *[f'f{i} TBool?' for i in range(6)]),
    Seq('SeqMix', 'a TBool?', 'b IntU8', 'c EnumTwo?', 'd TBool', 'e IntSmall', 'f TBool?', 'g TBool', ext=True),
    Seq('SeqNested', 'a SeqOpt', 'b OfVar', 'c SeqExt?', 'd IntAny'),
    Of('OfSeq', 'SeqOpt', 0, 200), Of('OfOf', 'OfVar', 1, 2, True),
    # CHOICE
    Choice('ChoiceThree', 'A IntU8 0', 'B SeqOpt 1', 'C TBool 2', ub=2),
    Choice('ChoiceOne', 'Only OctAny 0', ub=0),
    Choice('ChoiceExt', 'A IntU16 0', 'B TNull 1', 'X IntU8 0+', 'Y TBool 1+', ub=1, ext=True),
    Choice('ChoiceWide', 'A TBool 0', 'B IntU8 5', 'C TNull 299', ub=299),
    Choice('ChoiceNest', 'A ChoiceThree 0', 'B OfVar 1', 'C ChoiceExt 2', 'D IntSemi 3', ub=3, ext=True),
    # Open types, and the SEQUENCEs that carry their keys
    Open('OpenSmall', 'A IntU8 1', 'B TBool 2', 'C OctAny 300'),
    Seq('Carrier', 'id IntU16!', 'crit EnumTwo', 'value OpenSmall'),
    Of('Carriers', 'Carrier', 0, 65535),
    Seq('Message', 'items Carriers', 'note Utf8Any?', ext=True),
    Open('OpenNest', 'A Message 0', 'B Carrier 7', 'C TNull 8', 'D SeqOptExt 65535'),
    Seq('Outer', 'id IntU16!', 'inner Carrier', 'value OpenNest', 'more OpenNest?'),
    Seq('TwoKeys', 'id IntU16!', 'value OpenSmall', 'id2 IntSmall!', 'value2 OpenSmall', 'id3 EnumWide!', 'value3 OpenNest?'),
    Seq('NoKey', 'flag TBool', 'value OpenSmall?'),
    Seq('Lent', 'id IntU8!', 'body NoKey', 'either ChoiceKeyed'),
    Seq('LateOpen', 'id IntU16!', 'inner Carrier?', 'crit EnumTwo', 'value OpenSmall?'),
    Open('OpenLow', 'N TBool 0', 'M IntU8 5'),
    Open('OpenDown', 'Z OpenLow 0', 'P NoKey 1', 'Q OpenLow 5'),
    Choice('ChoiceKeyed', 'A OpenSmall 0', 'B Carrier 1', 'C NoKey 2', ub=2, ext=True),
    Choice('Pdu', 'Initiating Outer 0', 'Successful TwoKeys 1', 'Unsuccessful Lent 2', ub=2, ext=True),
]

# Compared with the executable specification only (bounded).
MORE = [
    Seq('SeqNine', *[f'f{i} TBool?' for i in range(9)]),
    Seq('SeqMany', *[f'f{i} {("TBool?", "IntSmall", "EnumTwo?", "TBool?")[i % 4]}' for i in range(24)], ext=True),
    Seq('SeqLots', *[f'f{i} TBool?' for i in range(70)], ext=True),
    Seq('SeqLong', *[f'f{i} {("TBool", "IntSmall")[i % 2]}' for i in range(20)]),
    *[Int(f'IntB{i}', t, lo, hi, x) for i, (t, lo, hi, x) in enumerate([
        ('u8', 0, 1, None), ('u8', 0, 2, None), ('u8', 0, 3, True), ('u8', 3, 9, None), ('u8', 0, 63, None), ('u8', 0, 64, None), ('u8', 0, 127, None), ('u8', 0, 254, None),
        ('u16', 0, 256, None), ('u16', 1, 256, None), ('u16', 1, 65535, None), ('u32', 0, 65536, None), ('u32', 1, 65536, None), ('i32', -65536, 65535, True),
        ('u32', 0, 16777215, None), ('u32', 0, 16777216, None), ('i16', -1, 0, None), ('i8', -128, -1, None), ('i16', -1000, 1000, None), ('i32', -2147483648, 0, None),
        ('u64', 1, 2 ** 40, None), ('i64', -1, 2 ** 62, None), ('u64', 0, 2 ** 56 - 1, None), ('u64', 10, None, True), ('i8', -128, None, None), ('i64', None, -5, None), ('u32', 255, 255, True)])],
    *[Enum(f'EnumB{i}', t, ub, x) for i, (t, ub, x) in enumerate([('u8', 2, None), ('u8', 7, None), ('u8', 8, True), ('u8', 63, True), ('u8', 64, False), ('u8', 255, None), ('u16', 256, True), ('u16', 65535, None)])],
    *[Sized(k, f'{p}B{i}', lo, hi, x) for k, p in (('BITSTRING', 'Bits'), ('OCTET-STRING', 'Oct'), ('PrintableString', 'Print'), ('VisibleString', 'Vis')) for i, (lo, hi, x) in enumerate([
        (0, 0, None), (1, 1, None), (1, 2, True), (3, 3, None), (16, 16, None), (17, 17, True), (0, 16, None), (2, None, True), (None, 2, None), (0, 255, None), (0, 256, True), (0, 65535, None), (5, 65536, None), (64, 64, True)])],
    *[Of(f'OfB{i}', it, lo, hi, x) for i, (it, lo, hi, x) in enumerate([
        ('TBool', 0, 0, None), ('TBool', 1, 1, True), ('IntU8', 0, 1, None), ('TBool', 0, 255, None), ('TBool', 0, 256, True), ('TBool', 2, 65535, None), ('TBool', 0, 65536, True), ('IntU16', 10, None, True),
        ('SeqMix', 1, 256, None), ('ChoiceThree', 0, 16, True), ('TNull', 0, 300, None), ('OctAny', None, 5, True)])],
    Choice('ChoiceTen', *[f'V{i} {("TBool", "IntU8", "TNull")[i % 3]} {i}' for i in range(10)], ub=9),
    Choice('ChoiceRev', 'A TBool 2', 'B IntU8 1', 'C TNull 0', ub=2, ext=True),
    Choice('ChoiceBig', 'A TBool 0', 'B IntU8 255', 'C TNull 65535', ub=65535),
    Open('OpenMany', *[f'V{i} {("TBool", "IntU8", "TNull", "SeqMix")[i % 4]} {k}' for i, k in enumerate([0, 1, 2, 7, 8, 127, 128, 255, 256, 300, 65535])]),
    Seq('CarrierMany', 'id IntU16!', 'value OpenMany'),
    Of('CarriersMany', 'CarrierMany', 0, 65535),
    Seq('CarrierSigned', 'id IntI16!', 'value OpenMany?'),
    Seq('KeyLast', 'value OpenSmall', 'id IntU16!'),
    Seq('KeyTwice', 'id IntU16!', 'a OpenSmall', 'inner Carriers', 'b OpenMany', 'c Outer', 'd OpenSmall?', ext=True),
]


def ordered():
    """Declarations after those they use."""
    by = {s['name']: s for s in SAMPLES}
    done, out = set(), []

    def uses(s):
        return [f['ty'] for f in s.get('fields', ())] + [a['ty'] for a in s.get('alts', ())] + ([s['item']] if 'item' in s else [])

    def go(n):
        if n in done:
            return
        done.add(n)
        for u in uses(by[n]):
            go(u)
        out.append(by[n])
    for s in SAMPLES:
        go(s['name'])
    return out


def closure(names):
    by = {s['name']: s for s in SAMPLES}
    seen, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        s = by[n]
        todo += [f['ty'] for f in s.get('fields', ())] + [a['ty'] for a in s.get('alts', ())] + ([s['item']] if 'item' in s else [])
    return seen


STR = {'UTF8String', 'PrintableString', 'VisibleString'}


def rust(samples, derive, attrs=''):
    """The annotated types."""
    out = []
    b = {True: 'true', False: 'false'}
    for s in samples:
        k, n = s['kind'], s['name']
        a = [f'type = "{k}"']
        if k in ('INTEGER', 'ENUMERATED', 'CHOICE'):
            if s['ext'] is not None:
                a.append(f'extensible = {b[s["ext"]]}')
            a += [f'{x} = "{s[x]}"' for x in ('lb', 'ub') if s[x] is not None]
        elif k in STR or k in ('BITSTRING', 'OCTET-STRING', 'SEQUENCE-OF'):
            if s['ext'] is not None:
                a.append(f'sz_extensible = {b[s["ext"]]}')
            a += [f'sz_{x} = "{s[x]}"' for x in ('lb', 'ub') if s[x] is not None]
        elif k == 'SEQUENCE':
            a.append(f'extensible = {b[s["ext"]]}')
            if s['nopt']:
                a.append(f'optional_fields = {s["nopt"]}')
        out.append(f'#[derive({derive})]\n#[asn({", ".join(a)})]\n{attrs}')
        inner = {'INTEGER': s.get('rust'), 'ENUMERATED': s.get('rust'), 'BOOLEAN': 'bool', 'BITSTRING': 'BitVec<u8, Msb0>',
                 'OCTET-STRING': 'Vec<u8>', 'SEQUENCE-OF': f'Vec<{s.get("item")}>'}.get(k, 'String' if k in STR else None)
        if inner:
            out.append(f'pub struct {n}(pub {inner});\n')
        elif k in ('NULL', 'OBJECT-IDENTIFIER'):
            out.append(f'pub struct {n};\n')
        elif k == 'SEQUENCE':
            out.append(f'pub struct {n} {{\n')
            for f in s['fields']:
                if f['opt'] is not None:
                    out.append(f'    #[asn(optional_idx = {f["opt"]})]\n    pub {f["name"]}: Option<{f["ty"]}>,\n')
                elif f['key']:
                    out.append(f'    #[asn(key_field = true)]\n    pub {f["name"]}: {f["ty"]},\n')
                else:
                    out.append(f'    pub {f["name"]}: {f["ty"]},\n')
            out.append('}\n')
        else:
            out.append(f'pub enum {n} {{\n')
            for v in s['alts']:
                e = f', extended = {b[v["extended"]]}' if k == 'CHOICE' else ''
                out.append(f'    #[asn(key = {v["key"]}{e})]\n    {v["name"]}({v["ty"]}),\n')
            out.append('}\n')
    return ''.join(out)


if __name__ == '__main__':
    print(rust(SAMPLES, 'asn1_codecs_derive::AperCodec'))
