P = 'use asn1_codecs::aper::{decode::*, encode::*, AperCodecData};\n'
M, DM, DI, EM, EI = ('codecs/src/aper/' + x for x in ('mod.rs', 'decode/mod.rs', 'decode/decode_internal.rs', 'encode/mod.rs', 'encode/encode_internal.rs'))
D = ['codecs']
SEEDS = [
 dict(id='int-64bit-unsigned', property='C01', needs='an unconstrained INTEGER whose encoding takes exactly 8 octets and is negative',
  breaks='decoding returns value + 2^64 instead of the negative value that was encoded', deps=D,
  edits=[(M, '''                    64 => {
                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                            .load_be::<u128>() as i64;''', '''                    64 => {
                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                            .load_be::<u64>();''')],
  main=P + '''fn main() {
    for v in [i64::MIN as i128, -(1i128 << 60), -1, 5, i64::MAX as i128, -(1i128 << 40)] {
        let mut d = AperCodecData::new();
        encode_integer(&mut d, None, None, false, v, false).unwrap();
        let mut d = AperCodecData::from_slice(&d.into_bytes());
        assert_eq!(decode_integer(&mut d, None, None, false).unwrap(), (v, false));
    }
}'''),
 dict(id='int-range-64', property='C01', needs='a constrained INTEGER whose range is exactly 64; encoder and decoder agree with each other',
  breaks='the field is 7 bits wide where X.691 10.5.7.1 prescribes 6', deps=D,
  edits=[(EI, '33..=64 => 6,\n            65..=128 => 7,', '33..=63 => 6,\n            64..=128 => 7,'),
         (DI, '33..=64 => 6,\n                65..=128 => 7,', '33..=63 => 6,\n                64..=128 => 7,')],
  main=P + '''fn main() {
    for (lb, ub, v, want) in [(0, 63, 63, 0xFCu8), (-2, 61, 0, 0x08), (0, 62, 1, 0x04), (0, 64, 64, 0x80)] {
        let mut d = AperCodecData::new();
        encode_integer(&mut d, Some(lb), Some(ub), false, v, false).unwrap();
        assert_eq!(d.into_bytes(), vec![want]);
        let mut d = AperCodecData::from_slice(&[want]);
        assert_eq!(decode_integer(&mut d, Some(lb), Some(ub), false).unwrap(), (v, false));
    }
}'''),
 dict(id='octets-extended-size', property='C02', needs='an extensible size constraint with an upper bound and a received OCTET STRING whose size lies outside the root',
  breaks='the size of an extended OCTET STRING is read as a constrained length instead of a general one', deps=D,
  edits=[(DM, '''    let mut octets = Vec::new();
    loop {
        let length = if is_extended {
            decode_length_determinent(data, None, None, false)?''', '''    let mut octets = Vec::new();
    loop {
        let length = if is_extended {
            decode_length_determinent(data, None, ub, false)?''')],
  main=P + '''fn main() {
    let mut d = AperCodecData::from_slice(&[0x80, 5, 1, 2, 3, 4, 5]);
    assert_eq!(decode_octetstring(&mut d, Some(0), Some(3), true).unwrap(), vec![1, 2, 3, 4, 5]);
    let mut d = AperCodecData::from_slice(&[0x40, 1, 2]);
    assert_eq!(decode_octetstring(&mut d, Some(0), Some(3), true).unwrap(), vec![1, 2]);
}'''),
 dict(id='utf8-length-chars', property='C02', needs='a UTF8String with a character outside ASCII',
  breaks='the length determinant counts characters where the contents are counted in octets', deps=D,
  edits=[(EM, 'encode_length_determinent(data, lb, ub, false, value.len())?;', 'encode_length_determinent(data, lb, ub, false, value.chars().count())?;')],
  main=P + """fn main() {
    for (s, want) in [("ab", vec![2u8, 0x61, 0x62]), ("\\u{e9}", vec![2, 0xC3, 0xA9])] {
        let mut d = AperCodecData::new();
        encode_utf8_string(&mut d, None, None, false, &s.to_string(), false).unwrap();
        assert_eq!(d.into_bytes(), want);
    }
}"""),
 dict(id='length-128', property='C03', needs='a general length determinant of exactly 128',
  breaks='the length 128 is encoded in the one-octet form, whose top bit then reads as the two-octet form', deps=D,
  edits=[(EI, 'if value < 128 {\n        let byte', 'if value <= 128 {\n        let byte')],
  main=P + '''fn main() {
    for (n, want) in [(127usize, vec![127u8]), (128, vec![0x80, 0x80]), (129, vec![0x80, 0x81])] {
        let mut d = AperCodecData::new();
        encode_length_determinent(&mut d, None, None, false, n).unwrap();
        assert_eq!(d.into_bytes(), want);
    }
}'''),
 dict(id='bitvec-truncated', property='C04', needs='a message that ends inside a BIT STRING, a character string or an optional bitmap, read at a non-zero offset',
  breaks='the bounds check ignores the current position, so a truncated message panics instead of being refused', deps=D,
  edits=[(M, '''    fn get_bitvec(&mut self, length: usize) -> Result<BitVec<u8, Msb0>, AperCodecError> {
        if length + self.decode_offset > self.bits.len() {''', '''    fn get_bitvec(&mut self, length: usize) -> Result<BitVec<u8, Msb0>, AperCodecError> {
        if length > self.bits.len() {''')],
  main=P + '''fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut d = AperCodecData::from_slice(&[0x10, 0xAB]);
        decode_bool(&mut d).unwrap();
        decode_bitstring(&mut d, Some(16), Some(16), false).is_err()
    });
    assert_eq!(r.ok(), Some(true));
}'''),
 dict(id='fragment-count-zero', property='C04', needs='a general length whose fragment count is 0 (octet 0xC0), which no encoder produces',
  breaks='a malformed length is accepted as length 0 instead of being an error', deps=D,
  edits=[(DI, '!(1..=4).contains(&length)', '!(0..=4).contains(&length)')],
  main=P + '''fn main() {
    let mut d = AperCodecData::from_slice(&[0xC0, 1, 2, 3]);
    assert!(decode_octetstring(&mut d, None, None, false).is_err());
}'''),
 dict(id='size-lower-bound-large', property='C05', needs='a size constraint with both bounds whose upper bound is 65536 or more, and a string below the lower bound',
  breaks='a string shorter than its size constraint allows is encoded instead of refused', deps=D,
  edits=[(EM, 'if let Some(l) = lb {\n                if value < l as usize {', 'if let (Some(l), None) = (lb, ub) {\n                if value < l as usize {')],
  main=P + '''fn main() {
    for (lb, ub) in [(Some(3), Some(100_000)), (Some(3), None), (Some(3), Some(10))] {
        let mut d = AperCodecData::new();
        assert!(encode_octetstring(&mut d, lb, ub, false, &vec![1, 2], false).is_err());
    }
}'''),
 dict(id='append-unaligned-tail', property='C07', needs='appending a buffer that does not end on an octet boundary and then appending something else',
  breaks='the appended buffer is not padded to an octet boundary', deps=D,
  edits=[(M, '        other.align();\n', '')],
  main=P + '''fn main() {
    let mut d = AperCodecData::new();
    encode_bool(&mut d, true).unwrap();
    let mut o = AperCodecData::new();
    encode_integer(&mut o, Some(0), Some(7), false, 5, false).unwrap();
    d.append_aligned(&mut o);
    encode_bool(&mut d, true).unwrap();
    assert_eq!(d.into_bytes(), vec![0x80, 0xA0, 0x80]);
}'''),
]
