U = 'use asn1_codecs::aper::{AperCodec, AperCodecData};\nuse asn1_codecs_derive::AperCodec;\n'
B = 'codecs_derive/src/'
D = ['codecs', 'derive', 'bitvec', 'log']
SEEDS = [
 dict(id='seqof-element-error', property='D05', needs='a SEQUENCE OF with an element that violates its own constraint',
  breaks='the element is left out silently and encode succeeds, so the list that comes out is not the value', deps=D,
  edits=[(B + 'aper/seqof.rs', 'let _ = elem.encode(data)?;', 'let _ = elem.encode(data);')],
  main=U + """
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "8")]
struct Small(u8);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "1", sz_ub = "16")]
struct List(Vec<Small>);
fn main() {
    let mut d = AperCodecData::new();
    List(vec![Small(1), Small(8)]).encode(&mut d).unwrap();
    assert_eq!(d.into_bytes(), vec![0b0001_000_1, 0b11_000000]);
    let mut d = AperCodecData::new();
    assert!(List(vec![Small(1), Small(9), Small(2)]).encode(&mut d).is_err());
}
"""),
 dict(id='seqof-lenient', property='D04', needs='a message that ends inside the last elements of a SEQUENCE OF',
  breaks='a truncated list is accepted as a shorter one', deps=D,
  edits=[(B + 'aper/seqof.rs', 'items.push(#ty::decode(data)?);', 'match #ty::decode(data) { Ok(item) => items.push(item), Err(_) => break }')],
  main=U + """
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "65535")]
struct Word(u16);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "255")]
struct List(Vec<Word>);
fn main() {
    assert_eq!(List::decode(&mut AperCodecData::from_slice(&[2, 0, 1, 0, 2])).unwrap().0.len(), 2);
    assert!(List::decode(&mut AperCodecData::from_slice(&[2, 0, 1, 0])).is_err());
}
"""),
 dict(id='choice-extended-as-root', property='D03', needs='an extensible CHOICE whose message carries an extension addition',
  breaks='the addition with index n is taken for the root alternative n', deps=D,
  edits=[(B + 'aper/choice.rs', 'if !extended {\n                    match idx {', 'if !extended || idx <= #ub {\n                    match idx {')],
  main=U + """
#[derive(Debug, AperCodec)]
#[asn(type = "BOOLEAN")]
struct Flag(bool);
#[derive(Debug, AperCodec)]
#[asn(type = "CHOICE", lb = "0", ub = "1", extensible = true)]
enum Pick {
    #[asn(key = 0, extended = false)]
    A(Flag),
    #[asn(key = 1, extended = false)]
    B(Flag),
}
fn main() {
    assert!(matches!(Pick::decode(&mut AperCodecData::from_slice(&[0b0110_0000])), Ok(Pick::B(Flag(true)))));
    assert!(Pick::decode(&mut AperCodecData::from_slice(&[0b1000_0001, 0xFF, 0x01, 0x80])).is_err());
}
"""),
 dict(id='charstring-size-ext', property='D01', needs='a PrintableString or VisibleString whose size constraint is extensible',
  breaks='the extension bit is neither written nor read', deps=D,
  edits=[(B + 'aper/charstring.rs', 'let sz_ext = if params.sz_ext.is_some() {', 'let sz_ext = if params.ext.is_some() {')],
  main=U + """
#[derive(Debug, AperCodec)]
#[asn(type = "VisibleString", sz_lb = "1", sz_ub = "150", sz_extensible = true)]
struct Name(String);
fn main() {
    let mut d = AperCodecData::new();
    Name("abc".to_string()).encode(&mut d).unwrap();
    let b = d.into_bytes();
    assert_eq!(b, vec![0b0000_0001, 0b0000_0000, 0x61, 0x62, 0x63]);
    assert_eq!(Name::decode(&mut AperCodecData::from_slice(&b)).unwrap().0, "abc");
}
"""),
 dict(id='optional-swallows-error', property='D02', needs='a message whose presence bit announces an optional field that cannot be decoded',
  breaks='a present field whose contents are invalid is decoded as absent', deps=D,
  edits=[(B + 'aper/seq.rs', 'Some(#ty_ident::decode(data)?)', '#ty_ident::decode(data).ok()')],
  main=U + """
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "4")]
struct Five(u8);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 1)]
struct Pair {
    #[asn(optional_idx = 0)]
    a: Option<Five>,
    b: Five,
}
fn main() {
    let p = Pair::decode(&mut AperCodecData::from_slice(&[0b1_100_010_0])).unwrap();
    assert_eq!((p.a.unwrap().0, p.b.0), (4, 2));
    assert!(Pair::decode(&mut AperCodecData::from_slice(&[0b1_101_010_0])).is_err());
}
"""),
 dict(id='open-type-inner-error', property='D05', needs='an open type holding a value that violates its constraint',
  breaks='the open type is encoded with empty or partial contents instead of being refused', deps=D,
  edits=[(B + 'aper/open.rs', 'Self::#variant_ident(ref v) => v.encode(&mut inner)?,', 'Self::#variant_ident(ref v) => v.encode(&mut inner).unwrap_or_default(),')],
  main=U + """
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "8")]
struct Small(u8);
#[derive(Debug, AperCodec)]
#[asn(type = "OPEN")]
enum Any {
    #[asn(key = 7)]
    A(Small),
}
fn main() {
    let mut d = AperCodecData::new();
    Any::A(Small(3)).encode(&mut d).unwrap();
    assert_eq!(d.into_bytes(), vec![1, 0b010_00000]);
    let mut d = AperCodecData::new();
    assert!(Any::A(Small(9)).encode(&mut d).is_err());
}
"""),
]
