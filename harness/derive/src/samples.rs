// Written by dev/gen_derive.py from lib/samples.py.
use bitvec::prelude::*;
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BOOLEAN")]
pub struct TBool(pub bool);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "NULL")]
pub struct TNull;
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OBJECT-IDENTIFIER")]
pub struct TOid;
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "7", ub = "7")]
pub struct IntOne(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "8")]
pub struct IntSmall(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "255")]
pub struct IntU8(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = false, lb = "-5", ub = "10")]
pub struct IntNeg(pub i8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-128", ub = "127")]
pub struct IntI8(pub i8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true, lb = "1", ub = "100")]
pub struct IntExt(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "65535")]
pub struct IntU16(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "300", ub = "555")]
pub struct IntOff(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-32768", ub = "32767")]
pub struct IntI16(pub i16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "1000", ub = "70000")]
pub struct IntBig(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "4294967295")]
pub struct IntU32(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true, lb = "-2147483648", ub = "2147483647")]
pub struct IntI32Ext(pub i32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-9223372036854775808", ub = "9223372036854775807")]
pub struct IntI64(pub i64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "18446744073709551615")]
pub struct IntU64(pub u64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-1")]
pub struct IntSemi(pub i64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0")]
pub struct IntSemiU(pub u64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", ub = "10")]
pub struct IntUpper(pub i32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER")]
pub struct IntAny(pub i64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true)]
pub struct IntAnyExt(pub i16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "1000")]
pub struct IntNarrow(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "1")]
pub struct EnumTwo(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = false, lb = "0", ub = "0")]
pub struct EnumOne(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = true, lb = "0", ub = "4")]
pub struct EnumExt(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "299")]
pub struct EnumWide(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = true, lb = "0", ub = "299")]
pub struct EnumNarrow(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING")]
pub struct BitsAny(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "8", sz_ub = "8")]
pub struct BitsFix8(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = false, sz_lb = "20", sz_ub = "20")]
pub struct BitsFix20(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "1", sz_ub = "160")]
pub struct BitsVar(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "4")]
pub struct BitsMin(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_ub = "30")]
pub struct BitsMax(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING")]
pub struct OctAny(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "2", sz_ub = "2")]
pub struct OctFix2(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "4", sz_ub = "4")]
pub struct OctFix4(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "0", sz_ub = "3")]
pub struct OctVar(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "3", sz_ub = "8")]
pub struct OctVarExt(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = false, sz_lb = "1", sz_ub = "65536")]
pub struct OctLarge(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "1", sz_ub = "150")]
pub struct PrintExt(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "0", sz_ub = "1")]
pub struct PrintOne(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString")]
pub struct PrintAny(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_extensible = false, sz_lb = "2", sz_ub = "2")]
pub struct VisFix2(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "2", sz_ub = "16")]
pub struct VisVar(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "UTF8String")]
pub struct Utf8Any(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "UTF8String", sz_extensible = true, sz_lb = "1", sz_ub = "150")]
pub struct Utf8Sized(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "3", sz_ub = "3")]
pub struct OfFix(pub Vec<IntU16>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "5")]
pub struct OfVar(pub Vec<EnumTwo>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "1", sz_ub = "4")]
pub struct OfExt(pub Vec<IntU8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF")]
pub struct OfAny(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = false, sz_lb = "1")]
pub struct OfMin(pub Vec<OctVar>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "1", sz_ub = "70000")]
pub struct OfLarge(pub Vec<IntSmall>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_ub = "40")]
pub struct OfMax(pub Vec<BitsVar>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct SeqEmpty {
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true)]
pub struct SeqEmptyExt {
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct SeqPlain {
    pub a: IntU8,
    pub b: TBool,
    pub c: OctAny,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 3)]
pub struct SeqOpt {
    pub a: IntSmall,
    #[asn(optional_idx = 0)]
    pub b: Option<IntU16>,
    pub c: TBool,
    #[asn(optional_idx = 1)]
    pub d: Option<PrintExt>,
    #[asn(optional_idx = 2)]
    pub e: Option<EnumTwo>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true)]
pub struct SeqExt {
    pub a: TBool,
    pub b: IntU8,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 2)]
pub struct SeqOptExt {
    #[asn(optional_idx = 0)]
    pub a: Option<OctVar>,
    pub b: BitsFix8,
    #[asn(optional_idx = 1)]
    pub c: Option<TNull>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 6)]
pub struct SeqSix {
    #[asn(optional_idx = 0)]
    pub f0: Option<TBool>,
    #[asn(optional_idx = 1)]
    pub f1: Option<TBool>,
    #[asn(optional_idx = 2)]
    pub f2: Option<TBool>,
    #[asn(optional_idx = 3)]
    pub f3: Option<TBool>,
    #[asn(optional_idx = 4)]
    pub f4: Option<TBool>,
    #[asn(optional_idx = 5)]
    pub f5: Option<TBool>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 3)]
pub struct SeqMix {
    #[asn(optional_idx = 0)]
    pub a: Option<TBool>,
    pub b: IntU8,
    #[asn(optional_idx = 1)]
    pub c: Option<EnumTwo>,
    pub d: TBool,
    pub e: IntSmall,
    #[asn(optional_idx = 2)]
    pub f: Option<TBool>,
    pub g: TBool,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 1)]
pub struct SeqNested {
    pub a: SeqOpt,
    pub b: OfVar,
    #[asn(optional_idx = 0)]
    pub c: Option<SeqExt>,
    pub d: IntAny,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "200")]
pub struct OfSeq(pub Vec<SeqOpt>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "1", sz_ub = "2")]
pub struct OfOf(pub Vec<OfVar>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = false, lb = "0", ub = "2")]
pub enum ChoiceThree {
    #[asn(key = 0, extended = false)]
    A(IntU8),
    #[asn(key = 1, extended = false)]
    B(SeqOpt),
    #[asn(key = 2, extended = false)]
    C(TBool),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = false, lb = "0", ub = "0")]
pub enum ChoiceOne {
    #[asn(key = 0, extended = false)]
    Only(OctAny),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = true, lb = "0", ub = "1")]
pub enum ChoiceExt {
    #[asn(key = 0, extended = false)]
    A(IntU16),
    #[asn(key = 1, extended = false)]
    B(TNull),
    #[asn(key = 0, extended = true)]
    X(IntU8),
    #[asn(key = 1, extended = true)]
    Y(TBool),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = false, lb = "0", ub = "299")]
pub enum ChoiceWide {
    #[asn(key = 0, extended = false)]
    A(TBool),
    #[asn(key = 5, extended = false)]
    B(IntU8),
    #[asn(key = 299, extended = false)]
    C(TNull),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = true, lb = "0", ub = "3")]
pub enum ChoiceNest {
    #[asn(key = 0, extended = false)]
    A(ChoiceThree),
    #[asn(key = 1, extended = false)]
    B(OfVar),
    #[asn(key = 2, extended = false)]
    C(ChoiceExt),
    #[asn(key = 3, extended = false)]
    D(IntSemi),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OPEN")]
pub enum OpenSmall {
    #[asn(key = 1)]
    A(IntU8),
    #[asn(key = 2)]
    B(TBool),
    #[asn(key = 300)]
    C(OctAny),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct Carrier {
    #[asn(key_field = true)]
    pub id: IntU16,
    pub crit: EnumTwo,
    pub value: OpenSmall,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "65535")]
pub struct Carriers(pub Vec<Carrier>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 1)]
pub struct Message {
    pub items: Carriers,
    #[asn(optional_idx = 0)]
    pub note: Option<Utf8Any>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OPEN")]
pub enum OpenNest {
    #[asn(key = 0)]
    A(Message),
    #[asn(key = 7)]
    B(Carrier),
    #[asn(key = 8)]
    C(TNull),
    #[asn(key = 65535)]
    D(SeqOptExt),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 1)]
pub struct Outer {
    #[asn(key_field = true)]
    pub id: IntU16,
    pub inner: Carrier,
    pub value: OpenNest,
    #[asn(optional_idx = 0)]
    pub more: Option<OpenNest>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 1)]
pub struct TwoKeys {
    #[asn(key_field = true)]
    pub id: IntU16,
    pub value: OpenSmall,
    #[asn(key_field = true)]
    pub id2: IntSmall,
    pub value2: OpenSmall,
    #[asn(key_field = true)]
    pub id3: EnumWide,
    #[asn(optional_idx = 0)]
    pub value3: Option<OpenNest>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 1)]
pub struct NoKey {
    pub flag: TBool,
    #[asn(optional_idx = 0)]
    pub value: Option<OpenSmall>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct Lent {
    #[asn(key_field = true)]
    pub id: IntU8,
    pub body: NoKey,
    pub either: ChoiceKeyed,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 2)]
pub struct LateOpen {
    #[asn(key_field = true)]
    pub id: IntU16,
    #[asn(optional_idx = 0)]
    pub inner: Option<Carrier>,
    pub crit: EnumTwo,
    #[asn(optional_idx = 1)]
    pub value: Option<OpenSmall>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OPEN")]
pub enum OpenLow {
    #[asn(key = 0)]
    N(TBool),
    #[asn(key = 5)]
    M(IntU8),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OPEN")]
pub enum OpenDown {
    #[asn(key = 0)]
    Z(OpenLow),
    #[asn(key = 1)]
    P(NoKey),
    #[asn(key = 5)]
    Q(OpenLow),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = true, lb = "0", ub = "2")]
pub enum ChoiceKeyed {
    #[asn(key = 0, extended = false)]
    A(OpenSmall),
    #[asn(key = 1, extended = false)]
    B(Carrier),
    #[asn(key = 2, extended = false)]
    C(NoKey),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = true, lb = "0", ub = "2")]
pub enum Pdu {
    #[asn(key = 0, extended = false)]
    Initiating(Outer),
    #[asn(key = 1, extended = false)]
    Successful(TwoKeys),
    #[asn(key = 2, extended = false)]
    Unsuccessful(Lent),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 9)]
pub struct SeqNine {
    #[asn(optional_idx = 0)]
    pub f0: Option<TBool>,
    #[asn(optional_idx = 1)]
    pub f1: Option<TBool>,
    #[asn(optional_idx = 2)]
    pub f2: Option<TBool>,
    #[asn(optional_idx = 3)]
    pub f3: Option<TBool>,
    #[asn(optional_idx = 4)]
    pub f4: Option<TBool>,
    #[asn(optional_idx = 5)]
    pub f5: Option<TBool>,
    #[asn(optional_idx = 6)]
    pub f6: Option<TBool>,
    #[asn(optional_idx = 7)]
    pub f7: Option<TBool>,
    #[asn(optional_idx = 8)]
    pub f8: Option<TBool>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 18)]
pub struct SeqMany {
    #[asn(optional_idx = 0)]
    pub f0: Option<TBool>,
    pub f1: IntSmall,
    #[asn(optional_idx = 1)]
    pub f2: Option<EnumTwo>,
    #[asn(optional_idx = 2)]
    pub f3: Option<TBool>,
    #[asn(optional_idx = 3)]
    pub f4: Option<TBool>,
    pub f5: IntSmall,
    #[asn(optional_idx = 4)]
    pub f6: Option<EnumTwo>,
    #[asn(optional_idx = 5)]
    pub f7: Option<TBool>,
    #[asn(optional_idx = 6)]
    pub f8: Option<TBool>,
    pub f9: IntSmall,
    #[asn(optional_idx = 7)]
    pub f10: Option<EnumTwo>,
    #[asn(optional_idx = 8)]
    pub f11: Option<TBool>,
    #[asn(optional_idx = 9)]
    pub f12: Option<TBool>,
    pub f13: IntSmall,
    #[asn(optional_idx = 10)]
    pub f14: Option<EnumTwo>,
    #[asn(optional_idx = 11)]
    pub f15: Option<TBool>,
    #[asn(optional_idx = 12)]
    pub f16: Option<TBool>,
    pub f17: IntSmall,
    #[asn(optional_idx = 13)]
    pub f18: Option<EnumTwo>,
    #[asn(optional_idx = 14)]
    pub f19: Option<TBool>,
    #[asn(optional_idx = 15)]
    pub f20: Option<TBool>,
    pub f21: IntSmall,
    #[asn(optional_idx = 16)]
    pub f22: Option<EnumTwo>,
    #[asn(optional_idx = 17)]
    pub f23: Option<TBool>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 70)]
pub struct SeqLots {
    #[asn(optional_idx = 0)]
    pub f0: Option<TBool>,
    #[asn(optional_idx = 1)]
    pub f1: Option<TBool>,
    #[asn(optional_idx = 2)]
    pub f2: Option<TBool>,
    #[asn(optional_idx = 3)]
    pub f3: Option<TBool>,
    #[asn(optional_idx = 4)]
    pub f4: Option<TBool>,
    #[asn(optional_idx = 5)]
    pub f5: Option<TBool>,
    #[asn(optional_idx = 6)]
    pub f6: Option<TBool>,
    #[asn(optional_idx = 7)]
    pub f7: Option<TBool>,
    #[asn(optional_idx = 8)]
    pub f8: Option<TBool>,
    #[asn(optional_idx = 9)]
    pub f9: Option<TBool>,
    #[asn(optional_idx = 10)]
    pub f10: Option<TBool>,
    #[asn(optional_idx = 11)]
    pub f11: Option<TBool>,
    #[asn(optional_idx = 12)]
    pub f12: Option<TBool>,
    #[asn(optional_idx = 13)]
    pub f13: Option<TBool>,
    #[asn(optional_idx = 14)]
    pub f14: Option<TBool>,
    #[asn(optional_idx = 15)]
    pub f15: Option<TBool>,
    #[asn(optional_idx = 16)]
    pub f16: Option<TBool>,
    #[asn(optional_idx = 17)]
    pub f17: Option<TBool>,
    #[asn(optional_idx = 18)]
    pub f18: Option<TBool>,
    #[asn(optional_idx = 19)]
    pub f19: Option<TBool>,
    #[asn(optional_idx = 20)]
    pub f20: Option<TBool>,
    #[asn(optional_idx = 21)]
    pub f21: Option<TBool>,
    #[asn(optional_idx = 22)]
    pub f22: Option<TBool>,
    #[asn(optional_idx = 23)]
    pub f23: Option<TBool>,
    #[asn(optional_idx = 24)]
    pub f24: Option<TBool>,
    #[asn(optional_idx = 25)]
    pub f25: Option<TBool>,
    #[asn(optional_idx = 26)]
    pub f26: Option<TBool>,
    #[asn(optional_idx = 27)]
    pub f27: Option<TBool>,
    #[asn(optional_idx = 28)]
    pub f28: Option<TBool>,
    #[asn(optional_idx = 29)]
    pub f29: Option<TBool>,
    #[asn(optional_idx = 30)]
    pub f30: Option<TBool>,
    #[asn(optional_idx = 31)]
    pub f31: Option<TBool>,
    #[asn(optional_idx = 32)]
    pub f32: Option<TBool>,
    #[asn(optional_idx = 33)]
    pub f33: Option<TBool>,
    #[asn(optional_idx = 34)]
    pub f34: Option<TBool>,
    #[asn(optional_idx = 35)]
    pub f35: Option<TBool>,
    #[asn(optional_idx = 36)]
    pub f36: Option<TBool>,
    #[asn(optional_idx = 37)]
    pub f37: Option<TBool>,
    #[asn(optional_idx = 38)]
    pub f38: Option<TBool>,
    #[asn(optional_idx = 39)]
    pub f39: Option<TBool>,
    #[asn(optional_idx = 40)]
    pub f40: Option<TBool>,
    #[asn(optional_idx = 41)]
    pub f41: Option<TBool>,
    #[asn(optional_idx = 42)]
    pub f42: Option<TBool>,
    #[asn(optional_idx = 43)]
    pub f43: Option<TBool>,
    #[asn(optional_idx = 44)]
    pub f44: Option<TBool>,
    #[asn(optional_idx = 45)]
    pub f45: Option<TBool>,
    #[asn(optional_idx = 46)]
    pub f46: Option<TBool>,
    #[asn(optional_idx = 47)]
    pub f47: Option<TBool>,
    #[asn(optional_idx = 48)]
    pub f48: Option<TBool>,
    #[asn(optional_idx = 49)]
    pub f49: Option<TBool>,
    #[asn(optional_idx = 50)]
    pub f50: Option<TBool>,
    #[asn(optional_idx = 51)]
    pub f51: Option<TBool>,
    #[asn(optional_idx = 52)]
    pub f52: Option<TBool>,
    #[asn(optional_idx = 53)]
    pub f53: Option<TBool>,
    #[asn(optional_idx = 54)]
    pub f54: Option<TBool>,
    #[asn(optional_idx = 55)]
    pub f55: Option<TBool>,
    #[asn(optional_idx = 56)]
    pub f56: Option<TBool>,
    #[asn(optional_idx = 57)]
    pub f57: Option<TBool>,
    #[asn(optional_idx = 58)]
    pub f58: Option<TBool>,
    #[asn(optional_idx = 59)]
    pub f59: Option<TBool>,
    #[asn(optional_idx = 60)]
    pub f60: Option<TBool>,
    #[asn(optional_idx = 61)]
    pub f61: Option<TBool>,
    #[asn(optional_idx = 62)]
    pub f62: Option<TBool>,
    #[asn(optional_idx = 63)]
    pub f63: Option<TBool>,
    #[asn(optional_idx = 64)]
    pub f64: Option<TBool>,
    #[asn(optional_idx = 65)]
    pub f65: Option<TBool>,
    #[asn(optional_idx = 66)]
    pub f66: Option<TBool>,
    #[asn(optional_idx = 67)]
    pub f67: Option<TBool>,
    #[asn(optional_idx = 68)]
    pub f68: Option<TBool>,
    #[asn(optional_idx = 69)]
    pub f69: Option<TBool>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct SeqLong {
    pub f0: TBool,
    pub f1: IntSmall,
    pub f2: TBool,
    pub f3: IntSmall,
    pub f4: TBool,
    pub f5: IntSmall,
    pub f6: TBool,
    pub f7: IntSmall,
    pub f8: TBool,
    pub f9: IntSmall,
    pub f10: TBool,
    pub f11: IntSmall,
    pub f12: TBool,
    pub f13: IntSmall,
    pub f14: TBool,
    pub f15: IntSmall,
    pub f16: TBool,
    pub f17: IntSmall,
    pub f18: TBool,
    pub f19: IntSmall,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "1")]
pub struct IntB0(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "2")]
pub struct IntB1(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true, lb = "0", ub = "3")]
pub struct IntB2(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "3", ub = "9")]
pub struct IntB3(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "63")]
pub struct IntB4(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "64")]
pub struct IntB5(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "127")]
pub struct IntB6(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "254")]
pub struct IntB7(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "256")]
pub struct IntB8(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "256")]
pub struct IntB9(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "65535")]
pub struct IntB10(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "65536")]
pub struct IntB11(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "65536")]
pub struct IntB12(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true, lb = "-65536", ub = "65535")]
pub struct IntB13(pub i32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "16777215")]
pub struct IntB14(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "16777216")]
pub struct IntB15(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-1", ub = "0")]
pub struct IntB16(pub i16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-128", ub = "-1")]
pub struct IntB17(pub i8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-1000", ub = "1000")]
pub struct IntB18(pub i16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-2147483648", ub = "0")]
pub struct IntB19(pub i32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "1", ub = "1099511627776")]
pub struct IntB20(pub u64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-1", ub = "4611686018427387904")]
pub struct IntB21(pub i64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "72057594037927935")]
pub struct IntB22(pub u64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true, lb = "10")]
pub struct IntB23(pub u64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", lb = "-128")]
pub struct IntB24(pub i8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", ub = "-5")]
pub struct IntB25(pub i64);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "INTEGER", extensible = true, lb = "255", ub = "255")]
pub struct IntB26(pub u32);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "2")]
pub struct EnumB0(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "7")]
pub struct EnumB1(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = true, lb = "0", ub = "8")]
pub struct EnumB2(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = true, lb = "0", ub = "63")]
pub struct EnumB3(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = false, lb = "0", ub = "64")]
pub struct EnumB4(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "255")]
pub struct EnumB5(pub u8);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", extensible = true, lb = "0", ub = "256")]
pub struct EnumB6(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "65535")]
pub struct EnumB7(pub u16);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "0", sz_ub = "0")]
pub struct BitsB0(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "1", sz_ub = "1")]
pub struct BitsB1(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "1", sz_ub = "2")]
pub struct BitsB2(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "3", sz_ub = "3")]
pub struct BitsB3(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "16", sz_ub = "16")]
pub struct BitsB4(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "17", sz_ub = "17")]
pub struct BitsB5(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "0", sz_ub = "16")]
pub struct BitsB6(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "2")]
pub struct BitsB7(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_ub = "2")]
pub struct BitsB8(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "0", sz_ub = "255")]
pub struct BitsB9(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "0", sz_ub = "256")]
pub struct BitsB10(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "0", sz_ub = "65535")]
pub struct BitsB11(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_lb = "5", sz_ub = "65536")]
pub struct BitsB12(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "64", sz_ub = "64")]
pub struct BitsB13(pub BitVec<u8, Msb0>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "0", sz_ub = "0")]
pub struct OctB0(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "1", sz_ub = "1")]
pub struct OctB1(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "1", sz_ub = "2")]
pub struct OctB2(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "3", sz_ub = "3")]
pub struct OctB3(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "16", sz_ub = "16")]
pub struct OctB4(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "17", sz_ub = "17")]
pub struct OctB5(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "0", sz_ub = "16")]
pub struct OctB6(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "2")]
pub struct OctB7(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_ub = "2")]
pub struct OctB8(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "0", sz_ub = "255")]
pub struct OctB9(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "0", sz_ub = "256")]
pub struct OctB10(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "0", sz_ub = "65535")]
pub struct OctB11(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "5", sz_ub = "65536")]
pub struct OctB12(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "64", sz_ub = "64")]
pub struct OctB13(pub Vec<u8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "0", sz_ub = "0")]
pub struct PrintB0(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "1", sz_ub = "1")]
pub struct PrintB1(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "1", sz_ub = "2")]
pub struct PrintB2(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "3", sz_ub = "3")]
pub struct PrintB3(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "16", sz_ub = "16")]
pub struct PrintB4(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "17", sz_ub = "17")]
pub struct PrintB5(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "0", sz_ub = "16")]
pub struct PrintB6(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "2")]
pub struct PrintB7(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_ub = "2")]
pub struct PrintB8(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "0", sz_ub = "255")]
pub struct PrintB9(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "0", sz_ub = "256")]
pub struct PrintB10(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "0", sz_ub = "65535")]
pub struct PrintB11(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_lb = "5", sz_ub = "65536")]
pub struct PrintB12(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "64", sz_ub = "64")]
pub struct PrintB13(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "0", sz_ub = "0")]
pub struct VisB0(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "1", sz_ub = "1")]
pub struct VisB1(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_extensible = true, sz_lb = "1", sz_ub = "2")]
pub struct VisB2(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "3", sz_ub = "3")]
pub struct VisB3(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "16", sz_ub = "16")]
pub struct VisB4(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_extensible = true, sz_lb = "17", sz_ub = "17")]
pub struct VisB5(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "0", sz_ub = "16")]
pub struct VisB6(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_extensible = true, sz_lb = "2")]
pub struct VisB7(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_ub = "2")]
pub struct VisB8(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "0", sz_ub = "255")]
pub struct VisB9(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_extensible = true, sz_lb = "0", sz_ub = "256")]
pub struct VisB10(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "0", sz_ub = "65535")]
pub struct VisB11(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_lb = "5", sz_ub = "65536")]
pub struct VisB12(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "VisibleString", sz_extensible = true, sz_lb = "64", sz_ub = "64")]
pub struct VisB13(pub String);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "0")]
pub struct OfB0(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "1", sz_ub = "1")]
pub struct OfB1(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "1")]
pub struct OfB2(pub Vec<IntU8>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "255")]
pub struct OfB3(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "0", sz_ub = "256")]
pub struct OfB4(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "2", sz_ub = "65535")]
pub struct OfB5(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "0", sz_ub = "65536")]
pub struct OfB6(pub Vec<TBool>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "10")]
pub struct OfB7(pub Vec<IntU16>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "1", sz_ub = "256")]
pub struct OfB8(pub Vec<SeqMix>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "0", sz_ub = "16")]
pub struct OfB9(pub Vec<ChoiceThree>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "300")]
pub struct OfB10(pub Vec<TNull>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_ub = "5")]
pub struct OfB11(pub Vec<OctAny>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = false, lb = "0", ub = "9")]
pub enum ChoiceTen {
    #[asn(key = 0, extended = false)]
    V0(TBool),
    #[asn(key = 1, extended = false)]
    V1(IntU8),
    #[asn(key = 2, extended = false)]
    V2(TNull),
    #[asn(key = 3, extended = false)]
    V3(TBool),
    #[asn(key = 4, extended = false)]
    V4(IntU8),
    #[asn(key = 5, extended = false)]
    V5(TNull),
    #[asn(key = 6, extended = false)]
    V6(TBool),
    #[asn(key = 7, extended = false)]
    V7(IntU8),
    #[asn(key = 8, extended = false)]
    V8(TNull),
    #[asn(key = 9, extended = false)]
    V9(TBool),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = true, lb = "0", ub = "2")]
pub enum ChoiceRev {
    #[asn(key = 2, extended = false)]
    A(TBool),
    #[asn(key = 1, extended = false)]
    B(IntU8),
    #[asn(key = 0, extended = false)]
    C(TNull),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "CHOICE", extensible = false, lb = "0", ub = "65535")]
pub enum ChoiceBig {
    #[asn(key = 0, extended = false)]
    A(TBool),
    #[asn(key = 255, extended = false)]
    B(IntU8),
    #[asn(key = 65535, extended = false)]
    C(TNull),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "OPEN")]
pub enum OpenMany {
    #[asn(key = 0)]
    V0(TBool),
    #[asn(key = 1)]
    V1(IntU8),
    #[asn(key = 2)]
    V2(TNull),
    #[asn(key = 7)]
    V3(SeqMix),
    #[asn(key = 8)]
    V4(TBool),
    #[asn(key = 127)]
    V5(IntU8),
    #[asn(key = 128)]
    V6(TNull),
    #[asn(key = 255)]
    V7(SeqMix),
    #[asn(key = 256)]
    V8(TBool),
    #[asn(key = 300)]
    V9(IntU8),
    #[asn(key = 65535)]
    V10(TNull),
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct CarrierMany {
    #[asn(key_field = true)]
    pub id: IntU16,
    pub value: OpenMany,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "65535")]
pub struct CarriersMany(pub Vec<CarrierMany>);
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 1)]
pub struct CarrierSigned {
    #[asn(key_field = true)]
    pub id: IntI16,
    #[asn(optional_idx = 0)]
    pub value: Option<OpenMany>,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct KeyLast {
    pub value: OpenSmall,
    #[asn(key_field = true)]
    pub id: IntU16,
}
#[derive(asn1_codecs_derive::AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 1)]
pub struct KeyTwice {
    #[asn(key_field = true)]
    pub id: IntU16,
    pub a: OpenSmall,
    pub inner: Carriers,
    pub b: OpenMany,
    pub c: Outer,
    #[asn(optional_idx = 0)]
    pub d: Option<OpenSmall>,
}
