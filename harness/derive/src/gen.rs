// Written by dev/gen_derive.py from lib/samples.py.
use crate::samples::*;
use crate::types::*;
impl Conv for TBool {
    fn ty() -> Ty { Ty::Bool }
    fn val(&self) -> Val { Val::Bool(self.0) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bool(x) => TBool(*x), _ => return None }) }
}
impl Conv for TNull {
    fn ty() -> Ty { Ty::Null }
    fn val(&self) -> Val { Val::Null }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Null => TNull, _ => return None }) }
}
impl Conv for TOid {
    fn ty() -> Ty { Ty::Oid }
    fn val(&self) -> Val { Val::Null }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Null => TOid, _ => return None }) }
}
impl Conv for IntOne {
    fn ty() -> Ty { Ty::Int(Some(7), Some(7), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntOne(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntSmall {
    fn ty() -> Ty { Ty::Int(Some(1), Some(8), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntSmall(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntU8 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(255), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntU8(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntNeg {
    fn ty() -> Ty { Ty::Int(Some(-5), Some(10), false, -128, 127) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntNeg(i8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntI8 {
    fn ty() -> Ty { Ty::Int(Some(-128), Some(127), false, -128, 127) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntI8(i8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntExt {
    fn ty() -> Ty { Ty::Int(Some(1), Some(100), true, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntExt(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntU16 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(65535), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntU16(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntOff {
    fn ty() -> Ty { Ty::Int(Some(300), Some(555), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntOff(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntI16 {
    fn ty() -> Ty { Ty::Int(Some(-32768), Some(32767), false, -32768, 32767) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntI16(i16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntBig {
    fn ty() -> Ty { Ty::Int(Some(1000), Some(70000), false, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntBig(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntU32 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(4294967295), false, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntU32(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntI32Ext {
    fn ty() -> Ty { Ty::Int(Some(-2147483648), Some(2147483647), true, -2147483648, 2147483647) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntI32Ext(i32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntI64 {
    fn ty() -> Ty { Ty::Int(Some(-9223372036854775808), Some(9223372036854775807), false, -9223372036854775808, 9223372036854775807) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntI64(i64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntU64 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(18446744073709551615), false, 0, 18446744073709551615) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntU64(u64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntSemi {
    fn ty() -> Ty { Ty::Int(Some(-1), None, false, -9223372036854775808, 9223372036854775807) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntSemi(i64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntSemiU {
    fn ty() -> Ty { Ty::Int(Some(0), None, false, 0, 18446744073709551615) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntSemiU(u64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntUpper {
    fn ty() -> Ty { Ty::Int(None, Some(10), false, -2147483648, 2147483647) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntUpper(i32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntAny {
    fn ty() -> Ty { Ty::Int(None, None, false, -9223372036854775808, 9223372036854775807) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntAny(i64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntAnyExt {
    fn ty() -> Ty { Ty::Int(None, None, true, -32768, 32767) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntAnyExt(i16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntNarrow {
    fn ty() -> Ty { Ty::Int(Some(0), Some(1000), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntNarrow(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumTwo {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(1), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumTwo(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumOne {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(0), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumOne(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumExt {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(4), true, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumExt(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumWide {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(299), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumWide(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumNarrow {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(299), true, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumNarrow(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for BitsAny {
    fn ty() -> Ty { Ty::Bits(None, None, false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsAny(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsFix8 {
    fn ty() -> Ty { Ty::Bits(Some(8), Some(8), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsFix8(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsFix20 {
    fn ty() -> Ty { Ty::Bits(Some(20), Some(20), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsFix20(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsVar {
    fn ty() -> Ty { Ty::Bits(Some(1), Some(160), true) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsVar(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsMin {
    fn ty() -> Ty { Ty::Bits(Some(4), None, false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsMin(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsMax {
    fn ty() -> Ty { Ty::Bits(None, Some(30), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsMax(x.iter().collect()), _ => return None }) }
}
impl Conv for OctAny {
    fn ty() -> Ty { Ty::Octets(None, None, false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctAny(x.clone()), _ => return None }) }
}
impl Conv for OctFix2 {
    fn ty() -> Ty { Ty::Octets(Some(2), Some(2), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctFix2(x.clone()), _ => return None }) }
}
impl Conv for OctFix4 {
    fn ty() -> Ty { Ty::Octets(Some(4), Some(4), true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctFix4(x.clone()), _ => return None }) }
}
impl Conv for OctVar {
    fn ty() -> Ty { Ty::Octets(Some(0), Some(3), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctVar(x.clone()), _ => return None }) }
}
impl Conv for OctVarExt {
    fn ty() -> Ty { Ty::Octets(Some(3), Some(8), true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctVarExt(x.clone()), _ => return None }) }
}
impl Conv for OctLarge {
    fn ty() -> Ty { Ty::Octets(Some(1), Some(65536), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctLarge(x.clone()), _ => return None }) }
}
impl Conv for PrintExt {
    fn ty() -> Ty { Ty::Chars(Some(1), Some(150), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintExt(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintOne {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(1), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintOne(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintAny {
    fn ty() -> Ty { Ty::Chars(None, None, false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintAny(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisFix2 {
    fn ty() -> Ty { Ty::Chars(Some(2), Some(2), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisFix2(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisVar {
    fn ty() -> Ty { Ty::Chars(Some(2), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisVar(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for Utf8Any {
    fn ty() -> Ty { Ty::Chars(None, None, false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => Utf8Any(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for Utf8Sized {
    fn ty() -> Ty { Ty::Chars(None, None, false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => Utf8Sized(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for OfFix {
    fn ty() -> Ty { Ty::Of(Box::new(IntU16::ty()), Some(3), Some(3), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfFix(x.iter().map(IntU16::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfVar {
    fn ty() -> Ty { Ty::Of(Box::new(EnumTwo::ty()), Some(0), Some(5), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfVar(x.iter().map(EnumTwo::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfExt {
    fn ty() -> Ty { Ty::Of(Box::new(IntU8::ty()), Some(1), Some(4), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfExt(x.iter().map(IntU8::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfAny {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), None, None, false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfAny(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfMin {
    fn ty() -> Ty { Ty::Of(Box::new(OctVar::ty()), Some(1), None, false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfMin(x.iter().map(OctVar::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfLarge {
    fn ty() -> Ty { Ty::Of(Box::new(IntSmall::ty()), Some(1), Some(70000), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfLarge(x.iter().map(IntSmall::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfMax {
    fn ty() -> Ty { Ty::Of(Box::new(BitsVar::ty()), None, Some(40), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfMax(x.iter().map(BitsVar::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for SeqEmpty {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![]) }
    fn val(&self) -> Val { Val::Fields(vec![]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 0 => SeqEmpty {  }, _ => return None }) }
}
impl Conv for SeqEmptyExt {
    fn ty() -> Ty { Ty::Seq(true, 0, vec![]) }
    fn val(&self) -> Val { Val::Fields(vec![]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 0 => SeqEmptyExt {  }, _ => return None }) }
}
impl Conv for SeqPlain {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![Field { ty: IntU8::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: OctAny::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.a.val(), self.b.val(), self.c.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 3 => SeqPlain { a: IntU8::of_val(&x[0])?, b: TBool::of_val(&x[1])?, c: OctAny::of_val(&x[2])? }, _ => return None }) }
}
impl Conv for SeqOpt {
    fn ty() -> Ty { Ty::Seq(false, 3, vec![Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: IntU16::ty(), opt: Some(0), key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: PrintExt::ty(), opt: Some(1), key: false }, Field { ty: EnumTwo::ty(), opt: Some(2), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.a.val(), self.b.as_ref().map_or(Val::Absent, |x| x.val()), self.c.val(), self.d.as_ref().map_or(Val::Absent, |x| x.val()), self.e.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 5 => SeqOpt { a: IntSmall::of_val(&x[0])?, b: if let Val::Absent = x[1] { None } else { Some(IntU16::of_val(&x[1])?) }, c: TBool::of_val(&x[2])?, d: if let Val::Absent = x[3] { None } else { Some(PrintExt::of_val(&x[3])?) }, e: if let Val::Absent = x[4] { None } else { Some(EnumTwo::of_val(&x[4])?) } }, _ => return None }) }
}
impl Conv for SeqExt {
    fn ty() -> Ty { Ty::Seq(true, 0, vec![Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntU8::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.a.val(), self.b.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 2 => SeqExt { a: TBool::of_val(&x[0])?, b: IntU8::of_val(&x[1])? }, _ => return None }) }
}
impl Conv for SeqOptExt {
    fn ty() -> Ty { Ty::Seq(true, 2, vec![Field { ty: OctVar::ty(), opt: Some(0), key: false }, Field { ty: BitsFix8::ty(), opt: None, key: false }, Field { ty: TNull::ty(), opt: Some(1), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.a.as_ref().map_or(Val::Absent, |x| x.val()), self.b.val(), self.c.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 3 => SeqOptExt { a: if let Val::Absent = x[0] { None } else { Some(OctVar::of_val(&x[0])?) }, b: BitsFix8::of_val(&x[1])?, c: if let Val::Absent = x[2] { None } else { Some(TNull::of_val(&x[2])?) } }, _ => return None }) }
}
impl Conv for SeqSix {
    fn ty() -> Ty { Ty::Seq(false, 6, vec![Field { ty: TBool::ty(), opt: Some(0), key: false }, Field { ty: TBool::ty(), opt: Some(1), key: false }, Field { ty: TBool::ty(), opt: Some(2), key: false }, Field { ty: TBool::ty(), opt: Some(3), key: false }, Field { ty: TBool::ty(), opt: Some(4), key: false }, Field { ty: TBool::ty(), opt: Some(5), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.f0.as_ref().map_or(Val::Absent, |x| x.val()), self.f1.as_ref().map_or(Val::Absent, |x| x.val()), self.f2.as_ref().map_or(Val::Absent, |x| x.val()), self.f3.as_ref().map_or(Val::Absent, |x| x.val()), self.f4.as_ref().map_or(Val::Absent, |x| x.val()), self.f5.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 6 => SeqSix { f0: if let Val::Absent = x[0] { None } else { Some(TBool::of_val(&x[0])?) }, f1: if let Val::Absent = x[1] { None } else { Some(TBool::of_val(&x[1])?) }, f2: if let Val::Absent = x[2] { None } else { Some(TBool::of_val(&x[2])?) }, f3: if let Val::Absent = x[3] { None } else { Some(TBool::of_val(&x[3])?) }, f4: if let Val::Absent = x[4] { None } else { Some(TBool::of_val(&x[4])?) }, f5: if let Val::Absent = x[5] { None } else { Some(TBool::of_val(&x[5])?) } }, _ => return None }) }
}
impl Conv for SeqMix {
    fn ty() -> Ty { Ty::Seq(true, 3, vec![Field { ty: TBool::ty(), opt: Some(0), key: false }, Field { ty: IntU8::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(1), key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: Some(2), key: false }, Field { ty: TBool::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.a.as_ref().map_or(Val::Absent, |x| x.val()), self.b.val(), self.c.as_ref().map_or(Val::Absent, |x| x.val()), self.d.val(), self.e.val(), self.f.as_ref().map_or(Val::Absent, |x| x.val()), self.g.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 7 => SeqMix { a: if let Val::Absent = x[0] { None } else { Some(TBool::of_val(&x[0])?) }, b: IntU8::of_val(&x[1])?, c: if let Val::Absent = x[2] { None } else { Some(EnumTwo::of_val(&x[2])?) }, d: TBool::of_val(&x[3])?, e: IntSmall::of_val(&x[4])?, f: if let Val::Absent = x[5] { None } else { Some(TBool::of_val(&x[5])?) }, g: TBool::of_val(&x[6])? }, _ => return None }) }
}
impl Conv for SeqNested {
    fn ty() -> Ty { Ty::Seq(false, 1, vec![Field { ty: SeqOpt::ty(), opt: None, key: false }, Field { ty: OfVar::ty(), opt: None, key: false }, Field { ty: SeqExt::ty(), opt: Some(0), key: false }, Field { ty: IntAny::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.a.val(), self.b.val(), self.c.as_ref().map_or(Val::Absent, |x| x.val()), self.d.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 4 => SeqNested { a: SeqOpt::of_val(&x[0])?, b: OfVar::of_val(&x[1])?, c: if let Val::Absent = x[2] { None } else { Some(SeqExt::of_val(&x[2])?) }, d: IntAny::of_val(&x[3])? }, _ => return None }) }
}
impl Conv for OfSeq {
    fn ty() -> Ty { Ty::Of(Box::new(SeqOpt::ty()), Some(0), Some(200), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfSeq(x.iter().map(SeqOpt::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfOf {
    fn ty() -> Ty { Ty::Of(Box::new(OfVar::ty()), Some(1), Some(2), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfOf(x.iter().map(OfVar::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for ChoiceThree {
    fn ty() -> Ty { Ty::Choice(0, 2, false, vec![Alt { ty: IntU8::ty(), key: 0, extended: false }, Alt { ty: SeqOpt::ty(), key: 1, extended: false }, Alt { ty: TBool::ty(), key: 2, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceThree::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceThree::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceThree::C(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceThree::A(IntU8::of_val(y)?), 1 => ChoiceThree::B(SeqOpt::of_val(y)?), 2 => ChoiceThree::C(TBool::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceOne {
    fn ty() -> Ty { Ty::Choice(0, 0, false, vec![Alt { ty: OctAny::ty(), key: 0, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceOne::Only(y) => Val::Alt(0, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceOne::Only(OctAny::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceExt {
    fn ty() -> Ty { Ty::Choice(0, 1, true, vec![Alt { ty: IntU16::ty(), key: 0, extended: false }, Alt { ty: TNull::ty(), key: 1, extended: false }, Alt { ty: IntU8::ty(), key: 0, extended: true }, Alt { ty: TBool::ty(), key: 1, extended: true }]) }
    fn val(&self) -> Val { match self { ChoiceExt::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceExt::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceExt::X(y) => Val::Alt(2, Box::new(y.val())), ChoiceExt::Y(y) => Val::Alt(3, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceExt::A(IntU16::of_val(y)?), 1 => ChoiceExt::B(TNull::of_val(y)?), 2 => ChoiceExt::X(IntU8::of_val(y)?), 3 => ChoiceExt::Y(TBool::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceWide {
    fn ty() -> Ty { Ty::Choice(0, 299, false, vec![Alt { ty: TBool::ty(), key: 0, extended: false }, Alt { ty: IntU8::ty(), key: 5, extended: false }, Alt { ty: TNull::ty(), key: 299, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceWide::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceWide::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceWide::C(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceWide::A(TBool::of_val(y)?), 1 => ChoiceWide::B(IntU8::of_val(y)?), 2 => ChoiceWide::C(TNull::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceNest {
    fn ty() -> Ty { Ty::Choice(0, 3, true, vec![Alt { ty: ChoiceThree::ty(), key: 0, extended: false }, Alt { ty: OfVar::ty(), key: 1, extended: false }, Alt { ty: ChoiceExt::ty(), key: 2, extended: false }, Alt { ty: IntSemi::ty(), key: 3, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceNest::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceNest::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceNest::C(y) => Val::Alt(2, Box::new(y.val())), ChoiceNest::D(y) => Val::Alt(3, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceNest::A(ChoiceThree::of_val(y)?), 1 => ChoiceNest::B(OfVar::of_val(y)?), 2 => ChoiceNest::C(ChoiceExt::of_val(y)?), 3 => ChoiceNest::D(IntSemi::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for OpenSmall {
    fn ty() -> Ty { Ty::Open(vec![Alt { ty: IntU8::ty(), key: 1, extended: false }, Alt { ty: TBool::ty(), key: 2, extended: false }, Alt { ty: OctAny::ty(), key: 300, extended: false }]) }
    fn val(&self) -> Val { match self { OpenSmall::A(y) => Val::Alt(0, Box::new(y.val())), OpenSmall::B(y) => Val::Alt(1, Box::new(y.val())), OpenSmall::C(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => OpenSmall::A(IntU8::of_val(y)?), 1 => OpenSmall::B(TBool::of_val(y)?), 2 => OpenSmall::C(OctAny::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for Carrier {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![Field { ty: IntU16::ty(), opt: None, key: true }, Field { ty: EnumTwo::ty(), opt: None, key: false }, Field { ty: OpenSmall::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.crit.val(), self.value.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 3 => Carrier { id: IntU16::of_val(&x[0])?, crit: EnumTwo::of_val(&x[1])?, value: OpenSmall::of_val(&x[2])? }, _ => return None }) }
}
impl Conv for Carriers {
    fn ty() -> Ty { Ty::Of(Box::new(Carrier::ty()), Some(0), Some(65535), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => Carriers(x.iter().map(Carrier::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for Message {
    fn ty() -> Ty { Ty::Seq(true, 1, vec![Field { ty: Carriers::ty(), opt: None, key: false }, Field { ty: Utf8Any::ty(), opt: Some(0), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.items.val(), self.note.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 2 => Message { items: Carriers::of_val(&x[0])?, note: if let Val::Absent = x[1] { None } else { Some(Utf8Any::of_val(&x[1])?) } }, _ => return None }) }
}
impl Conv for OpenNest {
    fn ty() -> Ty { Ty::Open(vec![Alt { ty: Message::ty(), key: 0, extended: false }, Alt { ty: Carrier::ty(), key: 7, extended: false }, Alt { ty: TNull::ty(), key: 8, extended: false }, Alt { ty: SeqOptExt::ty(), key: 65535, extended: false }]) }
    fn val(&self) -> Val { match self { OpenNest::A(y) => Val::Alt(0, Box::new(y.val())), OpenNest::B(y) => Val::Alt(1, Box::new(y.val())), OpenNest::C(y) => Val::Alt(2, Box::new(y.val())), OpenNest::D(y) => Val::Alt(3, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => OpenNest::A(Message::of_val(y)?), 1 => OpenNest::B(Carrier::of_val(y)?), 2 => OpenNest::C(TNull::of_val(y)?), 3 => OpenNest::D(SeqOptExt::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for Outer {
    fn ty() -> Ty { Ty::Seq(false, 1, vec![Field { ty: IntU16::ty(), opt: None, key: true }, Field { ty: Carrier::ty(), opt: None, key: false }, Field { ty: OpenNest::ty(), opt: None, key: false }, Field { ty: OpenNest::ty(), opt: Some(0), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.inner.val(), self.value.val(), self.more.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 4 => Outer { id: IntU16::of_val(&x[0])?, inner: Carrier::of_val(&x[1])?, value: OpenNest::of_val(&x[2])?, more: if let Val::Absent = x[3] { None } else { Some(OpenNest::of_val(&x[3])?) } }, _ => return None }) }
}
impl Conv for TwoKeys {
    fn ty() -> Ty { Ty::Seq(false, 1, vec![Field { ty: IntU16::ty(), opt: None, key: true }, Field { ty: OpenSmall::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: true }, Field { ty: OpenSmall::ty(), opt: None, key: false }, Field { ty: EnumWide::ty(), opt: None, key: true }, Field { ty: OpenNest::ty(), opt: Some(0), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.value.val(), self.id2.val(), self.value2.val(), self.id3.val(), self.value3.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 6 => TwoKeys { id: IntU16::of_val(&x[0])?, value: OpenSmall::of_val(&x[1])?, id2: IntSmall::of_val(&x[2])?, value2: OpenSmall::of_val(&x[3])?, id3: EnumWide::of_val(&x[4])?, value3: if let Val::Absent = x[5] { None } else { Some(OpenNest::of_val(&x[5])?) } }, _ => return None }) }
}
impl Conv for NoKey {
    fn ty() -> Ty { Ty::Seq(false, 1, vec![Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: OpenSmall::ty(), opt: Some(0), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.flag.val(), self.value.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 2 => NoKey { flag: TBool::of_val(&x[0])?, value: if let Val::Absent = x[1] { None } else { Some(OpenSmall::of_val(&x[1])?) } }, _ => return None }) }
}
impl Conv for Lent {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![Field { ty: IntU8::ty(), opt: None, key: true }, Field { ty: NoKey::ty(), opt: None, key: false }, Field { ty: ChoiceKeyed::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.body.val(), self.either.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 3 => Lent { id: IntU8::of_val(&x[0])?, body: NoKey::of_val(&x[1])?, either: ChoiceKeyed::of_val(&x[2])? }, _ => return None }) }
}
impl Conv for LateOpen {
    fn ty() -> Ty { Ty::Seq(false, 2, vec![Field { ty: IntU16::ty(), opt: None, key: true }, Field { ty: Carrier::ty(), opt: Some(0), key: false }, Field { ty: EnumTwo::ty(), opt: None, key: false }, Field { ty: OpenSmall::ty(), opt: Some(1), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.inner.as_ref().map_or(Val::Absent, |x| x.val()), self.crit.val(), self.value.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 4 => LateOpen { id: IntU16::of_val(&x[0])?, inner: if let Val::Absent = x[1] { None } else { Some(Carrier::of_val(&x[1])?) }, crit: EnumTwo::of_val(&x[2])?, value: if let Val::Absent = x[3] { None } else { Some(OpenSmall::of_val(&x[3])?) } }, _ => return None }) }
}
impl Conv for OpenLow {
    fn ty() -> Ty { Ty::Open(vec![Alt { ty: TBool::ty(), key: 0, extended: false }, Alt { ty: IntU8::ty(), key: 5, extended: false }]) }
    fn val(&self) -> Val { match self { OpenLow::N(y) => Val::Alt(0, Box::new(y.val())), OpenLow::M(y) => Val::Alt(1, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => OpenLow::N(TBool::of_val(y)?), 1 => OpenLow::M(IntU8::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for OpenDown {
    fn ty() -> Ty { Ty::Open(vec![Alt { ty: OpenLow::ty(), key: 0, extended: false }, Alt { ty: NoKey::ty(), key: 1, extended: false }, Alt { ty: OpenLow::ty(), key: 5, extended: false }]) }
    fn val(&self) -> Val { match self { OpenDown::Z(y) => Val::Alt(0, Box::new(y.val())), OpenDown::P(y) => Val::Alt(1, Box::new(y.val())), OpenDown::Q(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => OpenDown::Z(OpenLow::of_val(y)?), 1 => OpenDown::P(NoKey::of_val(y)?), 2 => OpenDown::Q(OpenLow::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceKeyed {
    fn ty() -> Ty { Ty::Choice(0, 2, true, vec![Alt { ty: OpenSmall::ty(), key: 0, extended: false }, Alt { ty: Carrier::ty(), key: 1, extended: false }, Alt { ty: NoKey::ty(), key: 2, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceKeyed::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceKeyed::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceKeyed::C(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceKeyed::A(OpenSmall::of_val(y)?), 1 => ChoiceKeyed::B(Carrier::of_val(y)?), 2 => ChoiceKeyed::C(NoKey::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for Pdu {
    fn ty() -> Ty { Ty::Choice(0, 2, true, vec![Alt { ty: Outer::ty(), key: 0, extended: false }, Alt { ty: TwoKeys::ty(), key: 1, extended: false }, Alt { ty: Lent::ty(), key: 2, extended: false }]) }
    fn val(&self) -> Val { match self { Pdu::Initiating(y) => Val::Alt(0, Box::new(y.val())), Pdu::Successful(y) => Val::Alt(1, Box::new(y.val())), Pdu::Unsuccessful(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => Pdu::Initiating(Outer::of_val(y)?), 1 => Pdu::Successful(TwoKeys::of_val(y)?), 2 => Pdu::Unsuccessful(Lent::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for SeqNine {
    fn ty() -> Ty { Ty::Seq(false, 9, vec![Field { ty: TBool::ty(), opt: Some(0), key: false }, Field { ty: TBool::ty(), opt: Some(1), key: false }, Field { ty: TBool::ty(), opt: Some(2), key: false }, Field { ty: TBool::ty(), opt: Some(3), key: false }, Field { ty: TBool::ty(), opt: Some(4), key: false }, Field { ty: TBool::ty(), opt: Some(5), key: false }, Field { ty: TBool::ty(), opt: Some(6), key: false }, Field { ty: TBool::ty(), opt: Some(7), key: false }, Field { ty: TBool::ty(), opt: Some(8), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.f0.as_ref().map_or(Val::Absent, |x| x.val()), self.f1.as_ref().map_or(Val::Absent, |x| x.val()), self.f2.as_ref().map_or(Val::Absent, |x| x.val()), self.f3.as_ref().map_or(Val::Absent, |x| x.val()), self.f4.as_ref().map_or(Val::Absent, |x| x.val()), self.f5.as_ref().map_or(Val::Absent, |x| x.val()), self.f6.as_ref().map_or(Val::Absent, |x| x.val()), self.f7.as_ref().map_or(Val::Absent, |x| x.val()), self.f8.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 9 => SeqNine { f0: if let Val::Absent = x[0] { None } else { Some(TBool::of_val(&x[0])?) }, f1: if let Val::Absent = x[1] { None } else { Some(TBool::of_val(&x[1])?) }, f2: if let Val::Absent = x[2] { None } else { Some(TBool::of_val(&x[2])?) }, f3: if let Val::Absent = x[3] { None } else { Some(TBool::of_val(&x[3])?) }, f4: if let Val::Absent = x[4] { None } else { Some(TBool::of_val(&x[4])?) }, f5: if let Val::Absent = x[5] { None } else { Some(TBool::of_val(&x[5])?) }, f6: if let Val::Absent = x[6] { None } else { Some(TBool::of_val(&x[6])?) }, f7: if let Val::Absent = x[7] { None } else { Some(TBool::of_val(&x[7])?) }, f8: if let Val::Absent = x[8] { None } else { Some(TBool::of_val(&x[8])?) } }, _ => return None }) }
}
impl Conv for SeqMany {
    fn ty() -> Ty { Ty::Seq(true, 18, vec![Field { ty: TBool::ty(), opt: Some(0), key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(1), key: false }, Field { ty: TBool::ty(), opt: Some(2), key: false }, Field { ty: TBool::ty(), opt: Some(3), key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(4), key: false }, Field { ty: TBool::ty(), opt: Some(5), key: false }, Field { ty: TBool::ty(), opt: Some(6), key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(7), key: false }, Field { ty: TBool::ty(), opt: Some(8), key: false }, Field { ty: TBool::ty(), opt: Some(9), key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(10), key: false }, Field { ty: TBool::ty(), opt: Some(11), key: false }, Field { ty: TBool::ty(), opt: Some(12), key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(13), key: false }, Field { ty: TBool::ty(), opt: Some(14), key: false }, Field { ty: TBool::ty(), opt: Some(15), key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: EnumTwo::ty(), opt: Some(16), key: false }, Field { ty: TBool::ty(), opt: Some(17), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.f0.as_ref().map_or(Val::Absent, |x| x.val()), self.f1.val(), self.f2.as_ref().map_or(Val::Absent, |x| x.val()), self.f3.as_ref().map_or(Val::Absent, |x| x.val()), self.f4.as_ref().map_or(Val::Absent, |x| x.val()), self.f5.val(), self.f6.as_ref().map_or(Val::Absent, |x| x.val()), self.f7.as_ref().map_or(Val::Absent, |x| x.val()), self.f8.as_ref().map_or(Val::Absent, |x| x.val()), self.f9.val(), self.f10.as_ref().map_or(Val::Absent, |x| x.val()), self.f11.as_ref().map_or(Val::Absent, |x| x.val()), self.f12.as_ref().map_or(Val::Absent, |x| x.val()), self.f13.val(), self.f14.as_ref().map_or(Val::Absent, |x| x.val()), self.f15.as_ref().map_or(Val::Absent, |x| x.val()), self.f16.as_ref().map_or(Val::Absent, |x| x.val()), self.f17.val(), self.f18.as_ref().map_or(Val::Absent, |x| x.val()), self.f19.as_ref().map_or(Val::Absent, |x| x.val()), self.f20.as_ref().map_or(Val::Absent, |x| x.val()), self.f21.val(), self.f22.as_ref().map_or(Val::Absent, |x| x.val()), self.f23.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 24 => SeqMany { f0: if let Val::Absent = x[0] { None } else { Some(TBool::of_val(&x[0])?) }, f1: IntSmall::of_val(&x[1])?, f2: if let Val::Absent = x[2] { None } else { Some(EnumTwo::of_val(&x[2])?) }, f3: if let Val::Absent = x[3] { None } else { Some(TBool::of_val(&x[3])?) }, f4: if let Val::Absent = x[4] { None } else { Some(TBool::of_val(&x[4])?) }, f5: IntSmall::of_val(&x[5])?, f6: if let Val::Absent = x[6] { None } else { Some(EnumTwo::of_val(&x[6])?) }, f7: if let Val::Absent = x[7] { None } else { Some(TBool::of_val(&x[7])?) }, f8: if let Val::Absent = x[8] { None } else { Some(TBool::of_val(&x[8])?) }, f9: IntSmall::of_val(&x[9])?, f10: if let Val::Absent = x[10] { None } else { Some(EnumTwo::of_val(&x[10])?) }, f11: if let Val::Absent = x[11] { None } else { Some(TBool::of_val(&x[11])?) }, f12: if let Val::Absent = x[12] { None } else { Some(TBool::of_val(&x[12])?) }, f13: IntSmall::of_val(&x[13])?, f14: if let Val::Absent = x[14] { None } else { Some(EnumTwo::of_val(&x[14])?) }, f15: if let Val::Absent = x[15] { None } else { Some(TBool::of_val(&x[15])?) }, f16: if let Val::Absent = x[16] { None } else { Some(TBool::of_val(&x[16])?) }, f17: IntSmall::of_val(&x[17])?, f18: if let Val::Absent = x[18] { None } else { Some(EnumTwo::of_val(&x[18])?) }, f19: if let Val::Absent = x[19] { None } else { Some(TBool::of_val(&x[19])?) }, f20: if let Val::Absent = x[20] { None } else { Some(TBool::of_val(&x[20])?) }, f21: IntSmall::of_val(&x[21])?, f22: if let Val::Absent = x[22] { None } else { Some(EnumTwo::of_val(&x[22])?) }, f23: if let Val::Absent = x[23] { None } else { Some(TBool::of_val(&x[23])?) } }, _ => return None }) }
}
impl Conv for SeqLots {
    fn ty() -> Ty { Ty::Seq(true, 70, vec![Field { ty: TBool::ty(), opt: Some(0), key: false }, Field { ty: TBool::ty(), opt: Some(1), key: false }, Field { ty: TBool::ty(), opt: Some(2), key: false }, Field { ty: TBool::ty(), opt: Some(3), key: false }, Field { ty: TBool::ty(), opt: Some(4), key: false }, Field { ty: TBool::ty(), opt: Some(5), key: false }, Field { ty: TBool::ty(), opt: Some(6), key: false }, Field { ty: TBool::ty(), opt: Some(7), key: false }, Field { ty: TBool::ty(), opt: Some(8), key: false }, Field { ty: TBool::ty(), opt: Some(9), key: false }, Field { ty: TBool::ty(), opt: Some(10), key: false }, Field { ty: TBool::ty(), opt: Some(11), key: false }, Field { ty: TBool::ty(), opt: Some(12), key: false }, Field { ty: TBool::ty(), opt: Some(13), key: false }, Field { ty: TBool::ty(), opt: Some(14), key: false }, Field { ty: TBool::ty(), opt: Some(15), key: false }, Field { ty: TBool::ty(), opt: Some(16), key: false }, Field { ty: TBool::ty(), opt: Some(17), key: false }, Field { ty: TBool::ty(), opt: Some(18), key: false }, Field { ty: TBool::ty(), opt: Some(19), key: false }, Field { ty: TBool::ty(), opt: Some(20), key: false }, Field { ty: TBool::ty(), opt: Some(21), key: false }, Field { ty: TBool::ty(), opt: Some(22), key: false }, Field { ty: TBool::ty(), opt: Some(23), key: false }, Field { ty: TBool::ty(), opt: Some(24), key: false }, Field { ty: TBool::ty(), opt: Some(25), key: false }, Field { ty: TBool::ty(), opt: Some(26), key: false }, Field { ty: TBool::ty(), opt: Some(27), key: false }, Field { ty: TBool::ty(), opt: Some(28), key: false }, Field { ty: TBool::ty(), opt: Some(29), key: false }, Field { ty: TBool::ty(), opt: Some(30), key: false }, Field { ty: TBool::ty(), opt: Some(31), key: false }, Field { ty: TBool::ty(), opt: Some(32), key: false }, Field { ty: TBool::ty(), opt: Some(33), key: false }, Field { ty: TBool::ty(), opt: Some(34), key: false }, Field { ty: TBool::ty(), opt: Some(35), key: false }, Field { ty: TBool::ty(), opt: Some(36), key: false }, Field { ty: TBool::ty(), opt: Some(37), key: false }, Field { ty: TBool::ty(), opt: Some(38), key: false }, Field { ty: TBool::ty(), opt: Some(39), key: false }, Field { ty: TBool::ty(), opt: Some(40), key: false }, Field { ty: TBool::ty(), opt: Some(41), key: false }, Field { ty: TBool::ty(), opt: Some(42), key: false }, Field { ty: TBool::ty(), opt: Some(43), key: false }, Field { ty: TBool::ty(), opt: Some(44), key: false }, Field { ty: TBool::ty(), opt: Some(45), key: false }, Field { ty: TBool::ty(), opt: Some(46), key: false }, Field { ty: TBool::ty(), opt: Some(47), key: false }, Field { ty: TBool::ty(), opt: Some(48), key: false }, Field { ty: TBool::ty(), opt: Some(49), key: false }, Field { ty: TBool::ty(), opt: Some(50), key: false }, Field { ty: TBool::ty(), opt: Some(51), key: false }, Field { ty: TBool::ty(), opt: Some(52), key: false }, Field { ty: TBool::ty(), opt: Some(53), key: false }, Field { ty: TBool::ty(), opt: Some(54), key: false }, Field { ty: TBool::ty(), opt: Some(55), key: false }, Field { ty: TBool::ty(), opt: Some(56), key: false }, Field { ty: TBool::ty(), opt: Some(57), key: false }, Field { ty: TBool::ty(), opt: Some(58), key: false }, Field { ty: TBool::ty(), opt: Some(59), key: false }, Field { ty: TBool::ty(), opt: Some(60), key: false }, Field { ty: TBool::ty(), opt: Some(61), key: false }, Field { ty: TBool::ty(), opt: Some(62), key: false }, Field { ty: TBool::ty(), opt: Some(63), key: false }, Field { ty: TBool::ty(), opt: Some(64), key: false }, Field { ty: TBool::ty(), opt: Some(65), key: false }, Field { ty: TBool::ty(), opt: Some(66), key: false }, Field { ty: TBool::ty(), opt: Some(67), key: false }, Field { ty: TBool::ty(), opt: Some(68), key: false }, Field { ty: TBool::ty(), opt: Some(69), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.f0.as_ref().map_or(Val::Absent, |x| x.val()), self.f1.as_ref().map_or(Val::Absent, |x| x.val()), self.f2.as_ref().map_or(Val::Absent, |x| x.val()), self.f3.as_ref().map_or(Val::Absent, |x| x.val()), self.f4.as_ref().map_or(Val::Absent, |x| x.val()), self.f5.as_ref().map_or(Val::Absent, |x| x.val()), self.f6.as_ref().map_or(Val::Absent, |x| x.val()), self.f7.as_ref().map_or(Val::Absent, |x| x.val()), self.f8.as_ref().map_or(Val::Absent, |x| x.val()), self.f9.as_ref().map_or(Val::Absent, |x| x.val()), self.f10.as_ref().map_or(Val::Absent, |x| x.val()), self.f11.as_ref().map_or(Val::Absent, |x| x.val()), self.f12.as_ref().map_or(Val::Absent, |x| x.val()), self.f13.as_ref().map_or(Val::Absent, |x| x.val()), self.f14.as_ref().map_or(Val::Absent, |x| x.val()), self.f15.as_ref().map_or(Val::Absent, |x| x.val()), self.f16.as_ref().map_or(Val::Absent, |x| x.val()), self.f17.as_ref().map_or(Val::Absent, |x| x.val()), self.f18.as_ref().map_or(Val::Absent, |x| x.val()), self.f19.as_ref().map_or(Val::Absent, |x| x.val()), self.f20.as_ref().map_or(Val::Absent, |x| x.val()), self.f21.as_ref().map_or(Val::Absent, |x| x.val()), self.f22.as_ref().map_or(Val::Absent, |x| x.val()), self.f23.as_ref().map_or(Val::Absent, |x| x.val()), self.f24.as_ref().map_or(Val::Absent, |x| x.val()), self.f25.as_ref().map_or(Val::Absent, |x| x.val()), self.f26.as_ref().map_or(Val::Absent, |x| x.val()), self.f27.as_ref().map_or(Val::Absent, |x| x.val()), self.f28.as_ref().map_or(Val::Absent, |x| x.val()), self.f29.as_ref().map_or(Val::Absent, |x| x.val()), self.f30.as_ref().map_or(Val::Absent, |x| x.val()), self.f31.as_ref().map_or(Val::Absent, |x| x.val()), self.f32.as_ref().map_or(Val::Absent, |x| x.val()), self.f33.as_ref().map_or(Val::Absent, |x| x.val()), self.f34.as_ref().map_or(Val::Absent, |x| x.val()), self.f35.as_ref().map_or(Val::Absent, |x| x.val()), self.f36.as_ref().map_or(Val::Absent, |x| x.val()), self.f37.as_ref().map_or(Val::Absent, |x| x.val()), self.f38.as_ref().map_or(Val::Absent, |x| x.val()), self.f39.as_ref().map_or(Val::Absent, |x| x.val()), self.f40.as_ref().map_or(Val::Absent, |x| x.val()), self.f41.as_ref().map_or(Val::Absent, |x| x.val()), self.f42.as_ref().map_or(Val::Absent, |x| x.val()), self.f43.as_ref().map_or(Val::Absent, |x| x.val()), self.f44.as_ref().map_or(Val::Absent, |x| x.val()), self.f45.as_ref().map_or(Val::Absent, |x| x.val()), self.f46.as_ref().map_or(Val::Absent, |x| x.val()), self.f47.as_ref().map_or(Val::Absent, |x| x.val()), self.f48.as_ref().map_or(Val::Absent, |x| x.val()), self.f49.as_ref().map_or(Val::Absent, |x| x.val()), self.f50.as_ref().map_or(Val::Absent, |x| x.val()), self.f51.as_ref().map_or(Val::Absent, |x| x.val()), self.f52.as_ref().map_or(Val::Absent, |x| x.val()), self.f53.as_ref().map_or(Val::Absent, |x| x.val()), self.f54.as_ref().map_or(Val::Absent, |x| x.val()), self.f55.as_ref().map_or(Val::Absent, |x| x.val()), self.f56.as_ref().map_or(Val::Absent, |x| x.val()), self.f57.as_ref().map_or(Val::Absent, |x| x.val()), self.f58.as_ref().map_or(Val::Absent, |x| x.val()), self.f59.as_ref().map_or(Val::Absent, |x| x.val()), self.f60.as_ref().map_or(Val::Absent, |x| x.val()), self.f61.as_ref().map_or(Val::Absent, |x| x.val()), self.f62.as_ref().map_or(Val::Absent, |x| x.val()), self.f63.as_ref().map_or(Val::Absent, |x| x.val()), self.f64.as_ref().map_or(Val::Absent, |x| x.val()), self.f65.as_ref().map_or(Val::Absent, |x| x.val()), self.f66.as_ref().map_or(Val::Absent, |x| x.val()), self.f67.as_ref().map_or(Val::Absent, |x| x.val()), self.f68.as_ref().map_or(Val::Absent, |x| x.val()), self.f69.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 70 => SeqLots { f0: if let Val::Absent = x[0] { None } else { Some(TBool::of_val(&x[0])?) }, f1: if let Val::Absent = x[1] { None } else { Some(TBool::of_val(&x[1])?) }, f2: if let Val::Absent = x[2] { None } else { Some(TBool::of_val(&x[2])?) }, f3: if let Val::Absent = x[3] { None } else { Some(TBool::of_val(&x[3])?) }, f4: if let Val::Absent = x[4] { None } else { Some(TBool::of_val(&x[4])?) }, f5: if let Val::Absent = x[5] { None } else { Some(TBool::of_val(&x[5])?) }, f6: if let Val::Absent = x[6] { None } else { Some(TBool::of_val(&x[6])?) }, f7: if let Val::Absent = x[7] { None } else { Some(TBool::of_val(&x[7])?) }, f8: if let Val::Absent = x[8] { None } else { Some(TBool::of_val(&x[8])?) }, f9: if let Val::Absent = x[9] { None } else { Some(TBool::of_val(&x[9])?) }, f10: if let Val::Absent = x[10] { None } else { Some(TBool::of_val(&x[10])?) }, f11: if let Val::Absent = x[11] { None } else { Some(TBool::of_val(&x[11])?) }, f12: if let Val::Absent = x[12] { None } else { Some(TBool::of_val(&x[12])?) }, f13: if let Val::Absent = x[13] { None } else { Some(TBool::of_val(&x[13])?) }, f14: if let Val::Absent = x[14] { None } else { Some(TBool::of_val(&x[14])?) }, f15: if let Val::Absent = x[15] { None } else { Some(TBool::of_val(&x[15])?) }, f16: if let Val::Absent = x[16] { None } else { Some(TBool::of_val(&x[16])?) }, f17: if let Val::Absent = x[17] { None } else { Some(TBool::of_val(&x[17])?) }, f18: if let Val::Absent = x[18] { None } else { Some(TBool::of_val(&x[18])?) }, f19: if let Val::Absent = x[19] { None } else { Some(TBool::of_val(&x[19])?) }, f20: if let Val::Absent = x[20] { None } else { Some(TBool::of_val(&x[20])?) }, f21: if let Val::Absent = x[21] { None } else { Some(TBool::of_val(&x[21])?) }, f22: if let Val::Absent = x[22] { None } else { Some(TBool::of_val(&x[22])?) }, f23: if let Val::Absent = x[23] { None } else { Some(TBool::of_val(&x[23])?) }, f24: if let Val::Absent = x[24] { None } else { Some(TBool::of_val(&x[24])?) }, f25: if let Val::Absent = x[25] { None } else { Some(TBool::of_val(&x[25])?) }, f26: if let Val::Absent = x[26] { None } else { Some(TBool::of_val(&x[26])?) }, f27: if let Val::Absent = x[27] { None } else { Some(TBool::of_val(&x[27])?) }, f28: if let Val::Absent = x[28] { None } else { Some(TBool::of_val(&x[28])?) }, f29: if let Val::Absent = x[29] { None } else { Some(TBool::of_val(&x[29])?) }, f30: if let Val::Absent = x[30] { None } else { Some(TBool::of_val(&x[30])?) }, f31: if let Val::Absent = x[31] { None } else { Some(TBool::of_val(&x[31])?) }, f32: if let Val::Absent = x[32] { None } else { Some(TBool::of_val(&x[32])?) }, f33: if let Val::Absent = x[33] { None } else { Some(TBool::of_val(&x[33])?) }, f34: if let Val::Absent = x[34] { None } else { Some(TBool::of_val(&x[34])?) }, f35: if let Val::Absent = x[35] { None } else { Some(TBool::of_val(&x[35])?) }, f36: if let Val::Absent = x[36] { None } else { Some(TBool::of_val(&x[36])?) }, f37: if let Val::Absent = x[37] { None } else { Some(TBool::of_val(&x[37])?) }, f38: if let Val::Absent = x[38] { None } else { Some(TBool::of_val(&x[38])?) }, f39: if let Val::Absent = x[39] { None } else { Some(TBool::of_val(&x[39])?) }, f40: if let Val::Absent = x[40] { None } else { Some(TBool::of_val(&x[40])?) }, f41: if let Val::Absent = x[41] { None } else { Some(TBool::of_val(&x[41])?) }, f42: if let Val::Absent = x[42] { None } else { Some(TBool::of_val(&x[42])?) }, f43: if let Val::Absent = x[43] { None } else { Some(TBool::of_val(&x[43])?) }, f44: if let Val::Absent = x[44] { None } else { Some(TBool::of_val(&x[44])?) }, f45: if let Val::Absent = x[45] { None } else { Some(TBool::of_val(&x[45])?) }, f46: if let Val::Absent = x[46] { None } else { Some(TBool::of_val(&x[46])?) }, f47: if let Val::Absent = x[47] { None } else { Some(TBool::of_val(&x[47])?) }, f48: if let Val::Absent = x[48] { None } else { Some(TBool::of_val(&x[48])?) }, f49: if let Val::Absent = x[49] { None } else { Some(TBool::of_val(&x[49])?) }, f50: if let Val::Absent = x[50] { None } else { Some(TBool::of_val(&x[50])?) }, f51: if let Val::Absent = x[51] { None } else { Some(TBool::of_val(&x[51])?) }, f52: if let Val::Absent = x[52] { None } else { Some(TBool::of_val(&x[52])?) }, f53: if let Val::Absent = x[53] { None } else { Some(TBool::of_val(&x[53])?) }, f54: if let Val::Absent = x[54] { None } else { Some(TBool::of_val(&x[54])?) }, f55: if let Val::Absent = x[55] { None } else { Some(TBool::of_val(&x[55])?) }, f56: if let Val::Absent = x[56] { None } else { Some(TBool::of_val(&x[56])?) }, f57: if let Val::Absent = x[57] { None } else { Some(TBool::of_val(&x[57])?) }, f58: if let Val::Absent = x[58] { None } else { Some(TBool::of_val(&x[58])?) }, f59: if let Val::Absent = x[59] { None } else { Some(TBool::of_val(&x[59])?) }, f60: if let Val::Absent = x[60] { None } else { Some(TBool::of_val(&x[60])?) }, f61: if let Val::Absent = x[61] { None } else { Some(TBool::of_val(&x[61])?) }, f62: if let Val::Absent = x[62] { None } else { Some(TBool::of_val(&x[62])?) }, f63: if let Val::Absent = x[63] { None } else { Some(TBool::of_val(&x[63])?) }, f64: if let Val::Absent = x[64] { None } else { Some(TBool::of_val(&x[64])?) }, f65: if let Val::Absent = x[65] { None } else { Some(TBool::of_val(&x[65])?) }, f66: if let Val::Absent = x[66] { None } else { Some(TBool::of_val(&x[66])?) }, f67: if let Val::Absent = x[67] { None } else { Some(TBool::of_val(&x[67])?) }, f68: if let Val::Absent = x[68] { None } else { Some(TBool::of_val(&x[68])?) }, f69: if let Val::Absent = x[69] { None } else { Some(TBool::of_val(&x[69])?) } }, _ => return None }) }
}
impl Conv for SeqLong {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }, Field { ty: TBool::ty(), opt: None, key: false }, Field { ty: IntSmall::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.f0.val(), self.f1.val(), self.f2.val(), self.f3.val(), self.f4.val(), self.f5.val(), self.f6.val(), self.f7.val(), self.f8.val(), self.f9.val(), self.f10.val(), self.f11.val(), self.f12.val(), self.f13.val(), self.f14.val(), self.f15.val(), self.f16.val(), self.f17.val(), self.f18.val(), self.f19.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 20 => SeqLong { f0: TBool::of_val(&x[0])?, f1: IntSmall::of_val(&x[1])?, f2: TBool::of_val(&x[2])?, f3: IntSmall::of_val(&x[3])?, f4: TBool::of_val(&x[4])?, f5: IntSmall::of_val(&x[5])?, f6: TBool::of_val(&x[6])?, f7: IntSmall::of_val(&x[7])?, f8: TBool::of_val(&x[8])?, f9: IntSmall::of_val(&x[9])?, f10: TBool::of_val(&x[10])?, f11: IntSmall::of_val(&x[11])?, f12: TBool::of_val(&x[12])?, f13: IntSmall::of_val(&x[13])?, f14: TBool::of_val(&x[14])?, f15: IntSmall::of_val(&x[15])?, f16: TBool::of_val(&x[16])?, f17: IntSmall::of_val(&x[17])?, f18: TBool::of_val(&x[18])?, f19: IntSmall::of_val(&x[19])? }, _ => return None }) }
}
impl Conv for IntB0 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(1), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB0(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB1 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(2), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB1(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB2 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(3), true, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB2(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB3 {
    fn ty() -> Ty { Ty::Int(Some(3), Some(9), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB3(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB4 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(63), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB4(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB5 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(64), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB5(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB6 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(127), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB6(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB7 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(254), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB7(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB8 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(256), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB8(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB9 {
    fn ty() -> Ty { Ty::Int(Some(1), Some(256), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB9(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB10 {
    fn ty() -> Ty { Ty::Int(Some(1), Some(65535), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB10(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB11 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(65536), false, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB11(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB12 {
    fn ty() -> Ty { Ty::Int(Some(1), Some(65536), false, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB12(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB13 {
    fn ty() -> Ty { Ty::Int(Some(-65536), Some(65535), true, -2147483648, 2147483647) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB13(i32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB14 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(16777215), false, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB14(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB15 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(16777216), false, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB15(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB16 {
    fn ty() -> Ty { Ty::Int(Some(-1), Some(0), false, -32768, 32767) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB16(i16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB17 {
    fn ty() -> Ty { Ty::Int(Some(-128), Some(-1), false, -128, 127) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB17(i8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB18 {
    fn ty() -> Ty { Ty::Int(Some(-1000), Some(1000), false, -32768, 32767) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB18(i16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB19 {
    fn ty() -> Ty { Ty::Int(Some(-2147483648), Some(0), false, -2147483648, 2147483647) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB19(i32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB20 {
    fn ty() -> Ty { Ty::Int(Some(1), Some(1099511627776), false, 0, 18446744073709551615) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB20(u64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB21 {
    fn ty() -> Ty { Ty::Int(Some(-1), Some(4611686018427387904), false, -9223372036854775808, 9223372036854775807) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB21(i64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB22 {
    fn ty() -> Ty { Ty::Int(Some(0), Some(72057594037927935), false, 0, 18446744073709551615) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB22(u64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB23 {
    fn ty() -> Ty { Ty::Int(Some(10), None, true, 0, 18446744073709551615) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB23(u64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB24 {
    fn ty() -> Ty { Ty::Int(Some(-128), None, false, -128, 127) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB24(i8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB25 {
    fn ty() -> Ty { Ty::Int(None, Some(-5), false, -9223372036854775808, 9223372036854775807) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB25(i64::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for IntB26 {
    fn ty() -> Ty { Ty::Int(Some(255), Some(255), true, 0, 4294967295) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => IntB26(u32::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB0 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(2), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB0(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB1 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(7), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB1(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB2 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(8), true, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB2(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB3 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(63), true, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB3(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB4 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(64), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB4(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB5 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(255), false, 0, 255) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB5(u8::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB6 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(256), true, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB6(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for EnumB7 {
    fn ty() -> Ty { Ty::Enum(Some(0), Some(65535), false, 0, 65535) }
    fn val(&self) -> Val { Val::Int(self.0 as i128) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Int(i) => EnumB7(u16::try_from(*i).ok()?), _ => return None }) }
}
impl Conv for BitsB0 {
    fn ty() -> Ty { Ty::Bits(Some(0), Some(0), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB0(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB1 {
    fn ty() -> Ty { Ty::Bits(Some(1), Some(1), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB1(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB2 {
    fn ty() -> Ty { Ty::Bits(Some(1), Some(2), true) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB2(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB3 {
    fn ty() -> Ty { Ty::Bits(Some(3), Some(3), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB3(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB4 {
    fn ty() -> Ty { Ty::Bits(Some(16), Some(16), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB4(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB5 {
    fn ty() -> Ty { Ty::Bits(Some(17), Some(17), true) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB5(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB6 {
    fn ty() -> Ty { Ty::Bits(Some(0), Some(16), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB6(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB7 {
    fn ty() -> Ty { Ty::Bits(Some(2), None, true) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB7(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB8 {
    fn ty() -> Ty { Ty::Bits(None, Some(2), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB8(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB9 {
    fn ty() -> Ty { Ty::Bits(Some(0), Some(255), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB9(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB10 {
    fn ty() -> Ty { Ty::Bits(Some(0), Some(256), true) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB10(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB11 {
    fn ty() -> Ty { Ty::Bits(Some(0), Some(65535), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB11(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB12 {
    fn ty() -> Ty { Ty::Bits(Some(5), Some(65536), false) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB12(x.iter().collect()), _ => return None }) }
}
impl Conv for BitsB13 {
    fn ty() -> Ty { Ty::Bits(Some(64), Some(64), true) }
    fn val(&self) -> Val { Val::Bits(self.0.iter().map(|x| *x).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Bits(x) => BitsB13(x.iter().collect()), _ => return None }) }
}
impl Conv for OctB0 {
    fn ty() -> Ty { Ty::Octets(Some(0), Some(0), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB0(x.clone()), _ => return None }) }
}
impl Conv for OctB1 {
    fn ty() -> Ty { Ty::Octets(Some(1), Some(1), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB1(x.clone()), _ => return None }) }
}
impl Conv for OctB2 {
    fn ty() -> Ty { Ty::Octets(Some(1), Some(2), true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB2(x.clone()), _ => return None }) }
}
impl Conv for OctB3 {
    fn ty() -> Ty { Ty::Octets(Some(3), Some(3), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB3(x.clone()), _ => return None }) }
}
impl Conv for OctB4 {
    fn ty() -> Ty { Ty::Octets(Some(16), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB4(x.clone()), _ => return None }) }
}
impl Conv for OctB5 {
    fn ty() -> Ty { Ty::Octets(Some(17), Some(17), true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB5(x.clone()), _ => return None }) }
}
impl Conv for OctB6 {
    fn ty() -> Ty { Ty::Octets(Some(0), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB6(x.clone()), _ => return None }) }
}
impl Conv for OctB7 {
    fn ty() -> Ty { Ty::Octets(Some(2), None, true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB7(x.clone()), _ => return None }) }
}
impl Conv for OctB8 {
    fn ty() -> Ty { Ty::Octets(None, Some(2), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB8(x.clone()), _ => return None }) }
}
impl Conv for OctB9 {
    fn ty() -> Ty { Ty::Octets(Some(0), Some(255), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB9(x.clone()), _ => return None }) }
}
impl Conv for OctB10 {
    fn ty() -> Ty { Ty::Octets(Some(0), Some(256), true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB10(x.clone()), _ => return None }) }
}
impl Conv for OctB11 {
    fn ty() -> Ty { Ty::Octets(Some(0), Some(65535), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB11(x.clone()), _ => return None }) }
}
impl Conv for OctB12 {
    fn ty() -> Ty { Ty::Octets(Some(5), Some(65536), false) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB12(x.clone()), _ => return None }) }
}
impl Conv for OctB13 {
    fn ty() -> Ty { Ty::Octets(Some(64), Some(64), true) }
    fn val(&self) -> Val { Val::Octets(self.0.clone()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => OctB13(x.clone()), _ => return None }) }
}
impl Conv for PrintB0 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(0), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB0(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB1 {
    fn ty() -> Ty { Ty::Chars(Some(1), Some(1), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB1(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB2 {
    fn ty() -> Ty { Ty::Chars(Some(1), Some(2), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB2(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB3 {
    fn ty() -> Ty { Ty::Chars(Some(3), Some(3), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB3(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB4 {
    fn ty() -> Ty { Ty::Chars(Some(16), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB4(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB5 {
    fn ty() -> Ty { Ty::Chars(Some(17), Some(17), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB5(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB6 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB6(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB7 {
    fn ty() -> Ty { Ty::Chars(Some(2), None, true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB7(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB8 {
    fn ty() -> Ty { Ty::Chars(None, Some(2), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB8(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB9 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(255), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB9(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB10 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(256), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB10(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB11 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(65535), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB11(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB12 {
    fn ty() -> Ty { Ty::Chars(Some(5), Some(65536), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB12(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for PrintB13 {
    fn ty() -> Ty { Ty::Chars(Some(64), Some(64), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => PrintB13(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB0 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(0), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB0(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB1 {
    fn ty() -> Ty { Ty::Chars(Some(1), Some(1), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB1(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB2 {
    fn ty() -> Ty { Ty::Chars(Some(1), Some(2), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB2(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB3 {
    fn ty() -> Ty { Ty::Chars(Some(3), Some(3), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB3(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB4 {
    fn ty() -> Ty { Ty::Chars(Some(16), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB4(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB5 {
    fn ty() -> Ty { Ty::Chars(Some(17), Some(17), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB5(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB6 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(16), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB6(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB7 {
    fn ty() -> Ty { Ty::Chars(Some(2), None, true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB7(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB8 {
    fn ty() -> Ty { Ty::Chars(None, Some(2), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB8(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB9 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(255), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB9(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB10 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(256), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB10(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB11 {
    fn ty() -> Ty { Ty::Chars(Some(0), Some(65535), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB11(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB12 {
    fn ty() -> Ty { Ty::Chars(Some(5), Some(65536), false) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB12(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for VisB13 {
    fn ty() -> Ty { Ty::Chars(Some(64), Some(64), true) }
    fn val(&self) -> Val { Val::Octets(self.0.as_bytes().to_vec()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Octets(x) => VisB13(String::from_utf8(x.clone()).ok()?), _ => return None }) }
}
impl Conv for OfB0 {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), Some(0), Some(0), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB0(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB1 {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), Some(1), Some(1), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB1(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB2 {
    fn ty() -> Ty { Ty::Of(Box::new(IntU8::ty()), Some(0), Some(1), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB2(x.iter().map(IntU8::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB3 {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), Some(0), Some(255), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB3(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB4 {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), Some(0), Some(256), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB4(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB5 {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), Some(2), Some(65535), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB5(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB6 {
    fn ty() -> Ty { Ty::Of(Box::new(TBool::ty()), Some(0), Some(65536), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB6(x.iter().map(TBool::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB7 {
    fn ty() -> Ty { Ty::Of(Box::new(IntU16::ty()), Some(10), None, true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB7(x.iter().map(IntU16::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB8 {
    fn ty() -> Ty { Ty::Of(Box::new(SeqMix::ty()), Some(1), Some(256), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB8(x.iter().map(SeqMix::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB9 {
    fn ty() -> Ty { Ty::Of(Box::new(ChoiceThree::ty()), Some(0), Some(16), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB9(x.iter().map(ChoiceThree::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB10 {
    fn ty() -> Ty { Ty::Of(Box::new(TNull::ty()), Some(0), Some(300), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB10(x.iter().map(TNull::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for OfB11 {
    fn ty() -> Ty { Ty::Of(Box::new(OctAny::ty()), None, Some(5), true) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => OfB11(x.iter().map(OctAny::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for ChoiceTen {
    fn ty() -> Ty { Ty::Choice(0, 9, false, vec![Alt { ty: TBool::ty(), key: 0, extended: false }, Alt { ty: IntU8::ty(), key: 1, extended: false }, Alt { ty: TNull::ty(), key: 2, extended: false }, Alt { ty: TBool::ty(), key: 3, extended: false }, Alt { ty: IntU8::ty(), key: 4, extended: false }, Alt { ty: TNull::ty(), key: 5, extended: false }, Alt { ty: TBool::ty(), key: 6, extended: false }, Alt { ty: IntU8::ty(), key: 7, extended: false }, Alt { ty: TNull::ty(), key: 8, extended: false }, Alt { ty: TBool::ty(), key: 9, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceTen::V0(y) => Val::Alt(0, Box::new(y.val())), ChoiceTen::V1(y) => Val::Alt(1, Box::new(y.val())), ChoiceTen::V2(y) => Val::Alt(2, Box::new(y.val())), ChoiceTen::V3(y) => Val::Alt(3, Box::new(y.val())), ChoiceTen::V4(y) => Val::Alt(4, Box::new(y.val())), ChoiceTen::V5(y) => Val::Alt(5, Box::new(y.val())), ChoiceTen::V6(y) => Val::Alt(6, Box::new(y.val())), ChoiceTen::V7(y) => Val::Alt(7, Box::new(y.val())), ChoiceTen::V8(y) => Val::Alt(8, Box::new(y.val())), ChoiceTen::V9(y) => Val::Alt(9, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceTen::V0(TBool::of_val(y)?), 1 => ChoiceTen::V1(IntU8::of_val(y)?), 2 => ChoiceTen::V2(TNull::of_val(y)?), 3 => ChoiceTen::V3(TBool::of_val(y)?), 4 => ChoiceTen::V4(IntU8::of_val(y)?), 5 => ChoiceTen::V5(TNull::of_val(y)?), 6 => ChoiceTen::V6(TBool::of_val(y)?), 7 => ChoiceTen::V7(IntU8::of_val(y)?), 8 => ChoiceTen::V8(TNull::of_val(y)?), 9 => ChoiceTen::V9(TBool::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceRev {
    fn ty() -> Ty { Ty::Choice(0, 2, true, vec![Alt { ty: TBool::ty(), key: 2, extended: false }, Alt { ty: IntU8::ty(), key: 1, extended: false }, Alt { ty: TNull::ty(), key: 0, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceRev::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceRev::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceRev::C(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceRev::A(TBool::of_val(y)?), 1 => ChoiceRev::B(IntU8::of_val(y)?), 2 => ChoiceRev::C(TNull::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for ChoiceBig {
    fn ty() -> Ty { Ty::Choice(0, 65535, false, vec![Alt { ty: TBool::ty(), key: 0, extended: false }, Alt { ty: IntU8::ty(), key: 255, extended: false }, Alt { ty: TNull::ty(), key: 65535, extended: false }]) }
    fn val(&self) -> Val { match self { ChoiceBig::A(y) => Val::Alt(0, Box::new(y.val())), ChoiceBig::B(y) => Val::Alt(1, Box::new(y.val())), ChoiceBig::C(y) => Val::Alt(2, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => ChoiceBig::A(TBool::of_val(y)?), 1 => ChoiceBig::B(IntU8::of_val(y)?), 2 => ChoiceBig::C(TNull::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for OpenMany {
    fn ty() -> Ty { Ty::Open(vec![Alt { ty: TBool::ty(), key: 0, extended: false }, Alt { ty: IntU8::ty(), key: 1, extended: false }, Alt { ty: TNull::ty(), key: 2, extended: false }, Alt { ty: SeqMix::ty(), key: 7, extended: false }, Alt { ty: TBool::ty(), key: 8, extended: false }, Alt { ty: IntU8::ty(), key: 127, extended: false }, Alt { ty: TNull::ty(), key: 128, extended: false }, Alt { ty: SeqMix::ty(), key: 255, extended: false }, Alt { ty: TBool::ty(), key: 256, extended: false }, Alt { ty: IntU8::ty(), key: 300, extended: false }, Alt { ty: TNull::ty(), key: 65535, extended: false }]) }
    fn val(&self) -> Val { match self { OpenMany::V0(y) => Val::Alt(0, Box::new(y.val())), OpenMany::V1(y) => Val::Alt(1, Box::new(y.val())), OpenMany::V2(y) => Val::Alt(2, Box::new(y.val())), OpenMany::V3(y) => Val::Alt(3, Box::new(y.val())), OpenMany::V4(y) => Val::Alt(4, Box::new(y.val())), OpenMany::V5(y) => Val::Alt(5, Box::new(y.val())), OpenMany::V6(y) => Val::Alt(6, Box::new(y.val())), OpenMany::V7(y) => Val::Alt(7, Box::new(y.val())), OpenMany::V8(y) => Val::Alt(8, Box::new(y.val())), OpenMany::V9(y) => Val::Alt(9, Box::new(y.val())), OpenMany::V10(y) => Val::Alt(10, Box::new(y.val())) } }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Alt(i, y) => match i { 0 => OpenMany::V0(TBool::of_val(y)?), 1 => OpenMany::V1(IntU8::of_val(y)?), 2 => OpenMany::V2(TNull::of_val(y)?), 3 => OpenMany::V3(SeqMix::of_val(y)?), 4 => OpenMany::V4(TBool::of_val(y)?), 5 => OpenMany::V5(IntU8::of_val(y)?), 6 => OpenMany::V6(TNull::of_val(y)?), 7 => OpenMany::V7(SeqMix::of_val(y)?), 8 => OpenMany::V8(TBool::of_val(y)?), 9 => OpenMany::V9(IntU8::of_val(y)?), 10 => OpenMany::V10(TNull::of_val(y)?), _ => return None }, _ => return None }) }
}
impl Conv for CarrierMany {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![Field { ty: IntU16::ty(), opt: None, key: true }, Field { ty: OpenMany::ty(), opt: None, key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.value.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 2 => CarrierMany { id: IntU16::of_val(&x[0])?, value: OpenMany::of_val(&x[1])? }, _ => return None }) }
}
impl Conv for CarriersMany {
    fn ty() -> Ty { Ty::Of(Box::new(CarrierMany::ty()), Some(0), Some(65535), false) }
    fn val(&self) -> Val { Val::List(self.0.iter().map(|x| x.val()).collect()) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::List(x) => CarriersMany(x.iter().map(CarrierMany::of_val).collect::<Option<Vec<_>>>()?), _ => return None }) }
}
impl Conv for CarrierSigned {
    fn ty() -> Ty { Ty::Seq(false, 1, vec![Field { ty: IntI16::ty(), opt: None, key: true }, Field { ty: OpenMany::ty(), opt: Some(0), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.value.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 2 => CarrierSigned { id: IntI16::of_val(&x[0])?, value: if let Val::Absent = x[1] { None } else { Some(OpenMany::of_val(&x[1])?) } }, _ => return None }) }
}
impl Conv for KeyLast {
    fn ty() -> Ty { Ty::Seq(false, 0, vec![Field { ty: OpenSmall::ty(), opt: None, key: false }, Field { ty: IntU16::ty(), opt: None, key: true }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.value.val(), self.id.val()]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 2 => KeyLast { value: OpenSmall::of_val(&x[0])?, id: IntU16::of_val(&x[1])? }, _ => return None }) }
}
impl Conv for KeyTwice {
    fn ty() -> Ty { Ty::Seq(true, 1, vec![Field { ty: IntU16::ty(), opt: None, key: true }, Field { ty: OpenSmall::ty(), opt: None, key: false }, Field { ty: Carriers::ty(), opt: None, key: false }, Field { ty: OpenMany::ty(), opt: None, key: false }, Field { ty: Outer::ty(), opt: None, key: false }, Field { ty: OpenSmall::ty(), opt: Some(0), key: false }]) }
    fn val(&self) -> Val { Val::Fields(vec![self.id.val(), self.a.val(), self.inner.val(), self.b.val(), self.c.val(), self.d.as_ref().map_or(Val::Absent, |x| x.val())]) }
    #[allow(unreachable_patterns)]
    fn of_val(v: &Val) -> Option<Self> { Some(match v { Val::Fields(x) if x.len() == 6 => KeyTwice { id: IntU16::of_val(&x[0])?, a: OpenSmall::of_val(&x[1])?, inner: Carriers::of_val(&x[2])?, b: OpenMany::of_val(&x[3])?, c: Outer::of_val(&x[4])?, d: if let Val::Absent = x[5] { None } else { Some(OpenSmall::of_val(&x[5])?) } }, _ => return None }) }
}
pub fn all() -> Vec<Entry> {
    vec![
        entry::<TBool>("TBool"),
        entry::<TNull>("TNull"),
        entry::<TOid>("TOid"),
        entry::<IntOne>("IntOne"),
        entry::<IntSmall>("IntSmall"),
        entry::<IntU8>("IntU8"),
        entry::<IntNeg>("IntNeg"),
        entry::<IntI8>("IntI8"),
        entry::<IntExt>("IntExt"),
        entry::<IntU16>("IntU16"),
        entry::<IntOff>("IntOff"),
        entry::<IntI16>("IntI16"),
        entry::<IntBig>("IntBig"),
        entry::<IntU32>("IntU32"),
        entry::<IntI32Ext>("IntI32Ext"),
        entry::<IntI64>("IntI64"),
        entry::<IntU64>("IntU64"),
        entry::<IntSemi>("IntSemi"),
        entry::<IntSemiU>("IntSemiU"),
        entry::<IntUpper>("IntUpper"),
        entry::<IntAny>("IntAny"),
        entry::<IntAnyExt>("IntAnyExt"),
        entry::<IntNarrow>("IntNarrow"),
        entry::<EnumTwo>("EnumTwo"),
        entry::<EnumOne>("EnumOne"),
        entry::<EnumExt>("EnumExt"),
        entry::<EnumWide>("EnumWide"),
        entry::<EnumNarrow>("EnumNarrow"),
        entry::<BitsAny>("BitsAny"),
        entry::<BitsFix8>("BitsFix8"),
        entry::<BitsFix20>("BitsFix20"),
        entry::<BitsVar>("BitsVar"),
        entry::<BitsMin>("BitsMin"),
        entry::<BitsMax>("BitsMax"),
        entry::<OctAny>("OctAny"),
        entry::<OctFix2>("OctFix2"),
        entry::<OctFix4>("OctFix4"),
        entry::<OctVar>("OctVar"),
        entry::<OctVarExt>("OctVarExt"),
        entry::<OctLarge>("OctLarge"),
        entry::<PrintExt>("PrintExt"),
        entry::<PrintOne>("PrintOne"),
        entry::<PrintAny>("PrintAny"),
        entry::<VisFix2>("VisFix2"),
        entry::<VisVar>("VisVar"),
        entry::<Utf8Any>("Utf8Any"),
        entry::<Utf8Sized>("Utf8Sized"),
        entry::<OfFix>("OfFix"),
        entry::<OfVar>("OfVar"),
        entry::<OfExt>("OfExt"),
        entry::<OfAny>("OfAny"),
        entry::<OfMin>("OfMin"),
        entry::<OfLarge>("OfLarge"),
        entry::<OfMax>("OfMax"),
        entry::<SeqEmpty>("SeqEmpty"),
        entry::<SeqEmptyExt>("SeqEmptyExt"),
        entry::<SeqPlain>("SeqPlain"),
        entry::<SeqOpt>("SeqOpt"),
        entry::<SeqExt>("SeqExt"),
        entry::<SeqOptExt>("SeqOptExt"),
        entry::<SeqSix>("SeqSix"),
        entry::<SeqMix>("SeqMix"),
        entry::<SeqNested>("SeqNested"),
        entry::<OfSeq>("OfSeq"),
        entry::<OfOf>("OfOf"),
        entry::<ChoiceThree>("ChoiceThree"),
        entry::<ChoiceOne>("ChoiceOne"),
        entry::<ChoiceExt>("ChoiceExt"),
        entry::<ChoiceWide>("ChoiceWide"),
        entry::<ChoiceNest>("ChoiceNest"),
        entry::<OpenSmall>("OpenSmall"),
        entry::<Carrier>("Carrier"),
        entry::<Carriers>("Carriers"),
        entry::<Message>("Message"),
        entry::<OpenNest>("OpenNest"),
        entry::<Outer>("Outer"),
        entry::<TwoKeys>("TwoKeys"),
        entry::<NoKey>("NoKey"),
        entry::<Lent>("Lent"),
        entry::<LateOpen>("LateOpen"),
        entry::<OpenLow>("OpenLow"),
        entry::<OpenDown>("OpenDown"),
        entry::<ChoiceKeyed>("ChoiceKeyed"),
        entry::<Pdu>("Pdu"),
        entry::<SeqNine>("SeqNine"),
        entry::<SeqMany>("SeqMany"),
        entry::<SeqLots>("SeqLots"),
        entry::<SeqLong>("SeqLong"),
        entry::<IntB0>("IntB0"),
        entry::<IntB1>("IntB1"),
        entry::<IntB2>("IntB2"),
        entry::<IntB3>("IntB3"),
        entry::<IntB4>("IntB4"),
        entry::<IntB5>("IntB5"),
        entry::<IntB6>("IntB6"),
        entry::<IntB7>("IntB7"),
        entry::<IntB8>("IntB8"),
        entry::<IntB9>("IntB9"),
        entry::<IntB10>("IntB10"),
        entry::<IntB11>("IntB11"),
        entry::<IntB12>("IntB12"),
        entry::<IntB13>("IntB13"),
        entry::<IntB14>("IntB14"),
        entry::<IntB15>("IntB15"),
        entry::<IntB16>("IntB16"),
        entry::<IntB17>("IntB17"),
        entry::<IntB18>("IntB18"),
        entry::<IntB19>("IntB19"),
        entry::<IntB20>("IntB20"),
        entry::<IntB21>("IntB21"),
        entry::<IntB22>("IntB22"),
        entry::<IntB23>("IntB23"),
        entry::<IntB24>("IntB24"),
        entry::<IntB25>("IntB25"),
        entry::<IntB26>("IntB26"),
        entry::<EnumB0>("EnumB0"),
        entry::<EnumB1>("EnumB1"),
        entry::<EnumB2>("EnumB2"),
        entry::<EnumB3>("EnumB3"),
        entry::<EnumB4>("EnumB4"),
        entry::<EnumB5>("EnumB5"),
        entry::<EnumB6>("EnumB6"),
        entry::<EnumB7>("EnumB7"),
        entry::<BitsB0>("BitsB0"),
        entry::<BitsB1>("BitsB1"),
        entry::<BitsB2>("BitsB2"),
        entry::<BitsB3>("BitsB3"),
        entry::<BitsB4>("BitsB4"),
        entry::<BitsB5>("BitsB5"),
        entry::<BitsB6>("BitsB6"),
        entry::<BitsB7>("BitsB7"),
        entry::<BitsB8>("BitsB8"),
        entry::<BitsB9>("BitsB9"),
        entry::<BitsB10>("BitsB10"),
        entry::<BitsB11>("BitsB11"),
        entry::<BitsB12>("BitsB12"),
        entry::<BitsB13>("BitsB13"),
        entry::<OctB0>("OctB0"),
        entry::<OctB1>("OctB1"),
        entry::<OctB2>("OctB2"),
        entry::<OctB3>("OctB3"),
        entry::<OctB4>("OctB4"),
        entry::<OctB5>("OctB5"),
        entry::<OctB6>("OctB6"),
        entry::<OctB7>("OctB7"),
        entry::<OctB8>("OctB8"),
        entry::<OctB9>("OctB9"),
        entry::<OctB10>("OctB10"),
        entry::<OctB11>("OctB11"),
        entry::<OctB12>("OctB12"),
        entry::<OctB13>("OctB13"),
        entry::<PrintB0>("PrintB0"),
        entry::<PrintB1>("PrintB1"),
        entry::<PrintB2>("PrintB2"),
        entry::<PrintB3>("PrintB3"),
        entry::<PrintB4>("PrintB4"),
        entry::<PrintB5>("PrintB5"),
        entry::<PrintB6>("PrintB6"),
        entry::<PrintB7>("PrintB7"),
        entry::<PrintB8>("PrintB8"),
        entry::<PrintB9>("PrintB9"),
        entry::<PrintB10>("PrintB10"),
        entry::<PrintB11>("PrintB11"),
        entry::<PrintB12>("PrintB12"),
        entry::<PrintB13>("PrintB13"),
        entry::<VisB0>("VisB0"),
        entry::<VisB1>("VisB1"),
        entry::<VisB2>("VisB2"),
        entry::<VisB3>("VisB3"),
        entry::<VisB4>("VisB4"),
        entry::<VisB5>("VisB5"),
        entry::<VisB6>("VisB6"),
        entry::<VisB7>("VisB7"),
        entry::<VisB8>("VisB8"),
        entry::<VisB9>("VisB9"),
        entry::<VisB10>("VisB10"),
        entry::<VisB11>("VisB11"),
        entry::<VisB12>("VisB12"),
        entry::<VisB13>("VisB13"),
        entry::<OfB0>("OfB0"),
        entry::<OfB1>("OfB1"),
        entry::<OfB2>("OfB2"),
        entry::<OfB3>("OfB3"),
        entry::<OfB4>("OfB4"),
        entry::<OfB5>("OfB5"),
        entry::<OfB6>("OfB6"),
        entry::<OfB7>("OfB7"),
        entry::<OfB8>("OfB8"),
        entry::<OfB9>("OfB9"),
        entry::<OfB10>("OfB10"),
        entry::<OfB11>("OfB11"),
        entry::<ChoiceTen>("ChoiceTen"),
        entry::<ChoiceRev>("ChoiceRev"),
        entry::<ChoiceBig>("ChoiceBig"),
        entry::<OpenMany>("OpenMany"),
        entry::<CarrierMany>("CarrierMany"),
        entry::<CarriersMany>("CarriersMany"),
        entry::<CarrierSigned>("CarrierSigned"),
        entry::<KeyLast>("KeyLast"),
        entry::<KeyTwice>("KeyTwice"),
    ]
}
