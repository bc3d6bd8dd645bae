// The reserved words of X.680 the compiler knows, and the words its parser treats as type names.

verus! {

pub mod words {
    use vstd::prelude::*;
    pub open spec fn keywords() -> Seq<Seq<char>> {
        seq![
            "ABSENT"@, "ABSTRACT-SYNTAX"@, "ALL"@, "APPLICATION"@, "AUTOMATIC"@, "BEGIN"@,
            "BIT"@, "BMPString"@, "BOOLEAN"@, "BY"@, "CHARACTER"@, "CHOICE"@,
            "CLASS"@, "COMPONENT"@, "COMPONENTS"@, "CONSTRAINED"@, "CONTAINING"@, "DEFAULT"@,
            "DEFINITIONS"@, "EMBEDDED"@, "ENCODED"@, "END"@, "ENUMERATED"@, "EXCEPT"@,
            "EXPLICIT"@, "EXPORTS"@, "EXTENSIBILITY"@, "EXTERNAL"@, "FALSE"@, "FROM"@,
            "GeneralizedTime"@, "GeneralString"@, "GraphicString"@, "IA5String"@, "IDENTIFIER"@, "IMPLIED"@,
            "IMPLICIT"@, "IMPORTS"@, "INCLUDES"@, "INSTANCE"@, "INTEGER"@, "INTERSECTION"@,
            "ISO646String"@, "MAX"@, "MIN"@, "MINUS-INFINITY"@, "NULL"@, "NumericString"@,
            "OBJECT"@, "ObjectDescriptor"@, "OCTET"@, "OF"@, "OPTIONAL"@, "PATTERN"@,
            "PDV"@, "PLUS-INFINITY"@, "PRESENT"@, "PrintableString"@, "PRIVATE"@, "REAL"@,
            "RELATIVE-OID"@, "SEQUENCE"@, "SET"@, "SIZE"@, "STRING"@, "SYNTAX"@,
            "T61String"@, "TAGS"@, "TeletexString"@, "TRUE"@, "TYPE-IDENTIFIER"@, "UNION"@,
            "UNIQUE"@, "UNIVERSAL"@, "UniversalString"@, "UTCTime"@, "UTF8String"@, "VideotexString"@,
            "VisibleString"@, "WITH"@,
        ]
    }
    pub open spec fn base_types() -> Seq<Seq<char>> {
        seq![
            "INTEGER"@, "BOOLEAN"@, "ENUMERATED"@, "NULL"@, "UTF8String"@, "IA5String"@,
            "PrintableString"@, "VisibleString"@, "OBJECT"@, "OCTET"@, "BIT"@, "CHARACTER"@,
        ]
    }
    pub open spec fn constructed_types() -> Seq<Seq<char>> {
        seq![
            "SEQUENCE"@, "SET"@, "CHOICE"@,
        ]
    }
    pub open spec fn syntax_words() -> Seq<Seq<char>> {
        seq![
            "BIT"@, "BOOLEAN"@, "CHARACTER"@, "CHOICE"@, "EMBEDDED"@, "END"@,
            "ENUMERATED"@, "EXTERNAL"@, "FALSE"@, "INSTANCE"@, "INTEGER"@, "INTERSECTION"@,
            "MINUS-INFINITY"@, "NULL"@, "OBJECT"@, "PLUS-INFINITY"@, "REAL"@, "RELATIVE-OID"@,
            "SEQUENCE"@, "SET"@, "TRUE"@, "UNION"@,
        ]
    }
}

} // verus!
