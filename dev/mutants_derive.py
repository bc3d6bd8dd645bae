"""Small changes of the derive macro, and the checks expected to see them ([] : none may)."""
ROOT = 'codecs_derive/src'
CRATE = 'codecs/src codecs_derive/src'
ALL = ['D01', 'D02', 'D03', 'D04', 'D05']
M = [
 ('enum_ext_ok', 'aper/enumerated.rs', 'if decoded.1 {', 'if decoded.1 && decoded.0 > 255 {', ['D01']),
 ('int_as', 'aper/integer.rs', '''match <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0) {
                    Ok(value) => Ok(Self(value)),''', '''match <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0 as #ty as i128) {
                    Ok(value) => Ok(Self(value)),''', ['D01']),
 ('ext_str', 'aper/charstring.rs', 'let sz_ext = if params.sz_ext.is_some() {', 'let sz_ext = if params.sz_ext.is_some() && params.sz_lb.as_ref().map_or(true, |x| x.value() != "1") {', ['D01']),
 ('bounds_zero', 'utils.rs', 'let ub = if ub.is_some() {', 'let ub = if ub.is_some() && ub.as_ref().unwrap().value() != "65535" {', ['D01', 'D02']),
 ('opt_idx', 'aper/seq.rs', 'bitmap.set(#optional_idx, true);', 'bitmap.set(#optional_idx & 3, true);', ['D02']),
 ('opt_enc_order', 'aper/seq.rs', 'encode_tokens.push(field_encode_token);', 'if optional { encode_tokens.push(field_encode_token); } else { let at = encode_tokens.len().min(4); encode_tokens.insert(at, field_encode_token); }', ['D02']),
 ('no_additions', 'aper/seq.rs', 'if extensions_present {', 'if extensions_present && #opt_count > 0 {', ['D02']),
 ('key_lost', 'aper/seq.rs', 'let _ = data.set_key(key);', 'if data.get_key().is_none() { data.set_key(key); }', ['D03']),
 ('key_opt', 'aper/seq.rs', '#set_key\n                                                Some', 'Some', ['D02', 'D03']),
 ('of_zero', 'aper/seqof.rs', 'while count < length {', 'while count < length && items.len() < 4096 {', ['D02']),
 ('of_ext', 'aper/seqof.rs', 'if length >= 16384 && (extended || #sz_is_general) {', 'if length >= 16384 && #sz_is_general {', ['D02', 'D04']),
 ('choice_ext', 'aper/choice.rs', '#lb, #ub, #ext, #key, #extended)', '#lb, #ub, #ext, #key, false)', ['D03', 'D05']),
 ('open_pad', 'aper/open.rs', 'if inner.length_in_bytes() == 0 {', 'if false {', ['D03']),
 ('open_key', 'aper/open.rs', 'data.set_key(key);', 'if key > 0 { data.set_key(key); }', ['D03']),
 ('open_swallow', 'aper/open.rs', 'v.encode(&mut inner)?', '{ let _ = v.encode(&mut inner); }', ['D05']),
 ('vis_printable', 'aper/charstring.rs', 'syn::Ident::new("encode_visible_string", Span::call_site())', 'syn::Ident::new("encode_utf8_string", Span::call_site())', ['D01']),
 ('octet_ub', 'aper/octetstring.rs', 'let decoded = asn1_codecs::aper::decode::decode_octetstring(data, #sz_lb, #sz_ub, #sz_ext)?;', 'let decoded = asn1_codecs::aper::decode::decode_octetstring(data, #sz_lb, #sz_ub, #sz_ext)?;\n                if decoded.len() > 4000 { return Err(asn1_codecs::aper::AperCodecError::new("too long")); }', ['D01']),
 ('bool_panic', 'aper/boolean.rs', 'let value = asn1_codecs::aper::decode::decode_bool(data)?;', 'let value = asn1_codecs::aper::decode::decode_bool(data).unwrap();', ['D04']),
 ('no_compile', 'aper/seq.rs', 'if self.#id.is_some() {\n                                        bitmap', 'if self.#id.is_same() {\n                                        bitmap', ['D02']),
 ('macro_panic', 'aper/choice.rs', 'let name = &ast.ident;', 'let name = &ast.ident; assert!(name != "ChoiceExt");', ['D03']),
 # edits that change no behaviour
 ('r_loop', 'aper/seqof.rs', '''let mut items = Vec::new();
                let mut count = 0;
                while count < length {
                    items.push(#ty::decode(data)?);
                    count += 1;
                }
''', '''let mut items = Vec::new();
                for _ in 0..length {
                    items.push(#ty::decode(data)?);
                }
''', []),
 ('r_match', 'aper/enumerated.rs', '''if decoded.1 {
                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
                }
                match <''', '''let (index, added) = decoded;
                if added {
                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
                }
                match <''', [], ('try_from(decoded.0)', 'try_from(index)'), ('", decoded.0, str', '", index, str')),
 ('r_field', 'aper/seq.rs', '''if self.#id.is_some() {
                                        let #id = self.#id.as_ref().unwrap();
                                        #id.encode(data)?;
                                    } else {
                                    }''', '''if let Some(ref inner) = self.#id {
                                        inner.encode(data)?;
                                    }''', []),
 ('r_hdr', 'aper/seq.rs', '''if self.#id.is_some() {
                                        bitmap.set(#optional_idx, true);
                                    } else {
                                    }''', 'bitmap.set(#optional_idx, self.#id.is_some());', []),
 ('r_openkey', 'aper/open.rs', '''if data.get_key().is_none() {
                    return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
                }

                let key = data.get_key().unwrap();
''', '''let key = match data.get_key() {
                    Some(key) => key,
                    None => return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!")),
                };
''', []),
 ('r_intmap', 'aper/integer.rs', '''match <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0) {
                    Ok(value) => Ok(Self(value)),
                    Err(_) => Err(''', '''let (number, _) = decoded;
                match <#ty as core::convert::TryFrom<i128>>::try_from(number) {
                    Ok(value) => Ok(Self(value)),
                    Err(_) => Err(''', []),
 ('r_itermut', 'aper/seqof.rs', '''for elem in &self.0 {
                    let _ = elem.encode(data)?;
                }
                Ok(())''', '''self.0.iter().try_for_each(|elem| elem.encode(data))''', []),
 ('r_fncall', 'aper/octetstring.rs', '''let decoded = asn1_codecs::aper::decode::decode_octetstring(data, #sz_lb, #sz_ub, #sz_ext)?;
                Ok(Self(decoded))''', '''asn1_codecs::aper::decode::decode_octetstring(data, #sz_lb, #sz_ub, #sz_ext).map(Self)''', []),
]
