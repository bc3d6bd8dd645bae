# (name, file below codecs/src/aper, old, new, properties expected to be reported; [] = behaviour kept)
M = [
 ('enc_semi_no_check', 'encode/encode_internal.rs', '''    if value < lb {
        return Err(AperCodecError::new(format!(
            "Cannot encode integer {} - less than lower bound {}",
            value, lb,
        )));
    }

    let value = value
        .checked_sub''', '''    let value = value
        .checked_sub''', ['C05']),
 ('len127', 'encode/encode_internal.rs', 'if value < 128 {\n        let byte', 'if value <= 128 {\n        let byte', ['C03']),
 ('len16383', 'encode/encode_internal.rs', 'value < 16384 {', 'value <= 16384 {', ['C05']),
 ('cwn64k', 'encode/encode_internal.rs', '} else if range <= 65536 {', '} else if range < 65536 {', ['C01']),
 ('dec64k', 'decode/decode_internal.rs', '} else if range <= 65536 {', '} else if range < 65536 {', ['C01']),
 ('bits17', 'encode/mod.rs', 'if length > 16 || lb != ub {', 'if length >= 16 || lb != ub {', ['C02']),
 ('oct_lb_ub', 'decode/mod.rs', 'if length > 2 || lb != ub {', 'if length > 2 {', ['C02']),
 ('frag_break', 'decode/mod.rs', '''            octets.extend(data.get_bytes(length)?);
        }

        // Fragmented So get the chunks in multiples of 16384,
        if length >= 16384''', '''            octets.extend(data.get_bytes(length)?);
        }

        // Fragmented So get the chunks in multiples of 16384,
        if length > 16384''', ['C02']),
 ('sign24', 'mod.rs', 'inner & 0x00FFFFFF\n', 'inner & 0x007FFFFF\n', []),   # equivalent: the sign bit is 0
 ('sign40', 'mod.rs', 'inner | 0xFFFFFF0000000000', 'inner | 0xFFFF000000000000', ['C01']),
 ('sign56', 'mod.rs', 'inner | 0xFF00000000000000', 'inner | 0xFE00000000000000', ['C01']),
 ('off_end', 'mod.rs', 'if length + self.decode_offset > self.bits.len() {\n            return Err(AperCodecError::new(\n                format!(\n                    "AperCodec:GetBitError:Requested Bits', 'if length + self.decode_offset > self.bits.len() + 7 {\n            return Err(AperCodecError::new(\n                format!(\n                    "AperCodec:GetBitError:Requested Bits', ['C04']),
 ('get_bytes_noalign', 'mod.rs', '        bv.force_align();\n', '', ['C02']),
 ('align_skip_check', 'mod.rs', '.all(|b| b == false)', '.any(|b| b == false)', ['C07']),
 ('ext_bit', 'decode/mod.rs', '''    let is_extended = if is_extensible {
        data.decode_bool()?
    } else {
        false
    };

    let decoded = if !is_extended {''', '''    let is_extended = if is_extensible && lb.is_some() {
        data.decode_bool()?
    } else {
        false
    };

    let decoded = if !is_extended {''', ['C03']),
 ('ub_check', 'decode/decode_internal.rs', 'value > ub', 'value > ub + 1', ['C06']),
 ('neg_unc', 'encode/encode_internal.rs', 'if leading_ones % 8 == 0 {', 'if leading_ones % 8 == 0 && leading_ones < 120 {', ['C01']),
 ('uwn_pos', 'encode/encode_internal.rs', 'if leading_zeroes % 8 == 0 {', 'if leading_zeroes % 8 == 0 && leading_zeroes != 64 {', ['C01']),
 ('pos15', 'encode/encode_internal.rs', 'unwrap_or(15);\n        encode_constrained', 'unwrap_or(14);\n        encode_constrained', ['C01']),
 ('hdr', 'encode/mod.rs', 'data.append_bits(optionals);', 'if optionals.any() { data.append_bits(optionals); }', ['C03']),
 ('align_twice', 'mod.rs', 'if remaining > self.bits.len() - self.decode_offset {', 'if remaining >= self.bits.len() - self.decode_offset {', ['C07']),
 ('nsn', 'decode/decode_internal.rs', 'if length >= 16384', 'if length >= 16385', None),
 # -------------------------------------------------------------- behaviour kept
 ('r_swap', 'encode/mod.rs', '''    if is_extensible {
        data.encode_bool(extended);
    }

    let length = bit_string.len();
    if length >= 16384 {
        return Err(AperCodecError::new(
            "Encode of fragmented bitstring not yet implemented",
        ));
    }
''', '''    let length = bit_string.len();
    if length >= 16384 {
        return Err(AperCodecError::new(
            "Encode of fragmented bitstring not yet implemented",
        ));
    }

    if is_extensible {
        data.encode_bool(extended);
    }
''', []),
 ('r_helper', 'decode/mod.rs', '''    let extended = if is_extensible {
        data.decode_bool()?
    } else {
        false
    };

    let mut bitmap = BitVec::new();''', '''    let extended = ext_bit(data, is_extensible)?;

    let mut bitmap = BitVec::new();''', [], ('''/// Decode an Integer
///
/// Given''', '''fn ext_bit(data: &mut AperCodecData, is_extensible: bool) -> Result<bool, AperCodecError> {
    if is_extensible {
        data.decode_bool()
    } else {
        Ok(false)
    }
}

/// Decode an Integer
///
/// Given''')),
 ('r_while', 'decode/mod.rs', '''            octets.extend(data.get_bytes(length)?);
        }

        // Fragmented So get the chunks in multiples of 16384,
        if length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536)) {
            continue;
        } else {
            break;
        }
    }
''', '''            octets.extend(data.get_bytes(length)?);
        }

        // Fragmented So get the chunks in multiples of 16384,
        let more = length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536));
        if !more {
            break;
        }
    }
''', []),
 ('r_match', 'decode/mod.rs', '''        match lb {
            None =>
            // 12.2.4
            {
                decode_unconstrained_whole_number(data)?
            }
            Some(lb) => {
                match ub {
                    None =>
                    // 12.2.3
                    {
                        decode_semi_constrained_whole_number(data, lb)?
                    }
                    Some(ub) => {
                        // 12.2.1 and 12.2.2
                        decode_constrained_whole_number(data, lb, ub)?
                    }
                }
            }
        }''', '''        match (lb, ub) {
            (None, _) => decode_unconstrained_whole_number(data)?,
            (Some(lb), None) => decode_semi_constrained_whole_number(data, lb)?,
            (Some(lb), Some(ub)) => decode_constrained_whole_number(data, lb, ub)?,
        }''', []),
 ('r_iflet', 'encode/encode_internal.rs', '''    let bytes_needed = if value < 0 {
        let leading_ones = value.leading_ones();

        if leading_ones % 8 == 0 {
            16 - leading_ones / 8 + 1
        } else {
            16 - leading_ones / 8
        }
    } else {
        let leading_zeroes = value.leading_zeros();
        if leading_zeroes % 8 == 0 {
            16 - leading_zeroes / 8 + 1
        } else {
            16 - leading_zeroes / 8
        }
    };''', '''    let leading = if value < 0 { value.leading_ones() } else { value.leading_zeros() };
    let extra = if leading % 8 == 0 { 1 } else { 0 };
    let bytes_needed = 16 - leading / 8 + extra;''', []),
 ('r_ranges', 'encode/encode_internal.rs', '''            1 => 0,
            2 => 1,
            3..=4 => 2,
            5..=8 => 3,
            9..=16 => 4,
            17..=32 => 5,
            33..=64 => 6,
            65..=128 => 7,
            129..=255 => 8,
            256 => {
                data.align();
                8
            }
            _ => unreachable!(),
        };''', '''            256 => {
                data.align();
                8
            }
            r => (8 - ((r - 1) as u8).leading_zeros()) as usize,
        };''', []),
 ('r_early', 'mod.rs', '''        let offset = self.decode_offset + bits;
        if offset > self.bits.len() {
            if ignore {
                self.decode_offset = self.bits.len()
            } else {
                let remaining = self.bits.len() - self.decode_offset;
                return Err(AperCodecError::new(
                    format!(
                        "AperCodec:DecodeError:Requested Bits to advance {}, Remaining bits {}",
                        bits, remaining
                    )
                    .as_str(),
                ));
            }
        } else {
            self.decode_offset = offset
        }
        Ok(())''', '''        let offset = self.decode_offset + bits;
        let end = self.bits.len();
        if offset <= end {
            self.decode_offset = offset;
            return Ok(());
        }
        if !ignore {
            return Err(AperCodecError::new("AperCodec:DecodeError: beyond the end"));
        }
        self.decode_offset = end;
        Ok(())''', []),
 ('r_nop', 'encode/mod.rs', '    let length = octet_string.len();\n', '    let length = octet_string.len();\n    let _unused = 1u8;\n', []),
 ('r_iter', 'mod.rs', '.iter()\n            .all(|b| b == false)', '.not_any()', [], ('if !self.bits[self.decode_offset..self.decode_offset + remaining]\n            .not_any()', 'if self.bits[self.decode_offset..self.decode_offset + remaining].any()')),
]
