// Contracts of raki's own functions (layer M): what vlib/inject.py attaches to them, as pure functions.
// `include!`d after table.rs, rows.rs, spec.rs in a module inside raki's `decode` module.

// ------------------------------------------------------------------ bit utilities

pub fn bits16(h: u16, hi: u32, lo: u32) -> u16 {
    bits(h as u32, hi, lo) as u16
}

/// slice(end, start) is asked for a proper part of the word
pub fn slice_pre(end: u32, start: u32, n: u32) -> bool {
    end < n && start <= end && end - start + 1 < n
}

/// the lowest bit goes to the last position of the list, and so on upwards
pub fn set_is(v: u32, mask: &[u32], r: u32) -> bool {
    let mut want = 0;
    let mut i = 0;
    while i < mask.len() {
        want |= ((v >> i) & 1) << mask[mask.len() - 1 - i];
        i += 1;
    }
    r == want
}

pub fn set_pre(mask: &[u32], most: usize) -> bool {
    if mask.len() > most {
        return false;
    }
    let mut j = 0;
    while j < mask.len() {
        if mask[j] > 31 {
            return false;
        }
        j += 1;
    }
    true
}

pub fn signed_pre(n: u32) -> bool {
    n >= 1 && n < 31
}

pub fn signed_is(v: i32, n: u32, r: i32) -> bool {
    r == ((v << (32 - n)) >> (32 - n))
}

// ------------------------------------------------------------------ errors

/// An error of the 32-bit decoder for a word that encodes nothing for that width.
pub fn err32(w: u32, rv64: bool, e: &DecodingError) -> bool {
    matches!(e, DecodingError::OnlyRv64Inst) == (!rv64 && only64_32(w)) && cause32(w, e)
}

pub fn err16(h: u16, rv64: bool, e: &DecodingError) -> bool {
    matches!(e, DecodingError::OnlyRv64Inst) == (!rv64 && only64_16(h)) && cause16(h, e)
}

/// the opcode itself for RV64, refused for RV32
pub fn gate<T>(rv64: bool, r: &Result<T, DecodingError>, op: core::mem::Discriminant<T>) -> bool {
    match r {
        Ok(o) => rv64 && core::mem::discriminant(o) == op,
        Err(e) => !rv64 && matches!(e, DecodingError::OnlyRv64Inst),
    }
}

// ------------------------------------------------------------------ extensions of 32-bit words

/// What telling the extension apart guarantees to that extension's parser.
pub fn pre_basei32(w: u32) -> bool {
    bits(w, 6, 0) != 0x3b || matches!(bits(w, 31, 25), 0 | 0x20)
}
pub fn pre_a32(w: u32) -> bool {
    bits(w, 6, 0) != 0x2f || matches!(bits(w, 31, 27), 0 | 1 | 2 | 3 | 4 | 8 | 12 | 16 | 20 | 24 | 28)
}
pub fn pre_m32(w: u32) -> bool {
    bits(w, 31, 25) == 1
}
pub fn pre_zifencei32(w: u32) -> bool {
    bits(w, 14, 12) == 0
}
pub fn pre_zicfiss32(w: u32) -> bool {
    bits(w, 6, 0) != 0x2f || bits(w, 31, 27) == 9
}
pub fn pre_zicntr32(w: u32) -> bool {
    bits(w, 19, 15) == 0
}
pub fn pre_priv32(w: u32) -> bool {
    w & 0x707f == 0x73
}

/// No instruction of any extension, for either width, except those whose bit in `but` is set.
fn none_but(w: u32, but: u32) -> bool {
    !((but & 1 == 0 && (any_basei32(w, false) | any_basei32(w, true)))
        | (but & 2 == 0 && (any_m32(w, false) | any_m32(w, true)))
        | (but & 4 == 0 && (any_a32(w, false) | any_a32(w, true)))
        | (but & 8 == 0 && (any_zifencei32(w, false) | any_zifencei32(w, true)))
        | (but & 16 == 0 && (any_zicboz32(w, false) | any_zicboz32(w, true)))
        | (but & 32 == 0 && (any_zicntr32(w, false) | any_zicntr32(w, true)))
        | (but & 64 == 0 && (any_zicsr32(w, false) | any_zicsr32(w, true)))
        | (but & 128 == 0 && (any_zicfiss32(w, false) | any_zicfiss32(w, true)))
        | (but & 256 == 0 && (any_priv32(w, false) | any_priv32(w, true))))
}

/// parse_extension of a 32-bit word: if it encodes anything, then something of that extension.
pub fn ext32(w: u32, r: &Result<Extensions, DecodingError>) -> bool {
    match r {
        Ok(Extensions::BaseI) => pre_basei32(w) && none_but(w, 1),
        Ok(Extensions::M) => pre_m32(w) && none_but(w, 2),
        Ok(Extensions::A) => pre_a32(w) && none_but(w, 4),
        Ok(Extensions::Zifencei) => pre_zifencei32(w) && none_but(w, 8),
        Ok(Extensions::Zicboz) => none_but(w, 16),
        // a read of a counter; those of the upper halves are plain CSR reads on RV64
        Ok(Extensions::Zicntr) => any_zicntr32(w, false) && none_but(w, 32 | 64),
        Ok(Extensions::Zicsr) => none_but(w, 64),
        Ok(Extensions::Zicfiss) => pre_zicfiss32(w) && none_but(w, 128),
        Ok(Extensions::Priv) => pre_priv32(w) && none_but(w, 256),
        Ok(Extensions::C) => major_known(w) && none_but(w, 0),
        Err(e) => none_but(w, 0) && cause32(w, e) && !matches!(e, DecodingError::OnlyRv64Inst),
    }
}

pub fn ext16(h: u16, r: &Result<Extensions, DecodingError>) -> bool {
    match r {
        Ok(Extensions::C) => !any_zicfiss16(h, true),
        Ok(Extensions::Zicfiss) => any_zicfiss16(h, true),
        _ => false,
    }
}

// ------------------------------------------------------------------ opcodes

/// Result of an extension's opcode parser: `enc` tells whether the word encodes the opcode reported,
/// `any` whether it encodes some opcode of the extension, `only64` whether an RV64-only one.
fn opcode32<T>(
    w: u32,
    rv64: bool,
    r: &Result<T, DecodingError>,
    enc: impl Fn(&T, u32, bool) -> bool,
    any: bool,
    only64: bool,
) -> bool {
    match r {
        Ok(o) => enc(o, w, rv64),
        Err(e) => !any && cause32(w, e) && matches!(e, DecodingError::OnlyRv64Inst) == (!rv64 && only64),
    }
}

pub fn op_basei32(w: u32, rv64: bool, r: &Result<BaseIOpcode, DecodingError>) -> bool {
    opcode32(w, rv64, r, enc_basei32, any_basei32(w, rv64), only64_basei32(w))
}
pub fn op_m32(w: u32, rv64: bool, r: &Result<MOpcode, DecodingError>) -> bool {
    opcode32(w, rv64, r, enc_m32, any_m32(w, rv64), only64_m32(w))
}
pub fn op_a32(w: u32, rv64: bool, r: &Result<AOpcode, DecodingError>) -> bool {
    opcode32(w, rv64, r, enc_a32, any_a32(w, rv64), only64_a32(w))
}
pub fn op_zicfiss32(w: u32, rv64: bool, r: &Result<ZicfissOpcode, DecodingError>) -> bool {
    opcode32(w, rv64, r, enc_zicfiss32, any_zicfiss32(w, rv64), only64_zicfiss32(w))
}
// these do not depend on the width (the upper-half counters are those of RV32)
pub fn op_zifencei32(w: u32, r: &Result<ZifenceiOpcode, DecodingError>) -> bool {
    opcode32(w, false, r, enc_zifencei32, any_zifencei32(w, false), false)
}
pub fn op_zicboz32(w: u32, r: &Result<ZicbozOpcode, DecodingError>) -> bool {
    opcode32(w, false, r, enc_zicboz32, any_zicboz32(w, false), false)
}
pub fn op_zicntr32(w: u32, r: &Result<ZicntrOpcode, DecodingError>) -> bool {
    opcode32(w, false, r, enc_zicntr32, any_zicntr32(w, false), false)
}
pub fn op_zicsr32(w: u32, r: &Result<ZicsrOpcode, DecodingError>) -> bool {
    opcode32(w, false, r, enc_zicsr32, any_zicsr32(w, false), false)
}
pub fn op_priv32(w: u32, r: &Result<PrivOpcode, DecodingError>) -> bool {
    opcode32(w, false, r, enc_priv32, any_priv32(w, false), false)
}

/// parse_opcode of a 32-bit word
pub fn op32(w: u32, rv64: bool, r: &Result<OpcodeKind, DecodingError>) -> bool {
    match r {
        Ok(o) => enc32(o, w, rv64),
        Err(e) => !any32(w, rv64) && err32(w, rv64, e),
    }
}

fn opcode16(h: u16, rv64: bool, q: u16, r: &Result<COpcode, DecodingError>) -> bool {
    match r {
        Ok(o) => h & 3 == q && enc_c16(o, h, rv64),
        Err(e) => {
            !any_c16(h, rv64)
                && matches!(e, DecodingError::OnlyRv64Inst) == (!rv64 && only64_c16(h))
                && (matches!(e, DecodingError::OnlyRv64Inst) || matches!(e, DecodingError::InvalidOpcode))
        }
    }
}

pub fn quadrant_pre(h: u16, opmap: u8, q: u16) -> bool {
    h != 0 && h & 3 == q && opmap as u16 == h >> 13
}
pub fn quadrant(h: u16, rv64: bool, q: u16, r: &Result<COpcode, DecodingError>) -> bool {
    opcode16(h, rv64, q, r)
}
pub fn op_c16(h: u16, rv64: bool, r: &Result<COpcode, DecodingError>) -> bool {
    opcode16(h, rv64, h & 3, r)
}
pub fn op_zicfiss16(h: u16, rv64: bool, r: &Result<ZicfissOpcode, DecodingError>) -> bool {
    match r {
        Ok(o) => enc_zicfiss16(o, h, rv64),
        Err(e) => !any_zicfiss16(h, rv64) && matches!(e, DecodingError::InvalidOpcode),
    }
}
pub fn op16(h: u16, rv64: bool, r: &Result<OpcodeKind, DecodingError>) -> bool {
    match r {
        Ok(o) => enc16(o, h, rv64),
        Err(e) => !any16(h, rv64) && err16(h, rv64, e),
    }
}

// ------------------------------------------------------------------ fields

pub fn reg_is(r: &Option<usize>, want: Option<usize>) -> bool {
    opt_eq(*r, want)
}
pub fn imm_is(r: &Option<i32>, want: Option<i32>) -> bool {
    imm_eq(*r, want)
}
pub fn format_is(r: &InstFormat, want: InstFormat) -> bool {
    fmt_eq(r, &want)
}
/// a shadow-stack opcode of the 32-bit / 16-bit length
pub fn ss32(o: &ZicfissOpcode) -> bool {
    !ss16(o)
}
pub fn ss16(o: &ZicfissOpcode) -> bool {
    matches!(o, ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)
}

// ------------------------------------------------------------------ decode

pub fn decode32(w: u32, rv64: bool, r: &Res) -> bool {
    match r {
        Ok(i) => enc32(&i.opc, w, rv64) && wf(i, w, rv64),
        Err(e) => !any32(w, rv64) && err32(w, rv64, e),
    }
}
pub fn decode16(h: u16, rv64: bool, r: &Res) -> bool {
    match r {
        Ok(i) => enc16(&i.opc, h, rv64) && wf(i, h as u32, rv64),
        Err(e) => {
            !any16(h, rv64)
                && err16(h, rv64, e)
                && (h != 0 || matches!(e, DecodingError::IllegalInstruction))
        }
    }
}
/// only values of the length their low bits announce, decoded for RV64
pub fn decode_usize(v: usize, r: &Res) -> bool {
    if v & 3 == 3 {
        if v > 0xffff_ffff {
            r.is_err()
        } else {
            decode32(v as u32, true, r)
        }
    } else if v > 0xffff {
        r.is_err()
    } else {
        decode16(v as u16, true, r)
    }
}
