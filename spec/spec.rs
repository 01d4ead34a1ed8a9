// The specification: operand fields, immediates, re-encoding, text and the property predicates.
// Written from the RISC-V ISA manual and from the property statements, not from raki's decoder.
//
// This file is `include!`d (together with table.rs) into a module in whose scope the public names
// of raki are visible: BaseIOpcode, ..., InstFormat, Instruction, OpcodeKind, DecodingError, Isa, Decode.
// `Instruction` fields are public, so the specification can talk about them.

pub fn isa(rv64: bool) -> Isa {
    if rv64 { Isa::Rv64 } else { Isa::Rv32 }
}

/// bits hi..=lo of w
pub fn bits(w: u32, hi: u32, lo: u32) -> u32 {
    (w << (31 - hi)) >> (31 - hi + lo)
}

/// bit `from` of w moved to position `to`
fn mv(w: u32, from: u32, to: u32) -> u32 {
    ((w >> from) & 1) << to
}

/// sign extension of the low n bits
fn sext(v: u32, n: u32) -> i32 {
    ((v << (32 - n)) as i32) >> (32 - n)
}

// ------------------------------------------------------------------ operands of 32-bit instructions

pub fn rd32(w: u32, k: Kind) -> Option<usize> {
    match k {
        Kind::U | Kind::J | Kind::I | Kind::Sh | Kind::ShW | Kind::R | Kind::Lr | Kind::Amo | Kind::Fence | Kind::Cnt
        | Kind::Csr | Kind::CsrI | Kind::SsAmo => Some(bits(w, 11, 7) as usize),
        Kind::SsPush | Kind::SsPop => Some(0),
        _ => None,
    }
}

pub fn rs1_32(w: u32, k: Kind) -> Option<usize> {
    match k {
        Kind::I | Kind::B | Kind::S | Kind::Sh | Kind::ShW | Kind::R | Kind::Lr | Kind::Amo | Kind::Fence | Kind::Cbo
        | Kind::Csr | Kind::SsPop | Kind::SsAmo | Kind::Sfence => Some(bits(w, 19, 15) as usize),
        Kind::SsPush => Some(0),
        _ => None,
    }
}

pub fn rs2_32(w: u32, k: Kind) -> Option<usize> {
    match k {
        Kind::B | Kind::S | Kind::R | Kind::Amo | Kind::SsPush | Kind::SsAmo | Kind::Sfence => {
            Some(bits(w, 24, 20) as usize)
        }
        Kind::Csr | Kind::CsrI => Some(bits(w, 31, 20) as usize),
        _ => None,
    }
}

pub fn imm32(w: u32, k: Kind, rv64: bool) -> Option<i32> {
    match k {
        Kind::U => Some(bits(w, 31, 12) as i32),
        Kind::J => Some(sext(
            mv(w, 31, 20) | bits(w, 19, 12) << 12 | mv(w, 20, 11) | bits(w, 30, 21) << 1,
            21,
        )),
        Kind::I => Some((w as i32) >> 20),
        Kind::B => Some(sext(
            mv(w, 31, 12) | mv(w, 7, 11) | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1,
            13,
        )),
        Kind::S => Some(sext(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12)),
        Kind::Sh => Some(bits(w, if rv64 { 25 } else { 24 }, 20) as i32),
        Kind::ShW => Some(bits(w, 24, 20) as i32),
        Kind::Lr | Kind::Amo => Some(bits(w, 26, 25) as i32),
        Kind::Fence => Some(bits(w, 31, 20) as i32),
        Kind::CsrI => Some(bits(w, 19, 15) as i32),
        _ => None,
    }
}

// ------------------------------------------------------------------ operands of 16-bit instructions

fn creg(h: u32, lo: u32) -> usize {
    8 + bits(h, lo + 2, lo) as usize
}

pub fn rd16(h: u16, k: Kind) -> Option<usize> {
    let w = h as u32;
    match k {
        Kind::CAddi4spn | Kind::CLw | Kind::CLd => Some(creg(w, 2)),
        Kind::CShift | Kind::CAndi | Kind::CA => Some(creg(w, 7)),
        Kind::CAddi | Kind::CLi | Kind::CAddi16sp | Kind::CLui | Kind::CSlli | Kind::CLwsp | Kind::CLdsp | Kind::CMv
        | Kind::CAdd => Some(bits(w, 11, 7) as usize),
        Kind::CSsPush => Some(1),
        Kind::CSsPop => Some(5),
        _ => None,
    }
}

pub fn rs1_16(h: u16, k: Kind) -> Option<usize> {
    let w = h as u32;
    match k {
        Kind::CLw | Kind::CLd | Kind::CSw | Kind::CSd | Kind::CShift | Kind::CAndi | Kind::CA | Kind::CB => {
            Some(creg(w, 7))
        }
        Kind::CAddi | Kind::CAddi16sp | Kind::CSlli | Kind::CJr | Kind::CAdd => Some(bits(w, 11, 7) as usize),
        _ => None,
    }
}

pub fn rs2_16(h: u16, k: Kind) -> Option<usize> {
    let w = h as u32;
    match k {
        Kind::CSw | Kind::CSd | Kind::CA => Some(creg(w, 2)),
        Kind::CJr | Kind::CMv | Kind::CAdd | Kind::CSwsp | Kind::CSdsp => Some(bits(w, 6, 2) as usize),
        _ => None,
    }
}

pub fn imm16(h: u16, k: Kind) -> Option<i32> {
    let w = h as u32;
    match k {
        // nzuimm[5:4|9:6|2|3]
        Kind::CAddi4spn => {
            Some((bits(w, 12, 11) << 4 | bits(w, 10, 7) << 6 | mv(w, 6, 2) | mv(w, 5, 3)) as i32)
        }
        // uimm[5:3] ... uimm[2|6]
        Kind::CLw | Kind::CSw => Some((bits(w, 12, 10) << 3 | mv(w, 6, 2) | mv(w, 5, 6)) as i32),
        // uimm[5:3] ... uimm[7:6]
        Kind::CLd | Kind::CSd => Some((bits(w, 12, 10) << 3 | bits(w, 6, 5) << 6) as i32),
        // imm[5] ... imm[4:0]
        Kind::CNop | Kind::CAddi | Kind::CLi | Kind::CAndi => Some(sext(mv(w, 12, 5) | bits(w, 6, 2), 6)),
        Kind::CShift | Kind::CSlli => Some((mv(w, 12, 5) | bits(w, 6, 2)) as i32),
        // nzimm[9] ... nzimm[4|6|8:7|5]
        Kind::CAddi16sp => Some(sext(
            mv(w, 12, 9) | mv(w, 6, 4) | mv(w, 5, 6) | bits(w, 4, 3) << 7 | mv(w, 2, 5),
            10,
        )),
        // nzimm[17] ... nzimm[16:12]
        Kind::CLui => Some(sext(mv(w, 12, 17) | bits(w, 6, 2) << 12, 18)),
        // imm[11|4|9:8|10|6|7|3:1|5]
        Kind::CJ => Some(sext(
            mv(w, 12, 11)
                | mv(w, 11, 4)
                | bits(w, 10, 9) << 8
                | mv(w, 8, 10)
                | mv(w, 7, 6)
                | mv(w, 6, 7)
                | bits(w, 5, 3) << 1
                | mv(w, 2, 5),
            12,
        )),
        // imm[8|4:3] ... imm[7:6|2:1|5]
        Kind::CB => Some(sext(
            mv(w, 12, 8) | bits(w, 11, 10) << 3 | bits(w, 6, 5) << 6 | bits(w, 4, 3) << 1 | mv(w, 2, 5),
            9,
        )),
        // uimm[5] ... uimm[4:2|7:6]
        Kind::CLwsp => Some((mv(w, 12, 5) | bits(w, 6, 4) << 2 | bits(w, 3, 2) << 6) as i32),
        // uimm[5] ... uimm[4:3|8:6]
        Kind::CLdsp => Some((mv(w, 12, 5) | bits(w, 6, 5) << 3 | bits(w, 4, 2) << 6) as i32),
        // uimm[5:2|7:6]
        Kind::CSwsp => Some((bits(w, 12, 9) << 2 | bits(w, 8, 7) << 6) as i32),
        // uimm[5:3|8:6]
        Kind::CSdsp => Some((bits(w, 12, 10) << 3 | bits(w, 9, 7) << 6) as i32),
        _ => None,
    }
}

// ------------------------------------------------------------------ re-encoding (C17)

fn reg(o: Option<usize>) -> u32 {
    match o {
        Some(r) if r < 32 => r as u32,
        _ => 0,
    }
}

fn csr(o: Option<usize>) -> u32 {
    match o {
        Some(r) if r < 4096 => r as u32,
        _ => 0,
    }
}

fn immv(o: Option<i32>) -> u32 {
    match o {
        Some(i) => i as u32,
        _ => 0,
    }
}

/// Rebuilds a 32-bit word from the decoded instruction (ordering bits of ssamoswap: zero).
pub fn encode32(i: &Instruction) -> u32 {
    let (_, fixed) = fixed32(&i.opc);
    let (rd, rs1, rs2, im) = (reg(i.rd) << 7, reg(i.rs1) << 15, reg(i.rs2) << 20, immv(i.imm));
    fixed
        | match kind_of(&i.opc) {
            Kind::U => rd | (im & 0xfffff) << 12,
            Kind::J => rd | mv(im, 20, 31) | bits(im, 10, 1) << 21 | mv(im, 11, 20) | bits(im, 19, 12) << 12,
            Kind::I => rd | rs1 | im << 20,
            Kind::B => rs1 | rs2 | mv(im, 12, 31) | bits(im, 10, 5) << 25 | bits(im, 4, 1) << 8 | mv(im, 11, 7),
            Kind::S => rs1 | rs2 | bits(im, 11, 5) << 25 | bits(im, 4, 0) << 7,
            Kind::Sh | Kind::ShW => rd | rs1 | (im & 0x3f) << 20,
            Kind::R => rd | rs1 | rs2,
            Kind::Lr => rd | rs1 | (im & 3) << 25,
            Kind::Amo => rd | rs1 | rs2 | (im & 3) << 25,
            Kind::Fence => rd | rs1 | im << 20,
            Kind::Cbo => rs1,
            Kind::Cnt => rd,
            Kind::Csr => rd | rs1 | csr(i.rs2) << 20,
            Kind::CsrI => rd | (im & 31) << 15 | csr(i.rs2) << 20,
            Kind::SsPush => rs2,
            Kind::SsPop => rs1,
            Kind::SsAmo => rd | rs1 | rs2,
            Kind::Sfence => rs1 | rs2,
            _ => 0,
        }
}

/// Bits of a 32-bit word that its decoding does not represent.
pub fn lost32(op: &OpcodeKind) -> u32 {
    match kind_of(op) {
        Kind::SsAmo => 3 << 25,
        _ => 0,
    }
}

/// Rebuilds a halfword from the decoded instruction.
pub fn encode16(i: &Instruction) -> u16 {
    let (_, fixed) = fixed16(&i.opc);
    let im = immv(i.imm);
    let c = |o: Option<usize>, sh: u32| (reg(o).wrapping_sub(8) & 7) << sh;
    let (rd, rs1, rs2) = (reg(i.rd) << 7, reg(i.rs1) << 7, reg(i.rs2) << 2);
    let imm6 = mv(im, 5, 12) | bits(im, 4, 0) << 2;
    (fixed as u32
        | match kind_of(&i.opc) {
            Kind::CAddi4spn => {
                c(i.rd, 2) | bits(im, 5, 4) << 11 | bits(im, 9, 6) << 7 | mv(im, 2, 6) | mv(im, 3, 5)
            }
            Kind::CLw => c(i.rd, 2) | c(i.rs1, 7) | bits(im, 5, 3) << 10 | mv(im, 2, 6) | mv(im, 6, 5),
            Kind::CLd => c(i.rd, 2) | c(i.rs1, 7) | bits(im, 5, 3) << 10 | bits(im, 7, 6) << 5,
            Kind::CSw => c(i.rs2, 2) | c(i.rs1, 7) | bits(im, 5, 3) << 10 | mv(im, 2, 6) | mv(im, 6, 5),
            Kind::CSd => c(i.rs2, 2) | c(i.rs1, 7) | bits(im, 5, 3) << 10 | bits(im, 7, 6) << 5,
            Kind::CNop => imm6,
            Kind::CAddi | Kind::CLi | Kind::CSlli => rd | imm6,
            Kind::CAddi16sp => {
                rd | mv(im, 9, 12) | mv(im, 4, 6) | mv(im, 6, 5) | bits(im, 8, 7) << 3 | mv(im, 5, 2)
            }
            Kind::CLui => rd | mv(im, 17, 12) | bits(im, 16, 12) << 2,
            Kind::CShift | Kind::CAndi => c(i.rs1, 7) | imm6,
            Kind::CA => c(i.rd, 7) | c(i.rs2, 2),
            Kind::CJ => {
                mv(im, 11, 12)
                    | mv(im, 4, 11)
                    | bits(im, 9, 8) << 9
                    | mv(im, 10, 8)
                    | mv(im, 6, 7)
                    | mv(im, 7, 6)
                    | bits(im, 3, 1) << 3
                    | mv(im, 5, 2)
            }
            Kind::CB => {
                c(i.rs1, 7)
                    | mv(im, 8, 12)
                    | bits(im, 4, 3) << 10
                    | bits(im, 7, 6) << 5
                    | bits(im, 2, 1) << 3
                    | mv(im, 5, 2)
            }
            Kind::CLwsp => rd | mv(im, 5, 12) | bits(im, 4, 2) << 4 | bits(im, 7, 6) << 2,
            Kind::CLdsp => rd | mv(im, 5, 12) | bits(im, 4, 3) << 5 | bits(im, 8, 6) << 2,
            Kind::CJr => rs1 | rs2,
            Kind::CMv => rd | rs2,
            Kind::CAdd => rd | rs2,
            Kind::CSwsp => rs2 | bits(im, 5, 2) << 9 | bits(im, 7, 6) << 7,
            Kind::CSdsp => rs2 | bits(im, 5, 3) << 10 | bits(im, 8, 6) << 7,
            _ => 0,
        }) as u16
}

// ------------------------------------------------------------------ property predicates on decode results

pub type Res = Result<Instruction, DecodingError>;

fn opc(r: &Res) -> Option<&OpcodeKind> {
    match r {
        Ok(i) => Some(&i.opc),
        Err(_) => None,
    }
}

/// The group (property) an opcode belongs to: 2 = C02, 3 = C03, 4 = C04, 5 = C05.
pub fn group(op: &OpcodeKind) -> u8 {
    if is_c(op) {
        return 5;
    }
    match op {
        OpcodeKind::BaseI(_) => 2,
        OpcodeKind::M(_) | OpcodeKind::A(_) => 3,
        _ => 4,
    }
}

/// For every opcode X of group g: the result is X iff the word encodes X.
fn exact_in_group(got: Option<&OpcodeKind>, want: &Option<OpcodeKind>, g: u8) -> bool {
    let got_in = match got {
        Some(o) => group(o) == g,
        None => false,
    };
    let want_in = match want {
        Some(o) => group(o) == g,
        None => false,
    };
    if !got_in && !want_in {
        return true;
    }
    match (got, want) {
        (Some(a), Some(b)) => id_of(a) == id_of(b),
        _ => false,
    }
}

pub fn c02(w: u32, rv64: bool, r: &Res) -> bool {
    exact_in_group(opc(r), &find32(w, rv64), 2)
}

pub fn c03(w: u32, rv64: bool, r: &Res) -> bool {
    exact_in_group(opc(r), &find32(w, rv64), 3)
}

pub fn c04(w: u32, rv64: bool, r: &Res) -> bool {
    exact_in_group(opc(r), &find32(w, rv64), 4)
}

pub fn c05(h: u16, rv64: bool, r: &Res) -> bool {
    exact_in_group(opc(r), &find16(h, rv64), 5)
}

fn only64(r: &Res) -> bool {
    match r {
        Err(DecodingError::OnlyRv64Inst) => true,
        _ => false,
    }
}

fn c06(s32: Option<OpcodeKind>, s64: Option<OpcodeKind>, r32: &Res, r64: &Res) -> bool {
    let must_gate = match (&s32, &s64) {
        (None, Some(o)) => rv64_only(o),
        _ => false,
    };
    if only64(r64) || only64(r32) != must_gate {
        return false;
    }
    // nothing that exists only for the other width
    if r32.as_ref().is_ok_and(|i| rv64_only(&i.opc)) || r64.as_ref().is_ok_and(|i| rv32_only(&i.opc)) {
        return false;
    }
    match (r32, r64) {
        (Ok(a), Ok(b)) => {
            let differs = match (&s32, &s64) {
                (Some(x), Some(y)) => id_of(x) != id_of(y),
                _ => false,
            };
            differs || same_inst(a, b)
        }
        _ => true,
    }
}

pub fn c06_32(w: u32, r32: &Res, r64: &Res) -> bool {
    c06(find32(w, false), find32(w, true), r32, r64)
}

pub fn c06_16(h: u16, r32: &Res, r64: &Res) -> bool {
    c06(find16(h, false), find16(h, true), r32, r64)
}

pub fn c07_32(w: u32, r: &Res) -> bool {
    match r {
        Ok(i) => w & 3 == 3 && !i.is_compressed,
        Err(_) => true,
    }
}

pub fn c07_16(h: u16, r: &Res) -> bool {
    match r {
        Ok(i) => h & 3 != 3 && i.is_compressed && h != 0,
        Err(DecodingError::IllegalInstruction) => true,
        Err(_) => h != 0,
    }
}

/// Conversion from a machine-sized integer, given the decoder results for its low 32 / low 16 bits on RV64.
pub fn c07_usize(v: usize, r: &Res, r32: &Res, r16: &Res) -> bool {
    if v & 3 == 3 {
        if v as u64 <= 0xffff_ffff { same_res(r, r32) } else { r.is_err() }
    } else if v <= 0xffff {
        same_res(r, r16)
    } else {
        r.is_err()
    }
}

pub fn c08(w: u32, r: &Res) -> bool {
    match r {
        Ok(i) => {
            let k = kind_of(&i.opc);
            opt_eq(i.rd, rd32(w, k)) && opt_eq(i.rs1, rs1_32(w, k)) && opt_eq(i.rs2, rs2_32(w, k))
        }
        Err(_) => true,
    }
}

pub fn c09(w: u32, rv64: bool, r: &Res) -> bool {
    match r {
        Ok(i) => imm_eq(i.imm, imm32(w, kind_of(&i.opc), rv64)),
        Err(_) => true,
    }
}

pub fn c10(h: u16, r: &Res) -> bool {
    match r {
        Ok(i) => {
            let k = kind_of(&i.opc);
            opt_eq(i.rd, rd16(h, k)) && opt_eq(i.rs1, rs1_16(h, k)) && opt_eq(i.rs2, rs2_16(h, k))
        }
        Err(_) => true,
    }
}

pub fn c11(h: u16, r: &Res) -> bool {
    match r {
        Ok(i) => imm_eq(i.imm, imm16(h, kind_of(&i.opc))),
        Err(_) => true,
    }
}

pub fn opt_eq(a: Option<usize>, b: Option<usize>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}

pub fn imm_eq(a: Option<i32>, b: Option<i32>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}

/// Operands named by a format's documented assembly shape: (rd, rs1, rs2, imm).
/// RFormat: the shape `rd, rs1, rs2` is that of the R-type arithmetic instructions; sfence.vma has no destination.
fn shape_present(i: &Instruction) -> bool {
    let (rd, rs1, rs2, imm) = (i.rd.is_some(), i.rs1.is_some(), i.rs2.is_some(), i.imm.is_some());
    match i.inst_format {
        InstFormat::RFormat => {
            (rd || kind_of(&i.opc) == Kind::Sfence) && rs1 && rs2
        }
        InstFormat::MFormat | InstFormat::AFormat => rd && rs1 && rs2,
        InstFormat::RShamtFormat | InstFormat::IFormat | InstFormat::ClFormat => rd && rs1 && imm,
        InstFormat::ALrFormat => rd && rs1,
        InstFormat::SFormat | InstFormat::BFormat | InstFormat::CsFormat => rs1 && rs2 && imm,
        InstFormat::UFormat | InstFormat::JFormat | InstFormat::CiFormat | InstFormat::CiwFormat => rd && imm,
        InstFormat::CrFormat => rs2 && (rd || rs1),
        InstFormat::CssFormat => rs2 && imm,
        InstFormat::CaFormat => rd && rs2,
        InstFormat::CbFormat => rs1 && imm,
        InstFormat::CjFormat => imm,
        InstFormat::CsrFormat => rd && rs2 && rs1,
        InstFormat::CsrUiFormat => rd && rs2 && imm,
        InstFormat::NoOperand => true,
        InstFormat::OnlyRd => rd,
        InstFormat::OnlyRs1 => rs1,
        InstFormat::OnlyRs2 => rs2,
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

fn fmt_eq(a: &InstFormat, b: &InstFormat) -> bool {
    core::mem::discriminant(a) == core::mem::discriminant(b)
}

pub fn c12(r: &Res) -> bool {
    match r {
        Ok(i) => fmt_eq(&i.inst_format, &format_of(&i.opc)) && shape_present(i),
        Err(_) => true,
    }
}

pub fn c12_op(op: &OpcodeKind, f: &InstFormat) -> bool {
    fmt_eq(f, &format_of(op))
}

pub fn is64(i: &Isa) -> bool {
    matches!(i, Isa::Rv64)
}

pub fn err_of(c: u8) -> DecodingError {
    match c {
        0 => DecodingError::Not16BitInst,
        1 => DecodingError::Not32BitInst,
        2 => DecodingError::InvalidFunct3,
        3 => DecodingError::InvalidFunct5,
        4 => DecodingError::InvalidFunct6,
        5 => DecodingError::InvalidFunct7,
        6 => DecodingError::InvalidOpcode,
        7 => DecodingError::UnknownExtension,
        8 => DecodingError::IllegalInstruction,
        _ => DecodingError::OnlyRv64Inst,
    }
}

pub fn err_code(e: &DecodingError) -> u8 {
    match e {
        DecodingError::Not16BitInst => 0,
        DecodingError::Not32BitInst => 1,
        DecodingError::InvalidFunct3 => 2,
        DecodingError::InvalidFunct5 => 3,
        DecodingError::InvalidFunct6 => 4,
        DecodingError::InvalidFunct7 => 5,
        DecodingError::InvalidOpcode => 6,
        DecodingError::UnknownExtension => 7,
        DecodingError::IllegalInstruction => 8,
        DecodingError::OnlyRv64Inst => 9,
        #[allow(unreachable_patterns)]
        _ => 10,
    }
}

pub fn same_inst(a: &Instruction, b: &Instruction) -> bool {
    id_of(&a.opc) == id_of(&b.opc)
        && opt_eq(a.rd, b.rd)
        && opt_eq(a.rs1, b.rs1)
        && opt_eq(a.rs2, b.rs2)
        && imm_eq(a.imm, b.imm)
        && fmt_eq(&a.inst_format, &b.inst_format)
        && a.is_compressed == b.is_compressed
}

pub fn same_res(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => same_inst(x, y),
        (Err(x), Err(y)) => err_code(x) == err_code(y),
        _ => false,
    }
}

/// Staged API: opcode agreement; `zero_half`: the word is the all-zero halfword.
pub fn c13_opcode(r: &Res, p: &Result<OpcodeKind, DecodingError>, zero_half: bool) -> bool {
    match (r, p) {
        (Ok(i), Ok(o)) => id_of(&i.opc) == id_of(o),
        (Err(a), Err(b)) => zero_half || err_code(a) == err_code(b),
        _ => false,
    }
}

pub fn c13_reg(p: &Result<Option<usize>, DecodingError>, own_length: bool, want: Option<usize>) -> bool {
    match p {
        Ok(v) => own_length && opt_eq(*v, want),
        Err(_) => !own_length,
    }
}

pub fn c13_imm(p: &Result<Option<i32>, DecodingError>, own_length: bool, want: Option<i32>) -> bool {
    match p {
        Ok(v) => own_length && imm_eq(*v, want),
        Err(_) => !own_length,
    }
}

/// The four field parsers called with the decoded opcode give the decoded operands.
pub fn c13_fields(
    i: &Instruction,
    rd: &Result<Option<usize>, DecodingError>,
    rs1: &Result<Option<usize>, DecodingError>,
    rs2: &Result<Option<usize>, DecodingError>,
    imm: &Result<Option<i32>, DecodingError>,
) -> bool {
    c13_reg(rd, true, i.rd) && c13_reg(rs1, true, i.rs1) && c13_reg(rs2, true, i.rs2) && c13_imm(imm, true, i.imm)
}

pub fn c17_32(w: u32, r: &Res) -> bool {
    match r {
        Ok(i) => encode32(i) == w & !lost32(&i.opc),
        Err(_) => true,
    }
}

pub fn c17_16(h: u16, r: &Res) -> bool {
    match r {
        Ok(i) => encode16(i) == h,
        Err(_) => true,
    }
}

pub fn c18_32(w: u32, r: &Res) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => cause32(w, e),
    }
}

/// C18 on an error for a 32-bit word.
pub fn cause32(w: u32, e: &DecodingError) -> bool {
    if !major_known(w) {
        return err_code(e) == 6;
    }
    match e {
        DecodingError::InvalidFunct3 => functions_known(w, 0x0000_7000),
        // the five-bit function code of atomics, and that of ecall/ebreak
        DecodingError::InvalidFunct5 => functions_known(w, 0xf800_0000) || functions_known(w, 0x01f0_0000),
        DecodingError::InvalidFunct6 => functions_known(w, 0xfc00_0000),
        DecodingError::InvalidFunct7 => functions_known(w, 0xfe00_0000),
        DecodingError::IllegalInstruction => false,
        _ => true,
    }
}

pub fn c18_16(h: u16, r: &Res) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => cause16(h, e),
    }
}

/// C18 on an error for a halfword.
pub fn cause16(h: u16, e: &DecodingError) -> bool {
    if h != 0 && !any16(h, false) && !any16(h, true) && err_code(e) != 6 {
        return false;
    }
    match e {
        // no compressed instruction is selected by a field of that name
        DecodingError::InvalidFunct3
        | DecodingError::InvalidFunct5
        | DecodingError::InvalidFunct6
        | DecodingError::InvalidFunct7 => false,
        DecodingError::IllegalInstruction => h == 0,
        _ => true,
    }
}

// ------------------------------------------------------------------ text (C14, C15, C16)

pub const TXT: usize = 40;

/// Text accumulator; also the output the real formatter writes to.
pub struct Txt {
    pub b: [u8; TXT],
    pub n: usize,
    /// more text than fits
    pub over: bool,
}

impl Txt {
    pub fn new() -> Txt {
        Txt { b: [0; TXT], n: 0, over: false }
    }

    pub fn byte(&mut self, c: u8) {
        if self.n < TXT {
            self.b[self.n] = c;
            self.n += 1;
        } else {
            self.over = true;
        }
    }

    pub fn str(&mut self, s: &str) {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            self.byte(s[i]);
            i += 1;
        }
    }

    /// plain decimal
    pub fn dec(&mut self, v: i32) {
        if v < 0 {
            self.byte(b'-');
        }
        let m = v.unsigned_abs();
        let mut p = 1_000_000_000_u32;
        let mut started = false;
        while p > 0 {
            let d = (m / p) % 10;
            if d != 0 || started || p == 1 {
                started = true;
                self.byte(b'0' + d as u8);
            }
            p /= 10;
        }
    }

    /// 0x-prefixed hexadecimal
    pub fn hex(&mut self, v: u32) {
        self.str("0x");
        let mut sh = 32;
        let mut started = false;
        while sh > 0 {
            sh -= 4;
            let d = (v >> sh) & 15;
            if d != 0 || started || sh == 0 {
                started = true;
                self.byte(if d < 10 { b'0' + d as u8 } else { b'a' + (d as u8 - 10) });
            }
        }
    }
}

impl core::fmt::Write for Txt {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.str(s);
        Ok(())
    }
}

pub fn abi(r: usize) -> &'static str {
    match r {
        0 => "zero",
        1 => "ra",
        2 => "sp",
        3 => "gp",
        4 => "tp",
        5 => "t0",
        6 => "t1",
        7 => "t2",
        8 => "s0",
        9 => "s1",
        10 => "a0",
        11 => "a1",
        12 => "a2",
        13 => "a3",
        14 => "a4",
        15 => "a5",
        16 => "a6",
        17 => "a7",
        18 => "s2",
        19 => "s3",
        20 => "s4",
        21 => "s5",
        22 => "s6",
        23 => "s7",
        24 => "s8",
        25 => "s9",
        26 => "s10",
        27 => "s11",
        28 => "t3",
        29 => "t4",
        30 => "t5",
        31 => "t6",
        _ => "?",
    }
}

/// Operand text of a decoded instruction (starting with the separating space, if there is any operand).
pub fn operands_text(t: &mut Txt, i: &Instruction) {
    let rd = |t: &mut Txt| t.str(abi(reg(i.rd) as usize));
    let rs1 = |t: &mut Txt| t.str(abi(reg(i.rs1) as usize));
    let rs2 = |t: &mut Txt| t.str(abi(reg(i.rs2) as usize));
    let imm = match i.imm {
        Some(v) => v,
        None => 0,
    };
    match kind_of(&i.opc) {
        Kind::N | Kind::Fence | Kind::CNop | Kind::CNone => return,
        _ => t.byte(b' '),
    }
    match kind_of(&i.opc) {
        Kind::R | Kind::Amo | Kind::SsAmo => {
            rd(t);
            t.str(", ");
            rs1(t);
            t.str(", ");
            rs2(t);
        }
        Kind::Lr => {
            rd(t);
            t.str(", (");
            rs1(t);
            t.byte(b')');
        }
        Kind::I | Kind::Sh | Kind::ShW | Kind::CLw | Kind::CLd => {
            rd(t);
            t.str(", ");
            rs1(t);
            t.str(", ");
            t.dec(imm);
        }
        Kind::S | Kind::CSw | Kind::CSd => {
            rs2(t);
            t.str(", ");
            t.dec(imm);
            t.byte(b'(');
            rs1(t);
            t.byte(b')');
        }
        Kind::B => {
            rs1(t);
            t.str(", ");
            rs2(t);
            t.str(", ");
            t.dec(imm);
        }
        Kind::U | Kind::J => {
            rd(t);
            t.str(", ");
            t.hex(imm as u32);
        }
        Kind::Csr => {
            rd(t);
            t.str(", ");
            t.hex(csr(i.rs2));
            t.str(", ");
            rs1(t);
        }
        Kind::CsrI => {
            rd(t);
            t.str(", ");
            t.dec(csr(i.rs2) as i32);
            t.str(", ");
            t.dec(imm);
        }
        Kind::Cnt | Kind::CSsPush | Kind::CSsPop => rd(t),
        Kind::Cbo | Kind::SsPop => rs1(t),
        Kind::SsPush => rs2(t),
        Kind::Sfence => {
            rs1(t);
            t.str(", ");
            rs2(t);
        }
        Kind::CAddi4spn => {
            rd(t);
            t.str(", sp, ");
            t.hex(imm as u32);
        }
        Kind::CSwsp | Kind::CSdsp => {
            rs2(t);
            t.str(", ");
            t.dec(imm);
            t.str("(sp)");
        }
        Kind::CLwsp | Kind::CLdsp => {
            rd(t);
            t.str(", ");
            t.dec(imm);
            t.str("(sp)");
        }
        Kind::CLi | Kind::CLui => {
            rd(t);
            t.str(", ");
            t.dec(imm);
        }
        Kind::CAddi | Kind::CAddi16sp | Kind::CSlli => {
            rd(t);
            t.str(", ");
            rd(t);
            t.str(", ");
            t.dec(imm);
        }
        Kind::CShift | Kind::CAndi | Kind::CB => {
            rs1(t);
            t.str(", ");
            t.dec(imm);
        }
        Kind::CA | Kind::CAdd => {
            rd(t);
            t.str(", ");
            rd(t);
            t.str(", ");
            rs2(t);
        }
        Kind::CMv => {
            rd(t);
            t.str(", ");
            rs2(t);
        }
        // jr: jump to rs1, link register zero; jalr: link register ra (both implicit)
        Kind::CJr => {
            t.str(match i.opc {
                OpcodeKind::C(COpcode::JR) => "zero, 0(",
                _ => "ra, 0(",
            });
            rs1(t);
            t.byte(b')');
        }
        Kind::CJ => t.dec(imm),
        _ => {}
    }
}

/// C15 on the text of an opcode.
pub fn c15_op(op: &OpcodeKind, t: &Txt) -> bool {
    let m = mnemonic_of(op).as_bytes();
    if t.over || t.n != m.len() {
        return false;
    }
    let mut k = 0;
    while k < m.len() {
        if t.b[k] != m[k] {
            return false;
        }
        k += 1;
    }
    true
}

/// C15 on the text of a decoded instruction: mnemonic, then end of text or a space and something.
pub fn c15_inst(i: &Instruction, t: &Txt) -> bool {
    let m = mnemonic_of(&i.opc).as_bytes();
    if t.n < m.len() {
        return false;
    }
    let mut k = 0;
    while k < m.len() {
        if t.b[k] != m[k] {
            return false;
        }
        k += 1;
    }
    match kind_of(&i.opc) {
        Kind::N | Kind::Fence | Kind::CNop | Kind::CNone => t.n == m.len() && !t.over,
        _ => t.n > m.len() + 1 && t.b[m.len()] == b' ' && t.b[m.len() + 1] != b' ',
    }
}

/// C16: the text after the mnemonic's own length shows the operands. (Skips to the first space, so that a wrong
/// mnemonic is C15's business; a text without operands must not contain a space.)
pub fn c16_inst(i: &Instruction, t: &Txt) -> bool {
    if t.over {
        return false;
    }
    let mut want = Txt::new();
    operands_text(&mut want, i);
    if t.n < want.n {
        return false;
    }
    let start = t.n - want.n;
    let mut k = 0;
    while k < TXT {
        if k < start {
            if t.b[k] == b' ' {
                return false;
            }
        } else if k < t.n && t.b[k] != want.b[k - start] {
            return false;
        }
        k += 1;
    }
    true
}

/// Is the instruction one that decoding can produce, judging by its opcode, operands and format?
/// (The input space of the text contracts: every decoded instruction satisfies this, see wf lemma.)
pub fn wf(i: &Instruction, w: u32, rv64: bool) -> bool {
    let k = kind_of(&i.opc);
    if is_c(&i.opc) {
        let h = w as u16;
        opt_eq(i.rd, rd16(h, k))
            && opt_eq(i.rs1, rs1_16(h, k))
            && opt_eq(i.rs2, rs2_16(h, k))
            && imm_eq(i.imm, imm16(h, k))
            && fmt_eq(&i.inst_format, &format_of(&i.opc))
            && i.is_compressed
    } else {
        opt_eq(i.rd, rd32(w, k))
            && opt_eq(i.rs1, rs1_32(w, k))
            && opt_eq(i.rs2, rs2_32(w, k))
            && imm_eq(i.imm, imm32(w, k, rv64))
            && fmt_eq(&i.inst_format, &format_of(&i.opc))
            && !i.is_compressed
    }
}

/// The instruction with opcode `op` whose operand fields are those of `w`.
pub fn make(op: OpcodeKind, w: u32, rv64: bool) -> Instruction {
    let k = kind_of(&op);
    let f = format_of(&op);
    if is_c(&op) {
        let h = w as u16;
        Instruction {
            opc: op,
            rd: rd16(h, k),
            rs1: rs1_16(h, k),
            rs2: rs2_16(h, k),
            imm: imm16(h, k),
            inst_format: f,
            is_compressed: true,
        }
    } else {
        Instruction {
            opc: op,
            rd: rd32(w, k),
            rs1: rs1_32(w, k),
            rs2: rs2_32(w, k),
            imm: imm32(w, k, rv64),
            inst_format: f,
            is_compressed: false,
        }
    }
}
