// The properties as predicates over raw inputs: each calls raki's public API and judges the results with spec.rs.
// Shared by the inlined Kani harnesses, by the native replay of counterexamples and by the native enumeration.

// ---- C01: calling is enough, a panic is the failure
pub fn p01_32(w: u32, rv64: bool) -> bool {
    let _ = w.decode(isa(rv64));
    let _ = w.parse_opcode(isa(rv64));
    true
}
pub fn p01_16(h: u16, rv64: bool) -> bool {
    let _ = h.decode(isa(rv64));
    let _ = h.parse_opcode(isa(rv64));
    true
}
pub fn p01_usize(v: usize) -> bool {
    let _ = Instruction::try_from(v);
    true
}
pub fn p01_field32(w: u32, rv64: bool, id: u16) -> bool {
    let op = op_of(id);
    let _ = w.parse_rd(&op);
    let _ = w.parse_rs1(&op);
    let _ = w.parse_rs2(&op);
    let _ = w.parse_imm(&op, isa(rv64));
    true
}
pub fn p01_field16(h: u16, rv64: bool, id: u16) -> bool {
    let op = op_of(id);
    let _ = h.parse_rd(&op);
    let _ = h.parse_rs1(&op);
    let _ = h.parse_rs2(&op);
    let _ = h.parse_imm(&op, isa(rv64));
    true
}

// ---- C02 - C12
pub fn p02(w: u32, rv64: bool) -> bool {
    c02(w, rv64, &w.decode(isa(rv64)))
}
pub fn p03(w: u32, rv64: bool) -> bool {
    c03(w, rv64, &w.decode(isa(rv64)))
}
pub fn p04(w: u32, rv64: bool) -> bool {
    c04(w, rv64, &w.decode(isa(rv64)))
}
pub fn p05(h: u16, rv64: bool) -> bool {
    c05(h, rv64, &h.decode(isa(rv64)))
}
pub fn p06_32(w: u32) -> bool {
    c06_32(w, &w.decode(Isa::Rv32), &w.decode(Isa::Rv64))
}
pub fn p06_16(h: u16) -> bool {
    c06_16(h, &h.decode(Isa::Rv32), &h.decode(Isa::Rv64))
}
pub fn p07_32(w: u32, rv64: bool) -> bool {
    c07_32(w, &w.decode(isa(rv64)))
}
pub fn p07_16(h: u16, rv64: bool) -> bool {
    c07_16(h, &h.decode(isa(rv64)))
}
pub fn p07_usize(v: usize) -> bool {
    let r = Instruction::try_from(v);
    if v & 3 == 3 {
        if v as u64 <= 0xffff_ffff {
            let q = (v as u32).decode(Isa::Rv64);
            c07_usize(v, &r, &q, &q)
        } else {
            r.is_err()
        }
    } else if v <= 0xffff {
        let q = (v as u16).decode(Isa::Rv64);
        c07_usize(v, &r, &q, &q)
    } else {
        r.is_err()
    }
}
pub fn p08(w: u32, rv64: bool) -> bool {
    c08(w, &w.decode(isa(rv64)))
}
pub fn p09(w: u32, rv64: bool) -> bool {
    c09(w, rv64, &w.decode(isa(rv64)))
}
pub fn p10(h: u16, rv64: bool) -> bool {
    c10(h, &h.decode(isa(rv64)))
}
pub fn p11(h: u16, rv64: bool) -> bool {
    c11(h, &h.decode(isa(rv64)))
}
pub fn p12_32(w: u32, rv64: bool) -> bool {
    c12(&w.decode(isa(rv64)))
}
pub fn p12_16(h: u16, rv64: bool) -> bool {
    c12(&h.decode(isa(rv64)))
}
pub fn p12_op(id: u16) -> bool {
    let op = op_of(id);
    c12_op(&op, &op.get_format())
}

// ---- C13
pub fn p13_32(w: u32, rv64: bool) -> bool {
    let r = w.decode(isa(rv64));
    let p = w.parse_opcode(isa(rv64));
    if !c13_opcode(&r, &p, false) {
        return false;
    }
    match (&r, &p) {
        (Ok(i), Ok(o)) => c13_fields(i, &w.parse_rd(o), &w.parse_rs1(o), &w.parse_rs2(o), &w.parse_imm(o, isa(rv64))),
        _ => true,
    }
}
pub fn p13_16(h: u16, rv64: bool) -> bool {
    let r = h.decode(isa(rv64));
    let p = h.parse_opcode(isa(rv64));
    if !c13_opcode(&r, &p, h == 0) {
        return false;
    }
    match (&r, &p) {
        (Ok(i), Ok(o)) => c13_fields(i, &h.parse_rd(o), &h.parse_rs1(o), &h.parse_rs2(o), &h.parse_imm(o, isa(rv64))),
        _ => true,
    }
}
pub fn p13_field32(w: u32, rv64: bool, id: u16) -> bool {
    let op = op_of(id);
    let (k, own) = (kind_of(&op), !is_c(&op));
    c13_reg(&w.parse_rd(&op), own, rd32(w, k))
        && c13_reg(&w.parse_rs1(&op), own, rs1_32(w, k))
        && c13_reg(&w.parse_rs2(&op), own, rs2_32(w, k))
        && c13_imm(&w.parse_imm(&op, isa(rv64)), own, imm32(w, k, rv64))
}
pub fn p13_field16(h: u16, rv64: bool, id: u16) -> bool {
    let op = op_of(id);
    let (k, own) = (kind_of(&op), is_c(&op));
    c13_reg(&h.parse_rd(&op), own, rd16(h, k))
        && c13_reg(&h.parse_rs1(&op), own, rs1_16(h, k))
        && c13_reg(&h.parse_rs2(&op), own, rs2_16(h, k))
        && c13_imm(&h.parse_imm(&op, isa(rv64)), own, imm16(h, k))
}

// ---- C14 - C16: text
pub fn text_of<T: core::fmt::Display>(v: &T) -> (Txt, bool) {
    let mut t = Txt::new();
    let ok = core::fmt::Write::write_fmt(&mut t, format_args!("{}", v)).is_ok();
    (t, ok)
}
pub fn p14_op(id: u16) -> bool {
    text_of(&op_of(id)).1
}
pub fn p15_op(id: u16) -> bool {
    let op = op_of(id);
    c15_op(&op, &text_of(&op).0)
}
/// All text properties of one instruction: bit 0 = C14, bit 1 = C15, bit 2 = C16 violated.
pub fn text_bad(i: &Instruction, only: u8) -> u8 {
    let (t, ok) = text_of(i);
    let mut bad = 0;
    if !ok {
        bad |= 1;
    }
    if only & 2 != 0 && !c15_inst(i, &t) {
        bad |= 2;
    }
    if only & 4 != 0 && !c16_inst(i, &t) {
        bad |= 4;
    }
    bad & only
}
pub fn p_text32(w: u32, rv64: bool, only: u8) -> bool {
    match w.decode(isa(rv64)) {
        Ok(i) => text_bad(&i, only) == 0,
        Err(_) => true,
    }
}
pub fn p_text16(h: u16, rv64: bool, only: u8) -> bool {
    match h.decode(isa(rv64)) {
        Ok(i) => text_bad(&i, only) == 0,
        Err(_) => true,
    }
}
/// Every decoded instruction lies in the input space of the text contracts.
pub fn p_wf32(w: u32, rv64: bool) -> bool {
    match w.decode(isa(rv64)) {
        Ok(i) => !is_c(&i.opc) && wf(&i, w, rv64),
        Err(_) => true,
    }
}
pub fn p_wf16(h: u16, rv64: bool) -> bool {
    match h.decode(isa(rv64)) {
        Ok(i) => is_c(&i.opc) && wf(&i, h as u32, rv64),
        Err(_) => true,
    }
}

// ---- C17, C18
pub fn p17_32(w: u32, rv64: bool) -> bool {
    c17_32(w, &w.decode(isa(rv64)))
}
pub fn p17_16(h: u16, rv64: bool) -> bool {
    c17_16(h, &h.decode(isa(rv64)))
}
pub fn p18_32(w: u32, rv64: bool) -> bool {
    c18_32(w, &w.decode(isa(rv64)))
}
pub fn p18_16(h: u16, rv64: bool) -> bool {
    c18_16(h, &h.decode(isa(rv64)))
}
