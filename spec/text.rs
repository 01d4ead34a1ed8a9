// Text proofs, included by a module that has the specification, toks.rs and raki's types in scope.
//
// Every instruction the decoder can produce: group of opcodes by group, operands arbitrary.

/// Stands for an opcode's own text, which is verified in names.rs for a formatter with default options.
fn name_fmt(_: &OpcodeKind, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    assert!(
        f.width().is_none() && f.precision().is_none() && !f.alternate() && !f.sign_plus() && !f.sign_minus() && !f.sign_aware_zero_pad(),
        "an opcode's text is requested with default options"
    );
    f.write_str("@")
}

/// text of the instructions of group g, for every opcode of the group and every operand value
fn group(g: usize) {
    let sel: u8 = kani::any();
    let w: u32 = kani::any();
    let b: bool = kani::any();
    kani::assume(sel < group_len(g));
    let (k, f, c) = group_of(g);
    let h = w as u16;
    let i = Instruction {
        opc: group_pick(g, sel),
        rd: if c { rd16(h, k) } else { rd32(w, k) },
        rs1: if c { rs1_16(h, k) } else { rs1_32(w, k) },
        rs2: if c { rs2_16(h, k) } else { rs2_32(w, k) },
        imm: if c { imm16(h, k) } else { imm32(w, k, b) },
        inst_format: f,
        is_compressed: c,
    };
    let (c14, c15, c16) = judge(&i, k);
    assert!(c14, "C14");
    assert!(c15, "C15");
    assert!(c16, "C16");
    kani::cover!(true);
}

macro_rules! text {
    ($($n:ident = $g:expr),*) => {
        $(
        #[kani::proof]
        #[kani::unwind(14)]
        #[kani::stub(<OpcodeKind as core::fmt::Display>::fmt, name_fmt)]
        fn $n() {
            group($g)
        }
        )*
    };
}
text!(g0 = 0, g1 = 1, g2 = 2, g3 = 3, g4 = 4, g5 = 5, g6 = 6, g7 = 7, g8 = 8, g9 = 9, g10 = 10, g11 = 11, g12 = 12, g13 = 13, g14 = 14, g15 = 15, g16 = 16, g17 = 17, g18 = 18, g19 = 19, g20 = 20, g21 = 21, g22 = 22, g23 = 23, g24 = 24, g25 = 25, g26 = 26, g27 = 27, g28 = 28, g29 = 29, g30 = 30, g31 = 31, g32 = 32, g33 = 33, g34 = 34, g35 = 35, g36 = 36, g37 = 37, g38 = 38, g39 = 39, g40 = 40, g41 = 41, g42 = 42, g43 = 43, g44 = 44, g45 = 45, g46 = 46, g47 = 47);
