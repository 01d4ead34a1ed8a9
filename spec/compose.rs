// Composition proofs (layer C): decode() and TryFrom<usize> do with the staged functions / the decoders exactly what
// the properties say, whatever those return.  Each callee is replaced by a function that checks its arguments and
// returns a value fixed beforehand (an arbitrary one), which is what a deterministic function does.

static mut W: u64 = 0;
static mut RV64: bool = false;
static mut OK: bool = false;
static mut ID: u16 = 0;
static mut OP: OpcodeKind = OpcodeKind::BaseI(BaseIOpcode::LUI);
static mut ERR: u8 = 0;
static mut RD: Option<usize> = None;
static mut RS1: Option<usize> = None;
static mut RS2: Option<usize> = None;
static mut IMM: Option<i32> = None;

fn setup(w: u64, rv64: bool, lo: u16, hi: u16) {
    unsafe {
        W = w;
        RV64 = rv64;
        OK = kani::any();
        ID = kani::any();
        kani::assume(lo <= ID && ID < hi);
        OP = op_of(ID);
        ERR = kani::any();
        kani::assume(ERR < 10);
        RD = kani::any();
        RS1 = kani::any();
        RS2 = kani::any();
        IMM = kani::any();
    }
}

/// The opcode drawn (a value without ownership of anything: a bitwise copy is a copy).
fn op() -> OpcodeKind {
    unsafe { core::ptr::read(core::ptr::addr_of!(OP)) }
}

fn opcode(w: u64, isa: Isa) -> Result<OpcodeKind, DecodingError> {
    unsafe {
        assert!(w == W && is64(&isa) == RV64, "the opcode parser is given the word and the width");
        if OK { Ok(op()) } else { Err(err_of(ERR)) }
    }
}

fn args(w: u64, op: &OpcodeKind) {
    unsafe { assert!(w == W && OK && id_of(op) == ID, "a field parser is given the word and the parsed opcode") }
}

macro_rules! stubs {
    ($t:ty, $op:ident, $rd:ident, $rs1:ident, $rs2:ident, $imm:ident) => {
        fn $op(w: $t, isa: Isa) -> Result<OpcodeKind, DecodingError> {
            opcode(w as u64, isa)
        }
        fn $rd(w: $t, op: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
            args(w as u64, op);
            Ok(unsafe { RD })
        }
        fn $rs1(w: $t, op: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
            args(w as u64, op);
            Ok(unsafe { RS1 })
        }
        fn $rs2(w: $t, op: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
            args(w as u64, op);
            Ok(unsafe { RS2 })
        }
        fn $imm(w: $t, op: &OpcodeKind, isa: Isa) -> Result<Option<i32>, DecodingError> {
            args(w as u64, op);
            assert!(is64(&isa) == unsafe { RV64 }, "the immediate parser is given the width");
            Ok(unsafe { IMM })
        }
    };
}
stubs!(u32, op_32, rd_32, s1_32, s2_32, im_32);
stubs!(u16, op_16, rd_16, s1_16, s2_16, im_16);

fn same_as_parts(r: &Res) -> bool {
    unsafe {
        match r {
            Ok(i) => {
                OK && id_of(&i.opc) == ID && opt_eq(i.rd, RD) && opt_eq(i.rs1, RS1) && opt_eq(i.rs2, RS2) && imm_eq(i.imm, IMM)
            }
            Err(e) => !OK && err_code(e) == ERR,
        }
    }
}

#[kani::proof]
#[kani::stub(<u32 as Decode>::parse_opcode, op_32)]
#[kani::stub(<u32 as Decode>::parse_rd, rd_32)]
#[kani::stub(<u32 as Decode>::parse_rs1, s1_32)]
#[kani::stub(<u32 as Decode>::parse_rs2, s2_32)]
#[kani::stub(<u32 as Decode>::parse_imm, im_32)]
fn compose32() {
    let w: u32 = kani::any();
    let b: bool = kani::any();
    // the opcode parser's contract: the opcode reported is a 32-bit one; the field parsers' contract: they succeed on those
    setup(w as u64, b, 0, N_OPS32);
    assert!(same_as_parts(&w.decode(isa(b))), "decode agrees with the staged functions");
    kani::cover!(unsafe { OK });
}

#[kani::proof]
#[kani::stub(<u16 as Decode>::parse_opcode, op_16)]
#[kani::stub(<u16 as Decode>::parse_rd, rd_16)]
#[kani::stub(<u16 as Decode>::parse_rs1, s1_16)]
#[kani::stub(<u16 as Decode>::parse_rs2, s2_16)]
#[kani::stub(<u16 as Decode>::parse_imm, im_16)]
fn compose16() {
    let h: u16 = kani::any();
    let b: bool = kani::any();
    setup(h as u64, b, N_OPS32, N_OPS);
    if h == 0 {
        // the opcode parser's contract: the all-zero halfword encodes nothing; its error may differ
        unsafe { kani::assume(!OK) };
        assert!(h.decode(isa(b)).is_err(), "the all-zero halfword does not decode");
    } else {
        assert!(same_as_parts(&h.decode(isa(b))), "decode agrees with the staged functions");
    }
    kani::cover!(unsafe { OK });
}

fn whole(w: u64, isa: Isa) -> Res {
    unsafe {
        assert!(w == W && is64(&isa), "the decoder is given the number, for RV64");
        value()
    }
}
fn value() -> Res {
    unsafe {
        if OK {
            let f = if RV64 { InstFormat::JFormat } else { InstFormat::CaFormat };
            Ok(Instruction { opc: op(), rd: RD, rs1: RS1, rs2: RS2, imm: IMM, inst_format: f, is_compressed: ERR == 0 })
        } else {
            Err(err_of(ERR))
        }
    }
}
fn whole_32(w: &u32, isa: Isa) -> Res {
    assert!(*w & 3 == 3, "32-bit decoding for low bits 11");
    whole(*w as u64, isa)
}
fn whole_16(h: &u16, isa: Isa) -> Res {
    assert!(*h & 3 != 3, "16-bit decoding for other low bits");
    whole(*h as u64, isa)
}

#[kani::proof]
#[kani::stub(<u32 as Decode>::decode, whole_32)]
#[kani::stub(<u16 as Decode>::decode, whole_16)]
fn compose_usize() {
    let v: usize = kani::any();
    setup(v as u64, kani::any(), 0, N_OPS);
    let r = Instruction::try_from(v);
    let q = value();
    assert!(c07_usize(v, &r, &q, &q), "the conversion gives the decoder's result");
    kani::cover!(v > 0xffff && v & 3 == 3);
}
