// Generated by gen_table.py; do not edit.

pub const N_OPS: u16 = 145;
pub const N_OPS32: u16 = 109;

/// Operand kind: which fields an instruction has and how they are encoded.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { U, J, I, B, S, Sh, R, N, ShW, Lr, Amo, Fence, Cbo, Cnt, Csr, CsrI, SsPush, SsPop, SsAmo, Sfence, CAddi4spn, CLw, CLd, CSw, CSd, CNop, CAddi, CJ, CLi, CAddi16sp, CSsPush, CSsPop, CLui, CShift, CAndi, CA, CB, CSlli, CLwsp, CLdsp, CJr, CMv, CNone, CAdd, CSwsp, CSdsp, Unknown }

/// The i-th opcode of the specification table.
pub fn op_of(id: u16) -> OpcodeKind {
    match id {
        0 => OpcodeKind::BaseI(BaseIOpcode::LUI),
        1 => OpcodeKind::BaseI(BaseIOpcode::AUIPC),
        2 => OpcodeKind::BaseI(BaseIOpcode::JAL),
        3 => OpcodeKind::BaseI(BaseIOpcode::JALR),
        4 => OpcodeKind::BaseI(BaseIOpcode::BEQ),
        5 => OpcodeKind::BaseI(BaseIOpcode::BNE),
        6 => OpcodeKind::BaseI(BaseIOpcode::BLT),
        7 => OpcodeKind::BaseI(BaseIOpcode::BGE),
        8 => OpcodeKind::BaseI(BaseIOpcode::BLTU),
        9 => OpcodeKind::BaseI(BaseIOpcode::BGEU),
        10 => OpcodeKind::BaseI(BaseIOpcode::LB),
        11 => OpcodeKind::BaseI(BaseIOpcode::LH),
        12 => OpcodeKind::BaseI(BaseIOpcode::LW),
        13 => OpcodeKind::BaseI(BaseIOpcode::LD),
        14 => OpcodeKind::BaseI(BaseIOpcode::LBU),
        15 => OpcodeKind::BaseI(BaseIOpcode::LHU),
        16 => OpcodeKind::BaseI(BaseIOpcode::LWU),
        17 => OpcodeKind::BaseI(BaseIOpcode::SB),
        18 => OpcodeKind::BaseI(BaseIOpcode::SH),
        19 => OpcodeKind::BaseI(BaseIOpcode::SW),
        20 => OpcodeKind::BaseI(BaseIOpcode::SD),
        21 => OpcodeKind::BaseI(BaseIOpcode::ADDI),
        22 => OpcodeKind::BaseI(BaseIOpcode::SLTI),
        23 => OpcodeKind::BaseI(BaseIOpcode::SLTIU),
        24 => OpcodeKind::BaseI(BaseIOpcode::XORI),
        25 => OpcodeKind::BaseI(BaseIOpcode::ORI),
        26 => OpcodeKind::BaseI(BaseIOpcode::ANDI),
        27 => OpcodeKind::BaseI(BaseIOpcode::SLLI),
        28 => OpcodeKind::BaseI(BaseIOpcode::SRLI),
        29 => OpcodeKind::BaseI(BaseIOpcode::SRAI),
        30 => OpcodeKind::BaseI(BaseIOpcode::ADD),
        31 => OpcodeKind::BaseI(BaseIOpcode::SUB),
        32 => OpcodeKind::BaseI(BaseIOpcode::SLL),
        33 => OpcodeKind::BaseI(BaseIOpcode::SLT),
        34 => OpcodeKind::BaseI(BaseIOpcode::SLTU),
        35 => OpcodeKind::BaseI(BaseIOpcode::XOR),
        36 => OpcodeKind::BaseI(BaseIOpcode::SRL),
        37 => OpcodeKind::BaseI(BaseIOpcode::SRA),
        38 => OpcodeKind::BaseI(BaseIOpcode::OR),
        39 => OpcodeKind::BaseI(BaseIOpcode::AND),
        40 => OpcodeKind::BaseI(BaseIOpcode::ECALL),
        41 => OpcodeKind::BaseI(BaseIOpcode::EBREAK),
        42 => OpcodeKind::BaseI(BaseIOpcode::ADDIW),
        43 => OpcodeKind::BaseI(BaseIOpcode::SLLIW),
        44 => OpcodeKind::BaseI(BaseIOpcode::SRLIW),
        45 => OpcodeKind::BaseI(BaseIOpcode::SRAIW),
        46 => OpcodeKind::BaseI(BaseIOpcode::ADDW),
        47 => OpcodeKind::BaseI(BaseIOpcode::SUBW),
        48 => OpcodeKind::BaseI(BaseIOpcode::SLLW),
        49 => OpcodeKind::BaseI(BaseIOpcode::SRLW),
        50 => OpcodeKind::BaseI(BaseIOpcode::SRAW),
        51 => OpcodeKind::M(MOpcode::MUL),
        52 => OpcodeKind::M(MOpcode::MULH),
        53 => OpcodeKind::M(MOpcode::MULHSU),
        54 => OpcodeKind::M(MOpcode::MULHU),
        55 => OpcodeKind::M(MOpcode::DIV),
        56 => OpcodeKind::M(MOpcode::DIVU),
        57 => OpcodeKind::M(MOpcode::REM),
        58 => OpcodeKind::M(MOpcode::REMU),
        59 => OpcodeKind::M(MOpcode::MULW),
        60 => OpcodeKind::M(MOpcode::DIVW),
        61 => OpcodeKind::M(MOpcode::DIVUW),
        62 => OpcodeKind::M(MOpcode::REMW),
        63 => OpcodeKind::M(MOpcode::REMUW),
        64 => OpcodeKind::A(AOpcode::LR_W),
        65 => OpcodeKind::A(AOpcode::SC_W),
        66 => OpcodeKind::A(AOpcode::AMOSWAP_W),
        67 => OpcodeKind::A(AOpcode::AMOADD_W),
        68 => OpcodeKind::A(AOpcode::AMOXOR_W),
        69 => OpcodeKind::A(AOpcode::AMOAND_W),
        70 => OpcodeKind::A(AOpcode::AMOOR_W),
        71 => OpcodeKind::A(AOpcode::AMOMIN_W),
        72 => OpcodeKind::A(AOpcode::AMOMAX_W),
        73 => OpcodeKind::A(AOpcode::AMOMINU_W),
        74 => OpcodeKind::A(AOpcode::AMOMAXU_W),
        75 => OpcodeKind::A(AOpcode::LR_D),
        76 => OpcodeKind::A(AOpcode::SC_D),
        77 => OpcodeKind::A(AOpcode::AMOSWAP_D),
        78 => OpcodeKind::A(AOpcode::AMOADD_D),
        79 => OpcodeKind::A(AOpcode::AMOXOR_D),
        80 => OpcodeKind::A(AOpcode::AMOAND_D),
        81 => OpcodeKind::A(AOpcode::AMOOR_D),
        82 => OpcodeKind::A(AOpcode::AMOMIN_D),
        83 => OpcodeKind::A(AOpcode::AMOMAX_D),
        84 => OpcodeKind::A(AOpcode::AMOMINU_D),
        85 => OpcodeKind::A(AOpcode::AMOMAXU_D),
        86 => OpcodeKind::Zifencei(ZifenceiOpcode::FENCE),
        87 => OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO),
        88 => OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE),
        89 => OpcodeKind::Zicntr(ZicntrOpcode::RDTIME),
        90 => OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET),
        91 => OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H),
        92 => OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H),
        93 => OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H),
        94 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRW),
        95 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRS),
        96 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRC),
        97 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI),
        98 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI),
        99 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI),
        100 => OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH),
        101 => OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK),
        102 => OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP),
        103 => OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W),
        104 => OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D),
        105 => OpcodeKind::Priv(PrivOpcode::SRET),
        106 => OpcodeKind::Priv(PrivOpcode::MRET),
        107 => OpcodeKind::Priv(PrivOpcode::WFI),
        108 => OpcodeKind::Priv(PrivOpcode::SFENCE_VMA),
        109 => OpcodeKind::C(COpcode::ADDI4SPN),
        110 => OpcodeKind::C(COpcode::LW),
        111 => OpcodeKind::C(COpcode::LD),
        112 => OpcodeKind::C(COpcode::SW),
        113 => OpcodeKind::C(COpcode::SD),
        114 => OpcodeKind::C(COpcode::NOP),
        115 => OpcodeKind::C(COpcode::ADDI),
        116 => OpcodeKind::C(COpcode::JAL),
        117 => OpcodeKind::C(COpcode::ADDIW),
        118 => OpcodeKind::C(COpcode::LI),
        119 => OpcodeKind::C(COpcode::ADDI16SP),
        120 => OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH),
        121 => OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK),
        122 => OpcodeKind::C(COpcode::LUI),
        123 => OpcodeKind::C(COpcode::SRLI),
        124 => OpcodeKind::C(COpcode::SRAI),
        125 => OpcodeKind::C(COpcode::ANDI),
        126 => OpcodeKind::C(COpcode::SUB),
        127 => OpcodeKind::C(COpcode::XOR),
        128 => OpcodeKind::C(COpcode::OR),
        129 => OpcodeKind::C(COpcode::AND),
        130 => OpcodeKind::C(COpcode::SUBW),
        131 => OpcodeKind::C(COpcode::ADDW),
        132 => OpcodeKind::C(COpcode::J),
        133 => OpcodeKind::C(COpcode::BEQZ),
        134 => OpcodeKind::C(COpcode::BNEZ),
        135 => OpcodeKind::C(COpcode::SLLI),
        136 => OpcodeKind::C(COpcode::LWSP),
        137 => OpcodeKind::C(COpcode::LDSP),
        138 => OpcodeKind::C(COpcode::JR),
        139 => OpcodeKind::C(COpcode::MV),
        140 => OpcodeKind::C(COpcode::EBREAK),
        141 => OpcodeKind::C(COpcode::JALR),
        142 => OpcodeKind::C(COpcode::ADD),
        143 => OpcodeKind::C(COpcode::SWSP),
        _ => OpcodeKind::C(COpcode::SDSP),
    }
}

pub fn id_of(op: &OpcodeKind) -> u16 {
    match op {
        OpcodeKind::BaseI(BaseIOpcode::LUI) => 0,
        OpcodeKind::BaseI(BaseIOpcode::AUIPC) => 1,
        OpcodeKind::BaseI(BaseIOpcode::JAL) => 2,
        OpcodeKind::BaseI(BaseIOpcode::JALR) => 3,
        OpcodeKind::BaseI(BaseIOpcode::BEQ) => 4,
        OpcodeKind::BaseI(BaseIOpcode::BNE) => 5,
        OpcodeKind::BaseI(BaseIOpcode::BLT) => 6,
        OpcodeKind::BaseI(BaseIOpcode::BGE) => 7,
        OpcodeKind::BaseI(BaseIOpcode::BLTU) => 8,
        OpcodeKind::BaseI(BaseIOpcode::BGEU) => 9,
        OpcodeKind::BaseI(BaseIOpcode::LB) => 10,
        OpcodeKind::BaseI(BaseIOpcode::LH) => 11,
        OpcodeKind::BaseI(BaseIOpcode::LW) => 12,
        OpcodeKind::BaseI(BaseIOpcode::LD) => 13,
        OpcodeKind::BaseI(BaseIOpcode::LBU) => 14,
        OpcodeKind::BaseI(BaseIOpcode::LHU) => 15,
        OpcodeKind::BaseI(BaseIOpcode::LWU) => 16,
        OpcodeKind::BaseI(BaseIOpcode::SB) => 17,
        OpcodeKind::BaseI(BaseIOpcode::SH) => 18,
        OpcodeKind::BaseI(BaseIOpcode::SW) => 19,
        OpcodeKind::BaseI(BaseIOpcode::SD) => 20,
        OpcodeKind::BaseI(BaseIOpcode::ADDI) => 21,
        OpcodeKind::BaseI(BaseIOpcode::SLTI) => 22,
        OpcodeKind::BaseI(BaseIOpcode::SLTIU) => 23,
        OpcodeKind::BaseI(BaseIOpcode::XORI) => 24,
        OpcodeKind::BaseI(BaseIOpcode::ORI) => 25,
        OpcodeKind::BaseI(BaseIOpcode::ANDI) => 26,
        OpcodeKind::BaseI(BaseIOpcode::SLLI) => 27,
        OpcodeKind::BaseI(BaseIOpcode::SRLI) => 28,
        OpcodeKind::BaseI(BaseIOpcode::SRAI) => 29,
        OpcodeKind::BaseI(BaseIOpcode::ADD) => 30,
        OpcodeKind::BaseI(BaseIOpcode::SUB) => 31,
        OpcodeKind::BaseI(BaseIOpcode::SLL) => 32,
        OpcodeKind::BaseI(BaseIOpcode::SLT) => 33,
        OpcodeKind::BaseI(BaseIOpcode::SLTU) => 34,
        OpcodeKind::BaseI(BaseIOpcode::XOR) => 35,
        OpcodeKind::BaseI(BaseIOpcode::SRL) => 36,
        OpcodeKind::BaseI(BaseIOpcode::SRA) => 37,
        OpcodeKind::BaseI(BaseIOpcode::OR) => 38,
        OpcodeKind::BaseI(BaseIOpcode::AND) => 39,
        OpcodeKind::BaseI(BaseIOpcode::ECALL) => 40,
        OpcodeKind::BaseI(BaseIOpcode::EBREAK) => 41,
        OpcodeKind::BaseI(BaseIOpcode::ADDIW) => 42,
        OpcodeKind::BaseI(BaseIOpcode::SLLIW) => 43,
        OpcodeKind::BaseI(BaseIOpcode::SRLIW) => 44,
        OpcodeKind::BaseI(BaseIOpcode::SRAIW) => 45,
        OpcodeKind::BaseI(BaseIOpcode::ADDW) => 46,
        OpcodeKind::BaseI(BaseIOpcode::SUBW) => 47,
        OpcodeKind::BaseI(BaseIOpcode::SLLW) => 48,
        OpcodeKind::BaseI(BaseIOpcode::SRLW) => 49,
        OpcodeKind::BaseI(BaseIOpcode::SRAW) => 50,
        OpcodeKind::M(MOpcode::MUL) => 51,
        OpcodeKind::M(MOpcode::MULH) => 52,
        OpcodeKind::M(MOpcode::MULHSU) => 53,
        OpcodeKind::M(MOpcode::MULHU) => 54,
        OpcodeKind::M(MOpcode::DIV) => 55,
        OpcodeKind::M(MOpcode::DIVU) => 56,
        OpcodeKind::M(MOpcode::REM) => 57,
        OpcodeKind::M(MOpcode::REMU) => 58,
        OpcodeKind::M(MOpcode::MULW) => 59,
        OpcodeKind::M(MOpcode::DIVW) => 60,
        OpcodeKind::M(MOpcode::DIVUW) => 61,
        OpcodeKind::M(MOpcode::REMW) => 62,
        OpcodeKind::M(MOpcode::REMUW) => 63,
        OpcodeKind::A(AOpcode::LR_W) => 64,
        OpcodeKind::A(AOpcode::SC_W) => 65,
        OpcodeKind::A(AOpcode::AMOSWAP_W) => 66,
        OpcodeKind::A(AOpcode::AMOADD_W) => 67,
        OpcodeKind::A(AOpcode::AMOXOR_W) => 68,
        OpcodeKind::A(AOpcode::AMOAND_W) => 69,
        OpcodeKind::A(AOpcode::AMOOR_W) => 70,
        OpcodeKind::A(AOpcode::AMOMIN_W) => 71,
        OpcodeKind::A(AOpcode::AMOMAX_W) => 72,
        OpcodeKind::A(AOpcode::AMOMINU_W) => 73,
        OpcodeKind::A(AOpcode::AMOMAXU_W) => 74,
        OpcodeKind::A(AOpcode::LR_D) => 75,
        OpcodeKind::A(AOpcode::SC_D) => 76,
        OpcodeKind::A(AOpcode::AMOSWAP_D) => 77,
        OpcodeKind::A(AOpcode::AMOADD_D) => 78,
        OpcodeKind::A(AOpcode::AMOXOR_D) => 79,
        OpcodeKind::A(AOpcode::AMOAND_D) => 80,
        OpcodeKind::A(AOpcode::AMOOR_D) => 81,
        OpcodeKind::A(AOpcode::AMOMIN_D) => 82,
        OpcodeKind::A(AOpcode::AMOMAX_D) => 83,
        OpcodeKind::A(AOpcode::AMOMINU_D) => 84,
        OpcodeKind::A(AOpcode::AMOMAXU_D) => 85,
        OpcodeKind::Zifencei(ZifenceiOpcode::FENCE) => 86,
        OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO) => 87,
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE) => 88,
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME) => 89,
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET) => 90,
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) => 91,
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) => 92,
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) => 93,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRW) => 94,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRS) => 95,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRC) => 96,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI) => 97,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI) => 98,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI) => 99,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH) => 100,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK) => 101,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP) => 102,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W) => 103,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) => 104,
        OpcodeKind::Priv(PrivOpcode::SRET) => 105,
        OpcodeKind::Priv(PrivOpcode::MRET) => 106,
        OpcodeKind::Priv(PrivOpcode::WFI) => 107,
        OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => 108,
        OpcodeKind::C(COpcode::ADDI4SPN) => 109,
        OpcodeKind::C(COpcode::LW) => 110,
        OpcodeKind::C(COpcode::LD) => 111,
        OpcodeKind::C(COpcode::SW) => 112,
        OpcodeKind::C(COpcode::SD) => 113,
        OpcodeKind::C(COpcode::NOP) => 114,
        OpcodeKind::C(COpcode::ADDI) => 115,
        OpcodeKind::C(COpcode::JAL) => 116,
        OpcodeKind::C(COpcode::ADDIW) => 117,
        OpcodeKind::C(COpcode::LI) => 118,
        OpcodeKind::C(COpcode::ADDI16SP) => 119,
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) => 120,
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) => 121,
        OpcodeKind::C(COpcode::LUI) => 122,
        OpcodeKind::C(COpcode::SRLI) => 123,
        OpcodeKind::C(COpcode::SRAI) => 124,
        OpcodeKind::C(COpcode::ANDI) => 125,
        OpcodeKind::C(COpcode::SUB) => 126,
        OpcodeKind::C(COpcode::XOR) => 127,
        OpcodeKind::C(COpcode::OR) => 128,
        OpcodeKind::C(COpcode::AND) => 129,
        OpcodeKind::C(COpcode::SUBW) => 130,
        OpcodeKind::C(COpcode::ADDW) => 131,
        OpcodeKind::C(COpcode::J) => 132,
        OpcodeKind::C(COpcode::BEQZ) => 133,
        OpcodeKind::C(COpcode::BNEZ) => 134,
        OpcodeKind::C(COpcode::SLLI) => 135,
        OpcodeKind::C(COpcode::LWSP) => 136,
        OpcodeKind::C(COpcode::LDSP) => 137,
        OpcodeKind::C(COpcode::JR) => 138,
        OpcodeKind::C(COpcode::MV) => 139,
        OpcodeKind::C(COpcode::EBREAK) => 140,
        OpcodeKind::C(COpcode::JALR) => 141,
        OpcodeKind::C(COpcode::ADD) => 142,
        OpcodeKind::C(COpcode::SWSP) => 143,
        OpcodeKind::C(COpcode::SDSP) => 144,
        #[allow(unreachable_patterns)]
        _ => 0xffff,
    }
}

pub fn kind_of(op: &OpcodeKind) -> Kind {
    match op {
        OpcodeKind::BaseI(BaseIOpcode::LUI) | OpcodeKind::BaseI(BaseIOpcode::AUIPC) => Kind::U,
        OpcodeKind::BaseI(BaseIOpcode::JAL) => Kind::J,
        OpcodeKind::BaseI(BaseIOpcode::JALR) | OpcodeKind::BaseI(BaseIOpcode::LB) | OpcodeKind::BaseI(BaseIOpcode::LH) | OpcodeKind::BaseI(BaseIOpcode::LW) | OpcodeKind::BaseI(BaseIOpcode::LD) | OpcodeKind::BaseI(BaseIOpcode::LBU) | OpcodeKind::BaseI(BaseIOpcode::LHU) | OpcodeKind::BaseI(BaseIOpcode::LWU) | OpcodeKind::BaseI(BaseIOpcode::ADDI) | OpcodeKind::BaseI(BaseIOpcode::SLTI) | OpcodeKind::BaseI(BaseIOpcode::SLTIU) | OpcodeKind::BaseI(BaseIOpcode::XORI) | OpcodeKind::BaseI(BaseIOpcode::ORI) | OpcodeKind::BaseI(BaseIOpcode::ANDI) | OpcodeKind::BaseI(BaseIOpcode::ADDIW) => Kind::I,
        OpcodeKind::BaseI(BaseIOpcode::BEQ) | OpcodeKind::BaseI(BaseIOpcode::BNE) | OpcodeKind::BaseI(BaseIOpcode::BLT) | OpcodeKind::BaseI(BaseIOpcode::BGE) | OpcodeKind::BaseI(BaseIOpcode::BLTU) | OpcodeKind::BaseI(BaseIOpcode::BGEU) => Kind::B,
        OpcodeKind::BaseI(BaseIOpcode::SB) | OpcodeKind::BaseI(BaseIOpcode::SH) | OpcodeKind::BaseI(BaseIOpcode::SW) | OpcodeKind::BaseI(BaseIOpcode::SD) => Kind::S,
        OpcodeKind::BaseI(BaseIOpcode::SLLI) | OpcodeKind::BaseI(BaseIOpcode::SRLI) | OpcodeKind::BaseI(BaseIOpcode::SRAI) => Kind::Sh,
        OpcodeKind::BaseI(BaseIOpcode::ADD) | OpcodeKind::BaseI(BaseIOpcode::SUB) | OpcodeKind::BaseI(BaseIOpcode::SLL) | OpcodeKind::BaseI(BaseIOpcode::SLT) | OpcodeKind::BaseI(BaseIOpcode::SLTU) | OpcodeKind::BaseI(BaseIOpcode::XOR) | OpcodeKind::BaseI(BaseIOpcode::SRL) | OpcodeKind::BaseI(BaseIOpcode::SRA) | OpcodeKind::BaseI(BaseIOpcode::OR) | OpcodeKind::BaseI(BaseIOpcode::AND) | OpcodeKind::BaseI(BaseIOpcode::ADDW) | OpcodeKind::BaseI(BaseIOpcode::SUBW) | OpcodeKind::BaseI(BaseIOpcode::SLLW) | OpcodeKind::BaseI(BaseIOpcode::SRLW) | OpcodeKind::BaseI(BaseIOpcode::SRAW) | OpcodeKind::M(MOpcode::MUL) | OpcodeKind::M(MOpcode::MULH) | OpcodeKind::M(MOpcode::MULHSU) | OpcodeKind::M(MOpcode::MULHU) | OpcodeKind::M(MOpcode::DIV) | OpcodeKind::M(MOpcode::DIVU) | OpcodeKind::M(MOpcode::REM) | OpcodeKind::M(MOpcode::REMU) | OpcodeKind::M(MOpcode::MULW) | OpcodeKind::M(MOpcode::DIVW) | OpcodeKind::M(MOpcode::DIVUW) | OpcodeKind::M(MOpcode::REMW) | OpcodeKind::M(MOpcode::REMUW) => Kind::R,
        OpcodeKind::BaseI(BaseIOpcode::ECALL) | OpcodeKind::BaseI(BaseIOpcode::EBREAK) | OpcodeKind::Priv(PrivOpcode::SRET) | OpcodeKind::Priv(PrivOpcode::MRET) | OpcodeKind::Priv(PrivOpcode::WFI) => Kind::N,
        OpcodeKind::BaseI(BaseIOpcode::SLLIW) | OpcodeKind::BaseI(BaseIOpcode::SRLIW) | OpcodeKind::BaseI(BaseIOpcode::SRAIW) => Kind::ShW,
        OpcodeKind::A(AOpcode::LR_W) | OpcodeKind::A(AOpcode::LR_D) => Kind::Lr,
        OpcodeKind::A(AOpcode::SC_W) | OpcodeKind::A(AOpcode::AMOSWAP_W) | OpcodeKind::A(AOpcode::AMOADD_W) | OpcodeKind::A(AOpcode::AMOXOR_W) | OpcodeKind::A(AOpcode::AMOAND_W) | OpcodeKind::A(AOpcode::AMOOR_W) | OpcodeKind::A(AOpcode::AMOMIN_W) | OpcodeKind::A(AOpcode::AMOMAX_W) | OpcodeKind::A(AOpcode::AMOMINU_W) | OpcodeKind::A(AOpcode::AMOMAXU_W) | OpcodeKind::A(AOpcode::SC_D) | OpcodeKind::A(AOpcode::AMOSWAP_D) | OpcodeKind::A(AOpcode::AMOADD_D) | OpcodeKind::A(AOpcode::AMOXOR_D) | OpcodeKind::A(AOpcode::AMOAND_D) | OpcodeKind::A(AOpcode::AMOOR_D) | OpcodeKind::A(AOpcode::AMOMIN_D) | OpcodeKind::A(AOpcode::AMOMAX_D) | OpcodeKind::A(AOpcode::AMOMINU_D) | OpcodeKind::A(AOpcode::AMOMAXU_D) => Kind::Amo,
        OpcodeKind::Zifencei(ZifenceiOpcode::FENCE) => Kind::Fence,
        OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO) => Kind::Cbo,
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE) | OpcodeKind::Zicntr(ZicntrOpcode::RDTIME) | OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET) | OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) | OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) | OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) | OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP) => Kind::Cnt,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRW) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRS) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRC) => Kind::Csr,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI) => Kind::CsrI,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH) => Kind::SsPush,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK) => Kind::SsPop,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W) | OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) => Kind::SsAmo,
        OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => Kind::Sfence,
        OpcodeKind::C(COpcode::ADDI4SPN) => Kind::CAddi4spn,
        OpcodeKind::C(COpcode::LW) => Kind::CLw,
        OpcodeKind::C(COpcode::LD) => Kind::CLd,
        OpcodeKind::C(COpcode::SW) => Kind::CSw,
        OpcodeKind::C(COpcode::SD) => Kind::CSd,
        OpcodeKind::C(COpcode::NOP) => Kind::CNop,
        OpcodeKind::C(COpcode::ADDI) | OpcodeKind::C(COpcode::ADDIW) => Kind::CAddi,
        OpcodeKind::C(COpcode::JAL) | OpcodeKind::C(COpcode::J) => Kind::CJ,
        OpcodeKind::C(COpcode::LI) => Kind::CLi,
        OpcodeKind::C(COpcode::ADDI16SP) => Kind::CAddi16sp,
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) => Kind::CSsPush,
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) => Kind::CSsPop,
        OpcodeKind::C(COpcode::LUI) => Kind::CLui,
        OpcodeKind::C(COpcode::SRLI) | OpcodeKind::C(COpcode::SRAI) => Kind::CShift,
        OpcodeKind::C(COpcode::ANDI) => Kind::CAndi,
        OpcodeKind::C(COpcode::SUB) | OpcodeKind::C(COpcode::XOR) | OpcodeKind::C(COpcode::OR) | OpcodeKind::C(COpcode::AND) | OpcodeKind::C(COpcode::SUBW) | OpcodeKind::C(COpcode::ADDW) => Kind::CA,
        OpcodeKind::C(COpcode::BEQZ) | OpcodeKind::C(COpcode::BNEZ) => Kind::CB,
        OpcodeKind::C(COpcode::SLLI) => Kind::CSlli,
        OpcodeKind::C(COpcode::LWSP) => Kind::CLwsp,
        OpcodeKind::C(COpcode::LDSP) => Kind::CLdsp,
        OpcodeKind::C(COpcode::JR) | OpcodeKind::C(COpcode::JALR) => Kind::CJr,
        OpcodeKind::C(COpcode::MV) => Kind::CMv,
        OpcodeKind::C(COpcode::EBREAK) => Kind::CNone,
        OpcodeKind::C(COpcode::ADD) => Kind::CAdd,
        OpcodeKind::C(COpcode::SWSP) => Kind::CSwsp,
        OpcodeKind::C(COpcode::SDSP) => Kind::CSdsp,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

/// Is it a 16-bit instruction?
pub fn is_c(op: &OpcodeKind) -> bool {
    match op {
        OpcodeKind::C(COpcode::ADDI4SPN) | OpcodeKind::C(COpcode::LW) | OpcodeKind::C(COpcode::LD) | OpcodeKind::C(COpcode::SW) | OpcodeKind::C(COpcode::SD) | OpcodeKind::C(COpcode::NOP) | OpcodeKind::C(COpcode::ADDI) | OpcodeKind::C(COpcode::JAL) | OpcodeKind::C(COpcode::ADDIW) | OpcodeKind::C(COpcode::LI) | OpcodeKind::C(COpcode::ADDI16SP) | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) | OpcodeKind::C(COpcode::LUI) | OpcodeKind::C(COpcode::SRLI) | OpcodeKind::C(COpcode::SRAI) | OpcodeKind::C(COpcode::ANDI) | OpcodeKind::C(COpcode::SUB) | OpcodeKind::C(COpcode::XOR) | OpcodeKind::C(COpcode::OR) | OpcodeKind::C(COpcode::AND) | OpcodeKind::C(COpcode::SUBW) | OpcodeKind::C(COpcode::ADDW) | OpcodeKind::C(COpcode::J) | OpcodeKind::C(COpcode::BEQZ) | OpcodeKind::C(COpcode::BNEZ) | OpcodeKind::C(COpcode::SLLI) | OpcodeKind::C(COpcode::LWSP) | OpcodeKind::C(COpcode::LDSP) | OpcodeKind::C(COpcode::JR) | OpcodeKind::C(COpcode::MV) | OpcodeKind::C(COpcode::EBREAK) | OpcodeKind::C(COpcode::JALR) | OpcodeKind::C(COpcode::ADD) | OpcodeKind::C(COpcode::SWSP) | OpcodeKind::C(COpcode::SDSP) => true,
        _ => false,
    }
}

pub fn format_of(op: &OpcodeKind) -> InstFormat {
    match op {
        OpcodeKind::BaseI(BaseIOpcode::LUI) | OpcodeKind::BaseI(BaseIOpcode::AUIPC) => InstFormat::UFormat,
        OpcodeKind::BaseI(BaseIOpcode::JAL) => InstFormat::JFormat,
        OpcodeKind::BaseI(BaseIOpcode::JALR) | OpcodeKind::BaseI(BaseIOpcode::LB) | OpcodeKind::BaseI(BaseIOpcode::LH) | OpcodeKind::BaseI(BaseIOpcode::LW) | OpcodeKind::BaseI(BaseIOpcode::LD) | OpcodeKind::BaseI(BaseIOpcode::LBU) | OpcodeKind::BaseI(BaseIOpcode::LHU) | OpcodeKind::BaseI(BaseIOpcode::LWU) | OpcodeKind::BaseI(BaseIOpcode::ADDI) | OpcodeKind::BaseI(BaseIOpcode::SLTI) | OpcodeKind::BaseI(BaseIOpcode::SLTIU) | OpcodeKind::BaseI(BaseIOpcode::XORI) | OpcodeKind::BaseI(BaseIOpcode::ORI) | OpcodeKind::BaseI(BaseIOpcode::ANDI) | OpcodeKind::BaseI(BaseIOpcode::ADDIW) => InstFormat::IFormat,
        OpcodeKind::BaseI(BaseIOpcode::BEQ) | OpcodeKind::BaseI(BaseIOpcode::BNE) | OpcodeKind::BaseI(BaseIOpcode::BLT) | OpcodeKind::BaseI(BaseIOpcode::BGE) | OpcodeKind::BaseI(BaseIOpcode::BLTU) | OpcodeKind::BaseI(BaseIOpcode::BGEU) => InstFormat::BFormat,
        OpcodeKind::BaseI(BaseIOpcode::SB) | OpcodeKind::BaseI(BaseIOpcode::SH) | OpcodeKind::BaseI(BaseIOpcode::SW) | OpcodeKind::BaseI(BaseIOpcode::SD) => InstFormat::SFormat,
        OpcodeKind::BaseI(BaseIOpcode::SLLI) | OpcodeKind::BaseI(BaseIOpcode::SRLI) | OpcodeKind::BaseI(BaseIOpcode::SRAI) | OpcodeKind::BaseI(BaseIOpcode::SLLIW) | OpcodeKind::BaseI(BaseIOpcode::SRLIW) | OpcodeKind::BaseI(BaseIOpcode::SRAIW) => InstFormat::RShamtFormat,
        OpcodeKind::BaseI(BaseIOpcode::ADD) | OpcodeKind::BaseI(BaseIOpcode::SUB) | OpcodeKind::BaseI(BaseIOpcode::SLL) | OpcodeKind::BaseI(BaseIOpcode::SLT) | OpcodeKind::BaseI(BaseIOpcode::SLTU) | OpcodeKind::BaseI(BaseIOpcode::XOR) | OpcodeKind::BaseI(BaseIOpcode::SRL) | OpcodeKind::BaseI(BaseIOpcode::SRA) | OpcodeKind::BaseI(BaseIOpcode::OR) | OpcodeKind::BaseI(BaseIOpcode::AND) | OpcodeKind::BaseI(BaseIOpcode::ADDW) | OpcodeKind::BaseI(BaseIOpcode::SUBW) | OpcodeKind::BaseI(BaseIOpcode::SLLW) | OpcodeKind::BaseI(BaseIOpcode::SRLW) | OpcodeKind::BaseI(BaseIOpcode::SRAW) | OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => InstFormat::RFormat,
        OpcodeKind::BaseI(BaseIOpcode::ECALL) | OpcodeKind::BaseI(BaseIOpcode::EBREAK) | OpcodeKind::Zifencei(ZifenceiOpcode::FENCE) | OpcodeKind::Priv(PrivOpcode::SRET) | OpcodeKind::Priv(PrivOpcode::MRET) | OpcodeKind::Priv(PrivOpcode::WFI) | OpcodeKind::C(COpcode::NOP) | OpcodeKind::C(COpcode::EBREAK) => InstFormat::NoOperand,
        OpcodeKind::M(MOpcode::MUL) | OpcodeKind::M(MOpcode::MULH) | OpcodeKind::M(MOpcode::MULHSU) | OpcodeKind::M(MOpcode::MULHU) | OpcodeKind::M(MOpcode::DIV) | OpcodeKind::M(MOpcode::DIVU) | OpcodeKind::M(MOpcode::REM) | OpcodeKind::M(MOpcode::REMU) | OpcodeKind::M(MOpcode::MULW) | OpcodeKind::M(MOpcode::DIVW) | OpcodeKind::M(MOpcode::DIVUW) | OpcodeKind::M(MOpcode::REMW) | OpcodeKind::M(MOpcode::REMUW) => InstFormat::MFormat,
        OpcodeKind::A(AOpcode::LR_W) | OpcodeKind::A(AOpcode::LR_D) => InstFormat::ALrFormat,
        OpcodeKind::A(AOpcode::SC_W) | OpcodeKind::A(AOpcode::AMOSWAP_W) | OpcodeKind::A(AOpcode::AMOADD_W) | OpcodeKind::A(AOpcode::AMOXOR_W) | OpcodeKind::A(AOpcode::AMOAND_W) | OpcodeKind::A(AOpcode::AMOOR_W) | OpcodeKind::A(AOpcode::AMOMIN_W) | OpcodeKind::A(AOpcode::AMOMAX_W) | OpcodeKind::A(AOpcode::AMOMINU_W) | OpcodeKind::A(AOpcode::AMOMAXU_W) | OpcodeKind::A(AOpcode::SC_D) | OpcodeKind::A(AOpcode::AMOSWAP_D) | OpcodeKind::A(AOpcode::AMOADD_D) | OpcodeKind::A(AOpcode::AMOXOR_D) | OpcodeKind::A(AOpcode::AMOAND_D) | OpcodeKind::A(AOpcode::AMOOR_D) | OpcodeKind::A(AOpcode::AMOMIN_D) | OpcodeKind::A(AOpcode::AMOMAX_D) | OpcodeKind::A(AOpcode::AMOMINU_D) | OpcodeKind::A(AOpcode::AMOMAXU_D) | OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W) | OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) => InstFormat::AFormat,
        OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO) | OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK) => InstFormat::OnlyRs1,
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE) | OpcodeKind::Zicntr(ZicntrOpcode::RDTIME) | OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET) | OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) | OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) | OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) | OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP) | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) => InstFormat::OnlyRd,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRW) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRS) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRC) => InstFormat::CsrFormat,
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI) | OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI) => InstFormat::CsrUiFormat,
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH) => InstFormat::OnlyRs2,
        OpcodeKind::C(COpcode::ADDI4SPN) => InstFormat::CiwFormat,
        OpcodeKind::C(COpcode::LW) | OpcodeKind::C(COpcode::LD) => InstFormat::ClFormat,
        OpcodeKind::C(COpcode::SW) | OpcodeKind::C(COpcode::SD) => InstFormat::CsFormat,
        OpcodeKind::C(COpcode::ADDI) | OpcodeKind::C(COpcode::ADDIW) | OpcodeKind::C(COpcode::LI) | OpcodeKind::C(COpcode::ADDI16SP) | OpcodeKind::C(COpcode::LUI) | OpcodeKind::C(COpcode::SLLI) | OpcodeKind::C(COpcode::LWSP) | OpcodeKind::C(COpcode::LDSP) => InstFormat::CiFormat,
        OpcodeKind::C(COpcode::JAL) | OpcodeKind::C(COpcode::J) => InstFormat::CjFormat,
        OpcodeKind::C(COpcode::SRLI) | OpcodeKind::C(COpcode::SRAI) | OpcodeKind::C(COpcode::ANDI) | OpcodeKind::C(COpcode::BEQZ) | OpcodeKind::C(COpcode::BNEZ) => InstFormat::CbFormat,
        OpcodeKind::C(COpcode::SUB) | OpcodeKind::C(COpcode::XOR) | OpcodeKind::C(COpcode::OR) | OpcodeKind::C(COpcode::AND) | OpcodeKind::C(COpcode::SUBW) | OpcodeKind::C(COpcode::ADDW) => InstFormat::CaFormat,
        OpcodeKind::C(COpcode::JR) | OpcodeKind::C(COpcode::MV) | OpcodeKind::C(COpcode::JALR) | OpcodeKind::C(COpcode::ADD) => InstFormat::CrFormat,
        OpcodeKind::C(COpcode::SWSP) | OpcodeKind::C(COpcode::SDSP) => InstFormat::CssFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn mnemonic_of(op: &OpcodeKind) -> &'static str {
    match op {
        OpcodeKind::BaseI(BaseIOpcode::LUI) => "lui",
        OpcodeKind::BaseI(BaseIOpcode::AUIPC) => "auipc",
        OpcodeKind::BaseI(BaseIOpcode::JAL) => "jal",
        OpcodeKind::BaseI(BaseIOpcode::JALR) => "jalr",
        OpcodeKind::BaseI(BaseIOpcode::BEQ) => "beq",
        OpcodeKind::BaseI(BaseIOpcode::BNE) => "bne",
        OpcodeKind::BaseI(BaseIOpcode::BLT) => "blt",
        OpcodeKind::BaseI(BaseIOpcode::BGE) => "bge",
        OpcodeKind::BaseI(BaseIOpcode::BLTU) => "bltu",
        OpcodeKind::BaseI(BaseIOpcode::BGEU) => "bgeu",
        OpcodeKind::BaseI(BaseIOpcode::LB) => "lb",
        OpcodeKind::BaseI(BaseIOpcode::LH) => "lh",
        OpcodeKind::BaseI(BaseIOpcode::LW) => "lw",
        OpcodeKind::BaseI(BaseIOpcode::LD) => "ld",
        OpcodeKind::BaseI(BaseIOpcode::LBU) => "lbu",
        OpcodeKind::BaseI(BaseIOpcode::LHU) => "lhu",
        OpcodeKind::BaseI(BaseIOpcode::LWU) => "lwu",
        OpcodeKind::BaseI(BaseIOpcode::SB) => "sb",
        OpcodeKind::BaseI(BaseIOpcode::SH) => "sh",
        OpcodeKind::BaseI(BaseIOpcode::SW) => "sw",
        OpcodeKind::BaseI(BaseIOpcode::SD) => "sd",
        OpcodeKind::BaseI(BaseIOpcode::ADDI) => "addi",
        OpcodeKind::BaseI(BaseIOpcode::SLTI) => "slti",
        OpcodeKind::BaseI(BaseIOpcode::SLTIU) => "sltiu",
        OpcodeKind::BaseI(BaseIOpcode::XORI) => "xori",
        OpcodeKind::BaseI(BaseIOpcode::ORI) => "ori",
        OpcodeKind::BaseI(BaseIOpcode::ANDI) => "andi",
        OpcodeKind::BaseI(BaseIOpcode::SLLI) => "slli",
        OpcodeKind::BaseI(BaseIOpcode::SRLI) => "srli",
        OpcodeKind::BaseI(BaseIOpcode::SRAI) => "srai",
        OpcodeKind::BaseI(BaseIOpcode::ADD) => "add",
        OpcodeKind::BaseI(BaseIOpcode::SUB) => "sub",
        OpcodeKind::BaseI(BaseIOpcode::SLL) => "sll",
        OpcodeKind::BaseI(BaseIOpcode::SLT) => "slt",
        OpcodeKind::BaseI(BaseIOpcode::SLTU) => "sltu",
        OpcodeKind::BaseI(BaseIOpcode::XOR) => "xor",
        OpcodeKind::BaseI(BaseIOpcode::SRL) => "srl",
        OpcodeKind::BaseI(BaseIOpcode::SRA) => "sra",
        OpcodeKind::BaseI(BaseIOpcode::OR) => "or",
        OpcodeKind::BaseI(BaseIOpcode::AND) => "and",
        OpcodeKind::BaseI(BaseIOpcode::ECALL) => "ecall",
        OpcodeKind::BaseI(BaseIOpcode::EBREAK) => "ebreak",
        OpcodeKind::BaseI(BaseIOpcode::ADDIW) => "addiw",
        OpcodeKind::BaseI(BaseIOpcode::SLLIW) => "slliw",
        OpcodeKind::BaseI(BaseIOpcode::SRLIW) => "srliw",
        OpcodeKind::BaseI(BaseIOpcode::SRAIW) => "sraiw",
        OpcodeKind::BaseI(BaseIOpcode::ADDW) => "addw",
        OpcodeKind::BaseI(BaseIOpcode::SUBW) => "subw",
        OpcodeKind::BaseI(BaseIOpcode::SLLW) => "sllw",
        OpcodeKind::BaseI(BaseIOpcode::SRLW) => "srlw",
        OpcodeKind::BaseI(BaseIOpcode::SRAW) => "sraw",
        OpcodeKind::M(MOpcode::MUL) => "mul",
        OpcodeKind::M(MOpcode::MULH) => "mulh",
        OpcodeKind::M(MOpcode::MULHSU) => "mulhsu",
        OpcodeKind::M(MOpcode::MULHU) => "mulhu",
        OpcodeKind::M(MOpcode::DIV) => "div",
        OpcodeKind::M(MOpcode::DIVU) => "divu",
        OpcodeKind::M(MOpcode::REM) => "rem",
        OpcodeKind::M(MOpcode::REMU) => "remu",
        OpcodeKind::M(MOpcode::MULW) => "mulw",
        OpcodeKind::M(MOpcode::DIVW) => "divw",
        OpcodeKind::M(MOpcode::DIVUW) => "divuw",
        OpcodeKind::M(MOpcode::REMW) => "remw",
        OpcodeKind::M(MOpcode::REMUW) => "remuw",
        OpcodeKind::A(AOpcode::LR_W) => "lr.w",
        OpcodeKind::A(AOpcode::SC_W) => "sc.w",
        OpcodeKind::A(AOpcode::AMOSWAP_W) => "amoswap.w",
        OpcodeKind::A(AOpcode::AMOADD_W) => "amoadd.w",
        OpcodeKind::A(AOpcode::AMOXOR_W) => "amoxor.w",
        OpcodeKind::A(AOpcode::AMOAND_W) => "amoand.w",
        OpcodeKind::A(AOpcode::AMOOR_W) => "amoor.w",
        OpcodeKind::A(AOpcode::AMOMIN_W) => "amomin.w",
        OpcodeKind::A(AOpcode::AMOMAX_W) => "amomax.w",
        OpcodeKind::A(AOpcode::AMOMINU_W) => "amominu.w",
        OpcodeKind::A(AOpcode::AMOMAXU_W) => "amomaxu.w",
        OpcodeKind::A(AOpcode::LR_D) => "lr.d",
        OpcodeKind::A(AOpcode::SC_D) => "sc.d",
        OpcodeKind::A(AOpcode::AMOSWAP_D) => "amoswap.d",
        OpcodeKind::A(AOpcode::AMOADD_D) => "amoadd.d",
        OpcodeKind::A(AOpcode::AMOXOR_D) => "amoxor.d",
        OpcodeKind::A(AOpcode::AMOAND_D) => "amoand.d",
        OpcodeKind::A(AOpcode::AMOOR_D) => "amoor.d",
        OpcodeKind::A(AOpcode::AMOMIN_D) => "amomin.d",
        OpcodeKind::A(AOpcode::AMOMAX_D) => "amomax.d",
        OpcodeKind::A(AOpcode::AMOMINU_D) => "amominu.d",
        OpcodeKind::A(AOpcode::AMOMAXU_D) => "amomaxu.d",
        OpcodeKind::Zifencei(ZifenceiOpcode::FENCE) => "fence",
        OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO) => "cbo.zero",
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE) => "rdcycle",
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME) => "rdtime",
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET) => "rdinstret",
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) => "rdcycleh",
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) => "rdtimeh",
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) => "rdinstreth",
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRW) => "csrrw",
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRS) => "csrrs",
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRC) => "csrrc",
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI) => "csrrwi",
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI) => "csrrsi",
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI) => "csrrci",
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH) => "sspush",
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK) => "sspopchk",
        OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP) => "ssrdp",
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W) => "ssamoswap.w",
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) => "ssamoswap.d",
        OpcodeKind::Priv(PrivOpcode::SRET) => "sret",
        OpcodeKind::Priv(PrivOpcode::MRET) => "mret",
        OpcodeKind::Priv(PrivOpcode::WFI) => "wfi",
        OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => "sfence.vma",
        OpcodeKind::C(COpcode::ADDI4SPN) => "C.addi4spn",
        OpcodeKind::C(COpcode::LW) => "C.lw",
        OpcodeKind::C(COpcode::LD) => "C.ld",
        OpcodeKind::C(COpcode::SW) => "C.sw",
        OpcodeKind::C(COpcode::SD) => "C.sd",
        OpcodeKind::C(COpcode::NOP) => "C.nop",
        OpcodeKind::C(COpcode::ADDI) => "C.addi",
        OpcodeKind::C(COpcode::JAL) => "C.jal",
        OpcodeKind::C(COpcode::ADDIW) => "C.addiw",
        OpcodeKind::C(COpcode::LI) => "C.li",
        OpcodeKind::C(COpcode::ADDI16SP) => "C.addi16sp",
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) => "c.sspush",
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) => "c.sspopchk",
        OpcodeKind::C(COpcode::LUI) => "C.lui",
        OpcodeKind::C(COpcode::SRLI) => "C.srli",
        OpcodeKind::C(COpcode::SRAI) => "C.srai",
        OpcodeKind::C(COpcode::ANDI) => "C.andi",
        OpcodeKind::C(COpcode::SUB) => "C.sub",
        OpcodeKind::C(COpcode::XOR) => "C.xor",
        OpcodeKind::C(COpcode::OR) => "C.or",
        OpcodeKind::C(COpcode::AND) => "C.and",
        OpcodeKind::C(COpcode::SUBW) => "C.subw",
        OpcodeKind::C(COpcode::ADDW) => "C.addw",
        OpcodeKind::C(COpcode::J) => "C.j",
        OpcodeKind::C(COpcode::BEQZ) => "C.beqz",
        OpcodeKind::C(COpcode::BNEZ) => "C.bnez",
        OpcodeKind::C(COpcode::SLLI) => "C.slli",
        OpcodeKind::C(COpcode::LWSP) => "C.lwsp",
        OpcodeKind::C(COpcode::LDSP) => "C.ldsp",
        OpcodeKind::C(COpcode::JR) => "C.jr",
        OpcodeKind::C(COpcode::MV) => "C.mv",
        OpcodeKind::C(COpcode::EBREAK) => "C.ebreak",
        OpcodeKind::C(COpcode::JALR) => "C.jalr",
        OpcodeKind::C(COpcode::ADD) => "C.add",
        OpcodeKind::C(COpcode::SWSP) => "C.swsp",
        OpcodeKind::C(COpcode::SDSP) => "C.sdsp",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

/// Does the instruction exist in RV64 only (so that RV32 must refuse it as such)?
pub fn rv64_only(op: &OpcodeKind) -> bool {
    match op {
        OpcodeKind::BaseI(BaseIOpcode::LD) | OpcodeKind::BaseI(BaseIOpcode::LWU) | OpcodeKind::BaseI(BaseIOpcode::SD) | OpcodeKind::BaseI(BaseIOpcode::ADDIW) | OpcodeKind::BaseI(BaseIOpcode::SLLIW) | OpcodeKind::BaseI(BaseIOpcode::SRLIW) | OpcodeKind::BaseI(BaseIOpcode::SRAIW) | OpcodeKind::BaseI(BaseIOpcode::ADDW) | OpcodeKind::BaseI(BaseIOpcode::SUBW) | OpcodeKind::BaseI(BaseIOpcode::SLLW) | OpcodeKind::BaseI(BaseIOpcode::SRLW) | OpcodeKind::BaseI(BaseIOpcode::SRAW) | OpcodeKind::M(MOpcode::MULW) | OpcodeKind::M(MOpcode::DIVW) | OpcodeKind::M(MOpcode::DIVUW) | OpcodeKind::M(MOpcode::REMW) | OpcodeKind::M(MOpcode::REMUW) | OpcodeKind::A(AOpcode::LR_D) | OpcodeKind::A(AOpcode::SC_D) | OpcodeKind::A(AOpcode::AMOSWAP_D) | OpcodeKind::A(AOpcode::AMOADD_D) | OpcodeKind::A(AOpcode::AMOXOR_D) | OpcodeKind::A(AOpcode::AMOAND_D) | OpcodeKind::A(AOpcode::AMOOR_D) | OpcodeKind::A(AOpcode::AMOMIN_D) | OpcodeKind::A(AOpcode::AMOMAX_D) | OpcodeKind::A(AOpcode::AMOMINU_D) | OpcodeKind::A(AOpcode::AMOMAXU_D) | OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) | OpcodeKind::C(COpcode::LD) | OpcodeKind::C(COpcode::SD) | OpcodeKind::C(COpcode::ADDIW) | OpcodeKind::C(COpcode::SUBW) | OpcodeKind::C(COpcode::ADDW) | OpcodeKind::C(COpcode::LDSP) | OpcodeKind::C(COpcode::SDSP) => true,
        _ => false,
    }
}

/// Does the instruction exist in RV32 only?
pub fn rv32_only(op: &OpcodeKind) -> bool {
    match op {
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) | OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) | OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) | OpcodeKind::C(COpcode::JAL) => true,
        _ => false,
    }
}

/// The instruction that `w` encodes for the given width, if any.
pub fn find32(w: u32, rv64: bool) -> Option<OpcodeKind> {
    if w & 0x0000007f == 0x00000037 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LUI));
    }
    if w & 0x0000007f == 0x00000017 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::AUIPC));
    }
    if w & 0x0000007f == 0x0000006f {
        return Some(OpcodeKind::BaseI(BaseIOpcode::JAL));
    }
    if w & 0x0000707f == 0x00000067 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::JALR));
    }
    if w & 0x0000707f == 0x00000063 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::BEQ));
    }
    if w & 0x0000707f == 0x00001063 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::BNE));
    }
    if w & 0x0000707f == 0x00004063 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::BLT));
    }
    if w & 0x0000707f == 0x00005063 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::BGE));
    }
    if w & 0x0000707f == 0x00006063 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::BLTU));
    }
    if w & 0x0000707f == 0x00007063 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::BGEU));
    }
    if w & 0x0000707f == 0x00000003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LB));
    }
    if w & 0x0000707f == 0x00001003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LH));
    }
    if w & 0x0000707f == 0x00002003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LW));
    }
    if rv64 && w & 0x0000707f == 0x00003003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LD));
    }
    if w & 0x0000707f == 0x00004003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LBU));
    }
    if w & 0x0000707f == 0x00005003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LHU));
    }
    if rv64 && w & 0x0000707f == 0x00006003 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::LWU));
    }
    if w & 0x0000707f == 0x00000023 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SB));
    }
    if w & 0x0000707f == 0x00001023 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SH));
    }
    if w & 0x0000707f == 0x00002023 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SW));
    }
    if rv64 && w & 0x0000707f == 0x00003023 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SD));
    }
    if w & 0x0000707f == 0x00000013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ADDI));
    }
    if w & 0x0000707f == 0x00002013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLTI));
    }
    if w & 0x0000707f == 0x00003013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLTIU));
    }
    if w & 0x0000707f == 0x00004013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::XORI));
    }
    if w & 0x0000707f == 0x00006013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ORI));
    }
    if w & 0x0000707f == 0x00007013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ANDI));
    }
    if !rv64 && w & 0xfe00707f == 0x00001013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLLI));
    }
    if rv64 && w & 0xfc00707f == 0x00001013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLLI));
    }
    if !rv64 && w & 0xfe00707f == 0x00005013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRLI));
    }
    if rv64 && w & 0xfc00707f == 0x00005013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRLI));
    }
    if !rv64 && w & 0xfe00707f == 0x40005013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRAI));
    }
    if rv64 && w & 0xfc00707f == 0x40005013 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRAI));
    }
    if w & 0xfe00707f == 0x00000033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ADD));
    }
    if w & 0xfe00707f == 0x40000033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SUB));
    }
    if w & 0xfe00707f == 0x00001033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLL));
    }
    if w & 0xfe00707f == 0x00002033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLT));
    }
    if w & 0xfe00707f == 0x00003033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLTU));
    }
    if w & 0xfe00707f == 0x00004033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::XOR));
    }
    if w & 0xfe00707f == 0x00005033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRL));
    }
    if w & 0xfe00707f == 0x40005033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRA));
    }
    if w & 0xfe00707f == 0x00006033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::OR));
    }
    if w & 0xfe00707f == 0x00007033 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::AND));
    }
    if w & 0xffffffff == 0x00000073 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ECALL));
    }
    if w & 0xffffffff == 0x00100073 {
        return Some(OpcodeKind::BaseI(BaseIOpcode::EBREAK));
    }
    if rv64 && w & 0x0000707f == 0x0000001b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ADDIW));
    }
    if rv64 && w & 0xfe00707f == 0x0000101b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLLIW));
    }
    if rv64 && w & 0xfe00707f == 0x0000501b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRLIW));
    }
    if rv64 && w & 0xfe00707f == 0x4000501b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRAIW));
    }
    if rv64 && w & 0xfe00707f == 0x0000003b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::ADDW));
    }
    if rv64 && w & 0xfe00707f == 0x4000003b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SUBW));
    }
    if rv64 && w & 0xfe00707f == 0x0000103b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SLLW));
    }
    if rv64 && w & 0xfe00707f == 0x0000503b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRLW));
    }
    if rv64 && w & 0xfe00707f == 0x4000503b {
        return Some(OpcodeKind::BaseI(BaseIOpcode::SRAW));
    }
    if w & 0xfe00707f == 0x02000033 {
        return Some(OpcodeKind::M(MOpcode::MUL));
    }
    if w & 0xfe00707f == 0x02001033 {
        return Some(OpcodeKind::M(MOpcode::MULH));
    }
    if w & 0xfe00707f == 0x02002033 {
        return Some(OpcodeKind::M(MOpcode::MULHSU));
    }
    if w & 0xfe00707f == 0x02003033 {
        return Some(OpcodeKind::M(MOpcode::MULHU));
    }
    if w & 0xfe00707f == 0x02004033 {
        return Some(OpcodeKind::M(MOpcode::DIV));
    }
    if w & 0xfe00707f == 0x02005033 {
        return Some(OpcodeKind::M(MOpcode::DIVU));
    }
    if w & 0xfe00707f == 0x02006033 {
        return Some(OpcodeKind::M(MOpcode::REM));
    }
    if w & 0xfe00707f == 0x02007033 {
        return Some(OpcodeKind::M(MOpcode::REMU));
    }
    if rv64 && w & 0xfe00707f == 0x0200003b {
        return Some(OpcodeKind::M(MOpcode::MULW));
    }
    if rv64 && w & 0xfe00707f == 0x0200403b {
        return Some(OpcodeKind::M(MOpcode::DIVW));
    }
    if rv64 && w & 0xfe00707f == 0x0200503b {
        return Some(OpcodeKind::M(MOpcode::DIVUW));
    }
    if rv64 && w & 0xfe00707f == 0x0200603b {
        return Some(OpcodeKind::M(MOpcode::REMW));
    }
    if rv64 && w & 0xfe00707f == 0x0200703b {
        return Some(OpcodeKind::M(MOpcode::REMUW));
    }
    if w & 0xf9f0707f == 0x1000202f {
        return Some(OpcodeKind::A(AOpcode::LR_W));
    }
    if w & 0xf800707f == 0x1800202f {
        return Some(OpcodeKind::A(AOpcode::SC_W));
    }
    if w & 0xf800707f == 0x0800202f {
        return Some(OpcodeKind::A(AOpcode::AMOSWAP_W));
    }
    if w & 0xf800707f == 0x0000202f {
        return Some(OpcodeKind::A(AOpcode::AMOADD_W));
    }
    if w & 0xf800707f == 0x2000202f {
        return Some(OpcodeKind::A(AOpcode::AMOXOR_W));
    }
    if w & 0xf800707f == 0x6000202f {
        return Some(OpcodeKind::A(AOpcode::AMOAND_W));
    }
    if w & 0xf800707f == 0x4000202f {
        return Some(OpcodeKind::A(AOpcode::AMOOR_W));
    }
    if w & 0xf800707f == 0x8000202f {
        return Some(OpcodeKind::A(AOpcode::AMOMIN_W));
    }
    if w & 0xf800707f == 0xa000202f {
        return Some(OpcodeKind::A(AOpcode::AMOMAX_W));
    }
    if w & 0xf800707f == 0xc000202f {
        return Some(OpcodeKind::A(AOpcode::AMOMINU_W));
    }
    if w & 0xf800707f == 0xe000202f {
        return Some(OpcodeKind::A(AOpcode::AMOMAXU_W));
    }
    if rv64 && w & 0xf9f0707f == 0x1000302f {
        return Some(OpcodeKind::A(AOpcode::LR_D));
    }
    if rv64 && w & 0xf800707f == 0x1800302f {
        return Some(OpcodeKind::A(AOpcode::SC_D));
    }
    if rv64 && w & 0xf800707f == 0x0800302f {
        return Some(OpcodeKind::A(AOpcode::AMOSWAP_D));
    }
    if rv64 && w & 0xf800707f == 0x0000302f {
        return Some(OpcodeKind::A(AOpcode::AMOADD_D));
    }
    if rv64 && w & 0xf800707f == 0x2000302f {
        return Some(OpcodeKind::A(AOpcode::AMOXOR_D));
    }
    if rv64 && w & 0xf800707f == 0x6000302f {
        return Some(OpcodeKind::A(AOpcode::AMOAND_D));
    }
    if rv64 && w & 0xf800707f == 0x4000302f {
        return Some(OpcodeKind::A(AOpcode::AMOOR_D));
    }
    if rv64 && w & 0xf800707f == 0x8000302f {
        return Some(OpcodeKind::A(AOpcode::AMOMIN_D));
    }
    if rv64 && w & 0xf800707f == 0xa000302f {
        return Some(OpcodeKind::A(AOpcode::AMOMAX_D));
    }
    if rv64 && w & 0xf800707f == 0xc000302f {
        return Some(OpcodeKind::A(AOpcode::AMOMINU_D));
    }
    if rv64 && w & 0xf800707f == 0xe000302f {
        return Some(OpcodeKind::A(AOpcode::AMOMAXU_D));
    }
    if w & 0x0000707f == 0x0000000f {
        return Some(OpcodeKind::Zifencei(ZifenceiOpcode::FENCE));
    }
    if w & 0xfff07fff == 0x0040200f {
        return Some(OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO));
    }
    if w & 0xfffff07f == 0xc0002073 {
        return Some(OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE));
    }
    if w & 0xfffff07f == 0xc0102073 {
        return Some(OpcodeKind::Zicntr(ZicntrOpcode::RDTIME));
    }
    if w & 0xfffff07f == 0xc0202073 {
        return Some(OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET));
    }
    if !rv64 && w & 0xfffff07f == 0xc8002073 {
        return Some(OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H));
    }
    if !rv64 && w & 0xfffff07f == 0xc8102073 {
        return Some(OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H));
    }
    if !rv64 && w & 0xfffff07f == 0xc8202073 {
        return Some(OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H));
    }
    if w & 0x0000707f == 0x00001073 {
        return Some(OpcodeKind::Zicsr(ZicsrOpcode::CSRRW));
    }
    if w & 0x0000707f == 0x00002073 {
        return Some(OpcodeKind::Zicsr(ZicsrOpcode::CSRRS));
    }
    if w & 0x0000707f == 0x00003073 {
        return Some(OpcodeKind::Zicsr(ZicsrOpcode::CSRRC));
    }
    if w & 0x0000707f == 0x00005073 {
        return Some(OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI));
    }
    if w & 0x0000707f == 0x00006073 {
        return Some(OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI));
    }
    if w & 0x0000707f == 0x00007073 {
        return Some(OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI));
    }
    if w & 0xffffffff == 0xce104073 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH));
    }
    if w & 0xffffffff == 0xcdc0c073 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK));
    }
    if w & 0xffffffff == 0xce504073 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH));
    }
    if w & 0xffffffff == 0xcdc2c073 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK));
    }
    if w & 0xfffff07f == 0xcdc04073 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP));
    }
    if w & 0xf800707f == 0x4800202f {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W));
    }
    if rv64 && w & 0xf800707f == 0x4800302f {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D));
    }
    if w & 0xffffffff == 0x10200073 {
        return Some(OpcodeKind::Priv(PrivOpcode::SRET));
    }
    if w & 0xffffffff == 0x30200073 {
        return Some(OpcodeKind::Priv(PrivOpcode::MRET));
    }
    if w & 0xffffffff == 0x10500073 {
        return Some(OpcodeKind::Priv(PrivOpcode::WFI));
    }
    if w & 0xfe007fff == 0x12000073 {
        return Some(OpcodeKind::Priv(PrivOpcode::SFENCE_VMA));
    }
    None
}

/// The instruction that `w` encodes for the given width, if any.
pub fn find16(w: u16, rv64: bool) -> Option<OpcodeKind> {
    if w == 0 {
        return None;
    }
    if w & 0xe003 == 0x0000 {
        return Some(OpcodeKind::C(COpcode::ADDI4SPN));
    }
    if w & 0xe003 == 0x4000 {
        return Some(OpcodeKind::C(COpcode::LW));
    }
    if rv64 && w & 0xe003 == 0x6000 {
        return Some(OpcodeKind::C(COpcode::LD));
    }
    if w & 0xe003 == 0xc000 {
        return Some(OpcodeKind::C(COpcode::SW));
    }
    if rv64 && w & 0xe003 == 0xe000 {
        return Some(OpcodeKind::C(COpcode::SD));
    }
    if w & 0xef83 == 0x0001 {
        return Some(OpcodeKind::C(COpcode::NOP));
    }
    if w & 0xe003 == 0x0001 {
        return Some(OpcodeKind::C(COpcode::ADDI));
    }
    if !rv64 && w & 0xe003 == 0x2001 {
        return Some(OpcodeKind::C(COpcode::JAL));
    }
    if rv64 && w & 0xe003 == 0x2001 {
        return Some(OpcodeKind::C(COpcode::ADDIW));
    }
    if w & 0xe003 == 0x4001 {
        return Some(OpcodeKind::C(COpcode::LI));
    }
    if w & 0xef83 == 0x6101 {
        return Some(OpcodeKind::C(COpcode::ADDI16SP));
    }
    if w & 0xffff == 0x6081 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH));
    }
    if w & 0xffff == 0x6281 {
        return Some(OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK));
    }
    if w & 0xe003 == 0x6001 {
        return Some(OpcodeKind::C(COpcode::LUI));
    }
    if !rv64 && w & 0xfc03 == 0x8001 {
        return Some(OpcodeKind::C(COpcode::SRLI));
    }
    if rv64 && w & 0xec03 == 0x8001 {
        return Some(OpcodeKind::C(COpcode::SRLI));
    }
    if !rv64 && w & 0xfc03 == 0x8401 {
        return Some(OpcodeKind::C(COpcode::SRAI));
    }
    if rv64 && w & 0xec03 == 0x8401 {
        return Some(OpcodeKind::C(COpcode::SRAI));
    }
    if w & 0xec03 == 0x8801 {
        return Some(OpcodeKind::C(COpcode::ANDI));
    }
    if w & 0xfc63 == 0x8c01 {
        return Some(OpcodeKind::C(COpcode::SUB));
    }
    if w & 0xfc63 == 0x8c21 {
        return Some(OpcodeKind::C(COpcode::XOR));
    }
    if w & 0xfc63 == 0x8c41 {
        return Some(OpcodeKind::C(COpcode::OR));
    }
    if w & 0xfc63 == 0x8c61 {
        return Some(OpcodeKind::C(COpcode::AND));
    }
    if rv64 && w & 0xfc63 == 0x9c01 {
        return Some(OpcodeKind::C(COpcode::SUBW));
    }
    if rv64 && w & 0xfc63 == 0x9c21 {
        return Some(OpcodeKind::C(COpcode::ADDW));
    }
    if w & 0xe003 == 0xa001 {
        return Some(OpcodeKind::C(COpcode::J));
    }
    if w & 0xe003 == 0xc001 {
        return Some(OpcodeKind::C(COpcode::BEQZ));
    }
    if w & 0xe003 == 0xe001 {
        return Some(OpcodeKind::C(COpcode::BNEZ));
    }
    if !rv64 && w & 0xf003 == 0x0002 {
        return Some(OpcodeKind::C(COpcode::SLLI));
    }
    if rv64 && w & 0xe003 == 0x0002 {
        return Some(OpcodeKind::C(COpcode::SLLI));
    }
    if w & 0xe003 == 0x4002 {
        return Some(OpcodeKind::C(COpcode::LWSP));
    }
    if rv64 && w & 0xe003 == 0x6002 {
        return Some(OpcodeKind::C(COpcode::LDSP));
    }
    if w & 0xf07f == 0x8002 {
        return Some(OpcodeKind::C(COpcode::JR));
    }
    if w & 0xf003 == 0x8002 {
        return Some(OpcodeKind::C(COpcode::MV));
    }
    if w & 0xffff == 0x9002 {
        return Some(OpcodeKind::C(COpcode::EBREAK));
    }
    if w & 0xf07f == 0x9002 {
        return Some(OpcodeKind::C(COpcode::JALR));
    }
    if w & 0xf003 == 0x9002 {
        return Some(OpcodeKind::C(COpcode::ADD));
    }
    if w & 0xe003 == 0xc002 {
        return Some(OpcodeKind::C(COpcode::SWSP));
    }
    if rv64 && w & 0xe003 == 0xe002 {
        return Some(OpcodeKind::C(COpcode::SDSP));
    }
    None
}

/// (mask, match) of an opcode: the bits that are fixed for both widths.
pub fn fixed32(op: &OpcodeKind) -> (u32, u32) {
    match op {
        OpcodeKind::BaseI(BaseIOpcode::LUI) => (0x0000007f, 0x00000037),
        OpcodeKind::BaseI(BaseIOpcode::AUIPC) => (0x0000007f, 0x00000017),
        OpcodeKind::BaseI(BaseIOpcode::JAL) => (0x0000007f, 0x0000006f),
        OpcodeKind::BaseI(BaseIOpcode::JALR) => (0x0000707f, 0x00000067),
        OpcodeKind::BaseI(BaseIOpcode::BEQ) => (0x0000707f, 0x00000063),
        OpcodeKind::BaseI(BaseIOpcode::BNE) => (0x0000707f, 0x00001063),
        OpcodeKind::BaseI(BaseIOpcode::BLT) => (0x0000707f, 0x00004063),
        OpcodeKind::BaseI(BaseIOpcode::BGE) => (0x0000707f, 0x00005063),
        OpcodeKind::BaseI(BaseIOpcode::BLTU) => (0x0000707f, 0x00006063),
        OpcodeKind::BaseI(BaseIOpcode::BGEU) => (0x0000707f, 0x00007063),
        OpcodeKind::BaseI(BaseIOpcode::LB) => (0x0000707f, 0x00000003),
        OpcodeKind::BaseI(BaseIOpcode::LH) => (0x0000707f, 0x00001003),
        OpcodeKind::BaseI(BaseIOpcode::LW) => (0x0000707f, 0x00002003),
        OpcodeKind::BaseI(BaseIOpcode::LD) => (0x0000707f, 0x00003003),
        OpcodeKind::BaseI(BaseIOpcode::LBU) => (0x0000707f, 0x00004003),
        OpcodeKind::BaseI(BaseIOpcode::LHU) => (0x0000707f, 0x00005003),
        OpcodeKind::BaseI(BaseIOpcode::LWU) => (0x0000707f, 0x00006003),
        OpcodeKind::BaseI(BaseIOpcode::SB) => (0x0000707f, 0x00000023),
        OpcodeKind::BaseI(BaseIOpcode::SH) => (0x0000707f, 0x00001023),
        OpcodeKind::BaseI(BaseIOpcode::SW) => (0x0000707f, 0x00002023),
        OpcodeKind::BaseI(BaseIOpcode::SD) => (0x0000707f, 0x00003023),
        OpcodeKind::BaseI(BaseIOpcode::ADDI) => (0x0000707f, 0x00000013),
        OpcodeKind::BaseI(BaseIOpcode::SLTI) => (0x0000707f, 0x00002013),
        OpcodeKind::BaseI(BaseIOpcode::SLTIU) => (0x0000707f, 0x00003013),
        OpcodeKind::BaseI(BaseIOpcode::XORI) => (0x0000707f, 0x00004013),
        OpcodeKind::BaseI(BaseIOpcode::ORI) => (0x0000707f, 0x00006013),
        OpcodeKind::BaseI(BaseIOpcode::ANDI) => (0x0000707f, 0x00007013),
        OpcodeKind::BaseI(BaseIOpcode::SLLI) => (0xfc00707f, 0x00001013),
        OpcodeKind::BaseI(BaseIOpcode::SRLI) => (0xfc00707f, 0x00005013),
        OpcodeKind::BaseI(BaseIOpcode::SRAI) => (0xfc00707f, 0x40005013),
        OpcodeKind::BaseI(BaseIOpcode::ADD) => (0xfe00707f, 0x00000033),
        OpcodeKind::BaseI(BaseIOpcode::SUB) => (0xfe00707f, 0x40000033),
        OpcodeKind::BaseI(BaseIOpcode::SLL) => (0xfe00707f, 0x00001033),
        OpcodeKind::BaseI(BaseIOpcode::SLT) => (0xfe00707f, 0x00002033),
        OpcodeKind::BaseI(BaseIOpcode::SLTU) => (0xfe00707f, 0x00003033),
        OpcodeKind::BaseI(BaseIOpcode::XOR) => (0xfe00707f, 0x00004033),
        OpcodeKind::BaseI(BaseIOpcode::SRL) => (0xfe00707f, 0x00005033),
        OpcodeKind::BaseI(BaseIOpcode::SRA) => (0xfe00707f, 0x40005033),
        OpcodeKind::BaseI(BaseIOpcode::OR) => (0xfe00707f, 0x00006033),
        OpcodeKind::BaseI(BaseIOpcode::AND) => (0xfe00707f, 0x00007033),
        OpcodeKind::BaseI(BaseIOpcode::ECALL) => (0xffffffff, 0x00000073),
        OpcodeKind::BaseI(BaseIOpcode::EBREAK) => (0xffffffff, 0x00100073),
        OpcodeKind::BaseI(BaseIOpcode::ADDIW) => (0x0000707f, 0x0000001b),
        OpcodeKind::BaseI(BaseIOpcode::SLLIW) => (0xfe00707f, 0x0000101b),
        OpcodeKind::BaseI(BaseIOpcode::SRLIW) => (0xfe00707f, 0x0000501b),
        OpcodeKind::BaseI(BaseIOpcode::SRAIW) => (0xfe00707f, 0x4000501b),
        OpcodeKind::BaseI(BaseIOpcode::ADDW) => (0xfe00707f, 0x0000003b),
        OpcodeKind::BaseI(BaseIOpcode::SUBW) => (0xfe00707f, 0x4000003b),
        OpcodeKind::BaseI(BaseIOpcode::SLLW) => (0xfe00707f, 0x0000103b),
        OpcodeKind::BaseI(BaseIOpcode::SRLW) => (0xfe00707f, 0x0000503b),
        OpcodeKind::BaseI(BaseIOpcode::SRAW) => (0xfe00707f, 0x4000503b),
        OpcodeKind::M(MOpcode::MUL) => (0xfe00707f, 0x02000033),
        OpcodeKind::M(MOpcode::MULH) => (0xfe00707f, 0x02001033),
        OpcodeKind::M(MOpcode::MULHSU) => (0xfe00707f, 0x02002033),
        OpcodeKind::M(MOpcode::MULHU) => (0xfe00707f, 0x02003033),
        OpcodeKind::M(MOpcode::DIV) => (0xfe00707f, 0x02004033),
        OpcodeKind::M(MOpcode::DIVU) => (0xfe00707f, 0x02005033),
        OpcodeKind::M(MOpcode::REM) => (0xfe00707f, 0x02006033),
        OpcodeKind::M(MOpcode::REMU) => (0xfe00707f, 0x02007033),
        OpcodeKind::M(MOpcode::MULW) => (0xfe00707f, 0x0200003b),
        OpcodeKind::M(MOpcode::DIVW) => (0xfe00707f, 0x0200403b),
        OpcodeKind::M(MOpcode::DIVUW) => (0xfe00707f, 0x0200503b),
        OpcodeKind::M(MOpcode::REMW) => (0xfe00707f, 0x0200603b),
        OpcodeKind::M(MOpcode::REMUW) => (0xfe00707f, 0x0200703b),
        OpcodeKind::A(AOpcode::LR_W) => (0xf9f0707f, 0x1000202f),
        OpcodeKind::A(AOpcode::SC_W) => (0xf800707f, 0x1800202f),
        OpcodeKind::A(AOpcode::AMOSWAP_W) => (0xf800707f, 0x0800202f),
        OpcodeKind::A(AOpcode::AMOADD_W) => (0xf800707f, 0x0000202f),
        OpcodeKind::A(AOpcode::AMOXOR_W) => (0xf800707f, 0x2000202f),
        OpcodeKind::A(AOpcode::AMOAND_W) => (0xf800707f, 0x6000202f),
        OpcodeKind::A(AOpcode::AMOOR_W) => (0xf800707f, 0x4000202f),
        OpcodeKind::A(AOpcode::AMOMIN_W) => (0xf800707f, 0x8000202f),
        OpcodeKind::A(AOpcode::AMOMAX_W) => (0xf800707f, 0xa000202f),
        OpcodeKind::A(AOpcode::AMOMINU_W) => (0xf800707f, 0xc000202f),
        OpcodeKind::A(AOpcode::AMOMAXU_W) => (0xf800707f, 0xe000202f),
        OpcodeKind::A(AOpcode::LR_D) => (0xf9f0707f, 0x1000302f),
        OpcodeKind::A(AOpcode::SC_D) => (0xf800707f, 0x1800302f),
        OpcodeKind::A(AOpcode::AMOSWAP_D) => (0xf800707f, 0x0800302f),
        OpcodeKind::A(AOpcode::AMOADD_D) => (0xf800707f, 0x0000302f),
        OpcodeKind::A(AOpcode::AMOXOR_D) => (0xf800707f, 0x2000302f),
        OpcodeKind::A(AOpcode::AMOAND_D) => (0xf800707f, 0x6000302f),
        OpcodeKind::A(AOpcode::AMOOR_D) => (0xf800707f, 0x4000302f),
        OpcodeKind::A(AOpcode::AMOMIN_D) => (0xf800707f, 0x8000302f),
        OpcodeKind::A(AOpcode::AMOMAX_D) => (0xf800707f, 0xa000302f),
        OpcodeKind::A(AOpcode::AMOMINU_D) => (0xf800707f, 0xc000302f),
        OpcodeKind::A(AOpcode::AMOMAXU_D) => (0xf800707f, 0xe000302f),
        OpcodeKind::Zifencei(ZifenceiOpcode::FENCE) => (0x0000707f, 0x0000000f),
        OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO) => (0xfff07fff, 0x0040200f),
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE) => (0xfffff07f, 0xc0002073),
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME) => (0xfffff07f, 0xc0102073),
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET) => (0xfffff07f, 0xc0202073),
        OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H) => (0xfffff07f, 0xc8002073),
        OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H) => (0xfffff07f, 0xc8102073),
        OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H) => (0xfffff07f, 0xc8202073),
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRW) => (0x0000707f, 0x00001073),
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRS) => (0x0000707f, 0x00002073),
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRC) => (0x0000707f, 0x00003073),
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI) => (0x0000707f, 0x00005073),
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI) => (0x0000707f, 0x00006073),
        OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI) => (0x0000707f, 0x00007073),
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH) => (0xffbfffff, 0xce104073),
        OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK) => (0xfffdffff, 0xcdc0c073),
        OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP) => (0xfffff07f, 0xcdc04073),
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W) => (0xf800707f, 0x4800202f),
        OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D) => (0xf800707f, 0x4800302f),
        OpcodeKind::Priv(PrivOpcode::SRET) => (0xffffffff, 0x10200073),
        OpcodeKind::Priv(PrivOpcode::MRET) => (0xffffffff, 0x30200073),
        OpcodeKind::Priv(PrivOpcode::WFI) => (0xffffffff, 0x10500073),
        OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => (0xfe007fff, 0x12000073),
        _ => (0, 0),
    }
}

/// (mask, match) of an opcode: the bits that are fixed for both widths.
pub fn fixed16(op: &OpcodeKind) -> (u16, u16) {
    match op {
        OpcodeKind::C(COpcode::ADDI4SPN) => (0xe003, 0x0000),
        OpcodeKind::C(COpcode::LW) => (0xe003, 0x4000),
        OpcodeKind::C(COpcode::LD) => (0xe003, 0x6000),
        OpcodeKind::C(COpcode::SW) => (0xe003, 0xc000),
        OpcodeKind::C(COpcode::SD) => (0xe003, 0xe000),
        OpcodeKind::C(COpcode::NOP) => (0xef83, 0x0001),
        OpcodeKind::C(COpcode::ADDI) => (0xe003, 0x0001),
        OpcodeKind::C(COpcode::JAL) => (0xe003, 0x2001),
        OpcodeKind::C(COpcode::ADDIW) => (0xe003, 0x2001),
        OpcodeKind::C(COpcode::LI) => (0xe003, 0x4001),
        OpcodeKind::C(COpcode::ADDI16SP) => (0xef83, 0x6101),
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH) => (0xffff, 0x6081),
        OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK) => (0xffff, 0x6281),
        OpcodeKind::C(COpcode::LUI) => (0xe003, 0x6001),
        OpcodeKind::C(COpcode::SRLI) => (0xec03, 0x8001),
        OpcodeKind::C(COpcode::SRAI) => (0xec03, 0x8401),
        OpcodeKind::C(COpcode::ANDI) => (0xec03, 0x8801),
        OpcodeKind::C(COpcode::SUB) => (0xfc63, 0x8c01),
        OpcodeKind::C(COpcode::XOR) => (0xfc63, 0x8c21),
        OpcodeKind::C(COpcode::OR) => (0xfc63, 0x8c41),
        OpcodeKind::C(COpcode::AND) => (0xfc63, 0x8c61),
        OpcodeKind::C(COpcode::SUBW) => (0xfc63, 0x9c01),
        OpcodeKind::C(COpcode::ADDW) => (0xfc63, 0x9c21),
        OpcodeKind::C(COpcode::J) => (0xe003, 0xa001),
        OpcodeKind::C(COpcode::BEQZ) => (0xe003, 0xc001),
        OpcodeKind::C(COpcode::BNEZ) => (0xe003, 0xe001),
        OpcodeKind::C(COpcode::SLLI) => (0xe003, 0x0002),
        OpcodeKind::C(COpcode::LWSP) => (0xe003, 0x4002),
        OpcodeKind::C(COpcode::LDSP) => (0xe003, 0x6002),
        OpcodeKind::C(COpcode::JR) => (0xf07f, 0x8002),
        OpcodeKind::C(COpcode::MV) => (0xf003, 0x8002),
        OpcodeKind::C(COpcode::EBREAK) => (0xffff, 0x9002),
        OpcodeKind::C(COpcode::JALR) => (0xf07f, 0x9002),
        OpcodeKind::C(COpcode::ADD) => (0xf003, 0x9002),
        OpcodeKind::C(COpcode::SWSP) => (0xe003, 0xc002),
        OpcodeKind::C(COpcode::SDSP) => (0xe003, 0xe002),
        _ => (0, 0),
    }
}

/// Is bits 6..0 a major opcode of some supported instruction?
pub fn major_known(w: u32) -> bool {
    matches!(w & 0x7f, 0x03 | 0x0f | 0x13 | 0x17 | 0x1b | 0x23 | 0x2f | 0x33 | 0x37 | 0x3b | 0x63 | 0x67 | 0x6f | 0x73)
}

/// Does `w`, apart from the bits in `ign`, have the opcode and function bits of some supported instruction?
pub fn functions_known(w: u32, ign: u32) -> bool {
    ((w ^ 0x00000037) & 0x0000007f & !ign == 0)
        | ((w ^ 0x00000017) & 0x0000007f & !ign == 0)
        | ((w ^ 0x0000006f) & 0x0000007f & !ign == 0)
        | ((w ^ 0x00000067) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00000063) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00001063) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00004063) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00005063) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00006063) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00007063) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00000003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00001003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00002003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00003003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00004003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00005003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00006003) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00000023) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00001023) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00002023) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00003023) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00000013) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00002013) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00003013) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00004013) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00006013) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00007013) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00001013) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00001013) & 0xfc00707f & !ign == 0)
        | ((w ^ 0x00005013) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00005013) & 0xfc00707f & !ign == 0)
        | ((w ^ 0x40005013) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x40005013) & 0xfc00707f & !ign == 0)
        | ((w ^ 0x00000033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x40000033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00001033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00002033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00003033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00004033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00005033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x40005033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00006033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00007033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x00000073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x00100073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x0000001b) & 0x0000707f & !ign == 0)
        | ((w ^ 0x0000101b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0000501b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x4000501b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0000003b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x4000003b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0000103b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0000503b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x4000503b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02000033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02001033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02002033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02003033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02004033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02005033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02006033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x02007033) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0200003b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0200403b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0200503b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0200603b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x0200703b) & 0xfe00707f & !ign == 0)
        | ((w ^ 0x1000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x1800202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x0800202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x0000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x2000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x6000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x4000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x8000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0xa000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0xc000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0xe000202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x1000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x1800302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x0800302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x0000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x2000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x6000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x4000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x8000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0xa000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0xc000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0xe000302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x0000000f) & 0x0000707f & !ign == 0)
        | ((w ^ 0x0040200f) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xc0002073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xc0102073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xc0202073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xc8002073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xc8102073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xc8202073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x00001073) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00002073) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00003073) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00005073) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00006073) & 0x0000707f & !ign == 0)
        | ((w ^ 0x00007073) & 0x0000707f & !ign == 0)
        | ((w ^ 0xce104073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xcdc04073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0xce504073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x4800202f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x4800302f) & 0xf800707f & !ign == 0)
        | ((w ^ 0x10200073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x30200073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x10500073) & 0xfff0707f & !ign == 0)
        | ((w ^ 0x12000073) & 0xfe00707f & !ign == 0)
}

/// Opcodes of the same kind, format and length (and for CJr, the same opcode).
pub const N_GROUPS: usize = 48;

pub fn group_len(g: usize) -> u8 {
    match g {
        0 => 2,
        1 => 1,
        2 => 15,
        3 => 6,
        4 => 4,
        5 => 3,
        6 => 15,
        7 => 5,
        8 => 3,
        9 => 13,
        10 => 2,
        11 => 20,
        12 => 1,
        13 => 1,
        14 => 7,
        15 => 3,
        16 => 3,
        17 => 1,
        18 => 1,
        19 => 2,
        20 => 1,
        21 => 1,
        22 => 1,
        23 => 1,
        24 => 1,
        25 => 1,
        26 => 1,
        27 => 2,
        28 => 2,
        29 => 1,
        30 => 1,
        31 => 1,
        32 => 1,
        33 => 1,
        34 => 2,
        35 => 1,
        36 => 6,
        37 => 2,
        38 => 1,
        39 => 1,
        40 => 1,
        41 => 1,
        42 => 1,
        43 => 1,
        44 => 1,
        45 => 1,
        46 => 1,
        47 => 1,
        _ => 0,
    }
}

pub fn group_pick(g: usize, sel: u8) -> OpcodeKind {
    match g {
        0 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::LUI),
            _ => OpcodeKind::BaseI(BaseIOpcode::AUIPC),
        },
        1 => OpcodeKind::BaseI(BaseIOpcode::JAL),
        2 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::JALR),
            1 => OpcodeKind::BaseI(BaseIOpcode::LB),
            2 => OpcodeKind::BaseI(BaseIOpcode::LH),
            3 => OpcodeKind::BaseI(BaseIOpcode::LW),
            4 => OpcodeKind::BaseI(BaseIOpcode::LD),
            5 => OpcodeKind::BaseI(BaseIOpcode::LBU),
            6 => OpcodeKind::BaseI(BaseIOpcode::LHU),
            7 => OpcodeKind::BaseI(BaseIOpcode::LWU),
            8 => OpcodeKind::BaseI(BaseIOpcode::ADDI),
            9 => OpcodeKind::BaseI(BaseIOpcode::SLTI),
            10 => OpcodeKind::BaseI(BaseIOpcode::SLTIU),
            11 => OpcodeKind::BaseI(BaseIOpcode::XORI),
            12 => OpcodeKind::BaseI(BaseIOpcode::ORI),
            13 => OpcodeKind::BaseI(BaseIOpcode::ANDI),
            _ => OpcodeKind::BaseI(BaseIOpcode::ADDIW),
        },
        3 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::BEQ),
            1 => OpcodeKind::BaseI(BaseIOpcode::BNE),
            2 => OpcodeKind::BaseI(BaseIOpcode::BLT),
            3 => OpcodeKind::BaseI(BaseIOpcode::BGE),
            4 => OpcodeKind::BaseI(BaseIOpcode::BLTU),
            _ => OpcodeKind::BaseI(BaseIOpcode::BGEU),
        },
        4 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::SB),
            1 => OpcodeKind::BaseI(BaseIOpcode::SH),
            2 => OpcodeKind::BaseI(BaseIOpcode::SW),
            _ => OpcodeKind::BaseI(BaseIOpcode::SD),
        },
        5 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::SLLI),
            1 => OpcodeKind::BaseI(BaseIOpcode::SRLI),
            _ => OpcodeKind::BaseI(BaseIOpcode::SRAI),
        },
        6 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::ADD),
            1 => OpcodeKind::BaseI(BaseIOpcode::SUB),
            2 => OpcodeKind::BaseI(BaseIOpcode::SLL),
            3 => OpcodeKind::BaseI(BaseIOpcode::SLT),
            4 => OpcodeKind::BaseI(BaseIOpcode::SLTU),
            5 => OpcodeKind::BaseI(BaseIOpcode::XOR),
            6 => OpcodeKind::BaseI(BaseIOpcode::SRL),
            7 => OpcodeKind::BaseI(BaseIOpcode::SRA),
            8 => OpcodeKind::BaseI(BaseIOpcode::OR),
            9 => OpcodeKind::BaseI(BaseIOpcode::AND),
            10 => OpcodeKind::BaseI(BaseIOpcode::ADDW),
            11 => OpcodeKind::BaseI(BaseIOpcode::SUBW),
            12 => OpcodeKind::BaseI(BaseIOpcode::SLLW),
            13 => OpcodeKind::BaseI(BaseIOpcode::SRLW),
            _ => OpcodeKind::BaseI(BaseIOpcode::SRAW),
        },
        7 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::ECALL),
            1 => OpcodeKind::BaseI(BaseIOpcode::EBREAK),
            2 => OpcodeKind::Priv(PrivOpcode::SRET),
            3 => OpcodeKind::Priv(PrivOpcode::MRET),
            _ => OpcodeKind::Priv(PrivOpcode::WFI),
        },
        8 => match sel {
            0 => OpcodeKind::BaseI(BaseIOpcode::SLLIW),
            1 => OpcodeKind::BaseI(BaseIOpcode::SRLIW),
            _ => OpcodeKind::BaseI(BaseIOpcode::SRAIW),
        },
        9 => match sel {
            0 => OpcodeKind::M(MOpcode::MUL),
            1 => OpcodeKind::M(MOpcode::MULH),
            2 => OpcodeKind::M(MOpcode::MULHSU),
            3 => OpcodeKind::M(MOpcode::MULHU),
            4 => OpcodeKind::M(MOpcode::DIV),
            5 => OpcodeKind::M(MOpcode::DIVU),
            6 => OpcodeKind::M(MOpcode::REM),
            7 => OpcodeKind::M(MOpcode::REMU),
            8 => OpcodeKind::M(MOpcode::MULW),
            9 => OpcodeKind::M(MOpcode::DIVW),
            10 => OpcodeKind::M(MOpcode::DIVUW),
            11 => OpcodeKind::M(MOpcode::REMW),
            _ => OpcodeKind::M(MOpcode::REMUW),
        },
        10 => match sel {
            0 => OpcodeKind::A(AOpcode::LR_W),
            _ => OpcodeKind::A(AOpcode::LR_D),
        },
        11 => match sel {
            0 => OpcodeKind::A(AOpcode::SC_W),
            1 => OpcodeKind::A(AOpcode::AMOSWAP_W),
            2 => OpcodeKind::A(AOpcode::AMOADD_W),
            3 => OpcodeKind::A(AOpcode::AMOXOR_W),
            4 => OpcodeKind::A(AOpcode::AMOAND_W),
            5 => OpcodeKind::A(AOpcode::AMOOR_W),
            6 => OpcodeKind::A(AOpcode::AMOMIN_W),
            7 => OpcodeKind::A(AOpcode::AMOMAX_W),
            8 => OpcodeKind::A(AOpcode::AMOMINU_W),
            9 => OpcodeKind::A(AOpcode::AMOMAXU_W),
            10 => OpcodeKind::A(AOpcode::SC_D),
            11 => OpcodeKind::A(AOpcode::AMOSWAP_D),
            12 => OpcodeKind::A(AOpcode::AMOADD_D),
            13 => OpcodeKind::A(AOpcode::AMOXOR_D),
            14 => OpcodeKind::A(AOpcode::AMOAND_D),
            15 => OpcodeKind::A(AOpcode::AMOOR_D),
            16 => OpcodeKind::A(AOpcode::AMOMIN_D),
            17 => OpcodeKind::A(AOpcode::AMOMAX_D),
            18 => OpcodeKind::A(AOpcode::AMOMINU_D),
            _ => OpcodeKind::A(AOpcode::AMOMAXU_D),
        },
        12 => OpcodeKind::Zifencei(ZifenceiOpcode::FENCE),
        13 => OpcodeKind::Zicboz(ZicbozOpcode::CBO_ZERO),
        14 => match sel {
            0 => OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE),
            1 => OpcodeKind::Zicntr(ZicntrOpcode::RDTIME),
            2 => OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET),
            3 => OpcodeKind::Zicntr(ZicntrOpcode::RDCYCLE_H),
            4 => OpcodeKind::Zicntr(ZicntrOpcode::RDTIME_H),
            5 => OpcodeKind::Zicntr(ZicntrOpcode::RDINSTRET_H),
            _ => OpcodeKind::Zicfiss(ZicfissOpcode::SSRDP),
        },
        15 => match sel {
            0 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRW),
            1 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRS),
            _ => OpcodeKind::Zicsr(ZicsrOpcode::CSRRC),
        },
        16 => match sel {
            0 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRWI),
            1 => OpcodeKind::Zicsr(ZicsrOpcode::CSRRSI),
            _ => OpcodeKind::Zicsr(ZicsrOpcode::CSRRCI),
        },
        17 => OpcodeKind::Zicfiss(ZicfissOpcode::SSPUSH),
        18 => OpcodeKind::Zicfiss(ZicfissOpcode::SSPOPCHK),
        19 => match sel {
            0 => OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_W),
            _ => OpcodeKind::Zicfiss(ZicfissOpcode::SSAMOSWAP_D),
        },
        20 => OpcodeKind::Priv(PrivOpcode::SFENCE_VMA),
        21 => OpcodeKind::C(COpcode::ADDI4SPN),
        22 => OpcodeKind::C(COpcode::LW),
        23 => OpcodeKind::C(COpcode::LD),
        24 => OpcodeKind::C(COpcode::SW),
        25 => OpcodeKind::C(COpcode::SD),
        26 => OpcodeKind::C(COpcode::NOP),
        27 => match sel {
            0 => OpcodeKind::C(COpcode::ADDI),
            _ => OpcodeKind::C(COpcode::ADDIW),
        },
        28 => match sel {
            0 => OpcodeKind::C(COpcode::JAL),
            _ => OpcodeKind::C(COpcode::J),
        },
        29 => OpcodeKind::C(COpcode::LI),
        30 => OpcodeKind::C(COpcode::ADDI16SP),
        31 => OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH),
        32 => OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPOPCHK),
        33 => OpcodeKind::C(COpcode::LUI),
        34 => match sel {
            0 => OpcodeKind::C(COpcode::SRLI),
            _ => OpcodeKind::C(COpcode::SRAI),
        },
        35 => OpcodeKind::C(COpcode::ANDI),
        36 => match sel {
            0 => OpcodeKind::C(COpcode::SUB),
            1 => OpcodeKind::C(COpcode::XOR),
            2 => OpcodeKind::C(COpcode::OR),
            3 => OpcodeKind::C(COpcode::AND),
            4 => OpcodeKind::C(COpcode::SUBW),
            _ => OpcodeKind::C(COpcode::ADDW),
        },
        37 => match sel {
            0 => OpcodeKind::C(COpcode::BEQZ),
            _ => OpcodeKind::C(COpcode::BNEZ),
        },
        38 => OpcodeKind::C(COpcode::SLLI),
        39 => OpcodeKind::C(COpcode::LWSP),
        40 => OpcodeKind::C(COpcode::LDSP),
        41 => OpcodeKind::C(COpcode::JR),
        42 => OpcodeKind::C(COpcode::MV),
        43 => OpcodeKind::C(COpcode::EBREAK),
        44 => OpcodeKind::C(COpcode::JALR),
        45 => OpcodeKind::C(COpcode::ADD),
        46 => OpcodeKind::C(COpcode::SWSP),
        47 => OpcodeKind::C(COpcode::SDSP),
        _ => op_of(0),
    }
}

pub fn group_of(g: usize) -> (Kind, InstFormat, bool) {
    match g {
        0 => (Kind::U, InstFormat::UFormat, false),
        1 => (Kind::J, InstFormat::JFormat, false),
        2 => (Kind::I, InstFormat::IFormat, false),
        3 => (Kind::B, InstFormat::BFormat, false),
        4 => (Kind::S, InstFormat::SFormat, false),
        5 => (Kind::Sh, InstFormat::RShamtFormat, false),
        6 => (Kind::R, InstFormat::RFormat, false),
        7 => (Kind::N, InstFormat::NoOperand, false),
        8 => (Kind::ShW, InstFormat::RShamtFormat, false),
        9 => (Kind::R, InstFormat::MFormat, false),
        10 => (Kind::Lr, InstFormat::ALrFormat, false),
        11 => (Kind::Amo, InstFormat::AFormat, false),
        12 => (Kind::Fence, InstFormat::NoOperand, false),
        13 => (Kind::Cbo, InstFormat::OnlyRs1, false),
        14 => (Kind::Cnt, InstFormat::OnlyRd, false),
        15 => (Kind::Csr, InstFormat::CsrFormat, false),
        16 => (Kind::CsrI, InstFormat::CsrUiFormat, false),
        17 => (Kind::SsPush, InstFormat::OnlyRs2, false),
        18 => (Kind::SsPop, InstFormat::OnlyRs1, false),
        19 => (Kind::SsAmo, InstFormat::AFormat, false),
        20 => (Kind::Sfence, InstFormat::RFormat, false),
        21 => (Kind::CAddi4spn, InstFormat::CiwFormat, true),
        22 => (Kind::CLw, InstFormat::ClFormat, true),
        23 => (Kind::CLd, InstFormat::ClFormat, true),
        24 => (Kind::CSw, InstFormat::CsFormat, true),
        25 => (Kind::CSd, InstFormat::CsFormat, true),
        26 => (Kind::CNop, InstFormat::NoOperand, true),
        27 => (Kind::CAddi, InstFormat::CiFormat, true),
        28 => (Kind::CJ, InstFormat::CjFormat, true),
        29 => (Kind::CLi, InstFormat::CiFormat, true),
        30 => (Kind::CAddi16sp, InstFormat::CiFormat, true),
        31 => (Kind::CSsPush, InstFormat::OnlyRd, true),
        32 => (Kind::CSsPop, InstFormat::OnlyRd, true),
        33 => (Kind::CLui, InstFormat::CiFormat, true),
        34 => (Kind::CShift, InstFormat::CbFormat, true),
        35 => (Kind::CAndi, InstFormat::CbFormat, true),
        36 => (Kind::CA, InstFormat::CaFormat, true),
        37 => (Kind::CB, InstFormat::CbFormat, true),
        38 => (Kind::CSlli, InstFormat::CiFormat, true),
        39 => (Kind::CLwsp, InstFormat::CiFormat, true),
        40 => (Kind::CLdsp, InstFormat::CiFormat, true),
        41 => (Kind::CJr, InstFormat::CrFormat, true),
        42 => (Kind::CMv, InstFormat::CrFormat, true),
        43 => (Kind::CNone, InstFormat::NoOperand, true),
        44 => (Kind::CJr, InstFormat::CrFormat, true),
        45 => (Kind::CAdd, InstFormat::CrFormat, true),
        46 => (Kind::CSwsp, InstFormat::CssFormat, true),
        47 => (Kind::CSdsp, InstFormat::CssFormat, true),
        _ => (Kind::Unknown, InstFormat::NoOperand, false),
    }
}
