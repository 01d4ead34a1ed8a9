// Generated by gen_table.py; do not edit.
// Per extension: does a word encode an opcode / any opcode / an RV64-only opcode of it; kind and format of its opcodes.

pub fn enc_basei32(o: &BaseIOpcode, w: u32, rv64: bool) -> bool {
    match o {
        BaseIOpcode::LUI => ((w & 0x0000007f == 0x00000037)),
        BaseIOpcode::AUIPC => ((w & 0x0000007f == 0x00000017)),
        BaseIOpcode::JAL => ((w & 0x0000007f == 0x0000006f)),
        BaseIOpcode::JALR => ((w & 0x0000707f == 0x00000067)),
        BaseIOpcode::BEQ => ((w & 0x0000707f == 0x00000063)),
        BaseIOpcode::BNE => ((w & 0x0000707f == 0x00001063)),
        BaseIOpcode::BLT => ((w & 0x0000707f == 0x00004063)),
        BaseIOpcode::BGE => ((w & 0x0000707f == 0x00005063)),
        BaseIOpcode::BLTU => ((w & 0x0000707f == 0x00006063)),
        BaseIOpcode::BGEU => ((w & 0x0000707f == 0x00007063)),
        BaseIOpcode::LB => ((w & 0x0000707f == 0x00000003)),
        BaseIOpcode::LH => ((w & 0x0000707f == 0x00001003)),
        BaseIOpcode::LW => ((w & 0x0000707f == 0x00002003)),
        BaseIOpcode::LD => ((rv64 & (w & 0x0000707f == 0x00003003))),
        BaseIOpcode::LBU => ((w & 0x0000707f == 0x00004003)),
        BaseIOpcode::LHU => ((w & 0x0000707f == 0x00005003)),
        BaseIOpcode::LWU => ((rv64 & (w & 0x0000707f == 0x00006003))),
        BaseIOpcode::SB => ((w & 0x0000707f == 0x00000023)),
        BaseIOpcode::SH => ((w & 0x0000707f == 0x00001023)),
        BaseIOpcode::SW => ((w & 0x0000707f == 0x00002023)),
        BaseIOpcode::SD => ((rv64 & (w & 0x0000707f == 0x00003023))),
        BaseIOpcode::ADDI => ((w & 0x0000707f == 0x00000013)),
        BaseIOpcode::SLTI => ((w & 0x0000707f == 0x00002013)),
        BaseIOpcode::SLTIU => ((w & 0x0000707f == 0x00003013)),
        BaseIOpcode::XORI => ((w & 0x0000707f == 0x00004013)),
        BaseIOpcode::ORI => ((w & 0x0000707f == 0x00006013)),
        BaseIOpcode::ANDI => ((w & 0x0000707f == 0x00007013)),
        BaseIOpcode::SLLI => ((!rv64 & (w & 0xfe00707f == 0x00001013))) | ((rv64 & (w & 0xfc00707f == 0x00001013))),
        BaseIOpcode::SRLI => ((!rv64 & (w & 0xfe00707f == 0x00005013))) | ((rv64 & (w & 0xfc00707f == 0x00005013))),
        BaseIOpcode::SRAI => ((!rv64 & (w & 0xfe00707f == 0x40005013))) | ((rv64 & (w & 0xfc00707f == 0x40005013))),
        BaseIOpcode::ADD => ((w & 0xfe00707f == 0x00000033)),
        BaseIOpcode::SUB => ((w & 0xfe00707f == 0x40000033)),
        BaseIOpcode::SLL => ((w & 0xfe00707f == 0x00001033)),
        BaseIOpcode::SLT => ((w & 0xfe00707f == 0x00002033)),
        BaseIOpcode::SLTU => ((w & 0xfe00707f == 0x00003033)),
        BaseIOpcode::XOR => ((w & 0xfe00707f == 0x00004033)),
        BaseIOpcode::SRL => ((w & 0xfe00707f == 0x00005033)),
        BaseIOpcode::SRA => ((w & 0xfe00707f == 0x40005033)),
        BaseIOpcode::OR => ((w & 0xfe00707f == 0x00006033)),
        BaseIOpcode::AND => ((w & 0xfe00707f == 0x00007033)),
        BaseIOpcode::ECALL => ((w & 0xffffffff == 0x00000073)),
        BaseIOpcode::EBREAK => ((w & 0xffffffff == 0x00100073)),
        BaseIOpcode::ADDIW => ((rv64 & (w & 0x0000707f == 0x0000001b))),
        BaseIOpcode::SLLIW => ((rv64 & (w & 0xfe00707f == 0x0000101b))),
        BaseIOpcode::SRLIW => ((rv64 & (w & 0xfe00707f == 0x0000501b))),
        BaseIOpcode::SRAIW => ((rv64 & (w & 0xfe00707f == 0x4000501b))),
        BaseIOpcode::ADDW => ((rv64 & (w & 0xfe00707f == 0x0000003b))),
        BaseIOpcode::SUBW => ((rv64 & (w & 0xfe00707f == 0x4000003b))),
        BaseIOpcode::SLLW => ((rv64 & (w & 0xfe00707f == 0x0000103b))),
        BaseIOpcode::SRLW => ((rv64 & (w & 0xfe00707f == 0x0000503b))),
        BaseIOpcode::SRAW => ((rv64 & (w & 0xfe00707f == 0x4000503b))),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_basei32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0x0000007f == 0x00000037)
        | (w & 0x0000007f == 0x00000017)
        | (w & 0x0000007f == 0x0000006f)
        | (w & 0x0000707f == 0x00000067)
        | (w & 0x0000707f == 0x00000063)
        | (w & 0x0000707f == 0x00001063)
        | (w & 0x0000707f == 0x00004063)
        | (w & 0x0000707f == 0x00005063)
        | (w & 0x0000707f == 0x00006063)
        | (w & 0x0000707f == 0x00007063)
        | (w & 0x0000707f == 0x00000003)
        | (w & 0x0000707f == 0x00001003)
        | (w & 0x0000707f == 0x00002003)
        | (rv64 & (w & 0x0000707f == 0x00003003))
        | (w & 0x0000707f == 0x00004003)
        | (w & 0x0000707f == 0x00005003)
        | (rv64 & (w & 0x0000707f == 0x00006003))
        | (w & 0x0000707f == 0x00000023)
        | (w & 0x0000707f == 0x00001023)
        | (w & 0x0000707f == 0x00002023)
        | (rv64 & (w & 0x0000707f == 0x00003023))
        | (w & 0x0000707f == 0x00000013)
        | (w & 0x0000707f == 0x00002013)
        | (w & 0x0000707f == 0x00003013)
        | (w & 0x0000707f == 0x00004013)
        | (w & 0x0000707f == 0x00006013)
        | (w & 0x0000707f == 0x00007013)
        | (!rv64 & (w & 0xfe00707f == 0x00001013))
        | (rv64 & (w & 0xfc00707f == 0x00001013))
        | (!rv64 & (w & 0xfe00707f == 0x00005013))
        | (rv64 & (w & 0xfc00707f == 0x00005013))
        | (!rv64 & (w & 0xfe00707f == 0x40005013))
        | (rv64 & (w & 0xfc00707f == 0x40005013))
        | (w & 0xfe00707f == 0x00000033)
        | (w & 0xfe00707f == 0x40000033)
        | (w & 0xfe00707f == 0x00001033)
        | (w & 0xfe00707f == 0x00002033)
        | (w & 0xfe00707f == 0x00003033)
        | (w & 0xfe00707f == 0x00004033)
        | (w & 0xfe00707f == 0x00005033)
        | (w & 0xfe00707f == 0x40005033)
        | (w & 0xfe00707f == 0x00006033)
        | (w & 0xfe00707f == 0x00007033)
        | (w & 0xffffffff == 0x00000073)
        | (w & 0xffffffff == 0x00100073)
        | (rv64 & (w & 0x0000707f == 0x0000001b))
        | (rv64 & (w & 0xfe00707f == 0x0000101b))
        | (rv64 & (w & 0xfe00707f == 0x0000501b))
        | (rv64 & (w & 0xfe00707f == 0x4000501b))
        | (rv64 & (w & 0xfe00707f == 0x0000003b))
        | (rv64 & (w & 0xfe00707f == 0x4000003b))
        | (rv64 & (w & 0xfe00707f == 0x0000103b))
        | (rv64 & (w & 0xfe00707f == 0x0000503b))
        | (rv64 & (w & 0xfe00707f == 0x4000503b)))
}

pub fn only64_basei32(w: u32) -> bool {
    let _ = w;
    (w & 0x0000707f == 0x00003003)
        | (w & 0x0000707f == 0x00006003)
        | (w & 0x0000707f == 0x00003023)
        | (w & 0x0000707f == 0x0000001b)
        | (w & 0xfe00707f == 0x0000101b)
        | (w & 0xfe00707f == 0x0000501b)
        | (w & 0xfe00707f == 0x4000501b)
        | (w & 0xfe00707f == 0x0000003b)
        | (w & 0xfe00707f == 0x4000003b)
        | (w & 0xfe00707f == 0x0000103b)
        | (w & 0xfe00707f == 0x0000503b)
        | (w & 0xfe00707f == 0x4000503b)
}

pub fn enc_m32(o: &MOpcode, w: u32, rv64: bool) -> bool {
    match o {
        MOpcode::MUL => ((w & 0xfe00707f == 0x02000033)),
        MOpcode::MULH => ((w & 0xfe00707f == 0x02001033)),
        MOpcode::MULHSU => ((w & 0xfe00707f == 0x02002033)),
        MOpcode::MULHU => ((w & 0xfe00707f == 0x02003033)),
        MOpcode::DIV => ((w & 0xfe00707f == 0x02004033)),
        MOpcode::DIVU => ((w & 0xfe00707f == 0x02005033)),
        MOpcode::REM => ((w & 0xfe00707f == 0x02006033)),
        MOpcode::REMU => ((w & 0xfe00707f == 0x02007033)),
        MOpcode::MULW => ((rv64 & (w & 0xfe00707f == 0x0200003b))),
        MOpcode::DIVW => ((rv64 & (w & 0xfe00707f == 0x0200403b))),
        MOpcode::DIVUW => ((rv64 & (w & 0xfe00707f == 0x0200503b))),
        MOpcode::REMW => ((rv64 & (w & 0xfe00707f == 0x0200603b))),
        MOpcode::REMUW => ((rv64 & (w & 0xfe00707f == 0x0200703b))),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_m32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0xfe00707f == 0x02000033)
        | (w & 0xfe00707f == 0x02001033)
        | (w & 0xfe00707f == 0x02002033)
        | (w & 0xfe00707f == 0x02003033)
        | (w & 0xfe00707f == 0x02004033)
        | (w & 0xfe00707f == 0x02005033)
        | (w & 0xfe00707f == 0x02006033)
        | (w & 0xfe00707f == 0x02007033)
        | (rv64 & (w & 0xfe00707f == 0x0200003b))
        | (rv64 & (w & 0xfe00707f == 0x0200403b))
        | (rv64 & (w & 0xfe00707f == 0x0200503b))
        | (rv64 & (w & 0xfe00707f == 0x0200603b))
        | (rv64 & (w & 0xfe00707f == 0x0200703b)))
}

pub fn only64_m32(w: u32) -> bool {
    let _ = w;
    (w & 0xfe00707f == 0x0200003b)
        | (w & 0xfe00707f == 0x0200403b)
        | (w & 0xfe00707f == 0x0200503b)
        | (w & 0xfe00707f == 0x0200603b)
        | (w & 0xfe00707f == 0x0200703b)
}

pub fn enc_a32(o: &AOpcode, w: u32, rv64: bool) -> bool {
    match o {
        AOpcode::LR_W => ((w & 0xf9f0707f == 0x1000202f)),
        AOpcode::SC_W => ((w & 0xf800707f == 0x1800202f)),
        AOpcode::AMOSWAP_W => ((w & 0xf800707f == 0x0800202f)),
        AOpcode::AMOADD_W => ((w & 0xf800707f == 0x0000202f)),
        AOpcode::AMOXOR_W => ((w & 0xf800707f == 0x2000202f)),
        AOpcode::AMOAND_W => ((w & 0xf800707f == 0x6000202f)),
        AOpcode::AMOOR_W => ((w & 0xf800707f == 0x4000202f)),
        AOpcode::AMOMIN_W => ((w & 0xf800707f == 0x8000202f)),
        AOpcode::AMOMAX_W => ((w & 0xf800707f == 0xa000202f)),
        AOpcode::AMOMINU_W => ((w & 0xf800707f == 0xc000202f)),
        AOpcode::AMOMAXU_W => ((w & 0xf800707f == 0xe000202f)),
        AOpcode::LR_D => ((rv64 & (w & 0xf9f0707f == 0x1000302f))),
        AOpcode::SC_D => ((rv64 & (w & 0xf800707f == 0x1800302f))),
        AOpcode::AMOSWAP_D => ((rv64 & (w & 0xf800707f == 0x0800302f))),
        AOpcode::AMOADD_D => ((rv64 & (w & 0xf800707f == 0x0000302f))),
        AOpcode::AMOXOR_D => ((rv64 & (w & 0xf800707f == 0x2000302f))),
        AOpcode::AMOAND_D => ((rv64 & (w & 0xf800707f == 0x6000302f))),
        AOpcode::AMOOR_D => ((rv64 & (w & 0xf800707f == 0x4000302f))),
        AOpcode::AMOMIN_D => ((rv64 & (w & 0xf800707f == 0x8000302f))),
        AOpcode::AMOMAX_D => ((rv64 & (w & 0xf800707f == 0xa000302f))),
        AOpcode::AMOMINU_D => ((rv64 & (w & 0xf800707f == 0xc000302f))),
        AOpcode::AMOMAXU_D => ((rv64 & (w & 0xf800707f == 0xe000302f))),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_a32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0xf9f0707f == 0x1000202f)
        | (w & 0xf800707f == 0x1800202f)
        | (w & 0xf800707f == 0x0800202f)
        | (w & 0xf800707f == 0x0000202f)
        | (w & 0xf800707f == 0x2000202f)
        | (w & 0xf800707f == 0x6000202f)
        | (w & 0xf800707f == 0x4000202f)
        | (w & 0xf800707f == 0x8000202f)
        | (w & 0xf800707f == 0xa000202f)
        | (w & 0xf800707f == 0xc000202f)
        | (w & 0xf800707f == 0xe000202f)
        | (rv64 & (w & 0xf9f0707f == 0x1000302f))
        | (rv64 & (w & 0xf800707f == 0x1800302f))
        | (rv64 & (w & 0xf800707f == 0x0800302f))
        | (rv64 & (w & 0xf800707f == 0x0000302f))
        | (rv64 & (w & 0xf800707f == 0x2000302f))
        | (rv64 & (w & 0xf800707f == 0x6000302f))
        | (rv64 & (w & 0xf800707f == 0x4000302f))
        | (rv64 & (w & 0xf800707f == 0x8000302f))
        | (rv64 & (w & 0xf800707f == 0xa000302f))
        | (rv64 & (w & 0xf800707f == 0xc000302f))
        | (rv64 & (w & 0xf800707f == 0xe000302f)))
}

pub fn only64_a32(w: u32) -> bool {
    let _ = w;
    (w & 0xf9f0707f == 0x1000302f)
        | (w & 0xf800707f == 0x1800302f)
        | (w & 0xf800707f == 0x0800302f)
        | (w & 0xf800707f == 0x0000302f)
        | (w & 0xf800707f == 0x2000302f)
        | (w & 0xf800707f == 0x6000302f)
        | (w & 0xf800707f == 0x4000302f)
        | (w & 0xf800707f == 0x8000302f)
        | (w & 0xf800707f == 0xa000302f)
        | (w & 0xf800707f == 0xc000302f)
        | (w & 0xf800707f == 0xe000302f)
}

pub fn enc_zifencei32(o: &ZifenceiOpcode, w: u32, rv64: bool) -> bool {
    match o {
        ZifenceiOpcode::FENCE => ((w & 0x0000707f == 0x0000000f)),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_zifencei32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0x0000707f == 0x0000000f))
}

pub fn only64_zifencei32(w: u32) -> bool {
    let _ = w;
    false
}

pub fn enc_zicboz32(o: &ZicbozOpcode, w: u32, rv64: bool) -> bool {
    match o {
        ZicbozOpcode::CBO_ZERO => ((w & 0xfff07fff == 0x0040200f)),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_zicboz32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0xfff07fff == 0x0040200f))
}

pub fn only64_zicboz32(w: u32) -> bool {
    let _ = w;
    false
}

pub fn enc_zicntr32(o: &ZicntrOpcode, w: u32, rv64: bool) -> bool {
    match o {
        ZicntrOpcode::RDCYCLE => ((w & 0xfffff07f == 0xc0002073)),
        ZicntrOpcode::RDTIME => ((w & 0xfffff07f == 0xc0102073)),
        ZicntrOpcode::RDINSTRET => ((w & 0xfffff07f == 0xc0202073)),
        ZicntrOpcode::RDCYCLE_H => ((!rv64 & (w & 0xfffff07f == 0xc8002073))),
        ZicntrOpcode::RDTIME_H => ((!rv64 & (w & 0xfffff07f == 0xc8102073))),
        ZicntrOpcode::RDINSTRET_H => ((!rv64 & (w & 0xfffff07f == 0xc8202073))),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_zicntr32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0xfffff07f == 0xc0002073)
        | (w & 0xfffff07f == 0xc0102073)
        | (w & 0xfffff07f == 0xc0202073)
        | (!rv64 & (w & 0xfffff07f == 0xc8002073))
        | (!rv64 & (w & 0xfffff07f == 0xc8102073))
        | (!rv64 & (w & 0xfffff07f == 0xc8202073)))
}

pub fn only64_zicntr32(w: u32) -> bool {
    let _ = w;
    false
}

pub fn enc_zicsr32(o: &ZicsrOpcode, w: u32, rv64: bool) -> bool {
    match o {
        ZicsrOpcode::CSRRW => ((w & 0x0000707f == 0x00001073)),
        ZicsrOpcode::CSRRS => ((w & 0x0000707f == 0x00002073)),
        ZicsrOpcode::CSRRC => ((w & 0x0000707f == 0x00003073)),
        ZicsrOpcode::CSRRWI => ((w & 0x0000707f == 0x00005073)),
        ZicsrOpcode::CSRRSI => ((w & 0x0000707f == 0x00006073)),
        ZicsrOpcode::CSRRCI => ((w & 0x0000707f == 0x00007073)),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_zicsr32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0x0000707f == 0x00001073)
        | (w & 0x0000707f == 0x00002073)
        | (w & 0x0000707f == 0x00003073)
        | (w & 0x0000707f == 0x00005073)
        | (w & 0x0000707f == 0x00006073)
        | (w & 0x0000707f == 0x00007073))
}

pub fn only64_zicsr32(w: u32) -> bool {
    let _ = w;
    false
}

pub fn enc_zicfiss32(o: &ZicfissOpcode, w: u32, rv64: bool) -> bool {
    match o {
        ZicfissOpcode::SSPUSH => ((w & 0xffffffff == 0xce104073)) | ((w & 0xffffffff == 0xce504073)),
        ZicfissOpcode::SSPOPCHK => ((w & 0xffffffff == 0xcdc0c073)) | ((w & 0xffffffff == 0xcdc2c073)),
        ZicfissOpcode::SSRDP => ((w & 0xfffff07f == 0xcdc04073)),
        ZicfissOpcode::SSAMOSWAP_W => ((w & 0xf800707f == 0x4800202f)),
        ZicfissOpcode::SSAMOSWAP_D => ((rv64 & (w & 0xf800707f == 0x4800302f))),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_zicfiss32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0xffffffff == 0xce104073)
        | (w & 0xffffffff == 0xcdc0c073)
        | (w & 0xffffffff == 0xce504073)
        | (w & 0xffffffff == 0xcdc2c073)
        | (w & 0xfffff07f == 0xcdc04073)
        | (w & 0xf800707f == 0x4800202f)
        | (rv64 & (w & 0xf800707f == 0x4800302f)))
}

pub fn only64_zicfiss32(w: u32) -> bool {
    let _ = w;
    (w & 0xf800707f == 0x4800302f)
}

pub fn enc_priv32(o: &PrivOpcode, w: u32, rv64: bool) -> bool {
    match o {
        PrivOpcode::SRET => ((w & 0xffffffff == 0x10200073)),
        PrivOpcode::MRET => ((w & 0xffffffff == 0x30200073)),
        PrivOpcode::WFI => ((w & 0xffffffff == 0x10500073)),
        PrivOpcode::SFENCE_VMA => ((w & 0xfe007fff == 0x12000073)),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_priv32(w: u32, rv64: bool) -> bool {
    let _ = rv64;
    ((w & 0xffffffff == 0x10200073)
        | (w & 0xffffffff == 0x30200073)
        | (w & 0xffffffff == 0x10500073)
        | (w & 0xfe007fff == 0x12000073))
}

pub fn only64_priv32(w: u32) -> bool {
    let _ = w;
    false
}

pub fn enc32(op: &OpcodeKind, w: u32, rv64: bool) -> bool {
    match op {
        OpcodeKind::BaseI(o) => enc_basei32(o, w, rv64),
        OpcodeKind::M(o) => enc_m32(o, w, rv64),
        OpcodeKind::A(o) => enc_a32(o, w, rv64),
        OpcodeKind::Zifencei(o) => enc_zifencei32(o, w, rv64),
        OpcodeKind::Zicboz(o) => enc_zicboz32(o, w, rv64),
        OpcodeKind::Zicntr(o) => enc_zicntr32(o, w, rv64),
        OpcodeKind::Zicsr(o) => enc_zicsr32(o, w, rv64) & !any_zicntr32(w, rv64),
        OpcodeKind::Zicfiss(o) => enc_zicfiss32(o, w, rv64),
        OpcodeKind::Priv(o) => enc_priv32(o, w, rv64),
        _ => false,
    }
}

pub fn any32(w: u32, rv64: bool) -> bool {
    any_basei32(w, rv64) | any_m32(w, rv64) | any_a32(w, rv64) | any_zifencei32(w, rv64) | any_zicboz32(w, rv64) | any_zicntr32(w, rv64) | any_zicsr32(w, rv64) | any_zicfiss32(w, rv64) | any_priv32(w, rv64)
}

pub fn only64_32(w: u32) -> bool {
    only64_basei32(w) | only64_m32(w) | only64_a32(w) | only64_zifencei32(w) | only64_zicboz32(w) | only64_zicntr32(w) | only64_zicsr32(w) | only64_zicfiss32(w) | only64_priv32(w)
}

pub fn enc_c16(o: &COpcode, w: u16, rv64: bool) -> bool {
    if w == 0 {
        return false;
    }
    match o {
        COpcode::ADDI4SPN => ((w & 0xe003 == 0x0000)),
        COpcode::LW => ((w & 0xe003 == 0x4000)),
        COpcode::LD => ((rv64 & (w & 0xe003 == 0x6000))),
        COpcode::SW => ((w & 0xe003 == 0xc000)),
        COpcode::SD => ((rv64 & (w & 0xe003 == 0xe000))),
        COpcode::NOP => ((w & 0xef83 == 0x0001)),
        COpcode::ADDI => ((w & 0xe003 == 0x0001) & !(w & 0xef83 == 0x0001)),
        COpcode::JAL => ((!rv64 & (w & 0xe003 == 0x2001))),
        COpcode::ADDIW => ((rv64 & (w & 0xe003 == 0x2001))),
        COpcode::LI => ((w & 0xe003 == 0x4001)),
        COpcode::ADDI16SP => ((w & 0xef83 == 0x6101)),
        COpcode::LUI => ((w & 0xe003 == 0x6001) & !(w & 0xef83 == 0x6101)),
        COpcode::SRLI => ((!rv64 & (w & 0xfc03 == 0x8001))) | ((rv64 & (w & 0xec03 == 0x8001))),
        COpcode::SRAI => ((!rv64 & (w & 0xfc03 == 0x8401))) | ((rv64 & (w & 0xec03 == 0x8401))),
        COpcode::ANDI => ((w & 0xec03 == 0x8801)),
        COpcode::SUB => ((w & 0xfc63 == 0x8c01)),
        COpcode::XOR => ((w & 0xfc63 == 0x8c21)),
        COpcode::OR => ((w & 0xfc63 == 0x8c41)),
        COpcode::AND => ((w & 0xfc63 == 0x8c61)),
        COpcode::SUBW => ((rv64 & (w & 0xfc63 == 0x9c01))),
        COpcode::ADDW => ((rv64 & (w & 0xfc63 == 0x9c21))),
        COpcode::J => ((w & 0xe003 == 0xa001)),
        COpcode::BEQZ => ((w & 0xe003 == 0xc001)),
        COpcode::BNEZ => ((w & 0xe003 == 0xe001)),
        COpcode::SLLI => ((!rv64 & (w & 0xf003 == 0x0002))) | ((rv64 & (w & 0xe003 == 0x0002))),
        COpcode::LWSP => ((w & 0xe003 == 0x4002)),
        COpcode::LDSP => ((rv64 & (w & 0xe003 == 0x6002))),
        COpcode::JR => ((w & 0xf07f == 0x8002)),
        COpcode::MV => ((w & 0xf003 == 0x8002) & !(w & 0xf07f == 0x8002)),
        COpcode::EBREAK => ((w & 0xffff == 0x9002)),
        COpcode::JALR => ((w & 0xf07f == 0x9002) & !(w & 0xffff == 0x9002)),
        COpcode::ADD => ((w & 0xf003 == 0x9002) & !(w & 0xffff == 0x9002) & !(w & 0xf07f == 0x9002)),
        COpcode::SWSP => ((w & 0xe003 == 0xc002)),
        COpcode::SDSP => ((rv64 & (w & 0xe003 == 0xe002))),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_c16(w: u16, rv64: bool) -> bool {
    let _ = rv64;
    (w != 0) & ((w & 0xe003 == 0x0000)
        | (w & 0xe003 == 0x4000)
        | (rv64 & (w & 0xe003 == 0x6000))
        | (w & 0xe003 == 0xc000)
        | (rv64 & (w & 0xe003 == 0xe000))
        | (w & 0xef83 == 0x0001)
        | (w & 0xe003 == 0x0001)
        | (!rv64 & (w & 0xe003 == 0x2001))
        | (rv64 & (w & 0xe003 == 0x2001))
        | (w & 0xe003 == 0x4001)
        | (w & 0xef83 == 0x6101)
        | (w & 0xe003 == 0x6001)
        | (!rv64 & (w & 0xfc03 == 0x8001))
        | (rv64 & (w & 0xec03 == 0x8001))
        | (!rv64 & (w & 0xfc03 == 0x8401))
        | (rv64 & (w & 0xec03 == 0x8401))
        | (w & 0xec03 == 0x8801)
        | (w & 0xfc63 == 0x8c01)
        | (w & 0xfc63 == 0x8c21)
        | (w & 0xfc63 == 0x8c41)
        | (w & 0xfc63 == 0x8c61)
        | (rv64 & (w & 0xfc63 == 0x9c01))
        | (rv64 & (w & 0xfc63 == 0x9c21))
        | (w & 0xe003 == 0xa001)
        | (w & 0xe003 == 0xc001)
        | (w & 0xe003 == 0xe001)
        | (!rv64 & (w & 0xf003 == 0x0002))
        | (rv64 & (w & 0xe003 == 0x0002))
        | (w & 0xe003 == 0x4002)
        | (rv64 & (w & 0xe003 == 0x6002))
        | (w & 0xf07f == 0x8002)
        | (w & 0xf003 == 0x8002)
        | (w & 0xffff == 0x9002)
        | (w & 0xf07f == 0x9002)
        | (w & 0xf003 == 0x9002)
        | (w & 0xe003 == 0xc002)
        | (rv64 & (w & 0xe003 == 0xe002)))
}

pub fn only64_c16(w: u16) -> bool {
    let _ = w;
    (w & 0xe003 == 0x6000)
        | (w & 0xe003 == 0xe000)
        | (w & 0xfc63 == 0x9c01)
        | (w & 0xfc63 == 0x9c21)
        | (w & 0xe003 == 0x6002)
        | (w & 0xe003 == 0xe002)
}

pub fn enc_zicfiss16(o: &ZicfissOpcode, w: u16, rv64: bool) -> bool {
    if w == 0 {
        return false;
    }
    match o {
        ZicfissOpcode::C_SSPUSH => ((w & 0xffff == 0x6081)),
        ZicfissOpcode::C_SSPOPCHK => ((w & 0xffff == 0x6281)),
        #[allow(unreachable_patterns)]
        _ => false,
    }
}

pub fn any_zicfiss16(w: u16, rv64: bool) -> bool {
    let _ = rv64;
    (w != 0) & ((w & 0xffff == 0x6081)
        | (w & 0xffff == 0x6281))
}

pub fn only64_zicfiss16(w: u16) -> bool {
    let _ = w;
    false
}

pub fn enc16(op: &OpcodeKind, w: u16, rv64: bool) -> bool {
    match op {
        OpcodeKind::C(o) => enc_c16(o, w, rv64) & !any_zicfiss16(w, rv64),
        OpcodeKind::Zicfiss(o) => enc_zicfiss16(o, w, rv64),
        _ => false,
    }
}

pub fn any16(w: u16, rv64: bool) -> bool {
    any_c16(w, rv64) | any_zicfiss16(w, rv64)
}

pub fn only64_16(w: u16) -> bool {
    only64_c16(w) | only64_zicfiss16(w)
}

pub fn kind_basei(o: &BaseIOpcode) -> Kind {
    match o {
        BaseIOpcode::LUI | BaseIOpcode::AUIPC => Kind::U,
        BaseIOpcode::JAL => Kind::J,
        BaseIOpcode::JALR | BaseIOpcode::LB | BaseIOpcode::LH | BaseIOpcode::LW | BaseIOpcode::LD | BaseIOpcode::LBU | BaseIOpcode::LHU | BaseIOpcode::LWU | BaseIOpcode::ADDI | BaseIOpcode::SLTI | BaseIOpcode::SLTIU | BaseIOpcode::XORI | BaseIOpcode::ORI | BaseIOpcode::ANDI | BaseIOpcode::ADDIW => Kind::I,
        BaseIOpcode::BEQ | BaseIOpcode::BNE | BaseIOpcode::BLT | BaseIOpcode::BGE | BaseIOpcode::BLTU | BaseIOpcode::BGEU => Kind::B,
        BaseIOpcode::SB | BaseIOpcode::SH | BaseIOpcode::SW | BaseIOpcode::SD => Kind::S,
        BaseIOpcode::SLLI | BaseIOpcode::SRLI | BaseIOpcode::SRAI => Kind::Sh,
        BaseIOpcode::ADD | BaseIOpcode::SUB | BaseIOpcode::SLL | BaseIOpcode::SLT | BaseIOpcode::SLTU | BaseIOpcode::XOR | BaseIOpcode::SRL | BaseIOpcode::SRA | BaseIOpcode::OR | BaseIOpcode::AND | BaseIOpcode::ADDW | BaseIOpcode::SUBW | BaseIOpcode::SLLW | BaseIOpcode::SRLW | BaseIOpcode::SRAW => Kind::R,
        BaseIOpcode::ECALL | BaseIOpcode::EBREAK => Kind::N,
        BaseIOpcode::SLLIW | BaseIOpcode::SRLIW | BaseIOpcode::SRAIW => Kind::ShW,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_basei(o: &BaseIOpcode) -> InstFormat {
    match o {
        BaseIOpcode::LUI | BaseIOpcode::AUIPC => InstFormat::UFormat,
        BaseIOpcode::JAL => InstFormat::JFormat,
        BaseIOpcode::JALR | BaseIOpcode::LB | BaseIOpcode::LH | BaseIOpcode::LW | BaseIOpcode::LD | BaseIOpcode::LBU | BaseIOpcode::LHU | BaseIOpcode::LWU | BaseIOpcode::ADDI | BaseIOpcode::SLTI | BaseIOpcode::SLTIU | BaseIOpcode::XORI | BaseIOpcode::ORI | BaseIOpcode::ANDI | BaseIOpcode::ADDIW => InstFormat::IFormat,
        BaseIOpcode::BEQ | BaseIOpcode::BNE | BaseIOpcode::BLT | BaseIOpcode::BGE | BaseIOpcode::BLTU | BaseIOpcode::BGEU => InstFormat::BFormat,
        BaseIOpcode::SB | BaseIOpcode::SH | BaseIOpcode::SW | BaseIOpcode::SD => InstFormat::SFormat,
        BaseIOpcode::SLLI | BaseIOpcode::SRLI | BaseIOpcode::SRAI | BaseIOpcode::SLLIW | BaseIOpcode::SRLIW | BaseIOpcode::SRAIW => InstFormat::RShamtFormat,
        BaseIOpcode::ADD | BaseIOpcode::SUB | BaseIOpcode::SLL | BaseIOpcode::SLT | BaseIOpcode::SLTU | BaseIOpcode::XOR | BaseIOpcode::SRL | BaseIOpcode::SRA | BaseIOpcode::OR | BaseIOpcode::AND | BaseIOpcode::ADDW | BaseIOpcode::SUBW | BaseIOpcode::SLLW | BaseIOpcode::SRLW | BaseIOpcode::SRAW => InstFormat::RFormat,
        BaseIOpcode::ECALL | BaseIOpcode::EBREAK => InstFormat::NoOperand,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_basei(o: &BaseIOpcode) -> &'static str {
    match o {
        BaseIOpcode::LUI => "lui",
        BaseIOpcode::AUIPC => "auipc",
        BaseIOpcode::JAL => "jal",
        BaseIOpcode::JALR => "jalr",
        BaseIOpcode::BEQ => "beq",
        BaseIOpcode::BNE => "bne",
        BaseIOpcode::BLT => "blt",
        BaseIOpcode::BGE => "bge",
        BaseIOpcode::BLTU => "bltu",
        BaseIOpcode::BGEU => "bgeu",
        BaseIOpcode::LB => "lb",
        BaseIOpcode::LH => "lh",
        BaseIOpcode::LW => "lw",
        BaseIOpcode::LD => "ld",
        BaseIOpcode::LBU => "lbu",
        BaseIOpcode::LHU => "lhu",
        BaseIOpcode::LWU => "lwu",
        BaseIOpcode::SB => "sb",
        BaseIOpcode::SH => "sh",
        BaseIOpcode::SW => "sw",
        BaseIOpcode::SD => "sd",
        BaseIOpcode::ADDI => "addi",
        BaseIOpcode::SLTI => "slti",
        BaseIOpcode::SLTIU => "sltiu",
        BaseIOpcode::XORI => "xori",
        BaseIOpcode::ORI => "ori",
        BaseIOpcode::ANDI => "andi",
        BaseIOpcode::SLLI => "slli",
        BaseIOpcode::SRLI => "srli",
        BaseIOpcode::SRAI => "srai",
        BaseIOpcode::ADD => "add",
        BaseIOpcode::SUB => "sub",
        BaseIOpcode::SLL => "sll",
        BaseIOpcode::SLT => "slt",
        BaseIOpcode::SLTU => "sltu",
        BaseIOpcode::XOR => "xor",
        BaseIOpcode::SRL => "srl",
        BaseIOpcode::SRA => "sra",
        BaseIOpcode::OR => "or",
        BaseIOpcode::AND => "and",
        BaseIOpcode::ECALL => "ecall",
        BaseIOpcode::EBREAK => "ebreak",
        BaseIOpcode::ADDIW => "addiw",
        BaseIOpcode::SLLIW => "slliw",
        BaseIOpcode::SRLIW => "srliw",
        BaseIOpcode::SRAIW => "sraiw",
        BaseIOpcode::ADDW => "addw",
        BaseIOpcode::SUBW => "subw",
        BaseIOpcode::SLLW => "sllw",
        BaseIOpcode::SRLW => "srlw",
        BaseIOpcode::SRAW => "sraw",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_m(o: &MOpcode) -> Kind {
    match o {
        MOpcode::MUL | MOpcode::MULH | MOpcode::MULHSU | MOpcode::MULHU | MOpcode::DIV | MOpcode::DIVU | MOpcode::REM | MOpcode::REMU | MOpcode::MULW | MOpcode::DIVW | MOpcode::DIVUW | MOpcode::REMW | MOpcode::REMUW => Kind::R,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_m(o: &MOpcode) -> InstFormat {
    match o {
        MOpcode::MUL | MOpcode::MULH | MOpcode::MULHSU | MOpcode::MULHU | MOpcode::DIV | MOpcode::DIVU | MOpcode::REM | MOpcode::REMU | MOpcode::MULW | MOpcode::DIVW | MOpcode::DIVUW | MOpcode::REMW | MOpcode::REMUW => InstFormat::MFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_m(o: &MOpcode) -> &'static str {
    match o {
        MOpcode::MUL => "mul",
        MOpcode::MULH => "mulh",
        MOpcode::MULHSU => "mulhsu",
        MOpcode::MULHU => "mulhu",
        MOpcode::DIV => "div",
        MOpcode::DIVU => "divu",
        MOpcode::REM => "rem",
        MOpcode::REMU => "remu",
        MOpcode::MULW => "mulw",
        MOpcode::DIVW => "divw",
        MOpcode::DIVUW => "divuw",
        MOpcode::REMW => "remw",
        MOpcode::REMUW => "remuw",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_a(o: &AOpcode) -> Kind {
    match o {
        AOpcode::LR_W | AOpcode::LR_D => Kind::Lr,
        AOpcode::SC_W | AOpcode::AMOSWAP_W | AOpcode::AMOADD_W | AOpcode::AMOXOR_W | AOpcode::AMOAND_W | AOpcode::AMOOR_W | AOpcode::AMOMIN_W | AOpcode::AMOMAX_W | AOpcode::AMOMINU_W | AOpcode::AMOMAXU_W | AOpcode::SC_D | AOpcode::AMOSWAP_D | AOpcode::AMOADD_D | AOpcode::AMOXOR_D | AOpcode::AMOAND_D | AOpcode::AMOOR_D | AOpcode::AMOMIN_D | AOpcode::AMOMAX_D | AOpcode::AMOMINU_D | AOpcode::AMOMAXU_D => Kind::Amo,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_a(o: &AOpcode) -> InstFormat {
    match o {
        AOpcode::LR_W | AOpcode::LR_D => InstFormat::ALrFormat,
        AOpcode::SC_W | AOpcode::AMOSWAP_W | AOpcode::AMOADD_W | AOpcode::AMOXOR_W | AOpcode::AMOAND_W | AOpcode::AMOOR_W | AOpcode::AMOMIN_W | AOpcode::AMOMAX_W | AOpcode::AMOMINU_W | AOpcode::AMOMAXU_W | AOpcode::SC_D | AOpcode::AMOSWAP_D | AOpcode::AMOADD_D | AOpcode::AMOXOR_D | AOpcode::AMOAND_D | AOpcode::AMOOR_D | AOpcode::AMOMIN_D | AOpcode::AMOMAX_D | AOpcode::AMOMINU_D | AOpcode::AMOMAXU_D => InstFormat::AFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_a(o: &AOpcode) -> &'static str {
    match o {
        AOpcode::LR_W => "lr.w",
        AOpcode::SC_W => "sc.w",
        AOpcode::AMOSWAP_W => "amoswap.w",
        AOpcode::AMOADD_W => "amoadd.w",
        AOpcode::AMOXOR_W => "amoxor.w",
        AOpcode::AMOAND_W => "amoand.w",
        AOpcode::AMOOR_W => "amoor.w",
        AOpcode::AMOMIN_W => "amomin.w",
        AOpcode::AMOMAX_W => "amomax.w",
        AOpcode::AMOMINU_W => "amominu.w",
        AOpcode::AMOMAXU_W => "amomaxu.w",
        AOpcode::LR_D => "lr.d",
        AOpcode::SC_D => "sc.d",
        AOpcode::AMOSWAP_D => "amoswap.d",
        AOpcode::AMOADD_D => "amoadd.d",
        AOpcode::AMOXOR_D => "amoxor.d",
        AOpcode::AMOAND_D => "amoand.d",
        AOpcode::AMOOR_D => "amoor.d",
        AOpcode::AMOMIN_D => "amomin.d",
        AOpcode::AMOMAX_D => "amomax.d",
        AOpcode::AMOMINU_D => "amominu.d",
        AOpcode::AMOMAXU_D => "amomaxu.d",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_c(o: &COpcode) -> Kind {
    match o {
        COpcode::ADDI4SPN => Kind::CAddi4spn,
        COpcode::LW => Kind::CLw,
        COpcode::LD => Kind::CLd,
        COpcode::SW => Kind::CSw,
        COpcode::SD => Kind::CSd,
        COpcode::NOP => Kind::CNop,
        COpcode::ADDI | COpcode::ADDIW => Kind::CAddi,
        COpcode::JAL | COpcode::J => Kind::CJ,
        COpcode::LI => Kind::CLi,
        COpcode::ADDI16SP => Kind::CAddi16sp,
        COpcode::LUI => Kind::CLui,
        COpcode::SRLI | COpcode::SRAI => Kind::CShift,
        COpcode::ANDI => Kind::CAndi,
        COpcode::SUB | COpcode::XOR | COpcode::OR | COpcode::AND | COpcode::SUBW | COpcode::ADDW => Kind::CA,
        COpcode::BEQZ | COpcode::BNEZ => Kind::CB,
        COpcode::SLLI => Kind::CSlli,
        COpcode::LWSP => Kind::CLwsp,
        COpcode::LDSP => Kind::CLdsp,
        COpcode::JR | COpcode::JALR => Kind::CJr,
        COpcode::MV => Kind::CMv,
        COpcode::EBREAK => Kind::CNone,
        COpcode::ADD => Kind::CAdd,
        COpcode::SWSP => Kind::CSwsp,
        COpcode::SDSP => Kind::CSdsp,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_c(o: &COpcode) -> InstFormat {
    match o {
        COpcode::ADDI4SPN => InstFormat::CiwFormat,
        COpcode::LW | COpcode::LD => InstFormat::ClFormat,
        COpcode::SW | COpcode::SD => InstFormat::CsFormat,
        COpcode::NOP | COpcode::EBREAK => InstFormat::NoOperand,
        COpcode::ADDI | COpcode::ADDIW | COpcode::LI | COpcode::ADDI16SP | COpcode::LUI | COpcode::SLLI | COpcode::LWSP | COpcode::LDSP => InstFormat::CiFormat,
        COpcode::JAL | COpcode::J => InstFormat::CjFormat,
        COpcode::SRLI | COpcode::SRAI | COpcode::ANDI | COpcode::BEQZ | COpcode::BNEZ => InstFormat::CbFormat,
        COpcode::SUB | COpcode::XOR | COpcode::OR | COpcode::AND | COpcode::SUBW | COpcode::ADDW => InstFormat::CaFormat,
        COpcode::JR | COpcode::MV | COpcode::JALR | COpcode::ADD => InstFormat::CrFormat,
        COpcode::SWSP | COpcode::SDSP => InstFormat::CssFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_c(o: &COpcode) -> &'static str {
    match o {
        COpcode::ADDI4SPN => "C.addi4spn",
        COpcode::LW => "C.lw",
        COpcode::LD => "C.ld",
        COpcode::SW => "C.sw",
        COpcode::SD => "C.sd",
        COpcode::NOP => "C.nop",
        COpcode::ADDI => "C.addi",
        COpcode::JAL => "C.jal",
        COpcode::ADDIW => "C.addiw",
        COpcode::LI => "C.li",
        COpcode::ADDI16SP => "C.addi16sp",
        COpcode::LUI => "C.lui",
        COpcode::SRLI => "C.srli",
        COpcode::SRAI => "C.srai",
        COpcode::ANDI => "C.andi",
        COpcode::SUB => "C.sub",
        COpcode::XOR => "C.xor",
        COpcode::OR => "C.or",
        COpcode::AND => "C.and",
        COpcode::SUBW => "C.subw",
        COpcode::ADDW => "C.addw",
        COpcode::J => "C.j",
        COpcode::BEQZ => "C.beqz",
        COpcode::BNEZ => "C.bnez",
        COpcode::SLLI => "C.slli",
        COpcode::LWSP => "C.lwsp",
        COpcode::LDSP => "C.ldsp",
        COpcode::JR => "C.jr",
        COpcode::MV => "C.mv",
        COpcode::EBREAK => "C.ebreak",
        COpcode::JALR => "C.jalr",
        COpcode::ADD => "C.add",
        COpcode::SWSP => "C.swsp",
        COpcode::SDSP => "C.sdsp",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_zifencei(o: &ZifenceiOpcode) -> Kind {
    match o {
        ZifenceiOpcode::FENCE => Kind::Fence,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_zifencei(o: &ZifenceiOpcode) -> InstFormat {
    match o {
        ZifenceiOpcode::FENCE => InstFormat::NoOperand,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_zifencei(o: &ZifenceiOpcode) -> &'static str {
    match o {
        ZifenceiOpcode::FENCE => "fence",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_zicboz(o: &ZicbozOpcode) -> Kind {
    match o {
        ZicbozOpcode::CBO_ZERO => Kind::Cbo,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_zicboz(o: &ZicbozOpcode) -> InstFormat {
    match o {
        ZicbozOpcode::CBO_ZERO => InstFormat::OnlyRs1,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_zicboz(o: &ZicbozOpcode) -> &'static str {
    match o {
        ZicbozOpcode::CBO_ZERO => "cbo.zero",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_zicsr(o: &ZicsrOpcode) -> Kind {
    match o {
        ZicsrOpcode::CSRRW | ZicsrOpcode::CSRRS | ZicsrOpcode::CSRRC => Kind::Csr,
        ZicsrOpcode::CSRRWI | ZicsrOpcode::CSRRSI | ZicsrOpcode::CSRRCI => Kind::CsrI,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_zicsr(o: &ZicsrOpcode) -> InstFormat {
    match o {
        ZicsrOpcode::CSRRW | ZicsrOpcode::CSRRS | ZicsrOpcode::CSRRC => InstFormat::CsrFormat,
        ZicsrOpcode::CSRRWI | ZicsrOpcode::CSRRSI | ZicsrOpcode::CSRRCI => InstFormat::CsrUiFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_zicsr(o: &ZicsrOpcode) -> &'static str {
    match o {
        ZicsrOpcode::CSRRW => "csrrw",
        ZicsrOpcode::CSRRS => "csrrs",
        ZicsrOpcode::CSRRC => "csrrc",
        ZicsrOpcode::CSRRWI => "csrrwi",
        ZicsrOpcode::CSRRSI => "csrrsi",
        ZicsrOpcode::CSRRCI => "csrrci",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_zicfiss(o: &ZicfissOpcode) -> Kind {
    match o {
        ZicfissOpcode::SSPUSH => Kind::SsPush,
        ZicfissOpcode::SSPOPCHK => Kind::SsPop,
        ZicfissOpcode::SSRDP => Kind::Cnt,
        ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => Kind::SsAmo,
        ZicfissOpcode::C_SSPUSH => Kind::CSsPush,
        ZicfissOpcode::C_SSPOPCHK => Kind::CSsPop,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_zicfiss(o: &ZicfissOpcode) -> InstFormat {
    match o {
        ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
        ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
        ZicfissOpcode::SSRDP | ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::OnlyRd,
        ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_zicfiss(o: &ZicfissOpcode) -> &'static str {
    match o {
        ZicfissOpcode::SSPUSH => "sspush",
        ZicfissOpcode::SSPOPCHK => "sspopchk",
        ZicfissOpcode::SSRDP => "ssrdp",
        ZicfissOpcode::SSAMOSWAP_W => "ssamoswap.w",
        ZicfissOpcode::SSAMOSWAP_D => "ssamoswap.d",
        ZicfissOpcode::C_SSPUSH => "c.sspush",
        ZicfissOpcode::C_SSPOPCHK => "c.sspopchk",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_zicntr(o: &ZicntrOpcode) -> Kind {
    match o {
        ZicntrOpcode::RDCYCLE | ZicntrOpcode::RDTIME | ZicntrOpcode::RDINSTRET | ZicntrOpcode::RDCYCLE_H | ZicntrOpcode::RDTIME_H | ZicntrOpcode::RDINSTRET_H => Kind::Cnt,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_zicntr(o: &ZicntrOpcode) -> InstFormat {
    match o {
        ZicntrOpcode::RDCYCLE | ZicntrOpcode::RDTIME | ZicntrOpcode::RDINSTRET | ZicntrOpcode::RDCYCLE_H | ZicntrOpcode::RDTIME_H | ZicntrOpcode::RDINSTRET_H => InstFormat::OnlyRd,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_zicntr(o: &ZicntrOpcode) -> &'static str {
    match o {
        ZicntrOpcode::RDCYCLE => "rdcycle",
        ZicntrOpcode::RDTIME => "rdtime",
        ZicntrOpcode::RDINSTRET => "rdinstret",
        ZicntrOpcode::RDCYCLE_H => "rdcycleh",
        ZicntrOpcode::RDTIME_H => "rdtimeh",
        ZicntrOpcode::RDINSTRET_H => "rdinstreth",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

pub fn kind_priv(o: &PrivOpcode) -> Kind {
    match o {
        PrivOpcode::SRET | PrivOpcode::MRET | PrivOpcode::WFI => Kind::N,
        PrivOpcode::SFENCE_VMA => Kind::Sfence,
        #[allow(unreachable_patterns)]
        _ => Kind::Unknown,
    }
}

pub fn format_priv(o: &PrivOpcode) -> InstFormat {
    match o {
        PrivOpcode::SRET | PrivOpcode::MRET | PrivOpcode::WFI => InstFormat::NoOperand,
        PrivOpcode::SFENCE_VMA => InstFormat::RFormat,
        #[allow(unreachable_patterns)]
        _ => InstFormat::NoOperand,
    }
}

pub fn name_priv(o: &PrivOpcode) -> &'static str {
    match o {
        PrivOpcode::SRET => "sret",
        PrivOpcode::MRET => "mret",
        PrivOpcode::WFI => "wfi",
        PrivOpcode::SFENCE_VMA => "sfence.vma",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}

