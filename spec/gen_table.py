#!/usr/bin/env python3
"""Generates table.rs, the encoding table of the specification.

Source of the numbers: The RISC-V Instruction Set Manual, Volume I (RV32/64G listings, RVC
listings, Zicntr, Zicfiss, Zicboz chapters) and Volume II (privileged instructions).  Nothing here
is derived from raki's decoder; `validate_llvm.py` cross-checks it against LLVM.

A row is (group, opcode, avail, mask, match, kind, format, mnemonic).
Rows are matched in order; only the rows marked in OVERLAP may overlap an earlier one.
"""
import os

ROWS32, ROWS16 = [], []

def r32(group, op, avail, kind, fmt, mnem, **f):
    """fields: opc f3 f7 f6 f5 rd rs1 rs2 imm12"""
    mask = val = 0
    pos = dict(opc=(0, 7), rd=(7, 5), f3=(12, 3), rs1=(15, 5), rs2=(20, 5), f7=(25, 7), f6=(26, 6),
               f5=(27, 5), imm12=(20, 12))
    for k, v in f.items():
        sh, w = pos[k]
        mask |= ((1 << w) - 1) << sh
        assert v < (1 << w)
        val |= v << sh
    ROWS32.append((group, op, avail, mask, val, kind, fmt, mnem))

ANY, RV32, RV64 = "Any", "Rv32Only", "Rv64Only"

# ---- RV32I / RV64I
r32("BaseI", "LUI", ANY, "U", "UFormat", "lui", opc=0x37)
r32("BaseI", "AUIPC", ANY, "U", "UFormat", "auipc", opc=0x17)
r32("BaseI", "JAL", ANY, "J", "JFormat", "jal", opc=0x6f)
r32("BaseI", "JALR", ANY, "I", "IFormat", "jalr", opc=0x67, f3=0)
for i, o in ((0, "BEQ"), (1, "BNE"), (4, "BLT"), (5, "BGE"), (6, "BLTU"), (7, "BGEU")):
    r32("BaseI", o, ANY, "B", "BFormat", o.lower(), opc=0x63, f3=i)
for i, o, a in ((0, "LB", ANY), (1, "LH", ANY), (2, "LW", ANY), (3, "LD", RV64), (4, "LBU", ANY), (5, "LHU", ANY), (6, "LWU", RV64)):
    r32("BaseI", o, a, "I", "IFormat", o.lower(), opc=0x03, f3=i)
for i, o, a in ((0, "SB", ANY), (1, "SH", ANY), (2, "SW", ANY), (3, "SD", RV64)):
    r32("BaseI", o, a, "S", "SFormat", o.lower(), opc=0x23, f3=i)
for i, o in ((0, "ADDI"), (2, "SLTI"), (3, "SLTIU"), (4, "XORI"), (6, "ORI"), (7, "ANDI")):
    r32("BaseI", o, ANY, "I", "IFormat", o.lower(), opc=0x13, f3=i)
# shift immediates: funct7 on RV32, funct6 on RV64 (two rows, one per width)
for i, o, h in ((1, "SLLI", 0), (5, "SRLI", 0), (5, "SRAI", 0x20)):
    r32("BaseI", o, "AnyAs32", "Sh", "RShamtFormat", o.lower(), opc=0x13, f3=i, f7=h)
    r32("BaseI", o, "AnyAs64", "Sh", "RShamtFormat", o.lower(), opc=0x13, f3=i, f6=h >> 1)
for i, o, h in ((0, "ADD", 0), (0, "SUB", 0x20), (1, "SLL", 0), (2, "SLT", 0), (3, "SLTU", 0), (4, "XOR", 0),
                (5, "SRL", 0), (5, "SRA", 0x20), (6, "OR", 0), (7, "AND", 0)):
    r32("BaseI", o, ANY, "R", "RFormat", o.lower(), opc=0x33, f3=i, f7=h)
r32("BaseI", "ECALL", ANY, "N", "NoOperand", "ecall", opc=0x73, rd=0, f3=0, rs1=0, imm12=0)
r32("BaseI", "EBREAK", ANY, "N", "NoOperand", "ebreak", opc=0x73, rd=0, f3=0, rs1=0, imm12=1)
r32("BaseI", "ADDIW", RV64, "I", "IFormat", "addiw", opc=0x1b, f3=0)
for i, o, h in ((1, "SLLIW", 0), (5, "SRLIW", 0), (5, "SRAIW", 0x20)):
    r32("BaseI", o, RV64, "ShW", "RShamtFormat", o.lower(), opc=0x1b, f3=i, f7=h)
for i, o, h in ((0, "ADDW", 0), (0, "SUBW", 0x20), (1, "SLLW", 0), (5, "SRLW", 0), (5, "SRAW", 0x20)):
    r32("BaseI", o, RV64, "R", "RFormat", o.lower(), opc=0x3b, f3=i, f7=h)
# ---- M
for i, o in enumerate(("MUL", "MULH", "MULHSU", "MULHU", "DIV", "DIVU", "REM", "REMU")):
    r32("M", o, ANY, "R", "MFormat", o.lower(), opc=0x33, f3=i, f7=1)
for i, o in ((0, "MULW"), (4, "DIVW"), (5, "DIVUW"), (6, "REMW"), (7, "REMUW")):
    r32("M", o, RV64, "R", "MFormat", o.lower(), opc=0x3b, f3=i, f7=1)
# ---- A
for sfx, i, a in (("W", 2, ANY), ("D", 3, RV64)):
    r32("A", "LR_" + sfx, a, "Lr", "ALrFormat", "lr." + sfx.lower(), opc=0x2f, f3=i, f5=2, rs2=0)
    for o, c in (("SC", 3), ("AMOSWAP", 1), ("AMOADD", 0), ("AMOXOR", 4), ("AMOAND", 12), ("AMOOR", 8),
                 ("AMOMIN", 16), ("AMOMAX", 20), ("AMOMINU", 24), ("AMOMAXU", 28)):
        r32("A", f"{o}_{sfx}", a, "Amo", "AFormat", f"{o.lower()}.{sfx.lower()}", opc=0x2f, f3=i, f5=c)
# ---- fences
r32("Zifencei", "FENCE", ANY, "Fence", "NoOperand", "fence", opc=0x0f, f3=0)
# ---- Zicboz
r32("Zicboz", "CBO_ZERO", ANY, "Cbo", "OnlyRs1", "cbo.zero", opc=0x0f, f3=2, rd=0, imm12=4)
# ---- Zicntr (pseudo-instructions carved out of csrrs: before it)
for o, c, a in (("RDCYCLE", 0xc00, ANY), ("RDTIME", 0xc01, ANY), ("RDINSTRET", 0xc02, ANY),
                ("RDCYCLE_H", 0xc80, RV32), ("RDTIME_H", 0xc81, RV32), ("RDINSTRET_H", 0xc82, RV32)):
    r32("Zicntr", o, a, "Cnt", "OnlyRd", o.lower().replace("_", ""), opc=0x73, f3=2, rs1=0, imm12=c)
# ---- Zicsr
for i, o in ((1, "CSRRW"), (2, "CSRRS"), (3, "CSRRC")):
    r32("Zicsr", o, ANY, "Csr", "CsrFormat", o.lower(), opc=0x73, f3=i)
for i, o in ((5, "CSRRWI"), (6, "CSRRSI"), (7, "CSRRCI")):
    r32("Zicsr", o, ANY, "CsrI", "CsrUiFormat", o.lower(), opc=0x73, f3=i)
# ---- Zicfiss (MOP.RR.7 / MOP.R.28 code points)
for r in (1, 5):
    r32("Zicfiss", "SSPUSH", ANY, "SsPush", "OnlyRs2", "sspush", opc=0x73, rd=0, f3=4, rs1=0, imm12=0xce0 | r)
    r32("Zicfiss", "SSPOPCHK", ANY, "SsPop", "OnlyRs1", "sspopchk", opc=0x73, rd=0, f3=4, rs1=r, imm12=0xcdc)
r32("Zicfiss", "SSRDP", ANY, "Cnt", "OnlyRd", "ssrdp", opc=0x73, f3=4, rs1=0, imm12=0xcdc)
r32("Zicfiss", "SSAMOSWAP_W", ANY, "SsAmo", "AFormat", "ssamoswap.w", opc=0x2f, f3=2, f5=9)
r32("Zicfiss", "SSAMOSWAP_D", RV64, "SsAmo", "AFormat", "ssamoswap.d", opc=0x2f, f3=3, f5=9)
# ---- privileged
r32("Priv", "SRET", ANY, "N", "NoOperand", "sret", opc=0x73, rd=0, f3=0, rs1=0, imm12=0x102)
r32("Priv", "MRET", ANY, "N", "NoOperand", "mret", opc=0x73, rd=0, f3=0, rs1=0, imm12=0x302)
r32("Priv", "WFI", ANY, "N", "NoOperand", "wfi", opc=0x73, rd=0, f3=0, rs1=0, imm12=0x105)
r32("Priv", "SFENCE_VMA", ANY, "Sfence", "RFormat", "sfence.vma", opc=0x73, rd=0, f3=0, f7=9)

# ---- compressed
def r16(group, op, avail, kind, fmt, mnem, pat):
    """pat: 16 chars 0/1/x, spaces ignored."""
    pat = pat.replace(" ", "")
    assert len(pat) == 16, pat
    mask = int("".join("0" if c == "x" else "1" for c in pat), 2)
    val = int("".join("1" if c == "1" else "0" for c in pat), 2)
    ROWS16.append((group, op, avail, mask, val, kind, fmt, mnem))

def c(op, avail, kind, fmt, pat, mnem=None):
    r16("C", op, avail, kind, fmt, "C." + (mnem or op.lower()), pat)

# quadrant 0 (the all-zero halfword is excluded separately)
c("ADDI4SPN", ANY, "CAddi4spn", "CiwFormat", "000 xxxxxxxx xxx 00")
c("LW", ANY, "CLw", "ClFormat", "010 xxx xxx xx xxx 00")
c("LD", RV64, "CLd", "ClFormat", "011 xxx xxx xx xxx 00")
c("SW", ANY, "CSw", "CsFormat", "110 xxx xxx xx xxx 00")
c("SD", RV64, "CSd", "CsFormat", "111 xxx xxx xx xxx 00")
# quadrant 1
c("NOP", ANY, "CNop", "NoOperand", "000 x 00000 xxxxx 01")
c("ADDI", ANY, "CAddi", "CiFormat", "000 x xxxxx xxxxx 01")
c("JAL", RV32, "CJ", "CjFormat", "001 xxxxxxxxxxx 01")
c("ADDIW", RV64 + "Shared", "CAddi", "CiFormat", "001 x xxxxx xxxxx 01")
c("LI", ANY, "CLi", "CiFormat", "010 x xxxxx xxxxx 01")
c("ADDI16SP", ANY, "CAddi16sp", "CiFormat", "011 x 00010 xxxxx 01")
r16("Zicfiss", "C_SSPUSH", ANY, "CSsPush", "OnlyRd", "c.sspush", "011 0 00001 00000 01")
r16("Zicfiss", "C_SSPOPCHK", ANY, "CSsPop", "OnlyRd", "c.sspopchk", "011 0 00101 00000 01")
c("LUI", ANY, "CLui", "CiFormat", "011 x xxxxx xxxxx 01")
for o, k in (("SRLI", "00"), ("SRAI", "01")):
    c(o, "AnyAs32", "CShift", "CbFormat", "100 0 " + k + " xxx xxxxx 01")
    c(o, "AnyAs64", "CShift", "CbFormat", "100 x " + k + " xxx xxxxx 01")
c("ANDI", ANY, "CAndi", "CbFormat", "100 x 10 xxx xxxxx 01")
for o, k in (("SUB", "00"), ("XOR", "01"), ("OR", "10"), ("AND", "11")):
    c(o, ANY, "CA", "CaFormat", "100 0 11 xxx " + k + " xxx 01")
for o, k in (("SUBW", "00"), ("ADDW", "01")):
    c(o, RV64, "CA", "CaFormat", "100 1 11 xxx " + k + " xxx 01")
c("J", ANY, "CJ", "CjFormat", "101 xxxxxxxxxxx 01")
c("BEQZ", ANY, "CB", "CbFormat", "110 xxx xxx xxxxx 01")
c("BNEZ", ANY, "CB", "CbFormat", "111 xxx xxx xxxxx 01")
# quadrant 2
c("SLLI", "AnyAs32", "CSlli", "CiFormat", "000 0 xxxxx xxxxx 10")
c("SLLI", "AnyAs64", "CSlli", "CiFormat", "000 x xxxxx xxxxx 10")
c("LWSP", ANY, "CLwsp", "CiFormat", "010 x xxxxx xxxxx 10")
c("LDSP", RV64, "CLdsp", "CiFormat", "011 x xxxxx xxxxx 10")
c("JR", ANY, "CJr", "CrFormat", "100 0 xxxxx 00000 10")
c("MV", ANY, "CMv", "CrFormat", "100 0 xxxxx xxxxx 10")
c("EBREAK", ANY, "CNone", "NoOperand", "100 1 00000 00000 10")
c("JALR", ANY, "CJr", "CrFormat", "100 1 xxxxx 00000 10")
c("ADD", ANY, "CAdd", "CrFormat", "100 1 xxxxx xxxxx 10")
c("SWSP", ANY, "CSwsp", "CssFormat", "110 xxxxxx xxxxx 10")
c("SDSP", RV64, "CSdsp", "CssFormat", "111 xxxxxx xxxxx 10")

ENUM = dict(BaseI="BaseIOpcode", M="MOpcode", A="AOpcode", C="COpcode", Zifencei="ZifenceiOpcode",
            Zicboz="ZicbozOpcode", Zicsr="ZicsrOpcode", Zicfiss="ZicfissOpcode", Zicntr="ZicntrOpcode", Priv="PrivOpcode")

def path(g, o):
    return f"OpcodeKind::{g}({ENUM[g]}::{o})"

def avail_cond(a):
    """(expression over rv64: bool, rv64-only instruction?)"""
    return {"Any": ("true", False), "Rv32Only": ("!rv64", False), "AnyAs32": ("!rv64", False), "AnyAs64": ("rv64", False),
            "Rv64Only": ("rv64", True), "Rv64OnlyShared": ("rv64", True)}[a]

def main():
    ops, seen = [], set()
    for ln, rows in ((4, ROWS32), (2, ROWS16)):
        for g, o, a, m, v, k, f, mn in rows:
            if (g, o) not in seen:
                seen.add((g, o))
                ops.append((g, o, a, k, f, mn, ln))
    out = ["// Generated by gen_table.py; do not edit.", ""]
    out.append(f"pub const N_OPS: u16 = {len(ops)};")
    out.append(f"pub const N_OPS32: u16 = {sum(1 for x in ops if x[6] == 4)};")
    out.append("")
    kinds = []
    for x in ops:
        if x[3] not in kinds:
            kinds.append(x[3])
    out.append("/// Operand kind: which fields an instruction has and how they are encoded.")
    out.append("#[derive(Clone, Copy, PartialEq, Eq, Debug)]")
    out.append("pub enum Kind { " + ", ".join(kinds) + ", Unknown }")
    out.append("")
    out.append("/// The i-th opcode of the specification table.")
    out.append("pub fn op_of(id: u16) -> OpcodeKind {\n    match id {")
    for i, (g, o, *_r) in enumerate(ops[:-1]):
        out.append(f"        {i} => {path(g, o)},")
    out.append(f"        _ => {path(ops[-1][0], ops[-1][1])},\n    }}\n}}\n")
    out.append("pub fn id_of(op: &OpcodeKind) -> u16 {\n    match op {")
    for i, (g, o, *_r) in enumerate(ops):
        out.append(f"        {path(g, o)} => {i},")
    out.append("        #[allow(unreachable_patterns)]\n        _ => 0xffff,\n    }\n}\n")
    out.append("pub fn kind_of(op: &OpcodeKind) -> Kind {\n    match op {")
    for kk in kinds:
        out.append("        " + " | ".join(path(g, o) for g, o, a, k, f, mn, ln in ops if k == kk) + f" => Kind::{kk},")
    out.append("        #[allow(unreachable_patterns)]\n        _ => Kind::Unknown,\n    }\n}\n")
    out.append("/// Is it a 16-bit instruction?\npub fn is_c(op: &OpcodeKind) -> bool {\n    match op {")
    out.append("        " + " | ".join(path(g, o) for g, o, a, k, f, mn, ln in ops if ln == 2) + " => true,\n        _ => false,\n    }\n}\n")
    fmts = []
    for x in ops:
        if x[4] not in fmts:
            fmts.append(x[4])
    out.append("pub fn format_of(op: &OpcodeKind) -> InstFormat {\n    match op {")
    for ff in fmts:
        out.append("        " + " | ".join(path(g, o) for g, o, a, k, f, mn, ln in ops if f == ff) + f" => InstFormat::{ff},")
    out.append("        #[allow(unreachable_patterns)]\n        _ => InstFormat::NoOperand,\n    }\n}\n")
    out.append("pub fn mnemonic_of(op: &OpcodeKind) -> &'static str {\n    match op {")
    for g, o, a, k, f, mn, ln in ops:
        out.append(f"        {path(g, o)} => \"{mn}\",")
    out.append("        #[allow(unreachable_patterns)]\n        _ => \"?\",\n    }\n}\n")
    out.append("/// Does the instruction exist in RV64 only (so that RV32 must refuse it as such)?\npub fn rv64_only(op: &OpcodeKind) -> bool {\n    match op {")
    out.append("        " + " | ".join(path(g, o) for g, o, a, k, f, mn, ln in ops if avail_cond(a)[1]) + " => true,\n        _ => false,\n    }\n}\n")
    out.append("/// Does the instruction exist in RV32 only?\npub fn rv32_only(op: &OpcodeKind) -> bool {\n    match op {")
    out.append("        " + " | ".join(path(g, o) for g, o, a, k, f, mn, ln in ops if a == RV32) + " => true,\n        _ => false,\n    }\n}\n")
    # matchers
    for nm, ty, rows, w in (("find32", "u32", ROWS32, 8), ("find16", "u16", ROWS16, 4)):
        out.append(f"/// The instruction that `w` encodes for the given width, if any.\npub fn {nm}(w: {ty}, rv64: bool) -> Option<OpcodeKind> {{")
        if nm == "find16":
            out.append("    if w == 0 {\n        return None;\n    }")
        for g, o, a, m, v, k, f, mn in rows:
            c_, _ = avail_cond(a)
            cond = f"w & 0x{m:0{w}x} == 0x{v:0{w}x}"
            if c_ != "true":
                cond = f"{c_} && {cond}"
            out.append(f"    if {cond} {{\n        return Some({path(g, o)});\n    }}")
        out.append("    None\n}\n")
    # fixed bits of an opcode (for the re-encoder)
    for nm, ty, rows, w in (("fixed32", "u32", ROWS32, 8), ("fixed16", "u16", ROWS16, 4)):
        out.append(f"/// (mask, match) of an opcode: the bits that are fixed for both widths.\npub fn {nm}(op: &OpcodeKind) -> ({ty}, {ty}) {{\n    match op {{")
        done = {}
        for g, o, a, m, v, k, f, mn in rows:
            if (g, o) in done:
                pm, pv = done[(g, o)]
                nmask = pm & m & ~(pv ^ v)
                done[(g, o)] = (nmask, pv & nmask)
            else:
                done[(g, o)] = (m, v)
        for (g, o), (m, v) in done.items():
            out.append(f"        {path(g, o)} => (0x{m:0{w}x}, 0x{v:0{w}x}),")
        out.append("        _ => (0, 0),\n    }\n}\n")
    # major opcodes in use, and function-field combinations (for the error property)
    majors = sorted({v & 0x7f for g, o, a, m, v, k, f, mn in ROWS32})
    out.append("/// Is bits 6..0 a major opcode of some supported instruction?\npub fn major_known(w: u32) -> bool {\n    matches!(w & 0x7f, " + " | ".join(f"0x{x:02x}" for x in majors) + ")\n}\n")
    # Function bits: everything fixed except the register fields; bits 24..20 are function bits in the
    # SYSTEM and MISC-MEM opcodes (where they belong to a 12-bit function code), a register field elsewhere.
    out.append("/// Does `w`, apart from the bits in `ign`, have the opcode and function bits of some supported instruction?\n"
               "pub fn functions_known(w: u32, ign: u32) -> bool {")
    done = set()
    fk = []
    for g, o, a, m, v, k, f, mn in ROWS32:
        mm = m & (0xfff0707f if v & 0x7f in (0x73, 0x0f) else 0xfe00707f)
        key = (mm, v & mm)
        if key in done:
            continue
        done.add(key)
        fk.append(f"((w ^ 0x{v & mm:08x}) & 0x{mm:08x} & !ign == 0)")
    out.append("    " + "\n        | ".join(fk) + "\n}")
    # groups of opcodes with the same kind and format, for the text proofs
    groups = {}
    for g, o, a, k, f, mn, ln in ops:
        groups.setdefault((k, f, ln, o if k == "CJr" else ""), []).append((g, o))
    out.append(f"\n/// Opcodes of the same kind, format and length (and for CJr, the same opcode).\npub const N_GROUPS: usize = {len(groups)};\n")
    out.append("pub fn group_len(g: usize) -> u8 {\n    match g {")
    out += [f"        {i} => {len(v)}," for i, v in enumerate(groups.values())] + ["        _ => 0,\n    }\n}\n"]
    out.append("pub fn group_pick(g: usize, sel: u8) -> OpcodeKind {\n    match g {")
    for i, v in enumerate(groups.values()):
        if len(v) == 1:
            out.append(f"        {i} => {path(*v[0])},")
        else:
            out.append(f"        {i} => match sel {{\n" + "".join(f"            {j if j + 1 < len(v) else '_'} => {path(*x)},\n" for j, x in enumerate(v)) + "        },")
    out.append("        _ => op_of(0),\n    }\n}\n")
    out.append("pub fn group_of(g: usize) -> (Kind, InstFormat, bool) {\n    match g {")
    out += [f"        {i} => (Kind::{k}, InstFormat::{f}, {str(ln == 2).lower()})," for i, (k, f, ln, _o) in enumerate(groups)] + ["        _ => (Kind::Unknown, InstFormat::NoOperand, false),\n    }\n}"]
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.rs"), "w").write("\n".join(out) + "\n")
    print(len(groups), "groups")
    rows_file()

def rows_file():
    """rows.rs: the same table, extension by extension, for the contracts of the extensions' own functions."""
    out = ["// Generated by gen_table.py; do not edit.", "// Per extension: does a word encode an opcode / any opcode / an RV64-only opcode of it; kind and format of its opcodes.", ""]
    for bits, ty, rows, w in ((32, "u32", ROWS32, 8), (16, "u16", ROWS16, 4)):
        gs = []
        for r in rows:
            if r[0] not in gs:
                gs.append(r[0])
        def cond(a, m, v):
            c_, _ = avail_cond(a)
            x = f"w & 0x{m:0{w}x} == 0x{v:0{w}x}"
            return x if c_ == "true" else f"{c_} & ({x})"
        def clash(r, q):
            """can a word be in both rows for one width?"""
            (ca, cb) = (avail_cond(r[2])[0], avail_cond(q[2])[0])
            if {ca, cb} == {"rv64", "!rv64"}:
                return False
            return (r[4] ^ q[4]) & r[3] & q[3] == 0
        for g in gs:
            mine = [r for r in rows if r[0] == g]
            opsg = []
            for r in mine:
                if r[1] not in opsg:
                    opsg.append(r[1])
            out.append(f"pub fn enc_{g.lower()}{bits}(o: &{ENUM[g]}, w: {ty}, rv64: bool) -> bool {{")
            if bits == 16:
                out.append("    if w == 0 {\n        return false;\n    }")
            out.append("    match o {")
            for o in opsg:
                alts = []
                for i, r in enumerate(mine):
                    if r[1] != o:
                        continue
                    x = "(" + cond(r[2], r[3], r[4]) + ")"
                    for q in mine[:i]:
                        if q[1] != o and clash(r, q):
                            x += " & !(" + cond(q[2], q[3], q[4]) + ")"
                    alts.append("(" + x + ")")
                out.append(f"        {ENUM[g]}::{o} => {' | '.join(alts)},")
            out.append("        #[allow(unreachable_patterns)]\n        _ => false,\n    }\n}\n")
            out.append(f"pub fn any_{g.lower()}{bits}(w: {ty}, rv64: bool) -> bool {{")
            out.append("    let _ = rv64;")
            out.append("    " + ("(w != 0) & (" if bits == 16 else "(") + "\n        | ".join(f"({cond(r[2], r[3], r[4])})" for r in mine) + ")\n}\n")
            o64 = [r for r in mine if avail_cond(r[2])[1] and r[2] != "Rv64OnlyShared"]
            out.append(f"pub fn only64_{g.lower()}{bits}(w: {ty}) -> bool {{")
            out.append("    let _ = w;\n    " + ("\n        | ".join(f"(w & 0x{r[3]:0{w}x} == 0x{r[4]:0{w}x})" for r in o64) or "false") + "\n}\n")
        # a word that two extensions' rows match belongs to the one that comes first
        cross = {}
        for i, r in enumerate(rows):
            for q in rows[:i]:
                if q[0] != r[0] and clash(r, q):
                    cross.setdefault(r[0], set()).add(q[0])
                # or to a narrower row of a later extension: not in this table
        print(bits, "cross", cross)
        lows = [(g, sorted(cross.get(g, ()))) for g in gs]
        out.append(f"pub fn enc{bits}(op: &OpcodeKind, w: {ty}, rv64: bool) -> bool {{\n    match op {{")
        for g, ex in lows:
            out.append(f"        OpcodeKind::{g}(o) => enc_{g.lower()}{bits}(o, w, rv64)" + "".join(f" & !any_{e.lower()}{bits}(w, rv64)" for e in ex) + ",")
        out.append("        _ => false,\n    }\n}\n")
        out.append(f"pub fn any{bits}(w: {ty}, rv64: bool) -> bool {{\n    " + " | ".join(f"any_{g.lower()}{bits}(w, rv64)" for g in gs) + "\n}\n")
        out.append(f"pub fn only64_{bits}(w: {ty}) -> bool {{\n    " + " | ".join(f"only64_{g.lower()}{bits}(w)" for g in gs) + "\n}\n")
    for g in ENUM:
        ks = {}
        fs = {}
        for r in ROWS32 + ROWS16:
            if r[0] == g:
                ks.setdefault(r[5], []).append(r[1])
                fs.setdefault(r[6], []).append(r[1])
        for nm, ty, d, dflt in (("kind", "Kind", ks, "Unknown"), ("format", "InstFormat", fs, "NoOperand")):
            out.append(f"pub fn {nm}_{g.lower()}(o: &{ENUM[g]}) -> {ty} {{\n    match o {{")
            for k, os_ in d.items():
                out.append("        " + " | ".join(f"{ENUM[g]}::{o}" for o in dict.fromkeys(os_)) + f" => {ty}::{k},")
            out.append(f"        #[allow(unreachable_patterns)]\n        _ => {ty}::{dflt},\n    }}\n}}\n")
        out.append(f"pub fn name_{g.lower()}(o: &{ENUM[g]}) -> &'static str {{\n    match o {{")
        for o, mn in {r[1]: r[7] for r in ROWS32 + ROWS16 if r[0] == g}.items():
            out.append(f"        {ENUM[g]}::{o} => \"{mn}\",")
        out.append("        #[allow(unreachable_patterns)]\n        _ => \"?\",\n    }\n}\n")
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rows.rs"), "w").write("\n".join(out) + "\n")

if __name__ == "__main__":
    main()
