From 03c9fb44d83ce28bd4393f17d78cc3d205cb5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:20 +0000
Subject: [PATCH 01/24] fix: do not panic when formatting sfence.vma

sfence.vma has no destination register, so formatting it as a
three-operand R-type instruction unwrapped None.
---
 src/instruction.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..420feda 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,6 +47,15 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
+            InstFormat::RFormat if self.opc == OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => {
+                write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rs1.unwrap()),
+                    reg2str(self.rs2.unwrap())
+                )
+            }
             InstFormat::RFormat | InstFormat::MFormat => {
                 write!(
                     f,
-- 
2.43.0


From f23f1364e56060dcc6da4bdf757e24938b9996fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:21 +0000
Subject: [PATCH 02/24] fix: swap the formats of sspush and sspopchk

sspush takes its register in rs2 and sspopchk in rs1. With the formats
swapped, sspush printed zero and sspopchk panicked on a missing rs2.
---
 src/instruction.rs                   | 4 ++--
 src/instruction/zicfiss_extension.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 420feda..bd6f3ad 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -426,13 +426,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..c3ce341 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,8 +40,8 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
             ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
-- 
2.43.0


From 79351ba65d14182ca7dd78960b4d49e54ab57670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:22 +0000
Subject: [PATCH 03/24] fix: do not panic when formatting c.sspush and
 c.sspopchk

The formatter treats an unlisted instruction without operands as
unreachable. The compressed shadow stack instructions report their
implied register as rd, so print that one.
---
 src/instruction/zicfiss_extension.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index c3ce341..227333a 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -42,9 +42,10 @@ impl Opcode for ZicfissOpcode {
         match self {
             ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
             ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
-            ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
+            ZicfissOpcode::SSRDP | ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => {
+                InstFormat::OnlyRd
+            }
         }
     }
 }
-- 
2.43.0


From bdd3334877fac44f0ea77d66802cf03374d5c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:56 +0000
Subject: [PATCH 04/24] fix: print stores and branches in the documented
 operand order

Stores printed the base register as the stored one and vice versa, and
branches looked like memory accesses. Print `sw rs2, imm(rs1)` and
`beq rs1, rs2, imm` as documented on the formats.
---
 src/instruction.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index bd6f3ad..b1ca0ca 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -100,13 +100,21 @@ impl Display for Instruction {
                 reg2str(self.rs1.unwrap()),
                 self.imm.unwrap()
             ),
-            InstFormat::CsFormat | InstFormat::SFormat | InstFormat::BFormat => write!(
+            InstFormat::CsFormat | InstFormat::SFormat => write!(
                 f,
                 "{} {}, {}({})",
                 self.opc,
-                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap()),
                 self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::BFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
                 reg2str(self.rs2.unwrap()),
+                self.imm.unwrap(),
             ),
             InstFormat::CiwFormat => {
                 write!(
-- 
2.43.0


From 5ddecea0ddb3661314e9cdbf8d153c85fc8c1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:57 +0000
Subject: [PATCH 05/24] fix: print the shift amount of shift-immediate
 instructions

---
 src/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index b1ca0ca..d0e86ea 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -86,10 +86,11 @@ impl Display for Instruction {
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
+                    self.imm.unwrap()
                 )
             }
             InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
@@ -292,7 +293,7 @@ pub enum InstFormat {
 
     /// Regular format with shamt
     /// ```ignore
-    /// srai rd, rs1
+    /// srai rd, rs1, shamt
     /// ```
     RShamtFormat,
 
-- 
2.43.0


From 4f504d9db76be4abda991afdd5c6453becc517be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:58 +0000
Subject: [PATCH 06/24] fix: print the register name in compressed branch
 format

The register was printed as a bare number, indistinguishable from an
immediate.
---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index d0e86ea..a9c6f5d 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -196,7 +196,7 @@ impl Display for Instruction {
                     f,
                     "{} {}, {}",
                     self.opc,
-                    self.rs1.unwrap(),
+                    reg2str(self.rs1.unwrap()),
                     self.imm.unwrap(),
                 )
             }
-- 
2.43.0


From 66c115ce8ea5fd3177ffa6626eaea709eed41f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:58 +0000
Subject: [PATCH 07/24] fix: print the c.addi4spn immediate with its 0x prefix

Without the prefix a hexadecimal immediate such as 16 read as decimal 10.
---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index a9c6f5d..3689597 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -120,7 +120,7 @@ impl Display for Instruction {
             InstFormat::CiwFormat => {
                 write!(
                     f,
-                    "{} {}, sp, {:x}",
+                    "{} {}, sp, {:#x}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-- 
2.43.0


From 8e20d1d1b61a4920f4701d46722462bb194df3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:59 +0000
Subject: [PATCH 08/24] fix: remove the stray comma from the mulhsu mnemonic

---
 src/instruction/m_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/m_extension.rs b/src/instruction/m_extension.rs
index 97d6eb3..8589422 100644
--- a/src/instruction/m_extension.rs
+++ b/src/instruction/m_extension.rs
@@ -29,7 +29,7 @@ impl Display for MOpcode {
         match self {
             MOpcode::MUL => write!(f, "mul"),
             MOpcode::MULH => write!(f, "mulh"),
-            MOpcode::MULHSU => write!(f, "mulhsu,"),
+            MOpcode::MULHSU => write!(f, "mulhsu"),
             MOpcode::MULHU => write!(f, "mulhu"),
             MOpcode::DIV => write!(f, "div"),
             MOpcode::DIVU => write!(f, "divu"),
-- 
2.43.0


From 1f774ea53505bbe7f099d8ca8d505e4a991b3a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:59 +0000
Subject: [PATCH 09/24] fix: print fence as fence, not as fence.i

The only decoded instruction of this group is fence (funct3 = 000).
---
 src/instruction/zifencei_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/zifencei_extension.rs b/src/instruction/zifencei_extension.rs
index cba0e63..47f2e60 100644
--- a/src/instruction/zifencei_extension.rs
+++ b/src/instruction/zifencei_extension.rs
@@ -13,7 +13,7 @@ pub enum ZifenceiOpcode {
 impl Display for ZifenceiOpcode {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            ZifenceiOpcode::FENCE => write!(f, "fence.i"),
+            ZifenceiOpcode::FENCE => write!(f, "fence"),
         }
     }
 }
-- 
2.43.0


From d003e363e171528277a568314744131bf7fabbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:00 +0000
Subject: [PATCH 10/24] fix: do not print rd as a source of c.li, c.lui, c.lwsp
 and c.ldsp

These instructions do not read rd, and the stack loads read sp.
---
 src/instruction.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 3689597..6f70e99 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -147,16 +147,30 @@ impl Display for Instruction {
             InstFormat::CjFormat => {
                 write!(f, "{} {}", self.opc, self.imm.unwrap())
             }
-            InstFormat::CiFormat => {
-                write!(
+            InstFormat::CiFormat => match self.opc {
+                OpcodeKind::C(COpcode::LI | COpcode::LUI) => write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                OpcodeKind::C(COpcode::LWSP | COpcode::LDSP) => write!(
+                    f,
+                    "{} {}, {}(sp)",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-                )
-            }
+                ),
+            },
             InstFormat::CrFormat => match self.opc {
                 OpcodeKind::C(COpcode::JR) => {
                     write!(f, "{} zero, 0({})", self.opc, reg2str(self.rs1.unwrap()),)
@@ -337,6 +351,8 @@ pub enum InstFormat {
     /// Compressed Immediate format
     /// ```ignore
     /// c.nop
+    /// c.li rd, imm
+    /// c.lwsp rd, imm(sp)
     /// c.addi rd, rd, imm
     /// c.addi16sp x2, x2, nzimm
     /// ```
-- 
2.43.0


From bb8b306a22ca0c4b6138bc051ac0b9ad47a34fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:01 +0000
Subject: [PATCH 11/24] fix: give lr.d the load-reserved format and print lr as
 documented

lr.w printed its ordering bits as a third operand and lr.d had the
three-register format although it has no rs2.
---
 src/instruction.rs             | 34 ++++++++++++++++------------------
 src/instruction/a_extension.rs |  3 +--
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 6f70e99..3a21f78 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -66,23 +66,21 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 )
             }
-            InstFormat::AFormat => match self.opc {
-                OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
-                    f,
-                    "{} {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                ),
-                _ => write!(
-                    f,
-                    "{} {}, {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                    reg2str(self.rs2.unwrap())
-                ),
-            },
+            InstFormat::AFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap())
+            ),
+            InstFormat::ALrFormat => write!(
+                f,
+                "{} {}, ({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs1.unwrap()),
+            ),
             InstFormat::RShamtFormat => {
                 write!(
                     f,
@@ -93,7 +91,7 @@ impl Display for Instruction {
                     self.imm.unwrap()
                 )
             }
-            InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
+            InstFormat::ClFormat | InstFormat::IFormat => write!(
                 f,
                 "{} {}, {}, {}",
                 self.opc,
diff --git a/src/instruction/a_extension.rs b/src/instruction/a_extension.rs
index 0cb6e43..0ef3402 100644
--- a/src/instruction/a_extension.rs
+++ b/src/instruction/a_extension.rs
@@ -65,7 +65,7 @@ impl Display for AOpcode {
 impl Opcode for AOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            AOpcode::LR_W => InstFormat::ALrFormat,
+            AOpcode::LR_W | AOpcode::LR_D => InstFormat::ALrFormat,
             AOpcode::SC_W
             | AOpcode::AMOSWAP_W
             | AOpcode::AMOADD_W
@@ -76,7 +76,6 @@ impl Opcode for AOpcode {
             | AOpcode::AMOMAX_W
             | AOpcode::AMOMINU_W
             | AOpcode::AMOMAXU_W
-            | AOpcode::LR_D
             | AOpcode::SC_D
             | AOpcode::AMOSWAP_D
             | AOpcode::AMOADD_D
-- 
2.43.0


From 0ee6d28ac516e44b27b632531c3cd609af1333e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:02 +0000
Subject: [PATCH 12/24] fix: refuse ssamoswap.d on rv32

Like the other double word atomics it exists only on rv64.
---
 src/decode/inst_32.rs           | 2 +-
 src/decode/zicfiss_extension.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index c176267..d8e2370 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -43,7 +43,7 @@ impl Decode for u32 {
                 self,
             )?)),
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
-                zicfiss_extension::bit_32::parse_opcode(self)?,
+                zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
             Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
                 zicntr_extension::bit_32::parse_opcode(self)?,
diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index fab2de4..1a4704c 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -1,8 +1,9 @@
 pub mod bit_32 {
-    use super::super::{DecodeUtil, DecodingError};
+    use super::super::{only_rv64, DecodeUtil, DecodingError};
     use crate::instruction::zicfiss_extension::ZicfissOpcode;
+    use crate::Isa;
 
-    pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
+    pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
@@ -22,7 +23,7 @@ pub mod bit_32 {
             },
             0b010_1111 => match funct3 {
                 0b010 => Ok(ZicfissOpcode::SSAMOSWAP_W),
-                0b011 => Ok(ZicfissOpcode::SSAMOSWAP_D),
+                0b011 => only_rv64(ZicfissOpcode::SSAMOSWAP_D, isa),
                 _ => Err(DecodingError::InvalidFunct3),
             },
             _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From 543cd72ab0b4d1fc15952834d69b5c5fa3b350e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:03 +0000
Subject: [PATCH 13/24] fix: do not decode c.add hints as c.ebreak

c.ebreak has both register fields zero. With rd = x0 and rs2 != x0 the
halfword is a c.add hint (for example c.ntl.p1, 0x900a).
---
 src/decode/c_extension.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5b59a6b..9372898 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -76,12 +76,12 @@ pub mod bit_16 {
                     0b0 => Ok(COpcode::JR),
                     _ => Ok(COpcode::MV),
                 },
-                0b1 => match mi_flag {
-                    0b0 => Ok(COpcode::EBREAK),
-                    _ => match lo_flag {
-                        0b0 => Ok(COpcode::JALR),
-                        _ => Ok(COpcode::ADD),
+                0b1 => match lo_flag {
+                    0b0 => match mi_flag {
+                        0b0 => Ok(COpcode::EBREAK),
+                        _ => Ok(COpcode::JALR),
                     },
+                    _ => Ok(COpcode::ADD),
                 },
                 _ => Err(DecodingError::InvalidOpcode),
             },
-- 
2.43.0


From d3c941cde510e61cd3dcd8f8f1a8e3d12685ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:04 +0000
Subject: [PATCH 14/24] fix: check funct3 of jalr

---
 src/decode/base_i.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 6be5892..4304127 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -15,7 +15,10 @@ pub mod bit_32 {
             0b011_0111 => Ok(BaseIOpcode::LUI),
             0b001_0111 => Ok(BaseIOpcode::AUIPC),
             0b110_1111 => Ok(BaseIOpcode::JAL),
-            0b110_0111 => Ok(BaseIOpcode::JALR),
+            0b110_0111 => match funct3 {
+                0b000 => Ok(BaseIOpcode::JALR),
+                _ => Err(DecodingError::InvalidFunct3),
+            },
             0b110_0011 => match funct3 {
                 0b000 => Ok(BaseIOpcode::BEQ),
                 0b001 => Ok(BaseIOpcode::BNE),
-- 
2.43.0


From dd1a5e262ec7f13aefc8978c1c620819e9b5d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:04 +0000
Subject: [PATCH 15/24] fix: check funct7 of register and word shift
 instructions

sll, slt, sltu, xor, or, and, slliw and sllw were accepted with any
funct7, so encodings of other extensions (e.g. andn) and reserved ones
decoded as base instructions.
---
 src/decode/base_i.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 4304127..c227011 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -82,6 +82,9 @@ pub mod bit_32 {
                     0b010_0000 => Ok(BaseIOpcode::SUB),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
+                0b001 | 0b010 | 0b011 | 0b100 | 0b110 | 0b111 if funct7 != 0 => {
+                    Err(DecodingError::InvalidFunct7)
+                }
                 0b001 => Ok(BaseIOpcode::SLL),
                 0b010 => Ok(BaseIOpcode::SLT),
                 0b011 => Ok(BaseIOpcode::SLTU),
@@ -108,7 +111,10 @@ pub mod bit_32 {
             },
             0b001_1011 => match funct3 {
                 0b000 => only_rv64(BaseIOpcode::ADDIW, isa),
-                0b001 => only_rv64(BaseIOpcode::SLLIW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLIW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLIW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAIW, isa),
@@ -122,7 +128,10 @@ pub mod bit_32 {
                     0b010_0000 => only_rv64(BaseIOpcode::SUBW, isa),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => only_rv64(BaseIOpcode::SLLW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAW, isa),
-- 
2.43.0


From 3a38f2c8c1f46ca66037c9432cd18a697b0479ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:05 +0000
Subject: [PATCH 16/24] fix: check that rd and rs1 of ecall and ebreak are zero

---
 src/decode/base_i.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index c227011..7d2503e 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -10,6 +10,7 @@ pub mod bit_32 {
         let funct5: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
         let funct6: u8 = u8::try_from(inst.slice(31, 26)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 25)).unwrap();
+        let rd_and_rs1: u32 = inst.slice(11, 7) | inst.slice(19, 15);
 
         match opmap {
             0b011_0111 => Ok(BaseIOpcode::LUI),
@@ -101,6 +102,7 @@ pub mod bit_32 {
             0b111_0011 => match funct3 {
                 0b000 => match funct7 {
                     0b000_0000 => match funct5 {
+                        0b00000 | 0b00001 if rd_and_rs1 != 0 => Err(DecodingError::InvalidOpcode),
                         0b00000 => Ok(BaseIOpcode::ECALL),
                         0b00001 => Ok(BaseIOpcode::EBREAK),
                         _ => Err(DecodingError::InvalidFunct5),
-- 
2.43.0


From d84b4517a53982a7bb21fb9967c22785f4e2f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:05 +0000
Subject: [PATCH 17/24] fix: check that rd of sfence.vma is zero

---
 src/decode/priv_extension.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/priv_extension.rs b/src/decode/priv_extension.rs
index 5d18af3..7138365 100644
--- a/src/decode/priv_extension.rs
+++ b/src/decode/priv_extension.rs
@@ -12,7 +12,10 @@ pub mod bit_32 {
             0b0011_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::MRET),
             0b0001_0000_0101_0000_0000_0000_0111_0011 => Ok(PrivOpcode::WFI),
             _ => match funct7 {
-                0b000_1001 => Ok(PrivOpcode::SFENCE_VMA),
+                0b000_1001 => match inst.slice(11, 7) {
+                    0b0_0000 => Ok(PrivOpcode::SFENCE_VMA),
+                    _ => Err(DecodingError::InvalidOpcode),
+                },
                 _ => Err(DecodingError::InvalidFunct7),
             },
         }
-- 
2.43.0


From 129a5511cb018d604766ae9dd6cbbd4568a7489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:06 +0000
Subject: [PATCH 18/24] fix: check that the rs2 field of load-reserved is zero

---
 src/decode/a_extension.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode/a_extension.rs b/src/decode/a_extension.rs
index 63468f1..2c13772 100644
--- a/src/decode/a_extension.rs
+++ b/src/decode/a_extension.rs
@@ -7,9 +7,12 @@ pub mod bit_32 {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 27)).unwrap();
+        let rs2: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
 
         match opmap {
             0b010_1111 => match funct3 {
+                // the rs2 field of lr.w and lr.d is fixed to zero
+                0b010 | 0b011 if funct7 == 0b00010 && rs2 != 0 => Err(DecodingError::InvalidOpcode),
                 0b010 => match funct7 {
                     0b00010 => Ok(AOpcode::LR_W),
                     0b00011 => Ok(AOpcode::SC_W),
-- 
2.43.0


From c99e61b9447ea4a4a77acdb3842cdbc6b9cc48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:07 +0000
Subject: [PATCH 19/24] fix: check the fixed register fields of sspush and
 sspopchk

sspush has rd = rs1 = x0, and sspopchk has rd = x0 and rs1 = x1 or x5.
Other values are may-be-operations, not shadow stack instructions.
---
 src/decode/zicfiss_extension.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index 1a4704c..88e1d63 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -8,14 +8,18 @@ pub mod bit_32 {
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct7_rs2: u16 = u16::try_from(inst.slice(31, 20)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
 
         match opmap {
             0b111_0011 => match funct3 {
                 0b100 => match funct7_rs2 {
-                    0b1100_1110_0001 | 0b1100_1110_0101 => Ok(ZicfissOpcode::SSPUSH),
+                    0b1100_1110_0001 | 0b1100_1110_0101 if rd == 0 && rs1 == 0 => {
+                        Ok(ZicfissOpcode::SSPUSH)
+                    }
                     0b1100_1101_1100 => match rs1 {
                         0b0_0000 => Ok(ZicfissOpcode::SSRDP),
-                        _ => Ok(ZicfissOpcode::SSPOPCHK),
+                        0b0_0001 | 0b0_0101 if rd == 0 => Ok(ZicfissOpcode::SSPOPCHK),
+                        _ => Err(DecodingError::InvalidOpcode),
                     },
                     _ => Err(DecodingError::InvalidOpcode),
                 },
-- 
2.43.0


From fefc3bbbf58fd920f1e21f4db6ab0fcb52179da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:07 +0000
Subject: [PATCH 20/24] fix: decode a csrrs that writes a counter csr as csrrs

Only csrrs with rs1 = x0 is a counter read. The decoded rdcycle and
friends have no rs1, so the source register was lost.
---
 src/decode/inst_32.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index d8e2370..6460454 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -131,6 +131,7 @@ impl DecodeUtil for u32 {
         let funct3: u8 = u8::try_from(self.slice(14, 12)).unwrap();
         let funct5: u8 = u8::try_from(self.slice(31, 27)).unwrap();
         let funct7: u8 = u8::try_from(self.slice(31, 25)).unwrap();
+        let rs1: u8 = u8::try_from(self.slice(19, 15)).unwrap();
         let csr: u16 = u16::try_from(self.slice(31, 20)).unwrap();
 
         match opmap {
@@ -161,7 +162,7 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 | 0xc80..=0xc82 if rs1 == 0 => Ok(Extensions::Zicntr),
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From ea6ef733e534275c73b87db64c353d7fef783b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:08 +0000
Subject: [PATCH 21/24] fix: do not decode the upper-half counter reads on rv64

rdcycleh, rdtimeh and rdinstreth exist only on rv32. On rv64 the word is
a plain csr access.
---
 src/decode/inst_32.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 6460454..298222a 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -39,6 +39,10 @@ impl Decode for u32 {
             Ok(Extensions::Zifencei) => Ok(OpcodeKind::Zifencei(
                 zifencei_extension::bit_32::parse_opcode(self)?,
             )),
+            // The upper-half counters exist only on rv32.
+            Ok(Extensions::Zicntr) if matches!(isa, Isa::Rv64) && self.slice(31, 20) >= 0xc80 => Ok(
+                OpcodeKind::Zicsr(zicsr_extension::bit_32::parse_opcode(self)?),
+            ),
             Ok(Extensions::Zicsr) => Ok(OpcodeKind::Zicsr(zicsr_extension::bit_32::parse_opcode(
                 self,
             )?)),
-- 
2.43.0


From 050c099ef10c70f98c5a687af4faef4ae2844672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:09 +0000
Subject: [PATCH 22/24] fix: refuse compressed shifts by 32 or more on rv32

shamt[5] must be zero on rv32, as already required for the 32-bit shifts.
---
 src/decode/c_extension.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 9372898..5483e21 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -35,6 +35,10 @@ pub mod bit_16 {
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
+                // shamt[5] must be zero on rv32
+                0b00 | 0b01 if matches!(isa, Isa::Rv32) && bit_12 == 1 => {
+                    Err(DecodingError::InvalidOpcode)
+                }
                 0b00 => Ok(COpcode::SRLI),
                 0b01 => Ok(COpcode::SRAI),
                 0b10 => Ok(COpcode::ANDI),
@@ -68,6 +72,8 @@ pub mod bit_16 {
         let hi_flag: u8 = u8::try_from(inst.slice(12, 12)).unwrap();
 
         match opmap {
+            // shamt[5] must be zero on rv32
+            0b000 if matches!(isa, Isa::Rv32) && hi_flag == 1 => Err(DecodingError::InvalidOpcode),
             0b000 => Ok(COpcode::SLLI),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
-- 
2.43.0


From f9dc4eae529d5ea9029480a539da7a812ba54ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:09 +0000
Subject: [PATCH 23/24] fix: report an error when converting a too large usize

Instruction::try_from panicked on values that do not fit the length
their low bits announce.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 931c6c4..72beafd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,11 +77,11 @@ impl TryFrom<usize> for Instruction {
     fn try_from(inst: usize) -> Result<Self, Self::Error> {
         if inst & 0b11 == 0b11 {
             u32::try_from(inst)
-                .expect("Truncation of usize to u32 failed.")
+                .map_err(|_| DecodingError::Not32BitInst)?
                 .decode(Isa::Rv64)
         } else {
             u16::try_from(inst)
-                .expect("Truncation of usize to u16 failed.")
+                .map_err(|_| DecodingError::Not16BitInst)?
                 .decode(Isa::Rv64)
         }
     }
-- 
2.43.0


From 0dbf0c7533f21c2e81cd06cb99928493d03a958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:27 +0000
Subject: [PATCH 24/24] fix: refuse shadow stack opcodes of the other length in
 field parsers

Asking a u32 for the fields of c.sspush (or a u16 for those of sspush)
hit unreachable!() or returned made-up operands. Return the length error
as for all other opcodes.
---
 src/decode/inst_16.rs | 18 +++++++++++++-----
 src/decode/inst_32.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index e49bc0e..04be134 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -1,7 +1,7 @@
 use super::{c_extension, zicfiss_extension};
 use super::{Decode, DecodeUtil, DecodingError};
 
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 impl Decode for u16 {
@@ -43,7 +43,9 @@ impl Decode for u16 {
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rd(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(
+                opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK),
+            ) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -51,7 +53,9 @@ impl Decode for u16 {
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs1(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(
+                opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK),
+            ) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -59,7 +63,9 @@ impl Decode for u16 {
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs2(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(
+                opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK),
+            ) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -67,7 +73,9 @@ impl Decode for u16 {
     fn parse_imm(self, opkind: &OpcodeKind, _isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_imm(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(
+                opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK),
+            ) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
             _ => Err(DecodingError::Not16BitInst),
         }
     }
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 298222a..c0ef21f 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,7 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 #[allow(non_snake_case)]
@@ -70,6 +70,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rd(self, opc)),
@@ -85,6 +88,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs1(self, opc)),
@@ -100,6 +106,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs2(self, opc)),
@@ -115,6 +124,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_imm(self, opc)),
-- 
2.43.0

