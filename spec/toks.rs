// A token-level judge for the text of an instruction, used by the proofs (no buffer, no symbolic positions).
//
// The expected text is a short list of tokens whose structure depends only on the operand kind.  The judge receives the
// pieces the real formatter writes.  Literals may be split arbitrarily; a register name, the mnemonic and a number's
// digits must each arrive as one piece (which is how core::fmt writes them).  Accepting implies that the text is
// exactly the expected one; rejecting may also mean an unusual piece structure, so a rejection is only evidence
// and is always settled by native replay on the plain-text predicates of spec.rs.

pub const NAME: u8 = 0;
pub const RD: u8 = 1;
pub const RS1: u8 = 2;
pub const RS2: u8 = 3;
/// immediate, plain decimal / 0x-hexadecimal
pub const DEC: u8 = 4;
pub const HEX: u8 = 5;
/// the CSR number
pub const CSRHEX: u8 = 6;
pub const CSRDEC: u8 = 7;
pub const END: u8 = 8;
/// literals
pub const SP: u8 = 9;
pub const COMMA: u8 = 10;
pub const OPEN: u8 = 11;
pub const CLOSE: u8 = 12;
pub const COMMA_OPEN: u8 = 13;
pub const COMMA_SP: u8 = 14;
pub const PAREN_SP: u8 = 15;
pub const ZERO_OPEN: u8 = 16;
pub const RA_OPEN: u8 = 17;

fn lit(t: u8) -> &'static str {
    match t {
        SP => " ",
        COMMA => ", ",
        OPEN => "(",
        CLOSE => ")",
        COMMA_OPEN => ", (",
        COMMA_SP => ", sp, ",
        PAREN_SP => "(sp)",
        ZERO_OPEN => "zero, 0(",
        _ => "ra, 0(",
    }
}

pub fn toks_of(k: Kind, jr: bool) -> [u8; 8] {
    match k {
        Kind::R | Kind::Amo | Kind::SsAmo => [NAME, SP, RD, COMMA, RS1, COMMA, RS2, END],
        Kind::Lr => [NAME, SP, RD, COMMA_OPEN, RS1, CLOSE, END, END],
        Kind::I | Kind::Sh | Kind::ShW | Kind::CLw | Kind::CLd => [NAME, SP, RD, COMMA, RS1, COMMA, DEC, END],
        Kind::S | Kind::CSw | Kind::CSd => [NAME, SP, RS2, COMMA, DEC, OPEN, RS1, CLOSE],
        Kind::B => [NAME, SP, RS1, COMMA, RS2, COMMA, DEC, END],
        Kind::U | Kind::J => [NAME, SP, RD, COMMA, HEX, END, END, END],
        Kind::Csr => [NAME, SP, RD, COMMA, CSRHEX, COMMA, RS1, END],
        Kind::CsrI => [NAME, SP, RD, COMMA, CSRDEC, COMMA, DEC, END],
        Kind::Cnt | Kind::CSsPush | Kind::CSsPop => [NAME, SP, RD, END, END, END, END, END],
        Kind::Cbo | Kind::SsPop => [NAME, SP, RS1, END, END, END, END, END],
        Kind::SsPush => [NAME, SP, RS2, END, END, END, END, END],
        Kind::Sfence => [NAME, SP, RS1, COMMA, RS2, END, END, END],
        Kind::CAddi4spn => [NAME, SP, RD, COMMA_SP, HEX, END, END, END],
        Kind::CSwsp | Kind::CSdsp => [NAME, SP, RS2, COMMA, DEC, PAREN_SP, END, END],
        Kind::CLwsp | Kind::CLdsp => [NAME, SP, RD, COMMA, DEC, PAREN_SP, END, END],
        Kind::CLi | Kind::CLui => [NAME, SP, RD, COMMA, DEC, END, END, END],
        Kind::CAddi | Kind::CAddi16sp | Kind::CSlli => [NAME, SP, RD, COMMA, RD, COMMA, DEC, END],
        Kind::CShift | Kind::CAndi | Kind::CB => [NAME, SP, RS1, COMMA, DEC, END, END, END],
        Kind::CA | Kind::CAdd => [NAME, SP, RD, COMMA, RD, COMMA, RS2, END],
        Kind::CMv => [NAME, SP, RD, COMMA, RS2, END, END, END],
        Kind::CJr => {
            if jr {
                [NAME, SP, ZERO_OPEN, RS1, CLOSE, END, END, END]
            } else {
                [NAME, SP, RA_OPEN, RS1, CLOSE, END, END, END]
            }
        }
        Kind::CJ => [NAME, SP, DEC, END, END, END, END, END],
        _ => [NAME, END, END, END, END, END, END, END],
    }
}

pub struct Judge {
    pub id: u16,
    pub rd: usize,
    pub rs1: usize,
    pub rs2: usize,
    pub imm: i32,
    pub toks: [u8; 8],
    /// current token, offset in it if it is a literal
    pub t: usize,
    pub off: usize,
    /// a minus sign / a 0x prefix has been written for the current number
    pub neg: bool,
    pub pre: bool,
    /// the mnemonic is wrong / something else is wrong
    pub bad_name: bool,
    pub bad: bool,
}

/// longest mnemonic, name or digit string
const PIECE: usize = 12;

fn piece_eq(s: &[u8], w: &[u8]) -> bool {
    if s.len() != w.len() || s.len() > PIECE {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < PIECE {
        if i < s.len() && s[i] != w[i] {
            ok = false;
        }
        i += 1;
    }
    ok
}

/// `s` is the canonical decimal numeral of v
fn dec_eq(s: &[u8], v: u32) -> bool {
    if s.is_empty() || s.len() > 7 {
        return false;
    }
    let mut ok = s.len() == 1 || s[0] != b'0';
    let mut x: u32 = 0;
    let mut i = 0;
    while i < 7 {
        if i < s.len() {
            let d = s[i].wrapping_sub(b'0');
            ok = ok && d < 10;
            x = x * 10 + (d & 15) as u32;
        }
        i += 1;
    }
    ok && x == v
}

/// `s` is the canonical lower-case hexadecimal numeral of v
fn hex_eq(s: &[u8], v: u32) -> bool {
    if s.is_empty() || s.len() > 8 {
        return false;
    }
    let mut ok = s.len() == 1 || s[0] != b'0';
    let mut x: u32 = 0;
    let mut i = 0;
    while i < 8 {
        if i < s.len() {
            let c = s[i];
            let d = if c >= b'0' && c <= b'9' {
                c - b'0'
            } else if c >= b'a' && c <= b'f' {
                c - b'a' + 10
            } else {
                ok = false;
                0
            };
            x = x << 4 | d as u32;
        }
        i += 1;
    }
    ok && x == v
}

impl Judge {
    pub fn new(i: &Instruction, k: Kind) -> Judge {
        let jr = match i.opc {
            OpcodeKind::C(COpcode::JR) => true,
            _ => false,
        };
        Judge {
            id: id_of(&i.opc),
            rd: reg(i.rd) as usize,
            rs1: reg(i.rs1) as usize,
            rs2: csr(i.rs2) as usize,
            imm: match i.imm {
                Some(v) => v,
                None => 0,
            },
            toks: toks_of(k, jr),
            t: 0,
            off: 0,
            neg: false,
            pre: false,
            bad_name: false,
            bad: false,
        }
    }

    /// everything has been written
    pub fn done(&self) -> bool {
        self.t == 8 || self.toks[self.t] == END
    }

    fn reg_piece(&mut self, s: &[u8], r: usize) {
        if !piece_eq(s, abi(r).as_bytes()) {
            self.bad = true;
        }
        self.t += 1;
    }

    fn dec_piece(&mut self, s: &[u8], v: i32) {
        if self.neg != (v < 0) || !dec_eq(s, v.unsigned_abs()) {
            self.bad = true;
        }
        self.neg = false;
        self.t += 1;
    }

    fn hex_piece(&mut self, s: &[u8], v: u32) {
        if !self.pre {
            if s.len() != 2 || s[0] != b'0' || s[1] != b'x' {
                self.bad = true;
            }
            self.pre = true;
        } else {
            if !hex_eq(s, v) {
                self.bad = true;
            }
            self.pre = false;
            self.t += 1;
        }
    }

    pub fn piece(&mut self, s: &[u8]) {
        if self.t == 8 {
            self.bad = true;
            return;
        }
        match self.toks[self.t] {
            NAME => {
                if !piece_eq(s, b"@") {
                    self.bad_name = true;
                }
                self.t += 1;
            }
            RD => self.reg_piece(s, self.rd),
            RS1 => self.reg_piece(s, self.rs1),
            RS2 => self.reg_piece(s, self.rs2),
            DEC => self.dec_piece(s, self.imm),
            HEX => self.hex_piece(s, self.imm as u32),
            CSRHEX => self.hex_piece(s, self.rs2 as u32),
            CSRDEC => self.dec_piece(s, self.rs2 as i32),
            END => self.bad = true,
            _ => {
                // literals: byte by byte, crossing into following literals if needed
                let mut j = 0;
                while j < s.len() {
                    let tok = self.toks[self.t];
                    if tok < SP {
                        self.bad = true;
                        return;
                    }
                    let l = lit(tok).as_bytes();
                    if s[j] != l[self.off] {
                        self.bad = true;
                    }
                    self.off += 1;
                    if self.off == l.len() {
                        self.off = 0;
                        self.t += 1;
                    }
                    j += 1;
                    if self.t == 8 && j < s.len() {
                        self.bad = true;
                        return;
                    }
                }
            }
        }
    }

fn single(&mut self, c: char) {
        let num = self.t < 8 && (self.toks[self.t] == DEC || self.toks[self.t] == CSRDEC);
        if num {
            // core::fmt writes the sign of a number as a single character, and nothing else of it
            if c != '-' || self.neg {
                self.bad = true;
            }
            self.neg = true;
        } else if (c as u32) < 128 {
            self.piece(&[c as u8]);
        } else {
            self.bad = true;
            self.bad_name = true;
        }
    }
}

/// Ghost state: the judges of the text being written, which the contracts of the `fmt` functions speak about.
pub static mut TEXT: Judge = Judge {
    id: 0,
    rd: 0,
    rs1: 0,
    rs2: 0,
    imm: 0,
    toks: [END; 8],
    t: 8,
    off: 0,
    neg: false,
    pre: false,
    bad_name: false,
    bad: false,
};
pub static mut OPNAME: NameJudge = NameJudge { want: "", off: 0, bad: false };

/// Where the formatter writes the text of an instruction.
pub struct Sink;

impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        unsafe { (*core::ptr::addr_of_mut!(TEXT)).piece(s.as_bytes()) };
        Ok(())
    }

    fn write_char(&mut self, c: char) -> core::fmt::Result {
        unsafe { (*core::ptr::addr_of_mut!(TEXT)).single(c) };
        Ok(())
    }
}

fn text() -> &'static Judge {
    unsafe { &*core::ptr::addr_of!(TEXT) }
}

/// Text of instruction i (of kind k) judged: (C14, C15, C16).
pub fn judge(i: &Instruction, k: Kind) -> (bool, bool, bool) {
    unsafe { TEXT = Judge::new(i, k) };
    let ok = core::fmt::Write::write_fmt(&mut Sink, format_args!("{}", i)).is_ok();
    let j = text();
    (ok, !j.bad_name && j.done(), !j.bad && j.done())
}

/// Judge for the text of an opcode alone: the concatenation of the pieces must be exactly `want`.
pub struct NameJudge {
    pub want: &'static str,
    pub off: usize,
    pub bad: bool,
}

/// Where the formatter writes the text of an opcode.
pub struct NameSink;

impl core::fmt::Write for NameSink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let j = unsafe { &mut *core::ptr::addr_of_mut!(OPNAME) };
        let (s, w) = (s.as_bytes(), j.want.as_bytes());
        let mut i = 0;
        while i < s.len() {
            if j.off >= w.len() || s[i] != w[j.off] {
                j.bad = true;
            }
            j.off += 1;
            i += 1;
        }
        Ok(())
    }
}

fn opname() -> &'static NameJudge {
    unsafe { &*core::ptr::addr_of!(OPNAME) }
}

/// Text of an opcode judged: (C14, C15).
pub fn judge_name(op: &OpcodeKind) -> (bool, bool) {
    unsafe { OPNAME = NameJudge { want: mnemonic_of(op), off: 0, bad: false } };
    let ok = core::fmt::Write::write_fmt(&mut NameSink, format_args!("{}", op)).is_ok();
    let j = opname();
    (ok, !j.bad && j.off == j.want.len())
}

// ------------------------------------------------------------------ contracts of the fmt functions

pub fn name_is(s: &str, want: &str) -> bool {
    piece_eq(s.as_bytes(), want.as_bytes())
}
/// the judge waits for the text of this instruction, and nothing has been written yet
pub fn ghost_ready(i: &Instruction) -> bool {
    let j = text();
    j.t == 0
        && j.off == 0
        && !j.bad
        && !j.bad_name
        && j.id == id_of(&i.opc)
        && j.rd == reg(i.rd) as usize
        && j.rs1 == reg(i.rs1) as usize
        && j.rs2 == csr(i.rs2) as usize
}
/// success, and exactly the expected text was written
pub fn ghost_text(ok: bool) -> bool {
    let j = text();
    ok && !j.bad && !j.bad_name && j.done()
}
/// the judge waits for this mnemonic
pub fn ghost_wants(want: &str) -> bool {
    let j = opname();
    j.off == 0 && !j.bad && piece_eq(j.want.as_bytes(), want.as_bytes())
}
pub fn ghost_name(ok: bool) -> bool {
    let j = opname();
    ok && !j.bad && j.off == j.want.len()
}
