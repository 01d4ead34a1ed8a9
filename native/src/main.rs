//! Native companion of the proofs: replays a counterexample on the real crate, and enumerates inputs
//! (search for a failing input; stand-in where a proof could not be completed).
//!
//!   native replay <predicate> <word> <rv64> <id> [<text mask>]   exit 0 holds, 1 fails or panics
//!   native enum <predicate> [<text mask>]                        exit 0 none found, 1 prints the first failing input
//!   native word <group> <member> <operand bits>                  the encoding that a text proof's counterexample stands for

#![allow(dead_code, unused_parens, unused_variables)]
#![allow(clippy::all)]

mod vp {
    use raki::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/table.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/rows.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/spec.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/props.rs"));
}

use raki::Decode;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// which inputs a predicate takes
#[derive(Clone, Copy, PartialEq, Debug)]
enum Space {
    /// word, width
    W,
    /// halfword, width
    H,
    /// word (both widths at once)
    W1,
    H1,
    /// machine-sized integer
    U,
    /// word, width, opcode id
    WF,
    HF,
    /// opcode id
    Op,
}

type P = (Space, Box<dyn Fn(u64, bool, u16) -> bool + Send + Sync>);

fn pred(name: &str, mask: u8) -> P {
    use vp::*;
    use Space::*;
    macro_rules! w {
        ($f:ident) => {
            (W, Box::new(|a, b, _| $f(a as u32, b)))
        };
    }
    macro_rules! h {
        ($f:ident) => {
            (H, Box::new(|a, b, _| $f(a as u16, b)))
        };
    }
    macro_rules! op {
        ($f:ident) => {
            (Op, Box::new(|_, _, c| $f(c)))
        };
    }
    match name {
        "p01_32" => w!(p01_32),
        "p01_16" => h!(p01_16),
        "p01_usize" => (U, Box::new(|a, _, _| p01_usize(a as usize))),
        "p01_field32" => (WF, Box::new(|a, b, c| p01_field32(a as u32, b, c))),
        "p01_field16" => (HF, Box::new(|a, b, c| p01_field16(a as u16, b, c))),
        "p02" => w!(p02),
        "p03" => w!(p03),
        "p04" => w!(p04),
        "p05" => h!(p05),
        "p06_32" => (W1, Box::new(|a, _, _| p06_32(a as u32))),
        "p06_16" => (H1, Box::new(|a, _, _| p06_16(a as u16))),
        "p07_32" => w!(p07_32),
        "p07_16" => h!(p07_16),
        "p07_usize" => (U, Box::new(|a, _, _| p07_usize(a as usize))),
        "p08" => w!(p08),
        "p09" => w!(p09),
        "p10" => h!(p10),
        "p11" => h!(p11),
        "p12_32" => w!(p12_32),
        "p12_16" => h!(p12_16),
        "p12_op" => op!(p12_op),
        "p13_32" => w!(p13_32),
        "p13_16" => h!(p13_16),
        "p13_field32" => (WF, Box::new(|a, b, c| p13_field32(a as u32, b, c))),
        "p13_field16" => (HF, Box::new(|a, b, c| p13_field16(a as u16, b, c))),
        "p14_op" => op!(p14_op),
        "p15_op" => op!(p15_op),
        "p_text32" => (W, Box::new(move |a, b, _| p_text32(a as u32, b, mask))),
        "p_text16" => (H, Box::new(move |a, b, _| p_text16(a as u16, b, mask))),
        "p_wf32" => w!(p_wf32),
        "p_wf16" => h!(p_wf16),
        "p17_32" => w!(p17_32),
        "p17_16" => h!(p17_16),
        "p18_32" => w!(p18_32),
        "p18_16" => h!(p18_16),
        _ => {
            eprintln!("unknown predicate {name}");
            std::process::exit(2);
        }
    }
}

static QUIET: AtomicBool = AtomicBool::new(false);

/// Some(description) if the predicate is false or panics.
fn eval(p: &P, a: u64, b: bool, c: u16) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| (p.1)(a, b, c))) {
        Ok(true) => None,
        Ok(false) => Some("predicate false".to_string()),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            Some(format!("panicked: {m}"))
        }
    }
}

/// Human-readable account of what the real code does on the input.
fn describe(s: Space, a: u64, b: bool, c: u16) -> String {
    let f = || match s {
        Space::W => {
            let r = (a as u32).decode(vp::isa(b));
            format!("word {a:#010x} rv64={b}: decode = {r:?}, table says {:?}", vp::find32(a as u32, b))
        }
        Space::H => {
            let r = (a as u16).decode(vp::isa(b));
            format!("halfword {a:#06x} rv64={b}: decode = {r:?}, table says {:?}", vp::find16(a as u16, b))
        }
        Space::W1 => format!(
            "word {a:#010x}: rv32 {:?}, rv64 {:?}; table says {:?} / {:?}",
            (a as u32).decode(raki::Isa::Rv32),
            (a as u32).decode(raki::Isa::Rv64),
            vp::find32(a as u32, false),
            vp::find32(a as u32, true)
        ),
        Space::H1 => format!(
            "halfword {a:#06x}: rv32 {:?}, rv64 {:?}; table says {:?} / {:?}",
            (a as u16).decode(raki::Isa::Rv32),
            (a as u16).decode(raki::Isa::Rv64),
            vp::find16(a as u16, false),
            vp::find16(a as u16, true)
        ),
        Space::U => format!("integer {a:#x}: {:?}", raki::Instruction::try_from(a as usize)),
        Space::WF => {
            let (w, o) = (a as u32, vp::op_of(c));
            format!(
                "word {a:#010x} rv64={b} opcode {o:?}: rd {:?} rs1 {:?} rs2 {:?} imm {:?}",
                w.parse_rd(&o),
                w.parse_rs1(&o),
                w.parse_rs2(&o),
                w.parse_imm(&o, vp::isa(b))
            )
        }
        Space::HF => {
            let (w, o) = (a as u16, vp::op_of(c));
            format!(
                "halfword {a:#06x} rv64={b} opcode {o:?}: rd {:?} rs1 {:?} rs2 {:?} imm {:?}",
                w.parse_rd(&o),
                w.parse_rs1(&o),
                w.parse_rs2(&o),
                w.parse_imm(&o, vp::isa(b))
            )
        }
        Space::Op => {
            let o = vp::op_of(c);
            format!("opcode {o:?}: text {:?}, format {:?}, mnemonic {:?}", format!("{o}"), o.get_format(), vp::mnemonic_of(&o))
        }
    };
    let mut d = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| format!("{s:?} {a:#x} rv64={b} id={c}: the call itself panics"));
    let txt = catch_unwind(AssertUnwindSafe(|| match s {
        Space::W => (a as u32).decode(vp::isa(b)).ok().map(|i| format!("{i}")),
        Space::H => (a as u16).decode(vp::isa(b)).ok().map(|i| format!("{i}")),
        _ => None,
    }));
    match txt {
        Ok(Some(t)) => d += &format!(", text {t:?}"),
        Ok(None) => {}
        Err(_) => d += ", formatting or decoding panics",
    }
    d
}

fn run_enum(name: &str, mask: u8) -> i32 {
    let p = pred(name, mask);
    let fail: Mutex<Option<(u64, bool, u16, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let count = AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    let report = |a: u64, b: bool, c: u16, m: String| {
        let mut f = fail.lock().unwrap();
        if f.is_none() {
            *f = Some((a, b, c, m));
        }
        stop.store(true, Ordering::Relaxed);
    };
    // blocks of 2^16 values handed out through a counter
    let next = AtomicU64::new(0);
    let blocks: u64 = match p.0 {
        Space::W | Space::W1 | Space::U | Space::WF => 1 << 16,
        _ => 1,
    };
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let blk = next.fetch_add(1, Ordering::Relaxed);
                if blk >= blocks || stop.load(Ordering::Relaxed) {
                    break;
                }
                let mut n = 0u64;
                let one = |a: u64, b: bool, c: u16| {
                    if let Some(m) = eval(&p, a, b, c) {
                        report(a, b, c, m);
                    }
                };
                match p.0 {
                    Space::W | Space::H => {
                        for lo in 0..1u64 << 16 {
                            one(blk << 16 | lo, false, 0);
                            one(blk << 16 | lo, true, 0);
                            n += 2;
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                        }
                    }
                    Space::W1 | Space::H1 => {
                        for lo in 0..1u64 << 16 {
                            one(blk << 16 | lo, false, 0);
                            n += 1;
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                        }
                    }
                    Space::U => {
                        for lo in 0..1u64 << 16 {
                            one(blk << 16 | lo, false, 0);
                            // the same low word with something above bit 31
                            one((blk << 16 | lo) | 1 << (32 + (lo % 32)), false, 0);
                            n += 2;
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                        }
                    }
                    Space::WF => {
                        // sampled: all opcodes, words spread by an odd multiplier plus walking bits
                        let x = (blk.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32) as u32;
                        for id in 0..vp::N_OPS {
                            for k in 0..34u32 {
                                let w = match k {
                                    32 => x,
                                    33 => !x,
                                    _ => x ^ (1 << k),
                                };
                                one(w as u64, k & 1 == 1, id);
                                one(w as u64, k & 1 == 0, id);
                                n += 2;
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                        }
                    }
                    Space::HF => {
                        for lo in 0..1u64 << 16 {
                            for id in 0..vp::N_OPS {
                                one(lo, false, id);
                                one(lo, true, id);
                                n += 2;
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                        }
                    }
                    Space::Op => {
                        for id in 0..vp::N_OPS {
                            one(0, false, id);
                            n += 1;
                        }
                    }
                }
                count.fetch_add(n, Ordering::Relaxed);
            });
        }
    });
    println!("COUNT {}", count.load(Ordering::Relaxed));
    println!("COMPLETE {}", !matches!(p.0, Space::WF | Space::U));
    let f = fail.into_inner().unwrap();
    match f {
        None => 0,
        Some((a, b, c, m)) => {
            println!("INPUT {a:#x} {} {c}", b as u8);
            println!("WHY {m}");
            println!("DETAIL {}", describe(p.0, a, b, c).replace('\n', " "));
            1
        }
    }
}

fn num(s: &str) -> u64 {
    let r = match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16),
        None => s.parse(),
    };
    r.unwrap_or_else(|_| {
        eprintln!("bad number {s}");
        std::process::exit(2)
    })
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.load(Ordering::Relaxed) {
            hook(i)
        }
    }));
    QUIET.store(true, Ordering::Relaxed);
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("word") => {
            let (g, w) = (num(&a[2]) as usize, num(&a[4]) as u32);
            let op = vp::group_pick(g, num(&a[3]) as u8);
            if vp::is_c(&op) {
                let (m, v) = vp::fixed16(&op);
                println!("WORD p_text16 {:#x}", w as u16 & !m | v);
            } else {
                let (m, v) = vp::fixed32(&op);
                println!("WORD p_text32 {:#x}", w & !m | v);
            }
            0
        }
        Some("replay") => {
            let g = |i: usize| a.get(i).map_or(0, |s| num(s));
            let mask = if a.len() > 6 { g(6) as u8 } else { 7 };
            let p = pred(&a[2], mask);
            let (w, b, c) = (g(3), g(4) != 0, g(5) as u16);
            match eval(&p, w, b, c) {
                None => {
                    println!("HOLDS {}", describe(p.0, w, b, c));
                    0
                }
                Some(m) => {
                    println!("FAILS {m}");
                    println!("DETAIL {}", describe(p.0, w, b, c).replace('\n', " "));
                    1
                }
            }
        }
        // the specification's own reading of words given on stdin as "<16|32> <word> <rv64>" (for validate_llvm.py)
        Some("spec") => {
            use std::io::BufRead;
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let f: Vec<&str> = l.split_whitespace().collect();
                let (w, b) = (num(f[1]) as u32, f[2] == "1");
                let o = if f[0] == "16" { vp::find16(w as u16, b) } else { vp::find32(w, b) };
                match o {
                    None => println!("-"),
                    Some(o) => {
                        let m = vp::mnemonic_of(&o);
                        let k = vp::kind_of(&o);
                        let i = vp::make(o, w, b);
                        let n = |x: Option<usize>| x.map_or("-".to_string(), |v| v.to_string());
                        let im = i.imm.map_or("-".to_string(), |v| v.to_string());
                        println!("{m} {k:?} {} {} {} {im}", n(i.rd), n(i.rs1), n(i.rs2));
                    }
                }
            }
            0
        }
        // fence.i is refused (known finding): exit 1 while it is
        Some("fencei") => i32::from((num(&a[2]) as u32).decode(vp::isa(a.get(3).map_or(true, |s| s != "0"))).is_err()),
        Some("enum") => run_enum(&a[2], a.get(3).map_or(7, |s| num(s) as u8)),
        _ => {
            eprintln!("usage: native replay|enum ...");
            2
        }
    };
    std::process::exit(code);
}
