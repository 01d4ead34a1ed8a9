//! Inlined proofs: each harness quantifies over all inputs of a property predicate (props.rs) and verifies the whole
//! call tree of the public API on /repo's crate itself.  No contract is assumed and no function is replaced.
#![allow(dead_code, unused_parens, unused_variables)]
#![allow(clippy::all)]

mod vp {
    use raki::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/table.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/rows.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/spec.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/props.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/toks.rs"));
}

#[cfg(kani)]
mod h {
    use super::vp::*;

    // the inputs are drawn in a fixed order (value, width, opcode id) so that a counterexample can be read back
    macro_rules! w {
        ($n:ident) => {
            #[kani::proof]
            #[kani::unwind(70)]
            fn $n() {
                let w: u32 = kani::any();
                let b: bool = kani::any();
                kani::cover!(w & 3 == 3 && b);
                assert!(super::vp::$n(w, b), "property");
            }
        };
    }
    macro_rules! h {
        ($n:ident) => {
            #[kani::proof]
            #[kani::unwind(70)]
            fn $n() {
                let w: u16 = kani::any();
                let b: bool = kani::any();
                kani::cover!(w & 3 != 3 && b);
                assert!(super::vp::$n(w, b), "property");
            }
        };
    }
    macro_rules! one {
        ($n:ident, $t:ty) => {
            #[kani::proof]
            #[kani::unwind(70)]
            fn $n() {
                let w: $t = kani::any();
                kani::cover!(w & 3 == 3);
                assert!(super::vp::$n(w), "property");
            }
        };
    }
    macro_rules! field {
        ($n:ident, $t:ty) => {
            #[kani::proof]
            #[kani::unwind(70)]
            fn $n() {
                let w: $t = kani::any();
                let b: bool = kani::any();
                let id: u16 = kani::any();
                kani::assume(id < N_OPS);
                kani::cover!(id == N_OPS - 1);
                assert!(super::vp::$n(w, b, id), "property");
            }
        };
    }
    macro_rules! op {
        ($n:ident) => {
            #[kani::proof]
            #[kani::unwind(70)]
            fn $n() {
                let id: u16 = kani::any();
                kani::assume(id < N_OPS);
                kani::cover!(id == N_OPS - 1);
                assert!(super::vp::$n(id), "property");
            }
        };
    }
    w!(p01_32);
    h!(p01_16);
    one!(p01_usize, usize);
    field!(p01_field32, u32);
    field!(p01_field16, u16);
    w!(p02);
    w!(p03);
    w!(p04);
    h!(p05);
    one!(p06_32, u32);
    one!(p06_16, u16);
    w!(p07_32);
    h!(p07_16);
    one!(p07_usize, usize);
    w!(p08);
    w!(p09);
    h!(p10);
    h!(p11);
    w!(p12_32);
    h!(p12_16);
    op!(p12_op);
    w!(p13_32);
    h!(p13_16);
    field!(p13_field32, u32);
    field!(p13_field16, u16);
    w!(p_wf32);
    h!(p_wf16);
    w!(p17_32);
    h!(p17_16);
    w!(p18_32);
    h!(p18_16);
}

/// Composition proofs (see compose.rs).
#[cfg(kani)]
mod c {
    use super::vp::*;
    use raki::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/compose.rs"));
}

/// Text proofs (see text.rs, names.rs).
#[cfg(kani)]
mod t {
    use super::vp::*;
    use raki::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/text.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/names.rs"));
}
