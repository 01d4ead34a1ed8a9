// Proofs of the opcodes' own text, included by a module that has the specification and toks.rs in scope.

/// the text of every opcode, one by one
fn names(lo: u16, hi: u16) {
    let mut id = lo;
    while id < hi {
        let (c14, c15) = judge_name(&op_of(id));
        assert!(c14, "C14");
        assert!(c15, "C15");
        id += 1;
    }
    kani::cover!(true);
}
macro_rules! names {
    ($($n:ident = $lo:expr, $hi:expr;)*) => {
        $(
        #[kani::proof]
        #[kani::unwind(14)]
        fn $n() {
            names($lo, $hi)
        }
        )*
    };
}
names! {
    n0 = 0, 10;
    n1 = 10, 20;
    n2 = 20, 30;
    n3 = 30, 40;
    n4 = 40, 50;
    n5 = 50, 60;
    n6 = 60, 70;
    n7 = 70, 80;
    n8 = 80, 90;
    n9 = 90, 100;
    n10 = 100, 110;
    n11 = 110, 120;
    n12 = 120, 130;
    n13 = 130, 140;
    n14 = 140, 145;
}
