"""What decides each property: harnesses of each layer, and native predicates."""
N_GROUPS = 48
GROUPS = [f"t::g{i}" for i in range(N_GROUPS)]
NAMES = [f"t::n{i}" for i in range(15)]

# which texts matter (spec/props.rs text_bad): 1 = C14, 2 = C15, 4 = C16
TEXT_MASK = {"C14": 1, "C15": 2, "C16": 4}

FMT = ["inst_fmt", "reg2str"]
# functions under contract in the proofs of NAMES
FMT_NAMES = ["op_fmt"] + [x + "_fmt" for x in ("basei", "m", "a", "c", "zifencei", "zicboz", "zicsr", "zicfiss", "zicntr", "priv")]

COMPOSE_ASSUME = ["raki's functions are functions of their arguments (checked on every run: no_std, no unsafe code, no statics, no foreign items, "
                  "no dependencies): the composition proofs (layer C) let each replaced callee return the same arbitrary value at every call."]
D32, D16 = ["u32_decode"], ["u16_decode"]

# I: predicates of spec/props.rs; M: lemmas and functions of vlib/inject.py (None: the names of I);
# C: composition proofs of spec/compose.rs; T: text proofs; N: predicates of the native enumeration (None: those of I)
PROPS = {
    "C01": dict(I=["p01_32", "p01_16", "p01_usize", "p01_field32", "p01_field16"], D=["usize_try_from"]),
    "C02": dict(I=["p02"], D=D32),
    "C03": dict(I=["p03"], D=D32),
    "C04": dict(I=["p04"], D=D32),
    "C05": dict(I=["p05"], D=D16),
    "C06": dict(I=["p06_32", "p06_16"], D=D32 + D16),
    "C07": dict(I=["p07_32", "p07_16", "p07_usize"], M=["p07_32", "p07_16"], C=["compose_usize"], D=["usize_try_from"], assume=COMPOSE_ASSUME),
    "C08": dict(I=["p08"], D=D32),
    "C09": dict(I=["p09"], D=D32),
    "C10": dict(I=["p10"], D=D16),
    "C11": dict(I=["p11"], D=D16),
    "C12": dict(I=["p12_32", "p12_16", "p12_op"], D=D32 + D16),
    "C13": dict(I=["p13_32", "p13_16", "p13_field32", "p13_field16"], M=["p13_field32", "p13_field16"], C=["compose32", "compose16"],
                D=D32 + D16, assume=COMPOSE_ASSUME),
    "C14": dict(I=["p_wf32", "p_wf16"], T=GROUPS + NAMES, N=["p14_op", "p_text16", "p_text32"], D=D32 + D16 + FMT),
    "C15": dict(I=["p_wf32", "p_wf16"], T=GROUPS + NAMES, N=["p15_op", "p_text16", "p_text32"], D=D32 + D16 + FMT),
    "C16": dict(I=["p_wf32", "p_wf16"], T=GROUPS, N=["p_text16", "p_text32"], D=D32 + D16 + FMT),
    "C17": dict(I=["p17_32", "p17_16"], D=D32 + D16),
    "C18": dict(I=["p18_32", "p18_16"], D=D32 + D16),
}
for _p in PROPS.values():
    _p.setdefault("N", _p["I"])
    _p["M"] = _p.get("M", _p["I"]) + _p.pop("D")
