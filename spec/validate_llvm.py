#!/usr/bin/env python3
"""Cross-checks the specification (table.rs + spec.rs, as compiled into /verif/native) against LLVM's RISC-V
disassembler: every halfword, and ~300k 32-bit words (random members of every row, single-bit neighbours of them,
random words), for both widths: same instruction, same operands.  Development-time validation, not run by the checks.
Prints the classes of differences; the expected ones are listed in EXPECTED."""
import random, re, subprocess, sys, os, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_table as g

NATIVE = "/verif/native/target/release/native"
ABI = "zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split()
ATTR = "+m,+a,+c,+zicboz,+experimental-zicfiss,+experimental-zimop,+experimental-zcmop"

def llvm(words, size, rv64):
    inp = "\n".join(" ".join("0x%02x" % b for b in w.to_bytes(size, "little")) for w in words)
    p = subprocess.run(["llvm-mc", "-disassemble", "-triple=riscv%d" % (64 if rv64 else 32), "-mattr=" + ATTR,
                        "-M", "no-aliases", "-M", "numeric"], input=inp, capture_output=True, text=True)
    bad = {int(m) for m in re.findall(r"<stdin>:(\d+):\d+: warning: invalid", p.stderr)}
    lines = [l.strip() for l in p.stdout.splitlines() if l.strip() and not l.strip().startswith(".text")]
    out, it = [], iter(lines)
    for i in range(len(words)):
        out.append(None if i + 1 in bad else next(it))
    assert next(it, None) is None
    return out

def spec(words, size, rv64):
    inp = "\n".join(f"{size*8} {w:#x} {int(rv64)}" for w in words)
    p = subprocess.run([NATIVE, "spec"], input=inp, capture_output=True, text=True, check=True)
    return p.stdout.splitlines()

def nums(text):
    """registers and numbers of an LLVM line, in order"""
    ops = text.split(None, 1)[1] if len(text.split(None, 1)) > 1 else ""
    return [("r", int(t[1:])) if re.fullmatch(r"x\d+", t) else ("i", int(t)) for t in re.findall(r"x\d+|-?\d+", ops)]

CSRN = {"cycle": 0xc00, "time": 0xc01, "instret": 0xc02, "cycleh": 0xc80, "timeh": 0xc81, "instreth": 0xc82}

def classify(w, size, rv64, s, l):
    """None = agree, else a class label"""
    if l and re.match(r"(c\.)?mop\.|unimp|c\.unimp", l):
        l = None
    if s == "-" and l is None:
        return None
    if s == "-":
        return "llvm only: " + l.split()[0]
    mn, kind, rd, rs1, rs2, imm = s.split()
    if l is None:
        return f"spec only: {mn}" + (" (reserved operand value)" if size == 2 or kind == "X" else "")
    lm = l.split()[0]
    if kind == "Cnt" and mn.startswith("rd"):
        ok = lm == "csrrs"
    elif kind in ("Amo", "Lr", "SsAmo"):
        ok = re.sub(r"\.(aqrl|aq|rl)$", "", lm) == mn
    elif lm in ("fence.tso",):
        ok = mn == "fence"
    else:
        ok = lm == mn.lower()
    if not ok:
        return f"name: spec {mn} llvm {lm}"
    n = nums(l)
    g_ = lambda x: int(x)
    if kind in ("N", "Fence", "CNone", "CNop"):
        return None
    exp = {
        "U": lambda: [("r", g_(rd)), ("i", g_(imm))], "J": lambda: [("r", g_(rd)), ("i", g_(imm))],
        "B": lambda: [("r", g_(rs1)), ("r", g_(rs2)), ("i", g_(imm))],
        "S": lambda: [("r", g_(rs2)), ("i", g_(imm)), ("r", g_(rs1))],
        "R": lambda: [("r", g_(rd)), ("r", g_(rs1)), ("r", g_(rs2))],
        "Sh": lambda: [("r", g_(rd)), ("r", g_(rs1)), ("i", g_(imm))],
        "ShW": lambda: [("r", g_(rd)), ("r", g_(rs1)), ("i", g_(imm))],
        "Lr": lambda: [("r", g_(rd)), ("r", g_(rs1))],
        "Amo": lambda: [("r", g_(rd)), ("r", g_(rs2)), ("r", g_(rs1))],
        "SsAmo": lambda: [("r", g_(rd)), ("r", g_(rs2)), ("r", g_(rs1))],
        "Cbo": lambda: [("r", g_(rs1))], "SsPop": lambda: [("r", g_(rs1))], "SsPush": lambda: [("r", g_(rs2))],
        "Sfence": lambda: [("r", g_(rs1)), ("r", g_(rs2))],
        "CSsPush": lambda: [("r", g_(rd))], "CSsPop": lambda: [("r", g_(rd))],
        "CAddi4spn": lambda: [("r", g_(rd)), ("r", 2), ("i", g_(imm))],
        "CLw": lambda: [("r", g_(rd)), ("i", g_(imm)), ("r", g_(rs1))],
        "CLd": lambda: [("r", g_(rd)), ("i", g_(imm)), ("r", g_(rs1))],
        "CSw": lambda: [("r", g_(rs2)), ("i", g_(imm)), ("r", g_(rs1))],
        "CSd": lambda: [("r", g_(rs2)), ("i", g_(imm)), ("r", g_(rs1))],
        "CAddi": lambda: [("r", g_(rd)), ("i", g_(imm))], "CLi": lambda: [("r", g_(rd)), ("i", g_(imm))],
        "CAddi16sp": lambda: [("r", g_(rd)), ("i", g_(imm))], "CSlli": lambda: [("r", g_(rd)), ("i", g_(imm))],
        "CLui": lambda: [("r", g_(rd)), ("i", (g_(imm) >> 12) & 0xfffff)],
        "CShift": lambda: [("r", g_(rs1)), ("i", g_(imm))], "CAndi": lambda: [("r", g_(rs1)), ("i", g_(imm))],
        "CB": lambda: [("r", g_(rs1)), ("i", g_(imm))], "CA": lambda: [("r", g_(rd)), ("r", g_(rs2))],
        "CJ": lambda: [("i", g_(imm))], "CJr": lambda: [("r", g_(rs1))], "CMv": lambda: [("r", g_(rd)), ("r", g_(rs2))],
        "CAdd": lambda: [("r", g_(rd)), ("r", g_(rs2))],
        "CLwsp": lambda: [("r", g_(rd)), ("i", g_(imm)), ("r", 2)], "CLdsp": lambda: [("r", g_(rd)), ("i", g_(imm)), ("r", 2)],
        "CSwsp": lambda: [("r", g_(rs2)), ("i", g_(imm)), ("r", 2)], "CSdsp": lambda: [("r", g_(rs2)), ("i", g_(imm)), ("r", 2)],
    }
    if kind == "I":
        e = [("r", g_(rd)), ("i", g_(imm)), ("r", g_(rs1))] if "(" in l else [("r", g_(rd)), ("r", g_(rs1)), ("i", g_(imm))]
    elif kind == "Cnt":
        e = [("r", g_(rd))]
        n = n[:1]
    elif kind in ("Csr", "CsrI"):
        # the CSR may be printed by name: only compare the rest, and the number when it is one
        ops = [o.strip() for o in l.split(None, 1)[1].split(",")]
        e = [f"x{rd}", f"x{rs1}" if kind == "Csr" else imm]
        n = [ops[0], ops[2]]
        if ops[1].isdigit():
            e.append(rs2)
            n.append(ops[1])
    else:
        e = exp[kind]()
    return None if e == n else f"operands: {mn}: spec {e} llvm {l}" if os.environ.get("FULL") else f"operands: {mn} ({l} vs {e})"

def main():
    random.seed(7)
    diffs = collections.OrderedDict()
    total = 0
    for rv64 in (False, True):
        hw = [h for h in range(1, 65536) if h & 3 != 3]
        ws = set()
        for row in g.ROWS32:
            for _ in range(400):
                w = (random.getrandbits(32) & ~row[3]) | row[4]
                ws.add(w)
                ws.add(w ^ (1 << random.randrange(2, 32)))
                ws.add(w ^ (1 << random.randrange(2, 32)) ^ (1 << random.randrange(2, 32)))
        for _ in range(100000):
            ws.add(random.getrandbits(32) | 3)
        ws = sorted(ws)
        for words, size in ((hw, 2), (ws, 4)):
            for i in range(0, len(words), 50000):
                ch = words[i:i + 50000]
                for w, s, l in zip(ch, spec(ch, size, rv64), llvm(ch, size, rv64)):
                    total += 1
                    c = classify(w, size, rv64, s, l)
                    if c:
                        diffs.setdefault(("rv64 " if rv64 else "rv32 ") + c.split(" (")[0], []).append((hex(w), s, l))
    print("compared", total)
    for k, v in diffs.items():
        print(f"{len(v):7d} {k}   e.g. {v[0]}")

if __name__ == "__main__":
    main()
