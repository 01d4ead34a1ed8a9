"""Layer M: contracts attached mechanically to a scratch copy of /repo's sources.

The copy is verbatim except for what is added: a contract attribute before each function of TARGETS, a
`derive(kani::Arbitrary)` on raki's own types, `pub(crate)` on private free functions, and one module (`decode::vp`) with the specification and the harnesses.
Nothing is removed or rewritten.  If a function of TARGETS is not where it is expected, or has another parameter list, it
gets no contract and is verified inside its callers; a function of the public API must be there (else: Mismatch).
"""
import os, re, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mismatch(Exception):
    pass


FLAGS = ("--no-assertion-reach-checks",)
ASSUMPTIONS = [
    "Layer M verifies a copy of /repo/src to which attributes, one module and pub(crate) were added; removing them again leaves the sources that are compiled (checked on every run).",
    "Quick tier: a contract is discharged by assuming the precondition, calling the function and having the verifier assert the contract at the call; "
    "that the function writes nothing the caller can see is not a checked obligation there (all of these functions take values and shared references; "
    "the thorough tier checks it with proof_for_contract).",
]
V = "crate::decode::vp::"
ENUM = dict(basei="BaseIOpcode", m="MOpcode", a="AOpcode", c="COpcode", zifencei="ZifenceiOpcode", zicboz="ZicbozOpcode",
            zicsr="ZicsrOpcode", zicfiss="ZicfissOpcode", zicntr="ZicntrOpcode", priv="PrivOpcode")
FILE = {x: (x if x != "basei" else "base_i") if x == "basei" else x + "_extension" for x in ENUM}
FILE["basei"] = "base_i"
KIND = dict(basei="BaseI", m="M", a="A", c="C", zifencei="Zifencei", zicboz="Zicboz", zicsr="Zicsr", zicfiss="Zicfiss",
            zicntr="Zicntr", priv="Priv")
EXT32 = ["basei", "m", "a", "zifencei", "zicboz", "zicntr", "zicsr", "zicfiss", "priv"]


class Target:
    def __init__(self, name, file, inside, fn, params, requires, ensures, path, call, stubs=(), unwind=34, public=False, text=False, generic=None, inlines=()):
        self.name, self.file, self.inside, self.fn = name, file, inside, fn
        self.params, self.requires, self.ensures = params, requires, ensures
        self.path, self.call, self.stubs, self.unwind = path, call, list(stubs), unwind
        # public: part of the API the lemmas use; text: the contract speaks about what is written (see spec/text.rs)
        # generic: the type that stands for the parameter T in this verification of a generic function
        self.public, self.text, self.generic = public, text, generic
        self.inlines = list(inlines)        # contracted callees that stay inlined here


TARGETS = {}


def t(name, *a, **k):
    TARGETS[name] = Target(name, *a, **k)


# ---- bit utilities
for ty, n, b in (("u32", 32, "bits"), ("u16", 16, "bits16")):
    f = "decode/inst_%d.rs" % n
    t(f"{ty}_slice", f, f"impl DecodeUtil for {ty}", "slice", ["self", "u32", "u32"], f"slice_pre($1, $2, {n})",
      f"*r == {b}($0, $1, $2)", f"<{ty} as DecodeUtil>::slice", "DecodeUtil::slice($v, $1, $2)")
    t(f"{ty}_set", f, f"impl DecodeUtil for {ty}", "set", ["self", "&[u32]"], f"set_pre($1, {20 if n == 32 else 12})",
      "set_is($0 as u32, $1, *r)", f"<{ty} as DecodeUtil>::set", "DecodeUtil::set($v, $1)", unwind=22)

    t(f"{ty}_signed", "decode.rs", "trait DecodeUtil", "to_signed_nbit", ["&self", "i32", "u32"], "signed_pre($2)",
      "signed_is($1, $2, *r)", f"<{ty} as DecodeUtil>::to_signed_nbit", "DecodeUtil::to_signed_nbit(&$v, $1, $2)")

# ---- the width gate (generic: one verification per type it is used with; inlined in its callers, which
# assert the contract at the call)
WITH_ISA = {"basei", "m", "a", "zicfiss"}
GATED = ["basei", "m", "a", "c", "zicfiss"]
for x in GATED:
    t(f"only_rv64_{x}", "decode.rs", None, "only_rv64", ["T", "Isa"], None, "gate(is64(&$1), r, old(core::mem::discriminant(&$0)))", "crate::decode::only_rv64", None,
      generic=ENUM[x])

# ---- 32-bit extensions
PRE = {"basei", "a", "m", "zifencei", "zicfiss", "zicntr", "priv"}
for x in EXT32:
    f, ins, p = f"decode/{FILE[x]}.rs", "mod bit_32", f"crate::decode::{FILE[x]}::bit_32::"
    isa = x in WITH_ISA
    t(f"{x}32_opcode", f, ins, "parse_opcode", ["u32"] + (["Isa"] if isa else []), f"pre_{x}32($0)" if x in PRE else None,
      f"op_{x}32($0, {'is64(&$1), ' if isa else ''}r)", p + "parse_opcode", None, ["u32_slice"],
      inlines=[f"only_rv64_{x}"] if x in GATED else [])
    for fld in ("rd", "rs1", "rs2", "imm"):
        spec = {"rd": "rd32", "rs1": "rs1_32", "rs2": "rs2_32", "imm": "imm32"}[fld]
        pi = fld == "imm" and x == "basei"
        kind = f"kind_{x}($1)"
        want = f"{spec}($0, {kind}" + ((", is64(&$2))" if pi else ", true)") if fld == "imm" else ")")
        t(f"{x}32_{fld}", f, ins, f"parse_{fld}", ["u32", "&" + ENUM[x]] + (["Isa"] if pi else []),
          "ss32($1)" if x == "zicfiss" else None, f"{'imm' if fld == 'imm' else 'reg'}_is(r, {want})", p + f"parse_{fld}", None,
          ["u32_slice"] + (["u32_set", "u32_signed"] if pi else []))

# ---- 16-bit extensions
f, ins, p = "decode/c_extension.rs", "mod bit_16", "crate::decode::c_extension::bit_16::"
for q in (0, 1, 2):
    t(f"c16_quadrant{q}", f, ins, f"quadrant{q}", ["u16", "u8", "Isa"], f"quadrant_pre($0, $1, {q})", f"quadrant($0, is64(&$2), {q}, r)",
      p + f"quadrant{q}", None, ["u16_slice"], inlines=["only_rv64_c"])
t("c16_opcode", f, ins, "parse_opcode", ["u16", "Isa"], None, "op_c16($0, is64(&$1), r)", p + "parse_opcode", None,
  ["u16_slice", "c16_quadrant0", "c16_quadrant1", "c16_quadrant2"])
t("zicfiss16_opcode", "decode/zicfiss_extension.rs", ins, "parse_opcode", ["u16", "Isa"], None, "op_zicfiss16($0, is64(&$1), r)",
  "crate::decode::zicfiss_extension::bit_16::parse_opcode", None, [])
for x in ("c", "zicfiss"):
    f, p = f"decode/{FILE[x]}.rs", f"crate::decode::{FILE[x]}::bit_16::"
    for fld in ("rd", "rs1", "rs2", "imm"):
        spec = {"rd": "rd16", "rs1": "rs1_16", "rs2": "rs2_16", "imm": "imm16"}[fld]
        t(f"{x}16_{fld}", f, ins, f"parse_{fld}", ["u16", "&" + ENUM[x]], "ss16($1)" if x == "zicfiss" else None,
          f"{'imm' if fld == 'imm' else 'reg'}_is(r, {spec}($0, kind_{x}($1)))", p + f"parse_{fld}", None,
          ["u16_slice"] + (["u16_set", "u16_signed"] if fld == "imm" else []) if x == "c" else [])

# ---- formats
for x in ENUM:
    t(f"{x}_format", f"instruction/{FILE[x]}.rs", f"impl Opcode for {ENUM[x]}", "get_format", ["&self"], None,
      f"format_is(r, format_{x}($0))", f"<{ENUM[x]} as Opcode>::get_format", f"Opcode::get_format(&kani::any::<{ENUM[x]}>())")
t("op_format", "instruction.rs", "impl OpcodeKind", "get_format", ["&self"], None, "format_is(r, format_of($0))",
  "OpcodeKind::get_format", "kani::any::<OpcodeKind>().get_format()", [f"{x}_format" for x in ENUM], public=True)

# ---- text
FMT = ["&self", "&mutFormatter"]
t("reg2str", "instruction.rs", None, "reg2str", ["usize"], "$0 < 32", "name_is(*r, abi($0))", "crate::instruction::reg2str", None)
for x in ENUM:
    t(f"{x}_fmt", f"instruction/{FILE[x]}.rs", f"impl Display for {ENUM[x]}", "fmt", FMT, f"ghost_wants(name_{x}($0))",
      "ghost_name(r.is_ok())", f"<{ENUM[x]} as core::fmt::Display>::fmt", None, text=True)
t("op_fmt", "instruction.rs", "impl Display for OpcodeKind", "fmt", FMT, "ghost_wants(mnemonic_of($0))", "ghost_name(r.is_ok())",
  "<OpcodeKind as core::fmt::Display>::fmt", None, text=True)
t("inst_fmt", "instruction.rs", "impl Display for Instruction", "fmt", FMT, "ghost_ready($0)", "ghost_text(r.is_ok())",
  "<Instruction as core::fmt::Display>::fmt", None, text=True)

# ---- the public functions
for ty, n in (("u32", 32), ("u16", 16)):
    f = f"decode/inst_{n}.rs"
    ex = EXT32 if n == 32 else ["c", "zicfiss"]
    own = "!is_c($1)" if n == 32 else "is_c($1)"
    t(f"{ty}_extension", f, f"impl DecodeUtil for {ty}", "parse_extension", ["self"], None, f"ext{n}($0, r)",
      f"<{ty} as DecodeUtil>::parse_extension", "DecodeUtil::parse_extension($v)", [f"{ty}_slice"])
    t(f"{ty}_opcode", f, f"impl Decode for {ty}", "parse_opcode", ["self", "Isa"], None, f"op{n}($0, is64(&$1), r)",
      f"<{ty} as Decode>::parse_opcode", "Decode::parse_opcode($v, $1)",
      [f"{ty}_slice", f"{ty}_extension"] + [f"{x}{n}_opcode" for x in ex], public=True)
    for fld in ("rd", "rs1", "rs2", "imm"):
        spec = {"rd": "rd", "rs1": "rs1_", "rs2": "rs2_", "imm": "imm"}[fld] + str(n)
        want = f"{spec}($0, kind_of($1)" + (", is64(&$2))" if fld == "imm" and n == 32 else ")")
        t(f"{ty}_{fld}", f, f"impl Decode for {ty}", f"parse_{fld}", ["self", "&OpcodeKind"] + (["Isa"] if fld == "imm" else []), None,
          f"c13_{'imm' if fld == 'imm' else 'reg'}(r, {own}, {want})", f"<{ty} as Decode>::parse_{fld}",
          f"Decode::parse_{fld}($v, $1{', $2' if fld == 'imm' else ''})", [f"{x}{n}_{fld}" for x in ex], public=True)
    t(f"{ty}_decode", f, f"impl Decode for {ty}", "decode", ["&self", "Isa"], None, f"decode{n}(*$0, is64(&$1), r)",
      f"<{ty} as Decode>::decode", "Decode::decode(&$v, $1)",
      [f"{ty}_opcode", f"{ty}_rd", f"{ty}_rs1", f"{ty}_rs2", f"{ty}_imm", "op_format"], public=True)
t("usize_try_from", "lib.rs", "impl TryFrom<usize> for Instruction", "try_from", ["usize"], None, "decode_usize($0, r)",
  "<Instruction as core::convert::TryFrom<usize>>::try_from", None, ["u32_decode", "u16_decode"], public=True)

TYPES = [("lib.rs", "Isa"), ("lib.rs", "Extensions"), ("decode.rs", "DecodingError"), ("instruction.rs", "OpcodeKind"),
         ("instruction.rs", "InstFormat"), ("instruction.rs", "Instruction")] + [(f"instruction/{FILE[x]}.rs", ENUM[x]) for x in ENUM]

# ---- property lemmas: predicates of props.rs with the public functions replaced by their contracts
D32 = [f"u32_{x}" for x in ("opcode", "rd", "rs1", "rs2", "imm")] + ["op_format"]
D16 = [x.replace("u32", "u16") for x in D32]
F32, F16 = [f"u32_{x}" for x in ("rd", "rs1", "rs2", "imm")], [f"u16_{x}" for x in ("rd", "rs1", "rs2", "imm")]
LEMMAS = {}
for p in ("p02", "p03", "p04", "p07_32", "p08", "p09", "p12_32", "p17_32", "p18_32", "p_wf32"):
    LEMMAS[p] = ("u32", True, D32)
for p in ("p05", "p07_16", "p10", "p11", "p12_16", "p17_16", "p18_16", "p_wf16"):
    LEMMAS[p] = ("u16", True, D16)
LEMMAS["p01_32"] = ("u32", True, D32)
LEMMAS["p01_16"] = ("u16", True, D16)
LEMMAS["p06_32"] = ("u32", False, D32)
LEMMAS["p06_16"] = ("u16", False, D16)
LEMMAS["p01_usize"] = ("usize", False, D32 + D16[:-1])
LEMMAS["p12_op"] = ("op", False, ["op_format"])
for p in ("p01", "p13"):
    LEMMAS[p + "_field32"] = ("u32f", True, F32)
    LEMMAS[p + "_field16"] = ("u16f", True, F16)
# not run through proof_for_contract: minutes or more memory than there is
SLOW = ("u32_opcode", "u16_opcode", "u32_decode", "u16_decode", "u32_set", "u16_set")


def cone(names):
    """The named targets and, transitively, those whose contracts their proofs use."""
    seen, todo = [], list(names)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.append(n)
            todo += TARGETS[n].stubs + TARGETS[n].inlines
    return [n for n in TARGETS if n in seen]


# ------------------------------------------------------------------ sources

def mask(s):
    """The text with comments, strings and character literals blanked, same length."""
    out, i, n = list(s), 0, len(s)

    def blank(a, b):
        for k in range(a, min(b, n)):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif s[i] == '"' or re.match(r'b?r#*"', s[i:i + 12]) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            m = re.match(r'b?r(#*)"', s[i:i + 12])
            if m:
                j = s.find('"' + m.group(1), i + m.end())
                j = n if j < 0 else j + 1 + len(m.group(1))
            else:
                j = i + 1
                while j < n and s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            blank(i, j)
            i = j
        elif s[i] == "'":
            m = re.match(r"'(\\[^']+|\\'|[^\\'])'", s[i:i + 14])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def close(m, i):
    """Index after the bracket that closes the one at i."""
    pair = {"{": "}", "(": ")", "[": "]"}
    st = []
    while i < len(m):
        if m[i] in pair:
            st.append(pair[m[i]])
        elif m[i] in "})]":
            if not st or st.pop() != m[i]:
                raise Mismatch("brackets do not match")
            if not st:
                return i + 1
        i += 1
    raise Mismatch("brackets do not match")


def block(m, head, lo, hi):
    """(start, end) of the body of the one block `head {` in m[lo:hi]."""
    if head is None:
        return 0, len(m)
    rx = r"\b" + r"\s+".join(re.escape(x) for x in head.split()) + r"\s*\{"
    found = list(re.finditer(rx, m[lo:hi]))
    if len(found) != 1:
        raise Mismatch(f"`{head}` found {len(found)} times")
    a = lo + found[0].end() - 1
    return a, close(m, a)


def split_params(p):
    out, d, cur = [], 0, ""
    for ch in p:
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


def function(m, fn, lo, hi):
    """(insertion point, [(name, type)]) of the one function `fn` in m[lo:hi] at the block's own level."""
    found = []
    for x in re.finditer(r"(?:\bpub(?:\s*\([^)]*\))?\s+)?(?:\bconst\s+)?\bfn\s+" + fn + r"\s*(?:<[^>]*>)?\s*\(", m[lo:hi]):
        depth = m[lo + 1:lo + x.start()].count("{") - m[lo + 1:lo + x.start()].count("}")
        if depth == 0:
            found.append(x)
    if len(found) != 1:
        raise Mismatch(f"`fn {fn}` found {len(found)} times")
    x = found[0]
    a = lo + x.end() - 1
    ps = []
    for p in split_params(m[a + 1:close(m, a) - 1]):
        p = re.sub(r"\s+", " ", p)
        if p in ("self", "&self"):
            ps.append(("self", p))
        else:
            q = re.fullmatch(r"(?:mut )?([A-Za-z_]\w*) ?: ?(.+)", p)
            if not q:
                raise Mismatch(f"parameter `{p}` of {fn}")
            ps.append((q.group(1), q.group(2).replace(" ", "")))
    return lo + x.start(), ps


def pure(repo):
    """Reason why raki's functions might not be functions of their arguments alone, or None: the crate is no_std, and
    has no unsafe code, no statics, no foreign items and no other crates."""
    top = os.path.join(repo, "src")
    if not re.search(r"#!\[(cfg_attr\(not\(test\), )?no_std\)?\]", mask(open(os.path.join(top, "lib.rs")).read())):
        return "the crate is not no_std"
    for d, _, fs in os.walk(top):
        for f in fs:
            if f.endswith(".rs"):
                m = re.search(r"(?<!')\bstatic\b|\bunsafe\b|\bextern\b|\basm!", mask(open(os.path.join(d, f)).read()))
                if m:
                    return f"{f} has `{m.group(0)}`"
    if re.search(r"^\[(target\..*)?dependencies", open(os.path.join(repo, "Cargo.toml")).read(), re.M):
        dep = re.search(r"^\[(?:target\..*)?dependencies[^\n]*\n((?:(?!\[).*\n?)*)", open(os.path.join(repo, "Cargo.toml")).read(), re.M).group(1)
        if dep.strip():
            return "the crate has dependencies"
    return None


def build(repo, work, want, frames=False, name="m"):
    """Writes the annotated copy `name`; returns (crate directory, harness names, functions without their contract).
    `want`: predicates and functions to establish."""
    out = os.path.join(work, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(out, "src"))
    for f in ("Cargo.toml", "Cargo.lock", "README.md"):
        if os.path.exists(os.path.join(repo, f)):
            shutil.copy(os.path.join(repo, f), out)
    with open(os.path.join(out, "Cargo.toml"), "a") as g:
        if "[workspace]" not in open(os.path.join(repo, "Cargo.toml")).read():
            g.write("\n[workspace]\n")
    # which functions
    need, lem = [], []
    for w in want:
        if w in LEMMAS:
            lem.append(w)
            need += LEMMAS[w][2]
        else:
            need.append(w)
    need = [TARGETS[n] for n in cone(need)]
    texts = [tg.name for tg in need if tg.text]
    ins, use, dropped = {}, [], []
    for tg in need:
        path = os.path.join(out, "src", tg.file)
        try:
            try:
                m = mask(open(path).read())
            except OSError:
                raise Mismatch("no such file")
            lo, hi = block(m, tg.inside, 0, len(m))
            at, ps = function(m, tg.fn, lo, hi)
            if [re.sub(r"(core::)?(fmt::)?Formatter(<'_>)?", "Formatter", p[1]) for p in ps] != tg.params:
                raise Mismatch(f"{tg.fn} has parameters {ps}, expected {tg.params}")
        except Mismatch as e:
            if tg.public:
                raise Mismatch(f"{tg.file}: {e}")
            dropped.append(f"{tg.path} ({tg.file}: {e})")
            continue
        use.append(tg.name)

        def fill(e):
            for k, (nm, _) in enumerate(ps):
                e = e.replace(f"${k}", nm)
            return e
        def full(e):
            return fill(re.sub(r"(?<![\w:.$])(?!old\()([a-z]\w*)\(", lambda q: V + q.group(1) + "(", e))
        text = f"#[cfg_attr(kani, kani::requires({full(tg.requires)}))]\n" if tg.requires else ""
        text += f"#[cfg_attr(kani, kani::ensures(|r| {full(tg.ensures)}))]\n"
        if (tg.inside or "mod ").startswith("mod ") and not m.startswith("pub", at):
            text += "pub(crate) "
        if (at, text) not in ins.setdefault(tg.file, []):
            ins[tg.file].append((at, text))
    for f, ty in TYPES:
        m = mask(open(os.path.join(out, "src", f)).read())
        found = list(re.finditer(r"(?:\bpub(?:\s*\([^)]*\))?\s+)?\b(?:enum|struct)\s+" + ty + r"\b", m))
        if len(found) != 1:
            raise Mismatch(f"{f}: type {ty} found {len(found)} times")
        ins.setdefault(f, []).append((found[0].start(), "#[cfg_attr(kani, derive(kani::Arbitrary))]\n"))
    for f, l in ins.items():
        p = os.path.join(out, "src", f)
        s = orig = open(p).read()
        for at, text in sorted(l, reverse=True):
            s = s[:at] + text + s[at:]
        open(p, "w").write(s)
        # taking the additions out again gives the original
        for at, text in sorted(l):
            s = s[:at] + s[at + len(text):]
        if s != orig:
            raise Mismatch(f"{f}: additions overlap")
    with open(os.path.join(out, "src", "decode.rs"), "a") as g:
        g.write("\n#[cfg(kani)]\n#[allow(dead_code, unused_imports, unused_parens, clippy::all)]\n#[path = \"vp.rs\"]\npub(crate) mod vp;\n")
    with open(os.path.join(out, "src", "vp.rs"), "w") as g:
        g.write(harnesses(use, lem, texts))
    k = [n for n in use if not TARGETS[n].text]
    names = [f"decode::vp::m::k_{n}" for n in k] + [f"decode::vp::m::l_{n}" for n in lem]
    if frames:
        names += [f"decode::vp::m::c_{n}" for n in k if n not in SLOW and not TARGETS[n].generic]
    return out, names, dropped


def draw(ty):
    return {"&[u32]": "&a[..n]"}.get(ty) or (f"&kani::any::<{ty[1:]}>()" if ty.startswith("&") else f"kani::any::<{ty}>()")


def self_owner(tg):
    if tg.inside is None:
        return ""
    m = re.search(r"for (\w+)$", tg.inside) or re.match(r"(u\d\d)_", tg.name)
    return m.group(1) if m else tg.inside.split()[-1]


def harnesses(use, lem, texts):
    sp = os.path.join(HERE, "spec")
    o = ["use crate::*;", "use crate::instruction::Opcode;", "use super::DecodeUtil;"]
    o += [f'include!("{sp}/{f}.rs");' for f in ("table", "rows", "spec", "props", "contracts")]
    if texts:
        o.append(f'include!("{sp}/toks.rs");')
        # (a function cannot both have a contract and be replaced, so the two are never together)
        o.append(f'pub mod t {{\nuse super::*;\ninclude!("{sp}/{"names" if "op_fmt" in texts else "text"}.rs");\n}}')
    o += ["pub mod m {", "use super::*;"]
    stub = lambda l: [f"#[kani::stub_verified({TARGETS[s].path})]" for s in l if s in use]
    for tg in [TARGETS[n] for n in use if not TARGETS[n].text]:
        self_ty = "u16" if tg.name.startswith("u16") else "u32"
        size = 20 if self_ty == "u32" else 12
        pre = f"    let a: [u32; {size}] = kani::any();\n    let n: usize = kani::any();\n    kani::assume(n <= {size});\n" if "&[u32]" in tg.params else ""
        params = [tg.generic if p == "T" else p for p in tg.params]
        if not tg.generic:
            call = tg.call or tg.path + "(" + ", ".join(f"${k}" for k in range(len(params))) + ")"
            for k, p in enumerate(params):
                if p not in ("self", "&self"):
                    call = call.replace(f"${k}", draw(p))
            call = call.replace("$v", f"kani::any::<{self_ty}>()")
            o.append(f"#[kani::proof_for_contract({tg.path})]\n#[kani::unwind({tg.unwind})]")
            o += stub(tg.stubs)
            o.append(f"fn c_{tg.name}() {{\n{pre}    let _ = {call};\n    kani::cover!(true);\n}}")
        names, body = [], [pre.rstrip()] if pre else []
        for k, p in enumerate(params):
            ty = p.replace("&self", "&" + self_owner(tg)).replace("self", self_owner(tg)) if "self" in p else p
            if ty == "&[u32]":
                body.append(f"    let x{k} = &a[..n];")
            elif ty.startswith("&"):
                body.append(f"    let v{k}: {ty[1:]} = kani::any();\n    let x{k} = &v{k};")
            else:
                body.append(f"    let x{k}: {ty} = kani::any();")
            names.append(f"x{k}")
        fill = lambda e: re.sub(r"\$(\d)", r"x\1", e)
        if tg.requires:
            body.append(f"    kani::assume({fill(tg.requires)});")
        body.append(f"    let _ = {tg.path}({', '.join(names)});\n    kani::cover!(true);")
        o.append(f"#[kani::proof]\n#[kani::unwind({tg.unwind})]")
        o += stub(tg.stubs)
        o.append(f"fn k_{tg.name}() {{\n" + "\n".join(body) + "\n}")
    for p in lem:
        ty, width, stubs = LEMMAS[p]
        o.append("#[kani::proof]\n#[kani::unwind(34)]")
        o += stub(stubs)
        base = {"u32f": "u32", "u16f": "u16"}.get(ty, ty)
        body = []
        args = []
        if ty == "op":
            body.append("let id: u16 = kani::any();\n    kani::assume(id < N_OPS);")
            args = ["id"]
        else:
            body.append(f"let w: {base} = kani::any();")
            args = ["w"]
            if width:
                body.append("let b: bool = kani::any();")
                args.append("b")
            if ty.endswith("f"):
                body.append("let id: u16 = kani::any();\n    kani::assume(id < N_OPS);")
                args.append("id")
        o.append(f"fn l_{p}() {{\n    " + "\n    ".join(body) + f"\n    assert!({p}({', '.join(args)}), \"property\");\n    kani::cover!(true);\n}}")
    o.append("}")
    return "\n".join(o) + "\n"


def targets_of(name):
    """The functions whose contract the harness discharges."""
    n = name.split("::")[-1]
    if n[:2] in ("c_", "k_"):
        return [TARGETS[n[2:]].path.replace("crate::", "")]
    if "vp::t::g" in name:
        return [TARGETS["inst_fmt"].path]
    if "vp::t::n" in name:
        return [TARGETS["op_fmt"].path] + [TARGETS[f"{x}_fmt"].path for x in ENUM]
    return []


def inputs(pred, vals):
    """(value, rv64, id) of a counterexample of harness `pred`: values are drawn in the order value, width, id."""
    def num(b):
        return int.from_bytes(bytes(b), "little")
    v = [num(x) for x in vals]
    try:
        if pred.endswith("_op"):
            return 0, False, v[0]
        if pred in ("p01_usize", "p07_usize", "p06_32", "p06_16"):
            return v[0], False, 0
        if "_field" in pred:
            return v[0], bool(v[1]), v[2]
        return v[0], bool(v[1]), 0
    except IndexError:
        return None, None, None
