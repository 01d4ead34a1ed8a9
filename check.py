#!/usr/bin/env python3
"""Decides one property of raki:  check.py <property id>   (tier from VERIF_TIER, quick by default).

Layer M  function contracts, injected into a scratch copy of /repo's sources and discharged function by function.
Layer C  composition proofs (decode and the usize conversion against the functions they call, whatever those return).
Layer T  text proofs (the formatter against the specification, group of opcodes by group).
Layer I  the property's predicate over the public API, callees inlined; decides when an obligation of M is not
         discharged or M cannot be built (the sources no longer have the shape the contracts are written for).
Native   replay of the verifier's counterexample on the compiled crate, and enumeration of the inputs
         (search for a failing input; labelled stand-in when no proof could be completed).

Exit 0 holds, 1 violated (VIOLATION line), anything else: the check has no answer.
"""
import json, os, re, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import kani as K
import inject as J
from props import FMT_NAMES, PROPS, TEXT_MASK

START = time.time()
REPO = "/repo"
LIMIT = float(os.environ.get("VERIF_LIMIT", 840))


def left():
    return LIMIT - (time.time() - START)


class Check:
    def __init__(self, pid):
        self.id, self.p = pid, PROPS[pid]
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        keep = os.environ.get("VERIF_SCRATCH")
        self.work = keep or tempfile.mkdtemp(prefix="raki-verif-")
        os.makedirs(self.work, exist_ok=True)
        self.keep = bool(keep)
        self.results = []          # (layer, Result)
        self.notes, self.standin = [], []
        self.cmds = []
        self.natv = None
        self.layers = {}
        self.superseded = False
        self.annotated = None      # the annotated copy, if the contracts of the text functions are in it

    # ---- layers
    def layer(self, name, crate, harnesses, tag, total, each, flags=()):
        t = time.time()
        res, out, cmd = K.kani(crate, harnesses, self.work, tag, min(total, left() - 30), each, flags)
        self.results += [(name, r) for r in res.values()]
        self.cmds.append(f"[{name}] {cmd} in {crate}")
        bad = [r for r in res.values() if not r.ok()]
        # a harness that passes vacuously is not a proof
        for r in res.values():
            if r.ok() and r.covers[0] < r.covers[1]:
                r.status = "vacuous"
                bad.append(r)
        self.layers[name] = dict(harnesses=len(res), passed=len(res) - len(bad), wall_s=round(time.time() - t, 1))
        self.out = out
        print(f"[{self.id}] layer {name}: {len(res) - len(bad)}/{len(res)} harnesses verified in {time.time() - t:.0f} s", flush=True)
        for r in bad[:6]:
            print(f"[{self.id}]   {r.name}: {r.status} {r.failed[:2]}", flush=True)
        return bad, out

    def layer_m(self):
        want = self.p.get("M")
        if not want:
            return None
        try:
            crate, names, dropped = J.build(REPO, self.work, want, self.tier == "thorough")
        except J.Mismatch as e:
            self.notes.append(f"contracts could not be attached to the sources: {e}")
            print(f"[{self.id}] layer M not applicable to these sources: {e}", flush=True)
            return False
        for d in dropped:
            self.notes.append("no contract attached, verified inside its callers: " + d)
            print(f"[{self.id}] no contract attached: {d}", flush=True)
        if not dropped:
            self.annotated = crate
        bad, out = self.layer("M", crate, names, "m", *((260, 150) if self.tier == "quick" else (500, 400)), J.FLAGS)
        if bad and all(r.status == "error" for r in bad):
            self.notes.append("the annotated sources do not compile: " + out[-1500:])
            self.annotated = None
        return not bad

    def layer_c(self):
        why = J.pure(REPO)
        if why:
            self.notes.append("composition proofs not applicable: " + why)
            print(f"[{self.id}] layer C not applicable to these sources: {why}", flush=True)
            return False
        bad, out = self.layer("C", os.path.join(HERE, "inline"), ["c::" + x for x in self.p["C"]], "c", 200, 150, J.FLAGS)
        return not bad

    def layer_i(self):
        names = ["h::" + h for h in self.p["I"]]
        bad, out = self.layer("I", os.path.join(HERE, "inline"), names, "i", 420, 330, J.FLAGS)
        return bad, out

    def layer_t(self):
        bad = []
        for tag, part in (("T", [x for x in self.p["T"] if "::g" in x]), ("TN", [x for x in self.p["T"] if "::n" in x])):
            if not part:
                continue
            crate = self.annotated
            if tag == "TN" and crate:
                try:
                    crate, _, dropped = J.build(REPO, self.work, FMT_NAMES, name="n")
                    crate = None if dropped else crate
                except J.Mismatch:
                    crate = None
            b = None
            if crate:
                b, _ = self.layer(tag, crate, ["decode::vp::" + x for x in part], tag.lower(), 420, 150, J.FLAGS)
                if b and all(r.status == "error" for r in b):
                    self.results = [x for x in self.results if x[1] not in b]
                    b = None
            if b is None:
                crate = os.path.join(HERE, "inline")
                b, _ = self.layer(tag, crate, part, tag.lower() + "i", 420, 150, J.FLAGS)
            if tag == "T":
                self.confirm(b[:3], crate, J.FLAGS, text=True)
            bad += b
        return bad

    # ---- native
    def native(self):
        if self.natv is None:
            t = os.path.join(self.work, "t_native")
            rc, out = K.run(["cargo", "build", "--release", "--offline", "--target-dir", t], os.path.join(HERE, "native"),
                            min(300, left()), limit=False)
            if rc != 0:
                print(out[-3000:])
                self.fatal("the native companion does not build against /repo")
            self.natv = os.path.join(t, "release", "native")
        return self.natv

    def replay(self, pred, word, rv64, ident):
        rc, out = K.run([self.native(), "replay", pred, hex(word), str(int(rv64)), str(ident), str(TEXT_MASK.get(self.id, 7))],
                        HERE, 60, limit=False)
        return rc, out

    def enum(self, pred):
        rc, out = K.run([self.native(), "enum", pred, str(TEXT_MASK.get(self.id, 7))], HERE, min(300, max(20, left())), limit=False)
        n = re.search(r"^COUNT (\d+)", out, re.M)
        m = re.search(r"^INPUT (\S+) (\d) (\d+)", out, re.M)
        complete = "COMPLETE true" in out
        return dict(pred=pred, rc=rc, count=int(n.group(1)) if n else 0, complete=complete and rc is not None,
                    input=m.groups() if m else None, out=out)

    # ---- outcome
    def evidence(self, violations, level="proof"):
        # obligations of the layers that decide; those of a layer M/C that was superseded by layer I are listed only
        rs = [(l, r) for l, r in self.results if not (self.superseded and l in "MC")]
        obl = sum(r.total - r.covers[1] for _, r in rs)
        dis = sum(r.passed for _, r in rs)
        m = [r for l, r in rs if l in ("M", "T", "TN") and r.ok()]
        cov = dict(obligations=obl, discharged=dis, checker_cmd="; ".join(self.cmds) or "none",
                   trusted_base=["Kani 0.68.0 (MIR to GOTO translation), CBMC 6.11.0, CaDiCaL",
                                 "rustc nightly of Kani; core library bodies are verified inline, not assumed",
                                 "spec/table.rs, spec/spec.rs (the specification)", "vlib/inject.py (attribute injection, layer M)"],
                   functions_under_contract=sorted({f for r in m for f in J.targets_of(r.name)}),
                   layers=self.layers,
                   backend="CBMC 6.11.0 with CaDiCaL, through Kani 0.68.0",
                   solver_s=round(sum((r.stats.get("runtime_solver_s") or 0) for _, r in rs), 2),
                   verifier_s=round(sum(r.seconds for _, r in rs), 1),
                   covers_satisfied=sum(r.covers[0] for _, r in rs),
                   harnesses=[dict(layer=l, decides=not (self.superseded and l in "MC"), **r.as_json()) for l, r in self.results],
                   stand_ins=self.standin, notes=self.notes)
        # the inlined proof compares the real calls and needs no assumption about replaced callees
        i = self.layers.get("I")
        assume = [] if i and i["passed"] == i["harnesses"] else self.p.get("assume", [])
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=assume + J.ASSUMPTIONS, wall_s=round(time.time() - START, 1), violations=violations)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def clean(self):
        if not self.keep:
            shutil.rmtree(self.work, ignore_errors=True)

    def fatal(self, why):
        print(f"[{self.id}] NO ANSWER: {why}")
        self.notes.append(why)
        self.evidence([], level="other")
        self.clean()
        sys.exit(2)

    def holds(self):
        self.known()
        self.evidence([], level="proof" if not self.standin else "other")
        self.clean()
        print(f"[{self.id}] holds ({time.time() - START:.0f} s)")
        sys.exit(0)

    def violated(self, what, detail, found=True):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.id + ".txt")
        obl = [f"{l} {r.name}: {x}" for l, r in self.results for x in (r.failed or ([r.status] if not r.ok() else []))]
        with open(path, "w") as f:
            f.write(f"property {self.id}\n{what}\n\n{detail}\n\nobligations not discharged:\n" + "\n".join(obl) + "\n")
            if not found:
                f.write("\nverifier output:\n" + (getattr(self, "out", "") or "")[-20000:])
        self.evidence([dict(what=what, detail=detail[:2000], obligations=obl[:20], replay=path)])
        self.clean()
        print(detail[:2000])
        print(f"VIOLATION property={self.id} replay={path}" + ("" if found else " no-failing-input-found"))
        sys.exit(1)

    def known(self):
        """Known findings of this property that still show."""
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) probe=(\S+) word=(\S+) rv64=(\d) (.*)", line)
            if m and m.group(1) == self.id:
                rc, out = K.run([self.native(), m.group(2), m.group(3), m.group(4)], HERE, 60, limit=False)
                if rc == 1:
                    print(f"KNOWN-FINDING: property={self.id} {m.group(5)}")
                self.notes.append(f"known finding ({'still there' if rc == 1 else 'gone'}): {m.group(5)}")

    # ---- decision
    def text_input(self, name, v):
        """The input that a counterexample of a text proof (member of the group, operand bits, width) stands for."""
        g = re.search(r"::g(\d+)$", name)
        if g and len(v) == 3:
            sel, w, b = (int.from_bytes(bytes(x), "little") for x in v)
            rc, out = K.run([self.native(), "word", g.group(1), str(sel), hex(w)], HERE, 60, limit=False)
            m = re.search(r"^WORD (\S+) (\S+)", out, re.M)
            if m:
                return m.group(1), int(m.group(2), 16), bool(b), 0
        return "", None, None, None

    def confirm(self, bad, crate, flags=(), text=False):
        """Replays the verifier's counterexamples of failed property harnesses on the compiled crate."""
        for r in sorted(bad, key=lambda r: r.status != "fail"):
            if r.status != "fail" or left() < 200:
                continue
            pred = r.name.split("::")[-1]
            vals, out = K.playback(crate, r.name, self.work, min(250, left() - 130), flags)
            for v in vals:
                if text:
                    pred, w, b, i = self.text_input(r.name, v)
                else:
                    w, b, i = J.inputs(pred, v)
                if w is None:
                    continue
                rc, o = self.replay(pred, w, b, i)
                if rc == 1:
                    self.violated(f"failing input: {pred} word={w:#x} rv64={int(b)} id={i}",
                                  f"counterexample of the verifier for {r.name}, replayed on the compiled crate:\n{o}\n"
                                  f"replay: cargo run --release --manifest-path native/Cargo.toml -- replay {pred} {w:#x} {int(b)} {i} {TEXT_MASK.get(self.id, 7)}")

    def search(self, bad):
        """Enumeration: decides if complete."""
        whole = True
        for pred in self.p["N"]:
            e = self.enum(pred)
            if e["input"]:
                w, b, i = e["input"]
                self.violated(f"failing input: {pred} word={w} rv64={b} id={i}",
                              f"found by enumeration on the compiled crate after a proof obligation failed:\n{e['out']}\n"
                              f"replay: cargo run --release --manifest-path native/Cargo.toml -- replay {pred} {w} {b} {i} {TEXT_MASK.get(self.id, 7)}")
            self.standin.append(dict(predicate=pred, inputs=e["count"], complete=e["complete"],
                                     label="bounded stand-in: native enumeration, not counted as proved"))
            whole = whole and e["complete"]
        if whole:
            self.notes.append("no proof could be completed for this source; every input was evaluated on the compiled crate instead")
            self.holds()
        named = [r for r in bad if r.status == "fail"]
        if named:
            self.violated("an obligation of the property failed", "\n".join(f"{r.name}: {r.failed}" for r in named), found=False)
        self.fatal("no proof and no complete enumeration")

    def main(self):
        bad = []
        m = self.layer_m()
        if m and self.p.get("C"):
            m = self.layer_c()
        if self.p.get("T"):
            bad += self.layer_t()
        self.superseded = m is False
        # (with composition proofs: the inlined proof does without their assumption)
        if m is not True or self.tier == "thorough" or self.p.get("C"):
            ib, _ = self.layer_i()
            if not self.p.get("T"):
                # (for the text properties the decoder's part is only a premise)
                self.confirm(ib, os.path.join(HERE, "inline"), J.FLAGS)
            bad += ib
        if m is False and not bad:
            self.notes.append("layer M or C left obligations undischarged; the inlined proof of the property (layer I) succeeded")
        if self.tier == "thorough" and not bad:
            for pred in self.p["N"]:
                e = self.enum(pred)
                self.notes.append(f"cross-check: {pred} evaluated natively on {e['count']} inputs, complete={e['complete']}")
                if e["input"]:
                    self.violated(f"failing input {e['input']} of {pred}", "enumeration contradicts the proof:\n" + e["out"])
        if bad:
            self.search(bad)
        self.holds()


def setup():
    """Nothing is kept between setup and checks: every check builds what it needs. This says whether the tools are there."""
    rc, out = K.run(["cargo", "kani", "--version"], HERE, 120)
    print(out.strip())
    sys.exit(0 if rc == 0 else 2)


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        setup()
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print("usage: check.py <property id>; ids: " + " ".join(PROPS))
        sys.exit(2)
    c = Check(sys.argv[1])
    try:
        c.main()
    finally:
        c.clean()
