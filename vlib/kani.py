"""Runs `cargo kani` and reads its JSON report."""
import json, os, re, resource, signal, subprocess, time

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
JOBS = 8
MEM = 12 << 30          # address-space limit of every process of a run


def _limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, cwd, timeout, env=None, limit=True):
    """(exit code or None on timeout, output); the whole process group is ended on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", preexec_fn=_limits if limit else os.setsid)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


class Result:
    """One harness."""

    def __init__(self, name):
        self.name, self.status, self.failed, self.stats = name, "missing", [], {}
        self.total = self.passed = self.seconds = 0
        self.covers = (0, 0)
        self.contract = None

    def ok(self):
        return self.status == "pass"

    def as_json(self):
        d = dict(harness=self.name, status=self.status, obligations=self.total, discharged=self.passed,
                 seconds=round(self.seconds, 2), solver_s=round(self.stats.get("runtime_solver_s") or 0, 3),
                 symex_s=round(self.stats.get("runtime_symex_s") or 0, 3))
        if self.contract:
            d["contract_of"] = self.contract
        if self.failed:
            d["failed"] = self.failed[:10]
        return d


def kani(crate, harnesses, work, tag, total_timeout, each_timeout, flags=(), jobs=JOBS):
    """Verifies the named harnesses (exact names) of the crate; returns ({name: Result}, output, command)."""
    res = {h: Result(h) for h in harnesses}
    if not harnesses:
        return res, "", ""
    js = os.path.join(work, tag + ".json")
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options",
           "--target-dir", os.path.join(work, "t_" + os.path.basename(crate)),
           "--output-format", "terse", "-j", str(jobs), "--export-json", js,
           "--harness-timeout", f"{int(each_timeout)}s", "--exact", *flags]
    for h in harnesses:
        cmd += ["--harness", h]
    rc, out = run(cmd, crate, total_timeout)
    if os.path.exists(js):
        try:
            read(js, res)
        except (ValueError, KeyError, TypeError) as e:
            out += f"\n[unreadable report: {e}]"
    else:
        # ended before the report: take the harnesses that were reported as failed from the text
        out += f"\n[no report; exit {rc}]"
        for r in res.values():
            r.status = "timeout" if rc is None else "error"
    return res, out, " ".join(cmd[:2]) + " ... " + f"({len(harnesses)} harnesses)"


def read(js, res):
    d = json.load(open(js))
    det = {x["harness_id"]: x.get("property_details") or {} for x in d.get("property_details", [])}
    cb = {x["harness_id"]: (x.get("cbmc_stats") or (x.get("cbmc_metadata") or {})) for x in d.get("cbmc", [])}
    meta = {x["pretty_name"]: x for x in d.get("harness_metadata", [])}
    for r in d["verification_results"]["results"]:
        n = r["harness_id"]
        if n not in res:
            continue
        x = res[n]
        x.seconds = (r.get("duration_ms") or 0) / 1000
        x.stats = cb.get(n) or {}
        if isinstance(x.stats, dict) and "cbmc_stats" in x.stats:
            x.stats = x.stats["cbmc_stats"]
        p = det.get(n, {})
        num = lambda k: p.get(k) or 0       # absent or null when the verifier did not finish
        x.total, x.passed = num("total_properties"), num("passed") + num("unreachable")
        x.covers = (num("satisfied"), num("satisfied") + num("unsatisfiable"))
        c = (meta.get(n, {}).get("contract") or {}).get("contracted_function_name")
        x.contract = c
        for k in r.get("checks") or []:
            if k["status"] in ("Failure", "FAILURE", "Failed"):
                x.failed.append(f"{k['description']} [{k['function']} {k['location'].get('file')}:{k['location'].get('line')}]")
        if r["status"] == "Success":
            x.status = "pass"
        elif x.failed:
            x.status = "fail"
        else:
            # no failed obligation is named: time or memory ran out
            x.status = "timeout"


def playback(crate, harness, work, timeout, flags=()):
    """The concrete values of the verifier's counterexample: list of byte lists, in the order drawn."""
    cmd = ["cargo", "kani", "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--target-dir", os.path.join(work, "t_" + os.path.basename(crate)),
           "--concrete-playback=print", "--output-format", "terse", "--exact", "--harness", harness, *flags]
    rc, out = run(cmd, crate, timeout)
    vals = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals.append([[int(b) for b in re.findall(r"\d+", v)] for v in re.findall(r"^\s*vec!\[([\d, ]*)\]", m.group(1), re.M)])
    return vals, out
