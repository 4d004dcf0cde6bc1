"""Running TLC on the specifications and on recorded traces."""

import json
import os
import re
import subprocess
import tempfile
from pathlib import Path

from .env import SCRATCH, SPEC

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    pass


def run_tlc(module, cfg_text, env=None, workers=4, timeout=600, heap="4g", extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    wd = Path(tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH))
    cfg = wd / "run.cfg"
    cfg.write_text(cfg_text)
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", "-XX:TieredStopAtLevel=4",
        f"-Djava.io.tmpdir={wd}",
        "-cp", JARS, "tlc2.TLC", "-config", str(cfg), "-metadir", str(wd / "meta"),
        "-noGenerateSpecTE", "-workers", str(workers), *extra, f"{module}.tla",
    ]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError(f"TLC timed out after {timeout} s on {module}")
    out = p.stdout + p.stderr
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(rc=p.returncode, out=out, generated=gen, distinct=dist)


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise TypeError(type(v))


def model_check(module, constants=None, invariants=(), properties=(), spec="Spec",
                constraint=None, view=None, deadlock=False, symmetry=None, postcondition=None, **kw):
    """Exhaustively checks a design module. Returns run info incl. 'ok' and 'violated'."""
    lines = [f"SPECIFICATION {spec}"]
    for k, v in (constants or {}).items():
        if isinstance(v, str) and v.startswith("<-"):
            lines.append(f"CONSTANT {k} {v}")
        else:
            lines.append(f"CONSTANT {k} = {v if isinstance(v, Raw) else tla(v)}")
    lines += [f"INVARIANT {i}" for i in invariants]
    lines += [f"PROPERTY {i}" for i in properties]
    if constraint:
        lines.append(f"CONSTRAINT {constraint}")
    if view:
        lines.append(f"VIEW {view}")
    if symmetry:
        lines.append(f"SYMMETRY {symmetry}")
    if postcondition:
        lines.append(f"POSTCONDITION {postcondition}")
    lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    r = run_tlc(module, "\n".join(lines) + "\n", **kw)
    r["ok"] = "Model checking completed. No error has been found." in r["out"]
    m = re.search(r"(?:Invariant|Action property|Temporal properties were|property) ?(\S*) (?:is|was|were) violated", r["out"])
    r["violated"] = m.group(1) if m else ("temporal" if "Temporal properties were violated" in r["out"] else None)
    return r


class Raw(str):
    """A TLA+ expression passed verbatim as constant."""


def check_traces(module, traces, **kw):
    """Like check_traces_, but a trace that the specification cannot even evaluate
    (values outside of its types) is refused, instead of ending the run."""
    try:
        return check_traces_(module, traces, **kw)
    except TLCError as e:
        if len(traces) == 0 or "no verdict" not in str(e):
            raise
        lo, last = list(range(len(traces))), e
        while len(lo) > 1:
            h = lo[: len(lo) // 2]
            try:
                check_traces_(module, [traces[i] for i in h], **kw)
                lo = lo[len(lo) // 2:]
            except TLCError as e2:
                if "no verdict" not in str(e2):
                    raise
                lo, last = h, e2
        try:
            check_traces_(module, [traces[lo[0]]], **kw)
            raise e
        except TLCError as e2:
            if "no verdict" not in str(e2):
                raise
            last = e2
        if "Attempted" not in str(last) and "verflow" not in str(last) and "not in the domain" not in str(last):
            raise last
        verd = [[] for _ in traces]
        verd[lo[0]] = [(len(traces[lo[0]]["ev"]), "the recorded values are outside of what the specification defines")]
        print(str(last)[-1500:], flush=True)
        return verd, dict(generated=0, distinct=0)


def check_traces_(module, traces, constants=None, workers=6, timeout=600, chunk=None):
    """Validates recorded traces against spec/<module>.tla (which extends TraceRun).

    Returns (verdicts, info), verdicts[k] = list of (event_no, clause) refused for trace k.
    """
    if not traces:
        return [], dict(generated=0, distinct=0)
    for tr in traces:
        if not tr["ev"]:
            raise TLCError(f"empty trace {tr['id']}")
    fd, path = tempfile.mkstemp(suffix=".json", dir=SCRATCH)
    with os.fdopen(fd, "w") as f:
        json.dump([dict(cfg=t["cfg"], ev=t["ev"]) for t in traces], f)
    lines = ["INIT RInit", "NEXT RNext", "CHECK_DEADLOCK FALSE",
             "CONSTANT TInit <- XInit", "CONSTANT Viol <- XViol", "CONSTANT Apply <- XApply",
             "CONSTANT TEnd <- XEnd"]
    for k, v in (constants or {}).items():
        lines.append(f"CONSTANT {k} = {v if isinstance(v, Raw) else tla(v)}")
    r = run_tlc(module, "\n".join(lines) + "\n", env={"VF_TRACES": path}, workers=workers, timeout=timeout, heap="6g")
    os.unlink(path)
    verd = [None] * len(traces)
    for ln in r["out"].splitlines():
        ln = ln.strip().strip('"')
        if ln.startswith("END|"):
            k = int(ln.split("|")[1]) - 1
            verd[k] = [] if verd[k] is None else verd[k]
            verd[k].append(("END", ""))
        elif ln.startswith("BAD|"):
            _, k, i, c = ln.split("|", 3)
            k = int(k) - 1
            verd[k] = [] if verd[k] is None else verd[k]
            verd[k].append((int(i), c))
    for k, v in enumerate(verd):
        if v is None or ("END", "") not in v:
            msg = "\n".join(l for l in r["out"].splitlines() if not l.startswith('"'))[-3500:]
            raise TLCError(f"{module}: no verdict for trace {traces[k]['id']}:\n{msg}")
        verd[k] = sorted(set(x for x in v if x[0] != "END"))
    return verd, r


def behaviours(module, constants, spec="Spec", invariant="Behaviour", simulate=None, seed=1, **kw):
    """Behaviours of a design module, printed by its invariant as BEH|<json>: all
    of them, or with simulate=n those of n random walks."""
    lines = [f"SPECIFICATION {spec}", f"INVARIANT {invariant}", "CHECK_DEADLOCK FALSE"]
    lines += [f"CONSTANT {k} = {v if isinstance(v, Raw) else tla(v)}" for k, v in constants.items()]
    extra = ("-simulate", f"num={simulate}", "-depth", str(kw.pop("depth", 60)), "-seed", str(seed)) if simulate else ()
    r = run_tlc(module, "\n".join(lines) + "\n", extra=extra, workers=1, **kw)
    out = []
    for ln in r["out"].splitlines():
        ln = ln.strip()
        if ln.startswith('"BEH|'):
            out.append(json.loads(json.loads(ln)[4:]))
    if not out:
        raise TLCError(f"no behaviours from {module}:\n{r['out'][-2000:]}")
    uniq = {json.dumps(b): b for b in out}
    return [uniq[k] for k in sorted(uniq)], r
