"""Building, running, replaying and minimising the C++ simulator."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")


def build(out, target="sim", extra=()):
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["make", "-j", str(os.cpu_count() or 8), "-C", os.path.join(HERE, "cpp"), f"OUT={out}", f"{out}/{target}", *extra],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise RuntimeError("build of the simulator failed:\n" + r.stdout[-4000:])
    return os.path.join(out, target)


def classify(rc, out):
    """None if the run was clean, else (class, message)."""
    m = re.search(r"^FAIL \d+ (.*)$", out, re.M)
    if m:
        msg = m.group(1)
        k = re.split(r"[\[({]", msg)[0]
        k = re.sub(r"#?-?\d+(\.\d+)?(e[-+]?\d+)?", "", k)
        return "violation: " + " ".join(k.split()), msg
    if rc in (-14, 142):
        return "hang", "the run did not end"
    if rc != 0:
        kind = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", out) or re.search(r"(runtime error: [^\n]*)", out)
        frame = re.search(r"#\d+ 0x[0-9a-f]+ in (dwave::optimization::[\w:~<>]+)", out)
        k = (kind.group(1) if kind else f"exit {rc}") + " in " + (frame.group(1) if frame else "?")
        if "terminate called" in out:
            k = "terminate called; " + k
        return "crash: " + k, "crash: " + k
    return None


def execute(sim, prop, prog, timeout=60):
    with tempfile.NamedTemporaryFile("w", suffix=".prog", delete=False) as f:
        f.write("\n".join(prog) + "\n")
    try:
        r = subprocess.run([sim, "exec", prop, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, errors="replace", text=True)
        h = re.search(r"^HASH (\w+)", r.stdout, re.M)
        return classify(0 if r.returncode == 1 and "FAIL" in r.stdout else r.returncode, r.stdout), (h.group(1) if h else None), r.stdout
    except subprocess.TimeoutExpired:
        return ("hang", "the run did not end"), None, ""
    finally:
        os.unlink(f.name)


def minimise(sim, prop, prog, cls, budget=400, workers=8, secs=200):
    """Delta debugging over program lines, keeping the violation class."""
    spent = 0
    end = time.time() + secs
    ex = cf.ThreadPoolExecutor(workers)
    n = 2
    while len(prog) > 1 and spent < budget and time.time() < end:
        size = max(1, len(prog) // n)
        cands = []
        for i in range(0, len(prog), size):
            cands.append(prog[:i] + prog[i + size:])
        hit = None
        for j in range(0, len(cands), workers):
            batch = cands[j:j + workers]
            spent += len(batch)
            res = list(ex.map(lambda p: execute(sim, prop, p)[0], batch))
            for p, r in zip(batch, res):
                if r and r[0] == cls:
                    hit = p
                    break
            if hit or spent >= budget or time.time() > end:
                break
        if hit is not None:
            prog = hit
            n = max(n - 1, 2)
        else:
            if size == 1:
                break
            n = min(len(prog), n * 2)
    # drop tokens from the tails of lines that allow it (initial contents, extra sources)
    ex.shutdown()
    return prog


def read_log(path):
    with open(path, "rb") as f:
        data = f.read().split(b"\0", 1)[0].decode(errors="replace")
    lines = data.splitlines()
    if not lines or not lines[0].startswith("seed "):
        return None, []
    return int(lines[0].split()[1]), lines[1:]


def run_range(sim, prop, lo, hi, secs, log, cmd="run"):
    try:
        r = subprocess.run([sim, cmd, prop, str(lo), str(hi), str(secs), log], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, errors="replace", text=True, timeout=secs + 120 if secs else 240)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = -14, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    c = classify(rc, out)
    stats = re.search(r"^STATS (.*)$", out, re.M)
    sig = re.search(r"^SIG(.*)$", out, re.M)
    rsig = re.search(r"^RUNSIG(.*)$", out, re.M)
    agg = re.search(r"^AGG (.*)$", out, re.M)
    seed, prog = read_log(log) if c else (None, None)
    return dict(fail=c, seed=seed, prog=prog, out=out, stats=json.loads(stats.group(1)) if stats else {}, sig=set(sig.group(1).split()) if sig else set(), runsig=set(rsig.group(1).split()) if rsig else set(), agg=agg.group(1) if agg else None)


def sample(sim, prop, seed):
    r = subprocess.run([sim, "gen", prop, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, errors="replace", text=True, timeout=60)
    lines = r.stdout.splitlines()
    return {"seed": seed, "program": lines[:25] + ([f"... {len(lines) - 25} more"] if len(lines) > 25 else [])}
