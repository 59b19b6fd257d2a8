#!/usr/bin/env python3
"""Solver-based checks of /repo: see DESIGN.md.

  check.py run P01 [--tier quick|thorough] [--only CASE] [--keep]
  check.py replay FILE            re-run a recorded counterexample natively
  check.py list

Every run rebuilds the encoding from /repo's current sources: each C file is
preprocessed, its `double` type is renamed (narrow.py), compiled by goto-cc,
linked with the harness and the environment models, and decided by CBMC.
Exit 0: every assertion of every case holds within the stated bounds.
Exit 1: a counterexample was found and reproduced natively (VIOLATION line).
Exit 2: no answer (time-out, build failure, counterexample not reproduced).
"""
import argparse
import glob
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import narrow  # noqa: E402

SRC_SKIP = {"main.c"}
MEM = 9 << 30
PROCS = set()
STOP = threading.Event()
LOCK = threading.Lock()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()


def call(cmd, timeout=None, env=None, mem=True):
    """run; returns (rc or 'timeout', stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         preexec_fn=limits if mem else os.setsid)
    with LOCK:
        PROCS.add(p)
    try:
        if STOP.is_set():
            raise subprocess.TimeoutExpired(cmd, 0)
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return "timeout", o, e
    finally:
        with LOCK:
            PROCS.discard(p)


def stop_all():
    STOP.set()
    with LOCK:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


# ---------------------------------------------------------------- formats
class Fmt:
    """number format standing for C's double: (total bits, mantissa bits)"""

    def __init__(self, s):
        self.name = s
        self.w, self.m = map(int, s.split(".")) if "." in s else (int(s), 52)

    def defs(self):
        if self.w == 64:
            return []
        e = self.w - 1 - self.m
        bias = 2 ** (e - 1) - 1
        return ["-DV_DBL_EPSILON=%r" % 2.0 ** -self.m, "-DV_DBL_MAX=%r" % ((2 - 2.0 ** -self.m) * 2.0 ** bias),
                "-DV_DBL_MIN=%r" % 2.0 ** (1 - bias), "-DV_NARROW"]

    def typedef(self):
        if self.w == 64:
            return "typedef double V_REAL;\n"
        return "typedef __CPROVER_floatbv[%d][%d] V_REAL;\n" % (self.w, self.m)

    def native(self):
        return {"64.52": "double", "16.10": "_Float16", "16.7": "__bf16"}.get("%d.%d" % (self.w, self.m))

    def decode(self, bits):
        n = int(bits, 2)
        if self.w == 64:
            return n
        e_bits = self.w - 1 - self.m
        sign = n >> (self.w - 1)
        ex = (n >> self.m) & ((1 << e_bits) - 1)
        ma = n & ((1 << self.m) - 1)
        bias = 2 ** (e_bits - 1) - 1
        if ex == (1 << e_bits) - 1:
            v = float("nan") if ma else float("inf")
        elif ex == 0:
            v = ma * 2.0 ** (1 - bias - self.m)
        else:
            v = (1 + ma * 2.0 ** -self.m) * 2.0 ** (ex - bias)
        return struct.unpack("<Q", struct.pack("<d", -v if sign else v))[0]


def base_flags(fmt, cbmc=True):
    f = ["-std=gnu11", "-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE",
         "-I" + HERE + "/env/include", "-I" + HERE + "/env", "-I" + HERE + "/harness", "-I" + REPO + "/xcsf",
         "-include", HERE + "/env/override.h"]
    if cbmc:
        f.append("-DV_CBMC")
    return f + fmt.defs()


def compile_goto(a):
    src, out, fmtname, defs = a
    fmt = Fmt(fmtname)
    c = out[:-3] + ".c"
    narrow.narrow(src, c, base_flags(fmt) + defs)
    s = open(c).read()
    open(c, "w").write(fmt.typedef() + s)
    r = subprocess.run(["goto-cc", "-std=gnu11", "-c", c, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError("goto-cc %s: %s" % (src, (r.stderr + r.stdout).decode(errors="replace")[-2000:]))
    return out


def repo_sources():
    return [f for f in sorted(glob.glob(REPO + "/xcsf/*.c")) if os.path.basename(f) not in SRC_SKIP]


class Lib:
    """the repository (plus environment models) as one goto binary in one format"""

    def __init__(self, fmtname, tmp, pool):
        d = os.path.join(tmp, "lib_" + fmtname)
        os.makedirs(d)
        jobs = [(s, "%s/r_%s.gb" % (d, os.path.basename(s)[:-2]), fmtname, []) for s in repo_sources()]
        envs = [(s, "%s/e_%s.gb" % (d, os.path.basename(s)[:-2]), fmtname, ["-DV_ENV_IMPL"]) for s in glob.glob(HERE + "/env/*.c")]
        outs = list(pool.map(compile_goto, jobs + envs))
        nr = len(jobs)
        self.repo = d + "/repo.gb"
        self.lib = d + "/lib.gb"
        for o, fs in ((self.repo, outs[:nr]), (self.lib, outs)):
            rc, so, se = call(["goto-cc"] + fs + ["-o", o], mem=False)
            if rc:
                raise RuntimeError("link: " + (so + se).decode(errors="replace")[-2000:])
        gf = call(["goto-instrument", "--show-goto-functions", self.repo], mem=False)[1].decode(errors="replace")
        st = call(["goto-instrument", "--show-symbol-table", self.repo], mem=False)[1].decode(errors="replace")
        self.vt = {}
        for m in re.finditer(r'^Symbol\.+: (\w+_vtbl)(?:\$link\d+)?$.*?^Value\.+: (\{.*?\})$', st, re.M | re.S):
            self.vt[m.group(1)] = dict(re.findall(r'\.(\w+_impl_\w+)=(\w+)', m.group(2)))
        self.calls = []  # (label, member or None, text)
        self.functions = set()
        cur, n = None, 0
        for line in gf.split("\n"):
            m = re.match(r'^(\S+) /\* ', line)
            if m:
                cur, n = m.group(1), 0
                self.functions.add(cur)
            if " CALL " in line and re.search(r'(CALL|:=) \*', line):
                n += 1
                m = re.search(r'\.((?:cond|act|pred|env|layer)_impl_\w+)\)', line)
                self.calls.append(("%s.function_pointer_call.%d" % (cur, n), m.group(1) if m else None, line))

    def restrictions(self, kinds):
        res = {}
        for label, mem, line in self.calls:
            if mem:
                pre = mem.split("_")[0]
                t = set()
                for k in kinds.get(pre, []):
                    for tab in ("%s_%s_vtbl" % (pre, k), "%s_%s_vtbl" % (k, pre), k + "_vtbl"):
                        if tab in self.vt and mem in self.vt[tab]:
                            t.add(self.vt[tab][mem])
                if t:
                    res[label] = sorted(t)
            elif "loss_ptr" in line and "loss" in kinds:
                res[label] = kinds["loss"]
        return res


# ---------------------------------------------------------------- cases
class Case:
    def __init__(self, path, prop, kv):
        self.path, self.prop = path, prop
        self.name = kv["name"]
        self.func = kv["func"]
        self.defs = kv.get("defs", "").split()
        self.fmt = kv.get("fmt", "16.7")
        self.unwind = int(kv.get("unwind", "12"))
        self.kinds = {}
        for part in kv.get("kinds", "").split(";"):
            if ":" in part:
                a, b = part.split(":")
                self.kinds[a.strip()] = b.strip().split(",")
        self.uwa = kv.get("uwa", "1") == "1"
        self.checks = kv.get("checks", "none")
        self.flags = kv.get("flags", "").split()
        self.solver = kv.get("solver", "minisat2")
        self.timeout = int(kv.get("timeout", "240"))
        self.tier = kv.get("tier", "quick")
        self.known = kv.get("known", "")
        self.kassert = kv.get("kassert", "")
        self.bounds = kv.get("bounds", "")
        self.cost = int(kv.get("cost", "10"))
        self.exitwit = kv.get("witness", "any")


def load_cases():
    """directives: //@ property P01 ; //@ case name=.. func=.. ; values with spaces in quotes.
    A case with several alternatives may use {a,b} in defs: not supported; write lines."""
    cases = []
    for p in sorted(glob.glob(HERE + "/harness/*.c")):
        prop, default = None, {}
        for line in open(p):
            line = line.strip()
            if not line.startswith("//@"):
                continue
            body = line[3:].strip()
            if body.startswith("property"):
                prop, default = body.split()[1], {}
                continue
            kv = dict((k, v.strip('"')) for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', body))
            if body.startswith("default"):
                default = kv
            elif body.startswith("case"):
                d = dict(default)
                for k, v in kv.items():
                    if k in ("defs", "flags") and k in d and v.startswith("+"):
                        v = d[k] + " " + v[1:]
                    d[k] = v
                cases.append(Case(p, prop, d))
    return cases


STD_OFF = ["--no-standard-checks"]
STD_ON = ["--no-signed-overflow-check", "--no-undefined-shift-check"]  # bounds, pointer, div-by-zero, primitives stay on


def cbmc_cmd(c, gb, slice_=True):
    chk = {"none": STD_OFF, "std": [], "mem": STD_OFF + ["--bounds-check", "--pointer-check", "--div-by-zero-check"],
           "leak": STD_OFF + ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--memory-leak-check"]}[c.checks]
    cmd = ["cbmc", gb, "--drop-unused-functions", "--unwind", str(c.unwind), "--unwinding-assertions" if c.uwa else "--no-unwinding-assertions",
           "--no-malloc-may-fail", "--object-bits", "12", "--json-ui", "--verbosity", "8"] + chk + c.flags
    if slice_:
        cmd.append("--slice-formula")
    if c.solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    elif c.solver in ("z3", "cvc5"):
        cmd += ["--" + c.solver]
    else:
        cmd += ["--sat-solver", c.solver]
    return cmd


def parse_json(out):
    try:
        return json.loads(out.decode(errors="replace"))
    except ValueError:
        return []


class Result:
    pass


def run_case(c, libs, tmp):
    r = Result()
    r.case, r.t0 = c, time.time()
    r.status, r.note, r.failed, r.fill = "error", "", [], []
    r.nprops = r.vars = r.clauses = 0
    r.solver_s = 0.0
    r.functions = []
    r.witness = False
    r.replay = None
    d = tempfile.mkdtemp(prefix=c.name + "_", dir=tmp)
    try:
        lib = libs[c.fmt]
        h = compile_goto((c.path, d + "/h.gb", c.fmt, c.defs))
        for cmd in (["goto-cc", h, lib.lib, "-o", d + "/l.gb", "--function", c.func],):
            rc, so, se = call(cmd, 120, mem=False)
            if rc:
                raise RuntimeError((so + se).decode(errors="replace")[-1500:])
        json.dump(lib.restrictions(c.kinds), open(d + "/r.json", "w"))
        rc, so, se = call(["goto-instrument", "--function-pointer-restrictions-file", d + "/r.json", d + "/l.gb", d + "/x.gb"], 120, mem=False)
        if rc:
            raise RuntimeError((so + se).decode(errors="replace")[-1500:])
        rc, so, se = call(["goto-instrument", "--reachable-call-graph", d + "/x.gb"], 60, mem=False)
        if rc == 0:
            names = set(re.findall(r'\w+', so.decode(errors="replace")))
            r.functions = sorted(f for f in lib.functions if f in names)
        r.gb = d + "/x.gb"
        return decide(r)
    except RuntimeError as ex:
        r.note = str(ex)
        return r
    finally:
        r.wall = time.time() - r.t0


def decide(r):
    """one solver run; if only loop bounds were exceeded, once more with larger ones"""
    c = r.case
    for attempt in (0, 1):
        decide_once(r)
        if attempt == 0 and r.status == "failed" and all(".unwind." in p["property"] for p in r.failed):
            c.unwind = c.unwind * 2
            continue
        return r


def decide_once(r):
    c = r.case
    r.note, r.failed = "", []
    if True:
        t = time.time()
        rc, so, se = call(cbmc_cmd(c, r.gb), c.timeout)
        r.cbmc_s = time.time() - t
        if rc == "timeout":
            r.status, r.note = "timeout", "no answer within %d s" % c.timeout
            return r
        msgs = parse_json(so)
        res = None
        for m in msgs:
            if "result" in m:
                res = m["result"]
            tx = m.get("messageText", "")
            q = re.match(r'(\d+) variables, (\d+) clauses', tx)
            if q:
                r.vars, r.clauses = max(r.vars, int(q.group(1))), max(r.clauses, int(q.group(2)))
            q = re.match(r'Runtime decision procedure: ([\d.e+-]+)s', tx)
            if q:
                r.solver_s += float(q.group(1))
            if m.get("messageType") == "ERROR":
                r.note += tx[:300]
        if res is None:
            r.status = "error"
            r.note = "cbmc gave no result (rc %s) %s %s" % (rc, r.note, se.decode(errors="replace")[-300:])
            return r
        r.nprops = len(res)
        wit = [p for p in res if p.get("description", "") == "WITNESS"]
        r.failed = [p for p in res if p["status"] == "FAILURE" and p.get("description", "") != "WITNESS"]
        unk = [p for p in res if p["status"] not in ("FAILURE", "SUCCESS")]
        r.witness = any(p["status"] == "FAILURE" for p in wit)
        if r.failed:
            r.status = "failed"
        elif unk:
            r.status, r.note = "error", "undecided assertions: " + unk[0]["property"]
        elif not r.witness:
            r.status, r.note = "vacuous", "the end of the harness is not reachable"
        else:
            r.status = "holds"
        return r


def get_trace(c, gb, prop, timeout):
    sel = [] if ".unwind." in prop else ["--property", prop]  # unwinding assertions cannot be selected
    rc, so, se = call(cbmc_cmd(c, gb, slice_=False) + ["--trace"] + sel, timeout)
    if rc == "timeout":
        return None
    fmt = Fmt(c.fmt)
    for m in parse_json(so):
        for p in m.get("result", []):
            if p.get("property") == prop and "trace" in p:
                lines = []
                for s in p["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") in ("v_in_d", "v_in_i", "v_in_c"):
                        if s.get("hidden"):
                            continue
                        v = s["value"]
                        if "binary" not in v:
                            continue
                        b = v["binary"]
                        if s["lhs"] == "v_in_d":
                            lines.append("d %x" % fmt.decode(b))
                        elif s["lhs"] == "v_in_i":
                            lines.append("i %x" % int(b, 2))
                        else:
                            lines.append("c %x" % int(b, 2))
                return lines
    return None


# ---------------------------------------------------------------- native replay
def native_one(a):
    src, out, flags, narrowtype, nflags = a
    if narrowtype:
        c = out[:-2] + ".c"
        narrow.narrow(src, c, flags)
        s = open(c).read()
        open(c, "w").write("typedef %s V_REAL;\n" % narrowtype + s)
        src, flags = c, ["-std=gnu11"]
    r = subprocess.run(["gcc", "-c", "-w"] + flags + nflags + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(r.stderr.decode(errors="replace")[-1500:])
    return out


def native_build(c, tmp, narrowtype, pool_cls=ProcessPoolExecutor):
    """harness + repository + models, compiled by gcc with ASan and UBSan"""
    fmt = Fmt(c.fmt) if narrowtype else Fmt("64")
    d = tempfile.mkdtemp(prefix="nat_", dir=tmp)
    flags = base_flags(fmt, cbmc=False) + c.defs
    nf = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
          "-fno-sanitize=float-cast-overflow,shift,signed-integer-overflow,vptr,alignment"]
    if narrowtype:
        nf += ["-fexcess-precision=16", "-fno-sanitize=float-divide-by-zero"]
    jobs = [(s, "%s/%s.o" % (d, os.path.basename(s)[:-2]), flags, narrowtype, nf) for s in repo_sources()]
    jobs += [(s, "%s/e_%s.o" % (d, os.path.basename(s)[:-2]), flags + ["-DV_ENV_IMPL"], narrowtype, nf) for s in glob.glob(HERE + "/env/*.c")]
    jobs += [(c.path, d + "/harness_.o", flags, narrowtype, nf)]
    m = d + "/m.c"
    open(m, "w").write("void %s(void);\nint main(void){%s();return 0;}\n" % (c.func, c.func))
    with pool_cls(8) as ex:
        objs = list(ex.map(native_one, jobs))
    exe = d + "/replay"
    r = subprocess.run(["gcc", m] + objs + ["-fsanitize=address,undefined", "-o", exe, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(r.stderr.decode(errors="replace")[-1500:])
    return exe


def native_run(exe, inputs, leak, hang_is_bug):
    """returns (reproduced, text)"""
    last = ""
    for fill in ("190", "0", "255", "1"):
        env = dict(os.environ, V_REPLAY=inputs,
                   ASAN_OPTIONS="detect_leaks=%d:malloc_fill_byte=%s:max_malloc_fill_size=65536:exitcode=77:allocator_may_return_null=0" % (1 if leak else 0, fill),
                   UBSAN_OPTIONS="exitcode=78:halt_on_error=1")
        rc, so, se = call([exe], 20, env=env, mem=False)
        tx = se.decode(errors="replace")
        last = tx
        if rc == "timeout":
            if hang_is_bug:
                return True, "does not terminate (20 s)"
            continue
        if rc == 1 and "ASSERTION FAILED" in tx:
            return True, tx.strip().split("\n")[0]
        if rc in (77, 78) or (isinstance(rc, int) and rc < 0) or "runtime error" in tx or "AddressSanitizer" in tx:
            ls = [x for x in tx.split("\n") if "ERROR" in x or "runtime error" in x]
            return True, (ls or [tx[-300:]])[0].strip()
    return False, last.strip()[-300:]


def confirm(r, tmp, budget):
    """counterexample -> native replay; sets r.replay"""
    c = r.case
    t_end = time.time() + budget
    order = sorted(r.failed, key=lambda p: ("unwind" in p["property"], "pointer" in p.get("description", "")))
    exes = {}
    notes = []
    tried = 0
    for p in order[:6]:
        if time.time() > t_end:
            break
        tr = get_trace(c, r.gb, p["property"], max(30, min(c.timeout, t_end - time.time())))
        if tr is None:
            notes.append("%s: no trace in time" % p["property"])
            continue
        tried += 1
        rd = os.path.join(HERE, "evidence", "replay", c.prop)
        os.makedirs(rd, exist_ok=True)
        base = os.path.join(rd, c.name)
        open(base + ".in", "w").write("\n".join(tr) + "\n")
        for kind in ("real", "narrow"):
            nt = None if kind == "real" else Fmt(c.fmt).native()
            if kind == "narrow" and (nt is None or nt == "double"):
                continue
            try:
                if kind not in exes:
                    exes[kind] = native_build(c, tmp, nt)
            except RuntimeError as ex:
                notes.append("native build (%s): %s" % (kind, ex))
                exes[kind] = None
            if exes.get(kind) is None:
                continue
            ok, text = native_run(exes[kind], base + ".in", c.checks == "leak", "unwind" in p["property"])
            if ok:
                open(base + ".json", "w").write(json.dumps({
                    "property": c.prop, "case": c.name, "harness": os.path.relpath(c.path, HERE), "function": c.func,
                    "inputs": c.name + ".in", "failed_assertion": p.get("description"), "where": p.get("sourceLocation", {}).get("function"),
                    "arithmetic": "C double (real width)" if kind == "real" else "number format " + c.fmt,
                    "observed": text}, indent=1) + "\n")
                r.replay = base + ".json"
                r.note = "%s [%s]: %s" % (p.get("description"), kind, text)
                return True
            notes.append("%s (%s): not reproduced: %s" % (p.get("description"), kind, text))
    r.note = " | ".join(notes)[:1500]
    return False


def known_findings():
    p = HERE + "/KNOWN_FINDINGS"
    out = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: id=(\S+) property=(\S+) (.*)', line.strip())
            if m:
                out[m.group(1)] = (m.group(2), m.group(3))
    return out


# ---------------------------------------------------------------- main
def run(prop, tier, only, keep, budget):
    t0 = time.time()
    cases = [c for c in load_cases() if c.prop == prop and (tier == "thorough" or c.tier == "quick")]
    if only:
        cases = [c for c in load_cases() if c.prop == prop and re.fullmatch(only, c.name)]
    if not cases:
        print("no cases for", prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    known = known_findings()
    rc = 0
    results = []
    lines = []
    try:
        fmts = sorted(set(c.fmt for c in cases))
        with ProcessPoolExecutor(8) as pool:
            libs = {f: Lib(f, tmp, pool) for f in fmts}
        tb = time.time() - t0
        cases.sort(key=lambda c: -c.cost)
        viol = None
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            futs = {ex.submit(run_case, c, libs, tmp): c for c in cases}
            for f in as_completed(futs):
                if STOP.is_set():
                    continue
                r = f.result()
                results.append(r)
                if r.status == "failed" and r.case.known:
                    # anything but the recorded finding is confirmed first, as a violation
                    other = [p for p in r.failed if p.get("description", "") != r.case.kassert]
                    if other:
                        r.failed, r.case.known = other, ""
                if r.status == "failed":
                    left = max(60, budget - (time.time() - t0))
                    if confirm(r, tmp, left):
                        if r.case.known and r.case.known in known and known[r.case.known][0] == prop:
                            r.status = "known"
                            print("KNOWN-FINDING: property=%s %s" % (prop, known[r.case.known][1]), flush=True)
                        else:
                            r.status = "violation"
                            viol = r
                            stop_all()
                    else:
                        r.status = "unconfirmed"
                print("%-12s %-28s %6.1fs  props=%d vars=%d %s" % (r.status, r.case.name, r.wall, r.nprops, r.vars, r.note if r.status not in ("holds",) else ""), flush=True)
        if viol:
            print("VIOLATION property=%s replay=%s" % (prop, viol.replay), flush=True)
            rc = 1
        elif any(r.status not in ("holds", "known") for r in results):
            rc = 2
        write_evidence(prop, tier, results, cases, time.time() - t0, tb, rc)
        return rc
    except RuntimeError as ex:
        print("ERROR:", ex)
        return 2
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


ASSUMPTIONS = [
    "malloc does not fail; one thread (OpenMP regions execute sequentially)",
    "cJSON, dSFMT, libm transcendental functions and stdio are environment models (env/): arbitrary results within their documented ranges",
    "where a case's number format is not 64.52, C's double is narrowed to that IEEE-754 binary format (total.mantissa bits)",
    "sizes, list lengths and loop counts are bounded per case; loop bounds are checked by unwinding assertions",
]


def write_evidence(prop, tier, results, cases, wall, tb, rc):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    fns = sorted(set(f for r in results for f in r.functions))
    level = "other"
    man = {}
    try:
        man = json.load(open(HERE + "/MANIFEST.json"))
    except (OSError, ValueError):
        pass
    for ch in man.get("checks", []):
        if ch["property"] == prop:
            level = ch.get("level", level)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": "Bounded symbolic execution of /repo's C code by CBMC, decided by a SAT/SMT solver: %d of %d cases decided; every assertion of a decided case "
                           "holds for all symbolic inputs within the case's bounds, and its reachability witness is satisfiable. Nothing is claimed outside the bounds."
                           % (sum(1 for r in results if r.status in ("holds", "known", "violation")), len(cases)),
            "cases": [{"case": r.case.name, "status": r.status, "format": r.case.fmt, "unwind": r.case.unwind, "defs": " ".join(r.case.defs),
                       "bounds": r.case.bounds, "assertions": r.nprops, "variables": r.vars, "clauses": r.clauses,
                       "solver": r.case.solver, "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 2), "witness_reached": r.witness,
                       "checks": r.case.checks} for r in sorted(results, key=lambda r: r.case.name)],
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "queries_discharged": sum(r.nprops for r in results if r.status in ("holds", "known")),
            "solver_s": round(sum(r.solver_s for r in results), 2), "encode_s": round(tb, 2),
        },
        "wall_s": round(wall, 2), "assumptions": ASSUMPTIONS,
        "violations": sum(1 for r in results if r.status == "violation"),
    }
    ev["coverage"]["violations_found"] = [{"case": r.case.name, "replay": r.replay, "what": r.note} for r in results if r.status == "violation"]
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)


def replay(path):
    j = json.load(open(path))
    c = [c for c in load_cases() if c.prop == j["property"] and c.name == j["case"]][0]
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        nt = None if "real" in j["arithmetic"] else Fmt(c.fmt).native()
        exe = native_build(c, tmp, nt)
        ok, text = native_run(exe, os.path.join(os.path.dirname(path), j["inputs"]), c.checks == "leak", True)
        print("reproduced:" if ok else "not reproduced:", text)
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.cmd == "list":
        for c in load_cases():
            print(c.prop, c.name, c.tier, c.fmt)
        return 0
    if a.cmd == "setup":
        for t in ("cbmc", "goto-cc", "goto-instrument", "gcc"):
            if shutil.which(t) is None:
                print("missing tool:", t)
                return 1
        print(len(load_cases()), "cases; encodings are built from /repo on every run")
        return 0
    if a.cmd == "replay":
        return replay(a.what)
    return run(a.what, a.tier, a.only, a.keep, 780 if a.tier == "quick" else 6000)


if __name__ == "__main__":
    sys.exit(main())
