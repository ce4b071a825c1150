"""Driver: bounded solver-based checking of libzt's real sources with CBMC.

check <property>: compiles /repo's current sources with goto-cc, links each registered harness
against exactly the objects it needs (archive semantics), lets CBMC decide every obligation for all
inputs within the stated bounds, and replays each counterexample natively (ASan+UBSan build of the
same sources) before reporting it.  Exit 0: held.  Exit 1: VIOLATION line.  Other: broken machinery.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, itertools, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
HDIR = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

# the library's own build configuration on this platform (what cmake passes, see DESIGN.md)
DEFS = ("-DHAVE_ASPRINTF -DHAVE_ASSERT_H -DHAVE_BASENAME -DHAVE_BZERO -DHAVE_CALLOC -DHAVE_CONFIG_H "
        "-DHAVE_CTYPE_H -DHAVE_DLFCN_H -DHAVE_ERRNO_H -DHAVE_GETOPT_LONG -DHAVE_INTTYPES_H -DHAVE_LIBGEN_H "
        "-DHAVE_LONG_DOUBLE -DHAVE_LONG_LONG -DHAVE_MEMORY_H -DHAVE_MEMSET -DHAVE_OPENLOG -DHAVE_PTHREADS "
        "-DHAVE_STDBOOL_H -DHAVE_STDINT_H -DHAVE_STDLIB_H -DHAVE_STRCHR -DHAVE_STRDUP -DHAVE_STRINGS_H "
        "-DHAVE_STRING_H -DHAVE_STRRCHR -DHAVE_SYSLOG_H -DHAVE_SYS_STAT_H -DHAVE_SYS_TYPES_H -DHAVE_SYS_WAIT_H "
        "-DHAVE_UNISTD_H -DHAVE_VASPRINTF -DHAVE_VA_COPY -DHAVE_VSYSLOG -DWITH_THREADS -DLUA_USE_MKSTEMP "
        "-D_GNU_SOURCE -DNDEBUG").split()
CONFIG_SET = {"HAVE_SYSLOG": "1"}
CONFIG01 = {"HOST_BIGENDIAN": "0"}

NATIVE = ["gcc", "-O1", "-U_FORTIFY_SOURCE", "-g", "-w", "-fno-omit-frame-pointer",
          "-fsanitize=address,signed-integer-overflow,shift,bounds,integer-divide-by-zero",
          "-fno-sanitize-recover=all"]
WRAPS = ["-Wl," + ",".join("--wrap=" + f for f in
                            ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))]
CBMC_BASE = ["--no-malloc-may-fail", "--unwinding-assertions", "--drop-unused-functions", "--trace",
             "--json-ui", "--verbosity", "8", "--object-bits", "12", "--no-pointer-primitive-check"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    pass


def run(cmd, timeout=None, mem=None, cwd=None, env=None):
    def pre():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


class Build:
    """goto and native objects of every library source in the working tree."""

    def __init__(self, scratch, pathmax=None):
        self.dir = scratch
        self.inc = os.path.join(scratch, "inc")
        os.makedirs(os.path.join(self.inc, "libzt"))
        self.gen_headers()
        self.incs = ["-I" + os.path.join(REPO, "src"), "-I" + self.inc, "-I" + os.path.join(REPO, "compat"),
                     "-I" + HDIR]
        if pathmax:
            # a smaller PATH_MAX for the whole build: buffers of that size become a bound of the check
            d = os.path.join(scratch, "sys", "linux")
            os.makedirs(d)
            open(os.path.join(d, "limits.h"), "w").write(
                "#include_next <linux/limits.h>\n#undef PATH_MAX\n#define PATH_MAX %d\n" % pathmax)
            self.incs.insert(0, "-I" + os.path.dirname(d))
        base = os.path.join(REPO, "src", "libzt")
        self.srcs = []
        for root, dirs, files in os.walk(base):
            dirs.sort()
            if os.path.basename(root) == "replace":
                continue
            for f in sorted(files):
                if f.endswith(".c") and "win32" not in f:
                    self.srcs.append(os.path.join(root, f))
        self.objs = {}
        self.skipped = []
        with ThreadPoolExecutor(8) as ex:
            for src, ok, obj, why in ex.map(self.one, self.srcs):
                if ok:
                    self.objs[src] = obj
                else:
                    self.skipped.append((src, why))
        self.index = {}
        for src, o in self.objs.items():
            d, u = self.nm(o + ".o")
            o_def, o_und = d, u
            for s in d:
                self.index.setdefault(s, src)
            self.objs[src] = (o, o_def, o_und)

    def gen_headers(self):
        t = open(os.path.join(REPO, "config.h.cmake")).read().split("\n")
        out = []
        for l in t:
            m = re.match(r"#cmakedefine01\s+(\w+)", l)
            if m:
                out.append("#define %s %s" % (m.group(1), CONFIG01.get(m.group(1), "0")))
                continue
            m = re.match(r"#cmakedefine\s+(\w+)", l)
            if m:
                if m.group(1) in CONFIG_SET:
                    out.append("#define %s %s" % (m.group(1), CONFIG_SET[m.group(1)]))
                continue
            out.append(l)
        open(os.path.join(self.inc, "libzt", "zt_config.h"), "w").write("\n".join(out))
        shutil.copy(os.path.join(REPO, "src/libzt/replace/zt_replace.h.in"),
                    os.path.join(self.inc, "libzt", "zt_replace.h"))

    def one(self, src):
        rel = os.path.relpath(src, REPO).replace("/", "_")
        o = os.path.join(self.dir, rel[:-2])
        rc, so, se = run(["goto-cc"] + DEFS + self.incs + ["-c", src, "-o", o + ".gb"], 120)
        if rc != 0:
            return src, False, None, (so + se).decode(errors="replace")[-400:]
        rc, so, se = run(NATIVE + DEFS + self.incs + ["-c", src, "-o", o + ".o"], 300)
        if rc != 0:
            return src, False, None, (so + se).decode(errors="replace")[-400:]
        return src, True, o, None

    def nm(self, o):
        rc, so, se = run(["nm", "-g", o], 60)
        d, u = set(), set()
        for l in so.decode().split("\n"):
            f = l.split()
            if len(f) == 2 and f[0] == "U":
                u.add(f[1])
            elif len(f) == 3 and f[1] in "TDBRCVWG":
                d.add(f[2])
        return d, u

    def closure(self, d, u):
        """archive-linker semantics: pull an object only for a symbol still undefined."""
        have, need, used = set(d), [s for s in u], []
        seen = set()
        while need:
            s = need.pop()
            if s in have or s in seen:
                continue
            seen.add(s)
            src = self.index.get(s)
            if src is None or src in used:
                continue
            used.append(src)
            o, od, ou = self.objs[src]
            have |= od
            need += [x for x in ou if x not in have]
        return used


def grid(**kw):
    keys = list(kw)
    vals = [list(v) if isinstance(v, (range, list, tuple)) else [v] for v in kw.values()]
    return [dict(zip(keys, c)) for c in itertools.product(*vals)]


REG = []
PATHMAX = {}        # property: PATH_MAX its build is given


def H(prop, file, entry, quick=None, thorough=None, unwind=8, opts=(), defs=(), what="", timeout=None,
      noleak=False, maxunwind=None, solver=None, abort_ok=False, timeout_t=None, finding=None, weight=1, wraps=(), hunwind=None):
    quick = [{}] if quick is None else quick
    REG.append(dict(prop=prop, file=file, entry=entry, quick=quick, thorough=thorough if thorough is not None else quick,
                    unwind=unwind, opts=list(opts), defs=list(defs) + (["VT_ABORT_OK"] if abort_ok else []),
                    what=what, timeout=timeout, timeout_t=timeout_t, noleak=noleak, solver=solver,
                    maxunwind=maxunwind, finding=finding, weight=weight, wraps=list(wraps), hunwind=hunwind))


def pstr(params):
    return ",".join("%s=%s" % kv for kv in params.items()) or "-"


def inputs_of(trace):
    vals, fns = [], set()
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "vt_v" and not st.get("hidden"):
            if st.get("assignmentType") == "actual-parameter":
                continue
            v = st["value"]
            b = v.get("binary")
            if b is None:
                continue
            vals.append(int(b, 2))
        elif st.get("stepType") == "function-call":
            f = st.get("function", {})
            loc = f.get("sourceLocation", {}).get("file", "") or st.get("sourceLocation", {}).get("file", "")
            if REPO + "/" in loc:
                fns.add(f.get("displayName", ""))
    return vals, fns


# __CPROVER_dead/uninitialised artefacts: vt_v appears once as declaration (no binary of interest)

class Check:
    def __init__(self, prop, tier, only=None, verbose=False):
        self.prop, self.tier, self.only, self.verbose = prop, tier, only, verbose
        self.t0 = time.time()
        self.deadline = self.t0 + (660 if tier == "quick" else 6600)
        self.scratch = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.rep = os.path.join(EVID, "replay")
        self.mem = (5 << 30) if tier == "quick" else (12 << 30)
        self.workers = 8 if tier == "quick" else 6
        self.violations = []
        self.results = []

    # ---- one harness instance -------------------------------------------------------------
    def compile(self, h, params, tag):
        d = ["-D%s" % x for x in h["defs"]] + ["-D%s=%s" % kv for kv in params.items()]
        src = os.path.join(HDIR, h["file"])
        gb = os.path.join(self.scratch, tag)
        b = self.b
        rc, so, se = run(["goto-cc", "-DVT_CBMC"] + (["-DVT_NOREACH"] if h["solver"] == "z3x" else []) + d + DEFS + b.incs + ["-c", src, "-o", gb + ".h.gb"], 120)
        if rc != 0:
            raise Broken("goto-cc %s: %s" % (h["file"], (so + se).decode(errors="replace")[-1500:]))
        rc, so, se = run(NATIVE + ["-DVT_NATIVE"] + d + DEFS + b.incs + ["-c", src, "-o", gb + ".h.o"], 300)
        if rc != 0:
            raise Broken("gcc %s: %s" % (h["file"], (so + se).decode(errors="replace")[-1500:]))
        dd, uu = b.nm(gb + ".h.o")
        used = b.closure(dd, uu)
        rc, so, se = run(["goto-cc", "-o", gb + ".gb", gb + ".h.gb"] + [b.objs[s][0] + ".gb" for s in used], 120)
        if rc != 0:
            raise Broken("link %s: %s" % (h["file"], (so + se).decode(errors="replace")[-1500:]))
        exe = gb + ".exe"
        rc, so, se = run(NATIVE + DEFS + d + ["-DVT_ENTRY=" + h["entry"], os.path.join(HDIR, "vt_native.c"), gb + ".h.o"]
                         + [b.objs[s][0] + ".o" for s in used] + WRAPS + ["-Wl,--wrap=" + w for w in h["wraps"]] + ["-lpthread", "-lm", "-o", exe], 300)
        if rc != 0:
            raise Broken("native link %s: %s" % (h["file"], (so + se).decode(errors="replace")[-1500:]))
        return gb + ".gb", exe, used

    def hloops(self, h, gb):
        """names of the loops written in the harness itself (not in the code under test)"""
        rc, so, se = run(["goto-instrument", "--show-loops", "--json-ui", gb], 60)
        out = []
        for e in json.loads(so.decode(errors="replace")):
            for l in e.get("loops", []):
                if os.path.basename(l.get("sourceLocation", {}).get("file", "")) == os.path.basename(h["file"]):
                    out.append(l["name"])
        return out

    def cbmc(self, h, gb, unwind, tmo, hu=None):
        cmd = ["cbmc", gb, "--function", h["entry"], "--unwind", str(unwind)] + CBMC_BASE + h["opts"]
        if hu:
            cmd += ["--unwindset", ",".join("%s:%d" % (l, hu[1]) for l in hu[0])]
        if h["noleak"]:
            cmd += ["--memory-leak-check"]
        solver = h["solver"] or os.environ.get("VT_SOLVER", "default")
        if solver == "kissat" and not shutil.which("kissat"):
            solver = "default"
        env = None
        if solver in ("z3", "z3x"):
            cmd += ["--z3"]
            if shutil.which("z3-new"):                            # cbmc starts whatever is called z3
                zd = os.path.join(self.scratch, "bin")
                os.makedirs(zd, exist_ok=True)
                try:
                    os.symlink(shutil.which("z3-new"), os.path.join(zd, "z3"))
                except FileExistsError:
                    pass
                env = dict(os.environ, PATH=zd + ":" + os.environ.get("PATH", ""))
        elif solver == "kissat":
            cmd += ["--external-sat-solver", "kissat"]
        elif solver != "default":
            cmd += ["--sat-solver", solver]
        t = time.time()
        rc, so, se = run(cmd, tmo, self.mem, None, env)
        dt = time.time() - t
        r = dict(rc=rc, wall=dt, props=[], steps=0, vccs=0, remaining=0, solver_s=0.0, vars=0, clauses=0, nobody=[])
        if rc is None:
            r["why"] = "timeout"
            return r
        try:
            js = json.loads(so.decode(errors="replace"))
        except Exception:
            r["rc"] = None
            r["why"] = "cbmc died (rc %s): %s" % (rc, (so[-300:] + se[-300:]).decode(errors="replace"))
            return r
        err = []
        for e in js:
            m = e.get("messageText", "")
            if e.get("messageType") == "ERROR":
                err.append(m)
            x = re.search(r"size of program expression: (\d+) steps", m)
            if x:
                r["steps"] = int(x.group(1))
            x = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if x:
                r["vccs"], r["remaining"] = int(x.group(1)), int(x.group(2))
            x = re.search(r"(\d+) variables, (\d+) clauses", m)
            if x:
                r["vars"], r["clauses"] = int(x.group(1)), int(x.group(2))
            x = re.search(r"Runtime decision procedure: ([0-9.e+-]+)s", m)
            if x:
                r["solver_s"] += float(x.group(1))
            x = re.search(r"no body for function '?([\w:.$-]+)'?", m)
            if x:
                r["nobody"].append(x.group(1))
            if "result" in e:
                r["props"] = e["result"]
        if not r["props"]:
            r["rc"] = None
            r["why"] = "no result: " + "; ".join(err)[-400:]
        return r

    def native(self, exe, vals, name, note, keep=False):
        d = self.rep if keep else self.scratch
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        with open(p, "w") as f:
            for l in note.split("\n"):
                f.write("# %s\n" % l)
            for v in vals:
                f.write("%d\n" % v)
        env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "TZ": "UTC", "HOME": self.scratch,
               "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
               "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=0"}
        cwd = tempfile.mkdtemp(dir=self.scratch)
        rc, so, se = run([exe, p], 20, None, cwd, env)
        txt = se.decode(errors="replace")
        why = ""
        for l in txt.split("\n"):
            if "VT-" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l:
                why = l.strip()[:300]
                break
        return rc, why, p, txt

    def instance(self, h, params, idx):
        tag = "%s_%s_%d" % (os.path.basename(h["file"])[:-2], h["entry"], idx)
        res = dict(entry=h["entry"], file=h["file"], params=pstr(params), what=h["what"], status="?", unwind=0,
                   obligations=0, discharged=0, steps=0, vccs=0, solver_s=0.0, wall=0.0, queries=0, fns=set(),
                   files=[], spurious=[], witness=None, nobody=[], vars=0, clauses=0)
        self.results.append(res)
        gb, exe, used = self.compile(h, params, tag)
        res["files"] = [os.path.relpath(s, REPO) for s in used]
        unwind = h["unwind"](params) if callable(h["unwind"]) else h["unwind"]
        lim = h["maxunwind"] or unwind * 8
        hu = None
        if h["hunwind"]:
            hu = (self.hloops(h, gb), h["hunwind"](params) if callable(h["hunwind"]) else h["hunwind"])
        per = (h["timeout"] or 240) if self.tier == "quick" else (h["timeout_t"] or 3000)
        while True:
            left = self.deadline - time.time()
            if len(self.violations) >= 3:
                res["status"] = "inconclusive: not run, violations already found"
                return res
            if left < 5:
                res["status"] = "inconclusive: out of time"
                return res
            r = self.cbmc(h, gb, unwind, min(per, left), hu)
            res["queries"] += 1
            res["wall"] += r["wall"]
            res["solver_s"] += r["solver_s"]
            res["unwind"] = unwind
            if r["rc"] is None:
                res["status"] = "inconclusive: " + r["why"]
                return res
            res.update(steps=r["steps"], vccs=r["vccs"], vars=r["vars"], clauses=r["clauses"], nobody=sorted(set(r["nobody"])))
            fails, unw, reach, ok = [], [], None, 0
            nobl = 0
            for p in r["props"]:
                if p["description"] == "vt-reach":
                    if p["status"] == "FAILURE":
                        reach = p
                    continue
                nobl += 1
                loc = p.get("sourceLocation", {})
                if REPO + "/" in loc.get("file", ""):
                    res["fns"].add(loc.get("function", ""))
                if p["status"] == "SUCCESS":
                    ok += 1
                elif "unwind" in p["property"] and "unwinding assertion" in p["description"] or "recursion unwinding" in p["description"]:
                    unw.append(p)
                elif p["status"] == "FAILURE":
                    fails.append(p)
            res["obligations"] = max(0, r["vccs"] - (h["solver"] != "z3x"))            # minus the reachability twin
            res["discharged"] = res["obligations"] - (nobl - ok)
            res["remaining"] = r["remaining"]
            # property failures first: replay each against the real code
            for i, p in enumerate(fails):
                vals, fns = inputs_of(p.get("trace", []))
                loc = p.get("sourceLocation", {})
                note = "property %s harness %s:%s params %s\nobligation: %s (%s) at %s:%s in %s\nrun: built by check, inputs below in order" % (
                    self.prop, h["file"], h["entry"], pstr(params), p["description"], p["property"],
                    loc.get("file", "?"), loc.get("line", "?"), loc.get("function", "?"))
                rc, why, path, txt = self.native(exe, vals, "%s-%s-%d-%d.txt" % (self.prop, h["entry"], idx, i), note)
                leakob = "memory_leak" in p["description"] or "memory-leak" in p["property"] or "never freed" in p["description"]
                if rc in (42, 43, 99) or rc is None or (rc is not None and rc < 0):
                    os.makedirs(self.rep, exist_ok=True)
                    dst = os.path.join(self.rep, os.path.basename(path))
                    shutil.copy(path, dst)
                    res["status"] = "violated"
                    self.violations.append(dict(entry=h["entry"], params=pstr(params), obligation=p["description"],
                                                at="%s:%s" % (loc.get("file", "?"), loc.get("line", "?")),
                                                native=why or ("hang" if rc is None else "rc %s" % rc), replay=dst,
                                                inputs=vals[:64]))
                    return res
                res["spurious"].append("%s @%s:%s (native rc %s %s)" % (p["description"], loc.get("file", "?"), loc.get("line", "?"), rc, why))
                if i >= 24:
                    break
            if unw:
                hang = None
                for i, p in enumerate(unw[:4]):
                    vals, fns = inputs_of(p.get("trace", []))
                    loc = p.get("sourceLocation", {})
                    note = "property %s harness %s:%s params %s\nloop does not terminate: %s at %s:%s" % (
                        self.prop, h["file"], h["entry"], pstr(params), p["property"], loc.get("file", "?"), loc.get("line", "?"))
                    rc, why, path, txt = self.native(exe, vals, "%s-%s-%d-u%d.txt" % (self.prop, h["entry"], idx, i), note)
                    if rc is None or rc in (42, 43, 99) or rc < 0:
                        os.makedirs(self.rep, exist_ok=True)
                        dst = os.path.join(self.rep, os.path.basename(path))
                        shutil.copy(path, dst)
                        hang = dict(entry=h["entry"], params=pstr(params), obligation=p["description"] + " " + p["property"],
                                    at="%s:%s" % (loc.get("file", "?"), loc.get("line", "?")),
                                    native=why or ("does not terminate" if rc is None else "rc %s" % rc), replay=dst, inputs=vals[:64])
                        break
                if hang:
                    res["status"] = "violated"
                    self.violations.append(hang)
                    return res
                if unwind < lim:
                    unwind = min(unwind * 2, lim)
                    continue
                res["status"] = "inconclusive: loop bound %d not sufficient (%s)" % (unwind, unw[0]["property"])
                return res
            if fails:
                res["status"] = "inconclusive: counterexample did not reproduce"
                return res
            if h["solver"] == "z3x":
                # a satisfiable query over a word-level equality is out of reach: the all-zero input
                # shows that the end of the harness can be reached, the solver only proves
                reach = dict(trace=[])
            if reach is None:
                res["status"] = "inconclusive: harness end not reachable (vacuous)"
                return res
            vals, fns = inputs_of(reach.get("trace", []))
            res["fns"] |= fns
            res["witness"] = vals[:48]
            note = "property %s harness %s:%s params %s: reachability witness" % (self.prop, h["file"], h["entry"], pstr(params))
            rc, why, path, txt = self.native(exe, vals, "%s-%s-%d-w.txt" % (self.prop, h["entry"], idx), note)
            if rc == 0:
                res["status"] = "proved"
                res["wit_ok"] = True
            elif rc in (42, 43, 99) or rc is None:
                os.makedirs(self.rep, exist_ok=True)
                dst = os.path.join(self.rep, os.path.basename(path))
                shutil.copy(path, dst)
                res["status"] = "violated"
                self.violations.append(dict(entry=h["entry"], params=pstr(params), obligation="solver witness, run natively",
                                            at=h["file"], native=why or "hang", replay=dst, inputs=vals[:64]))
            else:
                res["status"] = "inconclusive: witness not confirmed natively (rc %s %s)" % (rc, why)
            return res

    # ---- known findings ---------------------------------------------------------------------
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"finding: property=(\w+) id=(\w+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def main(self):
        try:
            return self.main2()
        finally:
            if not os.environ.get("VT_KEEP"):
                shutil.rmtree(self.scratch, ignore_errors=True)
            else:
                log("kept", self.scratch)

    def main2(self):
        hs = [h for h in REG if h["prop"] == self.prop and (not self.only or h["entry"] in self.only)]
        if not hs:
            raise Broken("no harness for " + self.prop)
        for f in os.listdir(self.rep) if os.path.isdir(self.rep) else []:
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(self.rep, f))
        self.b = Build(self.scratch, PATHMAX.get(self.prop))
        t_build = time.time() - self.t0
        jobs = []
        kf = dict(self.known())
        for h in hs:
            if h["finding"]:
                continue
            for ps in (h[self.tier]() if callable(h[self.tier]) else h[self.tier]):
                jobs.append((h, ps))
        jobs.sort(key=lambda j: -j[0]["weight"])
        with ThreadPoolExecutor(self.workers) as ex:
            futs = []
            for i, (h, ps) in enumerate(jobs):
                futs.append(ex.submit(self.instance, h, ps, i))
            for f in as_completed(futs):
                r = f.result()
                if self.verbose or r["status"] != "proved":
                    log("%-28s %-22s %-10s u=%d obl=%d/%d steps=%d q=%d solver=%.1fs wall=%.1fs %s" % (
                        r["entry"], r["params"], r["status"], r["unwind"], r["discharged"], r["obligations"], r["steps"],
                        r["queries"], r["solver_s"], r["wall"], r["spurious"][:6] or ""))
                    if self.verbose and r["nobody"]:
                        log("   no body:", r["nobody"])
        known_lines = []
        for h in hs:
            if h["finding"]:
                # demonstrates a recorded, unrepaired defect: expected to fail natively on its fixed input
                gb, exe, used = self.compile(h, {}, "kf_" + h["finding"])
                rc, why, path, txt = self.native(exe, [], "kf_%s.txt" % h["finding"], "known finding")
                if rc in (42, 43, 99) or rc is None:
                    if h["finding"] in kf:
                        known_lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, kf[h["finding"]]))
                    else:
                        self.violations.append(dict(entry=h["entry"], params="-", obligation="fixed input " + h["finding"],
                                                    at=h["file"], native=why, replay=path, inputs=[]))
        self.evidence(jobs, t_build, known_lines)
        for l in known_lines:
            print(l)
        if self.violations:
            for v in self.violations:
                log("  violated: %s [%s] %s at %s; native: %s; inputs %s" % (v["entry"], v["params"], v["obligation"], v["at"], v["native"], v["inputs"][:24]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]["replay"]))
            return 1
        return 0

    def evidence(self, jobs, t_build, known_lines):
        rs = self.results
        inc = [r for r in rs if r["status"].startswith("inconclusive")]
        fns = sorted(set().union(*[r["fns"] for r in rs]) - {""}) if rs else []
        cov = dict(
            states=sum(r["steps"] for r in rs),
            transitions=sum(r.get("remaining", 0) for r in rs),
            traces_validated_against_impl=sum(1 for r in rs if r.get("wit_ok")),
            obligations=sum(r["obligations"] for r in rs),
            discharged=sum(r["discharged"] for r in rs if not r["status"].startswith("inconclusive")),
            evaluations=sum(r["queries"] for r in rs),
            rule="states = symbolic program steps in the encodings; transitions = verification conditions left for the solver after simplification; "
                 "obligations = verification conditions generated (property assertions, memory safety, arithmetic UB, loop bounds); "
                 "evaluations = solver runs; each harness instance is one encoding of the current sources, decided for every "
                 "input within its bounds; traces_validated = solver witnesses replayed in the ASan/UBSan build with agreement",
            functions_encoded=fns,
            sources=sorted(set(f for r in rs for f in r["files"])),
            unmodelled_calls=sorted(set(f for r in rs for f in r["nobody"])),
            solver_seconds=round(sum(r["solver_s"] for r in rs), 2),
            build_seconds=round(t_build, 2),
            instances=[dict(harness=r["entry"], params=r["params"], claim=r["what"], status=r["status"], unwind=r["unwind"],
                            obligations=r["obligations"], steps=r["steps"], solver_s=round(r["solver_s"], 2)) for r in sorted(rs, key=lambda r: (r["entry"], r["params"]))],
            inconclusive=[dict(harness=r["entry"], params=r["params"], why=r["status"], spurious=r["spurious"]) for r in inc],
            samples=[dict(harness=r["entry"], params=r["params"], witness_inputs=r["witness"]) for r in rs if r["witness"] is not None][:4],
            known_findings=known_lines,
            violations_detail=self.violations,
            bounds="loop unwinding per instance as listed, every loop closed by an unwinding assertion; sizes as in params; "
                   "anything larger is outside the claim",
        )
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
                  coverage=cov,
                  assumptions=["CBMC 6.11 and its C library models; x86-64 LP64; malloc never returns NULL (allocation failure is outside)",
                               "zt_assert is compiled out (NDEBUG), as in the shipped build"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    import registry  # noqa
    try:
        c = Check(a.prop, a.tier, a.only, a.v)
        rc = c.main()
        log("%s %s: rc=%d %.1fs" % (a.prop, a.tier, rc, time.time() - c.t0))
        return rc
    except Broken as e:
        log("BROKEN:", e)
        return 3
