"""Plumbing shared by all checks: building harnesses from /repo's working tree,
running TLC, replaying cases through a harness, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "source")
TLA = os.path.join(VERIF, "tla")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
NCPU = os.cpu_count() or 4
LOCK = threading.Lock()
BUILDING = threading.Lock()


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


# Under SAN harnesses are built with sanitizers, a sample of the cases is run and
# what the sanitizers report is collected (C28, C29).
SAN = None
SAN_FLAGS = {"memory": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"],
             "threads": ["-O0", "-fsanitize=thread", "-g1"]}
SAN_ENV = {"memory": {"VH_COUNT": "1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=1500:exitcode=77",
                      "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77"},
           "threads": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=78:report_signal_unsafe=0"}}


class Sanitized:
    def __init__(self, rnd, limit, kind="memory"):
        self.rnd, self.limit, self.kind = rnd, limit, kind
        self.flags, self.env, self.pairs = SAN_FLAGS[kind], dict(SAN_ENV[kind]), False
        self.left = []
        self.reports, self.ran, self.commands, self.skipped = [], 0, 0, 0

    def in_pairs(self):
        """two cases at a time, in threads of their own"""
        self.pairs = True
        self.env["VH_PAIR"] = "1"

    def sample(self, cases):
        """most of the cases are left out, but none of the kinds of commands (their words) if there is room.
        Returns the cases to run and those that are new in kind."""
        order = list(range(len(cases)))
        self.rnd.shuffle(order)
        seen, new, rest = set(), [], []
        for i in order:
            kinds = {" ".join(w for w in c.split() if w[0].isalpha()) for c in cases[i]} - seen
            if kinds and len(new) < self.limit:
                seen |= kinds
                new.append(i)
            else:
                rest.append(i)
        return sorted(new + rest[:max(0, self.limit - len(new))]), new


def san_summary(err):
    """the report of a sanitizer in a few words; None: no report"""
    m = re.search(r"runtime error: (.*)", err) or re.search(r"(?:ERROR|WARNING): (?:Address|Thread)Sanitizer:? (.*)", err)
    if not m:
        return None
    where = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (\S*/source/\S+)", err)
    return m.group(1)[:200] + ("" if not where else "  in %s %s" % where[0])


# ----------------------------------------------------------------- building
CXXFLAGS = ["-std=c++17", "-O1", "-w", "-DENABLE_MLPACK=false",
            "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
            "-I" + os.path.join(HARN, "shim"), "-I" + SRC, "-I" + HARN]


def _tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, p).encode() + b"\0")
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        else:
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _compile(args):
    src, obj, flags = args
    r = _run(["g++"] + flags + ["-c", src, "-o", obj])
    return src, r.returncode, r.stdout


def build(name, lib=False, extra=()):
    """Build harness/<name>.cpp against the current sources; returns the binary.
    lib=True also links the compiled part of the library."""
    flags = CXXFLAGS + list(extra) + (SAN.flags if SAN else [])
    key = _tree_hash([SRC, HARN])
    key.update(" ".join(flags).encode())
    key = key.hexdigest()[:16]
    out = os.path.join(BUILD, key)
    os.makedirs(out, exist_ok=True)
    binp = os.path.join(out, name + ("_l" if lib else ""))
    if os.path.exists(binp):
        return binp
    mine = ".%d.%d" % (os.getpid(), threading.get_ident())
    obj = os.path.join(out, name + mine + ".o")
    with ThreadPoolExecutor(1) as ex:
        one = ex.submit(_objects, [(os.path.join(HARN, name + ".cpp"), obj, flags)])
        libobjs = _library(out, flags) if lib else []
        one.result()
    tmp = binp + mine
    r = _run(["g++", obj] + libobjs + ["-o", tmp, "-lpthread"] + (SAN.flags if SAN else []))
    os.unlink(obj)
    if r.returncode != 0:
        raise CheckError("link of %s failed:\n%s" % (name, r.stdout[:3000]))
    os.replace(tmp, binp)
    return binp


def _library(out, flags):
    with BUILDING:        # threads of one check may ask for the library at the same time
        libobjs, jobs = [], []
        for sub in ("dnn", "middleware", "parser"):
            d = os.path.join(SRC, sub)
            for f in sorted(os.listdir(d)):
                if f.endswith(".cpp"):
                    o = os.path.join(out, "lib_%s_%s.o" % (sub, f[:-4]))
                    libobjs.append(o)
                    if not os.path.exists(o):
                        jobs.append((os.path.join(d, f), o, flags))
        _objects(jobs)
        return libobjs


def _objects(jobs):
    """compile; a file appears under its name when it is complete"""
    jobs = [(s, o, "%s.tmp%d.%d.o" % (o, os.getpid(), threading.get_ident()), fl) for s, o, fl in jobs]
    with ThreadPoolExecutor(NCPU) as ex:
        for src, rc, txt in ex.map(_compile, [(s, t, fl) for s, o, t, fl in jobs]):
            if rc != 0:
                raise CheckError("compilation of %s failed:\n%s" % (src, txt[:3000]))
    for s, o, t, fl in jobs:
        os.replace(t, o)


# ------------------------------------------------------------- running cases
def hx(s):
    """token for a text argument"""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "x" + s.hex()


def show(cmd):
    """a command line with its text arguments readable"""
    def un(t):
        if re.match(r"^x([0-9a-f]{2})+$", t):
            return repr(bytes.fromhex(t[1:]).decode("latin-1"))
        return t
    return " ".join(un(t) for t in cmd.split(" "))


def num(v):
    """a number as the harnesses print it"""
    v = float(v)
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    if v == int(v) and abs(v) < 1e9:
        return int(v)
    return Hex(v.hex())


class Hex(str):
    """hexadecimal float, equal to any spelling of the same value"""
    def __eq__(self, o):
        try:
            return float.fromhex(self) == float.fromhex(o)
        except (TypeError, ValueError):
            return False
    __hash__ = str.__hash__

    def __ne__(self, o):
        return not self == o


def run_cases(binary, cases, seconds_total=600, cwd=None, max_crashes=6, seconds_case=10, whole=False):
    """cases: list of lists of command lines.  Returns list of lists of decoded
    results; a case that ends the process is padded with {'crash': ...}."""
    n = len(cases)
    results = [None] * n
    if SAN and not whole and (SAN.pairs or n > SAN.limit):
        with LOCK:
            keep, new = SAN.sample(cases)
            SAN.skipped += n - len(keep)
        if SAN.pairs:                                  # each kind next to itself, the others two by two
            keep = [i for i in new for _ in (0, 1)] + [i for i in keep if i not in set(new)]
        for i, r in zip(keep, run_cases(binary, [cases[i] for i in keep], seconds_total, cwd, max_crashes, seconds_case, True)):
            results[i] = r
        return results
    if SAN:
        with LOCK:
            SAN.ran += n
            SAN.commands += sum(map(len, cases))
    work = tempfile.mkdtemp(prefix="vcase_")
    try:
        nsh = min(NCPU, max(1, n // 200))
        shards = [[i for i in range(n) if i // 2 % nsh == j] for j in range(nsh)]
        left = []

        def do(shard_i):
            idxs = shards[shard_i]
            script = os.path.join(work, "s%d" % shard_i)
            with open(script, "w") as f:
                for i in idxs:
                    f.write("#\n" + "\n".join(cases[i]) + "\n")
            first, crashes = 0, 0
            deadline = time.time() + seconds_total
            wd = os.path.join(work, "d%d" % shard_i)
            os.makedirs(wd, exist_ok=True)
            while first < len(idxs):
                outp = os.path.join(work, "o%d" % shard_i)
                if os.path.exists(outp):
                    os.unlink(outp)
                try:
                    r = subprocess.run([binary, script, outp, str(first)], cwd=cwd or wd,
                                       env=dict(os.environ, VH_SECONDS=str(seconds_case), **(SAN.env if SAN else {})),
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                       timeout=max(5, deadline - time.time()))
                    rc, err = r.returncode, r.stderr.decode("latin-1", "replace")[-200000:]
                except subprocess.TimeoutExpired:
                    raise CheckError("harness %s ran out of time" % binary)
                if rc in (96, 97):
                    raise CheckError("harness error: " + err)
                cur, done = None, False
                if os.path.exists(outp):
                    with open(outp, encoding="latin-1") as f:
                        for line in f:
                            line = line.rstrip("\n")
                            if line == "#end":
                                done = True
                            elif line.startswith("#left "):
                                if int(line[6:]) > 0:
                                    left.append((idxs[cur], int(line[6:])))
                            elif line.startswith("#"):
                                cur = int(line[1:])
                                results[idxs[cur]] = []
                            elif cur is not None:
                                try:
                                    results[idxs[cur]].append(json.loads(line))
                                except ValueError:
                                    pass      # torn last line of a crash
                if done:
                    break
                if rc == 0:
                    raise CheckError("harness stopped early without an error")
                if cur is None:
                    raise CheckError("harness could not start: rc=%s %s" % (rc, err))
                why = "signal %d" % -rc if rc < 0 else "exit %d" % rc
                if rc == -14:
                    why = "did not terminate"
                elif rc == -11:
                    why = "crash (segmentation fault)"
                elif rc == -6:
                    why = "abort"
                elif rc == -9:
                    why = "killed"
                elif rc == 98:
                    why = "memory exhausted"
                elif rc == -8:
                    why = "arithmetic trap"
                rs = results[idxs[cur]]
                if SAN and san_summary(err):
                    with LOCK:
                        case, at = cases[idxs[cur]], len(rs)
                        if SAN.pairs and cur % 2:
                            case, at = cases[idxs[cur - 1]] + ["#"] + case, 10 ** 6
                        SAN.reports.append((os.path.basename(binary), case, at, san_summary(err), err))
                    results[idxs[cur]] = None
                else:
                    while len(rs) < len(cases[idxs[cur]]):
                        rs.append({"crash": why})
                if SAN and SAN.pairs:                  # its companion was not heard
                    for k in (cur, cur - cur % 2):
                        results[idxs[k]] = None
                crashes += 1
                first = cur + 1
                if crashes >= max_crashes:
                    for k in range(first, len(idxs)):
                        results[idxs[k]] = None
                    break
        with ThreadPoolExecutor(nsh) as ex:
            list(ex.map(do, range(nsh)))
        if SAN and left:
            with LOCK:
                SAN.left += [(binary, cases[i], k) for i, k in left]
        return results
    finally:
        shutil.rmtree(work, ignore_errors=True)


def leaks(most=40):
    """cases that leave something allocated whenever they are run (caches and
    first uses are not leaks)"""
    seen, found = sorted(SAN.left, key=lambda x: -x[2]), []
    SAN.left = []
    per = {}
    for binary, case, _ in seen:
        if per.setdefault(binary, 0) < most:
            per[binary] += 1
            run_cases(binary, [case] * 5)
            if len(SAN.left) >= 3:
                found.append((binary, case, min(x[2] for x in SAN.left)))
            SAN.left = []
    return found


# ------------------------------------------------------------------------ TLC
def _tlc_errors(text):
    ls = [l for l in text.splitlines() if not re.match(r"^[ |]+line \d+, col", l)]
    for i, l in enumerate(ls):
        if l.startswith("Error:") or "Exception" in l or "***" in l:
            return "\n".join(ls[i:i + 60])[:4000]
    return text[-3000:]


class TLCResult:
    def __init__(self):
        self.states = self.distinct = self.depth = 0
        self.prints = []
        self.ok = False
        self.text = ""
        self.actions = {}
        self.wall = 0.0


def tlc(module, cfg, env=None, workers=None, timeout=800, heap="6g", args=(), consts=None,
        allow_fail=False, parse=True, coverage=False, defs=None, small=False):
    """Run TLC on tla/<module>.tla with config text or file name `cfg`.
    defs: TLA+ definitions {name: expr}; they are put in a module MC that
    extends <module>, and substituted for its constants.
    small: over in a few seconds, so not worth much compilation."""
    meta = tempfile.mkdtemp(prefix="vtlc_")
    try:
        if "\n" in cfg or not cfg.endswith(".cfg"):
            text = cfg
        else:
            with open(os.path.join(TLA, cfg)) as f:
                text = f.read()
        if consts:
            text += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
        target = os.path.join(TLA, module + ".tla")
        if defs:
            target = os.path.join(meta, "MC.tla")
            body = "".join("MC_%s == %s\n" % (k, v) for k, v in defs.items())
            with open(target, "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n%s====\n" % (module, body))
            text += "\nCONSTANTS\n" + "\n".join("  %s <- MC_%s" % (k, k) for k in defs) + "\n"
        cfgp = os.path.join(meta, module + "_run.cfg")
        with open(cfgp, "w") as f:
            f.write(text)
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -DTLA-Library=%s -Dfile.encoding=UTF-8%s" % (heap, TLA, " -XX:TieredStopAtLevel=1" if small else "")
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["tlc", "-config", cfgp, "-metadir", os.path.join(meta, "m"), "-noGenerateSpecTE",
               "-workers", str(workers or 1), "-deadlock"]
        if coverage:
            cmd += ["-coverage", "60"]
        cmd += list(args) + [target]
        t0 = time.time()
        outp = os.path.join(meta, "out")
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC ran out of time on " + module)
        res = TLCResult()
        res.wall = time.time() - t0
        other = []
        with open(outp, encoding="utf-8", errors="replace") as f:
            for line in f:
                if parse and line.startswith('"{') or parse and line.startswith('"['):
                    try:
                        res.prints.append(json.loads(json.loads(line)))
                        continue
                    except ValueError:
                        pass
                other.append(line)
        res.text = "".join(other)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.text)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", res.text)
        if m:
            res.depth = int(m[-1])
        for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)", res.text):
            res.actions[m.group(1)] = res.actions.get(m.group(1), 0) + int(m.group(4))
        res.ok = rc == 0
        res.rc = rc
        if not res.ok and not allow_fail:
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, _tlc_errors(res.text)))
        return res
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# -------------------------------------------------------------------- context
class Ctx:
    share = 1.0

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = {}
        self.notes = []
        self._load_known()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(" ".join(["[%s %6.1fs]" % (self.prop, time.time() - self.t0)] + [str(x) for x in a]) + "\n", end="", flush=True)

    # ---- known findings
    def _load_known(self):
        self.kf = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", line)
                if m and m.group(1) == self.prop:
                    self.kf.append((m.group(2), m.group(3)))

    def is_known(self, fid):
        return any(k == fid for k, _ in self.kf)

    def known_hit(self, fid):
        """A listed finding was seen again on this tree."""
        self.known[fid] = self.known.get(fid, 0) + 1

    # ---- counting
    def count_tlc(self, r, name=None):
        with LOCK:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.states
        if name:
            self.cov.setdefault("models", {})[name] = {"states": r.distinct, "transitions": r.states}
            if r.actions:
                self.cov["models"][name]["actions"] = r.actions

    def some(self, items):
        """all the items; a part of them where only a part is asked for (C28)"""
        items = list(items)
        if self.share < 1:
            rnd = random.Random("%s %d %d" % (self.prop, self.seed, len(items)))
            keep = set(rnd.sample(range(len(items)), max(1, round(len(items) * self.share))))
            items = [x for i, x in enumerate(items) if i in keep]
        return items

    def each(self, fn, items, jobs=4):
        """fn on every item, several at a time; the first exception is raised"""
        items = self.some(items)
        with ThreadPoolExecutor(jobs) as ex:
            for f in [ex.submit(fn, *i) for i in items]:
                f.result()

    def traces(self, n):
        with LOCK:
            self.cov["traces_validated_against_impl"] += n

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        """replay: dict with everything needed to see it again."""
        self.viol.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.known:
            ev["coverage"]["known_findings_seen"] = self.known
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        for fid, text in self.kf:
            if fid in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
            else:
                print("note: known finding %s of %s was not observed in this run" % (fid, self.prop))
        if self.viol:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, **r} for w, r in self.viol[:50]], f, indent=1, default=str)
            for w, _ in self.viol[:10]:
                print("violation:", str(w)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        print("%s: held on everything explored (%d states, %d transitions, %d traces; %.1f s)" % (
            self.prop, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0
