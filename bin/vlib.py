"""Machinery shared by the checks: building, running TLC, judging traces, evidence.

Exit status of a check: 0 the property held on everything explored; 1 with a
VIOLATION line; 3 for any failure of the machinery itself (model error, tool
failure), which is never reported as a violation.
"""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import probe

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXXFLAGS = ["-std=c++17", "-O2", "-DNDEBUG", "-w"]


class MachineryError(Exception):
    pass


class HarnessBuildError(Exception):
    """The harness does not compile or link against the library."""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.counts, self.assumptions = [], [], {}, []
        self.violations = []
        self.probed = set()
        self.budget = 800 if self.thorough else 600       # seconds after which no further part of a trace is judged
        self.java = None

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------- building
    def build_java(self):
        if self.java is None:
            out = self.path("java")
            os.makedirs(out, exist_ok=True)
            srcs = [os.path.join(ROOT, "java", f) for f in sorted(os.listdir(os.path.join(ROOT, "java"))) if f.endswith(".java")]
            r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", out] + srcs, capture_output=True, text=True, errors="replace")
            if r.returncode:
                raise MachineryError("javac failed:\n" + r.stderr)
            self.java = out
        return self.java

    def build_cpp(self, name, srcs, flags=(), cxx="g++", opt=None):
        """Compile the harness sources (in parallel) against REPO's headers and link them."""
        base = list(CXXFLAGS)
        if opt:
            base = [f for f in base if not f.startswith("-O")] + [opt]
        objs, cmds = [], []
        for s in srcs:
            o = self.path("%s_%s.o" % (name, os.path.basename(s).replace(".", "_")))
            objs.append(o)
            src = s if os.path.isabs(s) else os.path.join(HARN, s)
            cmds.append([cxx] + base + ["-I", os.path.join(REPO, "include"), "-I", HARN] + list(flags) + ["-c", src, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            for cmd, r in zip(cmds, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True, errors="replace"), cmds)):
                if r.returncode:
                    raise HarnessBuildError("compiling %s:\n%s" % (cmd[-3], r.stderr[-3000:]))
        exe = self.path(name)
        r = subprocess.run([cxx] + objs + list(flags) + ["-o", exe, "-pthread"], capture_output=True, text=True, errors="replace")
        if r.returncode:
            raise HarnessBuildError("linking %s:\n%s" % (name, r.stderr[-3000:]))
        return exe

    def precompile(self, header, cxx, flags):
        """Precompile a header of standard headers (only to save time: without the result it is read as it is)."""
        subprocess.run([cxx] + CXXFLAGS + list(flags) + ["-x", "c++-header", header, "-o", header + (".gch" if cxx == "g++" else ".pch")], capture_output=True)

    def compiles(self, text, cxx, flags):
        """Does a program compile against REPO's headers?"""
        r = subprocess.run([cxx] + CXXFLAGS + ["-fsyntax-only", "-I", os.path.join(REPO, "include")] + list(flags) + ["-x", "c++", "-"],
                           input=text, capture_output=True, text=True, errors="replace")
        return r.returncode == 0, r.stderr

    # ------------------------------------------------------------- TLC
    def tlc(self, module, ring="ring_dyadic", cfg=None, env=None, workers=8, args=(), timeout=800, count=True, heap="10g"):
        """Run TLC; returns (exit code, output).  Codes 0, 10..13 are verdicts, anything else is an error."""
        self.build_java()
        tag = "%s_%d" % (module, len(self.models) + int(time.time() * 1000) % 100000)
        meta = self.path("meta_" + tag)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.dir, "-DTLA-Library=" + ":".join([SPEC, os.path.join(SPEC, ring)]),
               "-cp", self.java + ":" + TLA, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta]
        if cfg is not None:
            cf = self.path("cfg_" + tag + ".cfg")
            with open(cf, "w") as f:
                f.write(cfg)
            cmd += ["-config", cf]
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout + r.stderr
        with open(self.path("tlc_%s.log" % tag), "w") as f:
            f.write(out)
        if r.returncode not in (0, 10, 11, 12, 13):
            keep = [x for x in out.splitlines() if not x.startswith(("Loading", "Parsing", "Semantic", "Linting"))]
            raise MachineryError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, "\n".join(keep[-40:])))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            gen = dis = int(m[-1].replace(",", "")) if m else 0
        if count:
            self.states += dis
            self.transitions += gen
        self.models.append({"model": module, "distinct_states": dis, "states_generated": gen, "seconds": round(time.time() - t, 1)})
        return r.returncode, out

    def model(self, module, **kw):
        """A design model: must be accepted (anything else is an error of the specification)."""
        code, out = self.tlc(module, **kw)
        if code != 0:
            raise MachineryError("model %s is not accepted by TLC (exit %d)\n%s" % (module, code, out[-2500:]))
        return out

    def dyadic_selftest(self):
        self.model("DyadicTest", ring="ring_dyadic", workers=1)

    # ------------------------------------------------------------- harness
    def run(self, exe, args, timeout=240, env=None, stdin=None):
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, timeout=timeout, env=e, input=stdin, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return "hang", b"", b""
        if r.returncode in (2, 3):
            raise MachineryError("harness %s failed: %s" % (exe, r.stderr[-500:]))
        return r.returncode, r.stdout, r.stderr

    def record(self, exe, plan, trace, *extra, timeout=240):
        """Run a harness; a crash or hang of the code under test becomes a line of the trace."""
        rc, so, se = self.run(exe, [plan, trace, self.seed] + list(extra), timeout=timeout)
        if rc != 0:
            drop_partial_line(trace)
            with open(trace, "a") as f:
                f.write(json.dumps({"op": "crash", "how": str(rc)}) + "\n")
        return trace

    # ------------------------------------------------------------- judging
    def judge(self, trace, module, cfg, describe=None, part=40000, env=None, sample=3, timeout=800):
        """Validate a trace of independent lines.  Returns the list of rejected lines (each confirmed by a second TLC run)."""
        with open(trace, errors="replace") as f:
            lines = f.readlines()
        if not lines:
            raise MachineryError("empty trace " + trace)
        bad = []
        nparts = (len(lines) + part - 1) // part
        order = list(range(nparts))
        random.Random(self.seed).shuffle(order)
        for n, p in enumerate(order):
            if n > 0 and time.time() - self.t0 > self.budget:
                # out of time: say what was left out
                left = sum(len(lines[q * part:(q + 1) * part]) for q in order[n:])
                self.counts["recorded_lines_not_judged"] = self.counts.get("recorded_lines_not_judged", 0) + left
                break
            sub = lines[p * part:(p + 1) * part]
            name = self.path("%s.part%d" % (os.path.basename(trace), p))
            with open(name, "w") as f:
                f.writelines(sub)
            e = {"TRACE": name}
            e.update(env or {})
            code, out = self.tlc(module, cfg=cfg, env=e, timeout=timeout)
            if code == 0:
                self.traces += len(sub)
            else:
                m = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", out, re.M)
                if code != 11 or not m:
                    raise MachineryError("unexpected TLC verdict %d on %s" % (code, module))
                l = int(m[-1][0] or m[-1][1])
                rej = sub[l - 1]
                self.traces += l - 1
                if self.confirm(rej, module, cfg, env):
                    bad.append(rej)
                    break
                raise MachineryError("a rejection was not repeated on " + module)
            os.unlink(name)
        k = max(1, len(lines) // sample)
        for i in range(0, len(lines), k):
            if len(self.samples) < 12:
                self.samples.append(json.loads(lines[i]))
        if not bad:
            self.probe(lines, module, cfg, env)
        return bad

    def probe(self, lines, module, cfg, env, programs=False):
        """How many lines with one corrupted field does the trace specification reject?  A number for the evidence, no verdict."""
        if module in self.probed:
            return
        self.probed.add(module)
        rng = random.Random(self.seed)
        name, dump = self.path("probe.ndjson"), self.path("probe")
        self.accepted_probes = []
        try:
            if programs:
                m = re.search(r"Judged = \{(.*?)\}", cfg)
                judged = re.findall(r"\w+", m.group(1)) if m else None
                text, marks = self.corrupt_programs(lines, rng, judged)
            else:
                text, marks = [], []
                for line in rng.sample(lines, min(len(lines), int(os.environ.get("VERIF_PROBES", "400")))):
                    r = probe.corrupt(json.loads(line), rng, os.environ.get("VERIF_PROBE", "sign"))
                    if r:
                        text.append(json.dumps(r[0], separators=(",", ":")) + "\n")
                        marks.append(len(text))
            if not text:
                return
            with open(name, "w") as f:
                f.writelines(text)
            e = {"TRACE": name}
            e.update(env or {})
            self.tlc(module, cfg=(cfg if programs else cfg.replace("SPECIFICATION Spec", "SPECIFICATION ProbeSpec")).replace("CHECK_DEADLOCK TRUE", "CHECK_DEADLOCK FALSE"), env=e, timeout=200, count=False, args=["-dump", dump])
            seen = {s["l"] for s in parse_states(dump + ".dump") if programs or s["hi"] == -2}
            self.accepted_probes = [(text[m - 1], None) for m in marks if m in seen]
            self.counts.setdefault("corrupted_lines_rejected", {})[module] = "%d of %d" % (len(marks) - len(self.accepted_probes), len(marks))
            if os.environ.get("VERIF_PROBE_OUT"):
                with open(os.environ["VERIF_PROBE_OUT"], "a") as f:
                    f.writelines(x[0] for x in self.accepted_probes)
        except (MachineryError, OSError, ValueError) as x:
            self.counts.setdefault("corrupted_lines_rejected", {})[module] = "not measured"
            if os.environ.get("VERIF_PROBE_OUT"):
                print("probe of", module, x)

    def corrupt_programs(self, lines, rng, judged):
        """A sample of programs, each with one line after its start corrupted (nothing after that line is kept)."""
        starts = [i for i, x in enumerate(lines) if x.startswith('{"op":"start"')] + [len(lines)]
        text, marks = [], []
        for n in rng.sample(range(len(starts) - 1), min(len(starts) - 1, 150)):
            lo, hi = starts[n], starts[n + 1]
            if hi - lo < 2:
                continue
            ks = [k for k in range(lo + 1, hi) if judged is None or any('"f":"%s"' % f in lines[k] for f in judged)]
            if not ks:
                continue
            k = rng.choice(ks)
            r = probe.corrupt(json.loads(lines[k]), rng)
            if r:
                text += lines[lo:k] + [json.dumps(r[0], separators=(",", ":")) + "\n"]
                marks.append(len(text))
        return text, marks

    def judge_programs(self, trace, module, cfg, timeout=800):
        """Validate a trace of programs (each begun by a "start" line).  Returns the rejected programs, cut after the rejected line."""
        with open(trace, errors="replace") as f:
            lines = f.readlines()
        code, out = self.tlc(module, cfg=cfg, env={"TRACE": trace}, timeout=timeout)
        k = max(1, len(lines) // 3)
        self.samples += [json.loads(x) for x in lines[::k]][:3]
        if code == 0:
            self.traces += sum(1 for x in lines if x.startswith('{"op":"start"'))
            self.probe(lines, module, cfg, None, programs=True)
            return []
        m = re.findall(r"^/\\ l = (\d+)|^l = (\d+)", out, re.M)
        if code != 11 or not m:
            raise MachineryError("unexpected TLC verdict %d on %s" % (code, module))
        l = int(m[-1][0] or m[-1][1])          # the last accepted line; the next is rejected
        start = max(i for i in range(l + 1) if i == 0 or lines[i].startswith('{"op":"start"'))
        text = "".join(lines[start:l + 1])
        if not self.confirm(text, module, cfg, None):
            raise MachineryError("a rejection was not repeated on " + module)
        return [text]

    def confirm(self, line, module, cfg, env):
        one = self.path("confirm.ndjson")
        with open(one, "w") as f:
            f.write(line)
        e = {"TRACE": one}
        e.update(env or {})
        code, _ = self.tlc(module, cfg=cfg, env=e, workers=1, count=False)
        return code == 11

    def report(self, text, what):
        """Register a violation."""
        h = hashlib.sha1(text.encode()).hexdigest()[:10]
        rp = os.path.join(self.replays, "%s-%s.ndjson" % (self.pid, h))
        with open(rp, "w") as f:
            f.write(text if text.endswith("\n") else text + "\n")
        self.violations.append(rp)
        print("rejected: " + what)
        print("  " + text.strip()[:1500])
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))

    # ------------------------------------------------------------- the end
    def finish(self, exhaustive=None, assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:12], "models": self.models}
        cov.update(self.counts)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": list(assumptions) + self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: states=%d traces=%d violations=%d %.1fs" % (self.pid, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def drop_partial_line(path):
    try:
        with open(path, "rb+") as f:
            data = f.read()
            n = data.rfind(b"\n")
            f.truncate(n + 1)
    except FileNotFoundError:
        open(path, "w").close()


def load_known(pid=None):
    """The recorded (unrepaired) findings of known_findings.txt."""
    out = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) (.*?) :: (.*)", line.strip())
            if m and pid in (None, m.group(1)):
                d = dict(kv.split("=", 1) for kv in m.group(2).split())
                d.update(property=m.group(1), text=m.group(3))
                out.append(d)
    return out


def parse_dump(path, var):
    """The values of tuple variable `var` in a TLC state dump, as python lists."""
    out = []
    with open(path, errors="replace") as f:
        text = f.read()
    for block in re.split(r"^State \d+:\n", text, flags=re.M)[1:]:
        m = re.search(r"(?:/\\ )?%s = (<<.*>>|\[.*\]|\{.*\})" % var, " ".join(block.split()))
        if m:
            out.append(tla_value(m.group(1)))
    return out


def parse_states(path, head=r"^State \d+:\n"):
    """All states of a TLC dump as dictionaries of their variables."""
    with open(path, errors="replace") as f:
        text = f.read()
    for block in re.split(head, text, flags=re.M)[1:]:
        block = re.sub(r"^(\\\*.*|=+)$", "", block, flags=re.M)
        yield {k: tla_value(v) for k, v in re.findall(r"/\\ (\w+) = (.*?)(?= /\\ \w+ = |$)", " ".join(block.split()))}


def tla_value(s):
    """Parse a TLA+ value made of tuples, sets, records, strings, integers and booleans."""
    pos = [0]
    tok = re.findall(r'<<|>>|\|->|[\[\]{},]|"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE|\w+', s)

    def val():
        t = tok[pos[0]]
        pos[0] += 1
        if t in ("<<", "{"):
            end = ">>" if t == "<<" else "}"
            r = []
            while tok[pos[0]] != end:
                if tok[pos[0]] == ",":
                    pos[0] += 1
                    continue
                r.append(val())
            pos[0] += 1
            return r
        if t == "[":
            r = {}
            while tok[pos[0]] != "]":
                if tok[pos[0]] == ",":
                    pos[0] += 1
                    continue
                k = tok[pos[0]]
                pos[0] += 1
                assert tok[pos[0]] == "|->", tok[pos[0]]
                pos[0] += 1
                r[k] = val()
            pos[0] += 1
            return r
        if t.startswith('"'):
            return t[1:-1]
        if t == "TRUE":
            return True
        if t == "FALSE":
            return False
        if re.match(r"-?\d+$", t):
            return int(t)
        return t
    return val()
