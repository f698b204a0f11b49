"""Shared machinery of the checks: builds the driver from /repo's working tree,
runs TLC, replays and validates, and writes evidence and verdicts.

Verdicts come from the real code only: a case counts as a violation when the
real code's answer differs from the specification's and the difference repeats
when the case is run again on its own.  Everything else that goes wrong (build,
TLC or driver failure, time-out) ends with exit code 2.
"""
import glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin/go"
NCPU = max(2, min(8, os.cpu_count() or 2))


class Infra(Exception):
    """The check itself could not do its work (exit 2)."""


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        shutil.copytree(SPEC, os.path.join(self.work, "spec"))
        self.states = self.transitions = self.traces = self.checks = 0
        self.samples, self.violations, self.known = [], [], {}
        self.unconfirmed = []
        self.parts, self.assumptions = [], []
        self.lock = threading.Lock()
        self.drivers = {}
        self.findings = load_findings()

    # ---- building -------------------------------------------------------
    def goenv(self):
        ws = os.path.join(self.work, "ws")
        if not os.path.isdir(ws):
            os.makedirs(ws)
            with open(os.path.join(ws, "go.work"), "w") as f:
                f.write("go 1.25.0\n\nuse (\n\t%s\n\t%s/cmd/xtemplate\n)\n" % (REPO, REPO))
            if os.path.exists("/opt/vp/go.work.sum"):
                shutil.copy("/opt/vp/go.work.sum", os.path.join(ws, "go.work.sum"))
        env = dict(os.environ)
        home = env.get("HOME") or "/root"
        env.update(HOME=home, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOENV="off",
                   GOWORK=os.path.join(ws, "go.work"), LANG="C.UTF-8",
                   GOPATH=env.get("GOPATH") or "/root/go",
                   GOCACHE=env.get("GOCACHE") or "/root/.cache/go-build")
        env["PATH"] = os.path.dirname(GO) + ":" + env.get("PATH", "")
        return env

    def build(self, race=False):
        """Compile the driver together with /repo's current tree."""
        with self.lock:
            if race in self.drivers:
                return self.drivers[race]
            files = sorted(glob.glob(os.path.join(VERIF, "harness", "drv", "*.go")))
            d = os.path.join(REPO, "cmd", "xtemplate", "internal", "verifdrv")
            ov = os.path.join(self.work, "overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {os.path.join(d, os.path.basename(x)): x for x in files}}, f)
            out = os.path.join(self.work, "drv-race" if race else "drv")
            cmd = [GO, "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./internal/verifdrv"]
            p = subprocess.run(cmd, cwd=os.path.join(REPO, "cmd", "xtemplate"), env=self.goenv(),
                               capture_output=True, text=True, timeout=800)
            if p.returncode != 0:
                raise Infra("driver does not build:\n" + p.stderr[-4000:])
            self.drivers[race] = out
            return out

    def build_cli(self):
        out = os.path.join(self.work, "xtemplate")
        if not os.path.exists(out):
            p = subprocess.run([GO, "build", "-o", out, "."], cwd=os.path.join(REPO, "cmd", "xtemplate"),
                               env=self.goenv(), capture_output=True, text=True, timeout=800)
            if p.returncode != 0:
                raise Infra("xtemplate does not build:\n" + p.stderr[-4000:])
        return out

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, cfgtext=None, env=None, workers=None, simulate=None, depth=None,
            timeout=800, count=True, heap="4g"):
        """Run TLC; returns (states generated, distinct states).  Any TLC error is an Infra error:
        the specifications' own invariants are expected to hold."""
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        specdir = os.path.join(wd, "spec")
        shutil.copytree(os.path.join(self.work, "spec"), specdir)
        if cfgtext is not None:
            cfg = "gen_%s.cfg" % module
            with open(os.path.join(specdir, cfg), "w") as f:
                f.write(cfgtext)
        cfg = cfg or module + ".cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(wd, "states"),
               "-workers", str(workers or NCPU), "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=specdir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC time-out: %s %s" % (module, cfg))
        o = re.sub(r"(?m)^(Parsing file|Semantic processing of|Linting of|Computed \d+ initial) .*\n", "", p.stdout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", "").replace(
            " states generated ", " states generated, ")) or re.findall(
            r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
        if p.returncode != 0 or "Error:" in o:
            raise Infra("TLC failed on %s (%s), exit %d:\n%s" % (module, cfg, p.returncode, tail(o, 60)))
        if simulate:
            ms = re.findall(r"The number of states generated: ([\d,]+)", o) or re.findall(r"([\d,]+) states checked", o)
            gen = int(ms[-1].replace(",", "")) if ms else 0
            dist = gen
        else:
            if not m:
                raise Infra("no statistics from TLC on %s:\n%s" % (module, tail(o, 40)))
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        if count:
            with self.lock:
                self.states += dist
                self.transitions += gen
        shutil.rmtree(wd, ignore_errors=True)
        return gen, dist

    # ---- spec -> code ---------------------------------------------------
    def generate(self, module, name, cfg=None, cfgtext=None, env=None, **kw):
        """TLC enumerates cases into a file; returns its path."""
        path = os.path.join(self.work, name + ".ndjson")
        open(path, "w").close()
        e = dict(env or {})
        e["CASES"] = path
        t = time.time()
        gen, dist = self.tlc(module, cfg, cfgtext, env=e, **kw)
        if torn(path):      # lines beyond 8 KB are written in pieces, which several workers may mix up
            open(path, "w").close()
            self.tlc(module, cfg, cfgtext, env=e, count=False, **dict(kw, workers=1))
            if torn(path):
                raise Infra("the cases of %s are garbled" % name)
        n = count_lines(path)
        if n == 0:
            raise Infra("%s generated no cases" % name)
        self.parts.append({"part": name, "spec": module, "states": dist, "transitions": gen,
                           "cases": n, "tlc_s": round(time.time() - t, 1)})
        return path

    def replay(self, path, *args, race=False, env=None, shards=None, limit=30):
        """Run the cases on the real code; records violations and known findings."""
        drv = self.build(race)
        total = count_lines(path)
        shards = shards or (NCPU if total > 200 else 1)
        t = time.time()
        rows, count, checks = [], 0, 0
        with ThreadPoolExecutor(min(shards, NCPU)) as ex:
            for r, c, k in ex.map(lambda i: self._shard(drv, path, i, shards, args, env, limit), range(shards)):
                rows += r
                count += c
                checks += k
        if count != total:
            raise Infra("replayed %d of %d cases of %s" % (count, total, path))
        self.traces += count
        self.checks += checks
        self.sample_from(path)
        if self.parts:
            self.parts[-1]["replay_s"] = round(self.parts[-1].get("replay_s", 0) + time.time() - t, 1)
            self.parts[-1]["comparisons"] = self.parts[-1].get("comparisons", 0) + checks
        for row in sorted(rows, key=lambda r: r["i"]):
            self._judge(row, drv, args, env, limit)
        return count

    def _run_drv(self, drv, path, shard, args, env, limit, out, prog):
        cmd = [drv, "replay", "-cases", path, "-out", out, "-shard", shard, "-progress", prog,
               "-limit", "%ds" % limit] + list(args)
        e = dict(os.environ)
        e.setdefault("LANG", "C.UTF-8")
        e.update(env or {})
        sand = tempfile.mkdtemp(prefix="cwd-", dir=self.work)
        e["VERIF_SCRATCH"] = sand
        return subprocess.run(cmd, cwd=sand, env=e, capture_output=True, text=True, errors="replace",
                              timeout=3000, preexec_fn=None if drv.endswith("-race") else limit_memory)

    def _shard(self, drv, path, i, n, args, env, limit):
        out = os.path.join(self.work, "out-%d-%s" % (i, os.path.basename(path)))
        prog = out + ".progress"
        p = self._run_drv(drv, path, "%d/%d" % (i, n), args, env, limit, out, prog)
        rows, done = [], None
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r.get("done"):
                    done = r
                else:
                    r["where"] = (path, i, n)
                    rows.append(r)
        if p.returncode == 0 and done:
            return rows, done["count"], done["checks"]
        if p.returncode == 2 and "driver error" in p.stderr or not os.path.exists(prog):
            raise Infra("driver failed (%d): %s" % (p.returncode, tail(p.stderr, 30)))
        # the code under test killed or hung the process: find the case
        line = int.from_bytes(open(prog, "rb").read()[:8].ljust(8, b"\0"), "little")
        case = nth_line(path, line)
        why = "hang" if p.returncode == 42 else "crash"
        row = {"i": line, "case": case, "r": {"v": "bad", "obs": why, "note": tail(p.stderr, 15)}}
        # continue the shard behind it, in a file of its own
        rest = out + ".rest"
        k = 0
        with open(path) as f, open(rest, "w") as g:
            for j, l in enumerate(f, 1):
                if j % n == i:
                    if j > line:
                        g.write(l)
                    else:
                        k += 1
        rows = [row]
        if count_lines(rest) and len(getattr(self, "_crashes", [])) < 5:
            self._crashes = getattr(self, "_crashes", []) + [line]
            r2, c2, k2 = self._shard(drv, rest, 0, 1, args, env, limit)
            return rows + r2, k + c2, k2
        return rows, k + count_lines(rest), 0

    def _judge(self, row, drv, args, env, limit):
        r = row["r"]
        if r["v"] == "dev":
            fid = r.get("f")
            if (self.prop, fid) in self.findings:
                self.known.setdefault(fid, []).append(r.get("note", ""))
                return
            r["note"] = "deviation '%s' is not a recorded finding. %s" % (fid, r.get("note", ""))
        if len(self.violations) >= 5:
            self.violations.append(row)      # counted, not confirmed one by one
            return
        one = os.path.join(self.work, "one-%d.ndjson" % len(self.violations))
        with open(one, "w") as f:
            f.write(json.dumps(row["case"]) + "\n")
        out = one + ".out"
        p = self._run_drv(drv, one, "0/1", args, env, limit, out, one + ".p")
        again = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        if p.returncode == 2 and "driver error" in p.stderr:
            raise Infra("driver failed: " + tail(p.stderr, 10))
        if p.returncode == 0 and not any("case" in a for a in again) and not self._repeats(row, drv, args, env, limit):
            self.unconfirmed.append(row)
            return
        row["args"] = list(args)
        self.violations.append(row)

    def _repeats(self, row, drv, args, env, limit):
        """The case alone agreed: the answer may depend on what ran before it in its shard, or on chance."""
        if len(self.unconfirmed) >= 3:
            return False
        path, i, n = row.get("where", (None, 0, 1))
        one = os.path.join(self.work, "again.ndjson")
        with open(one, "w") as f:
            f.write((json.dumps(row["case"]) + "\n") * 30)
        runs = [(one, 0, 1)] + ([(path, i, n)] * 2 if path else [])
        for k, (f, si, sn) in enumerate(runs):
            out = os.path.join(self.work, "again-%d.out" % k)
            p = self._run_drv(drv, f, "%d/%d" % (si, sn), args, env, limit, out, out + ".p")
            rows = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
            if p.returncode != 0 or any("case" in r and (f == one or r["i"] == row["i"]) for r in rows):
                row["r"]["note"] = str(row["r"].get("note")) + (
                    " [in some of 30 repetitions]" if f == one else " [after the cases before it in shard %d/%d]" % (si, sn))
                return True
        return False

    # ---- code -> spec ---------------------------------------------------
    def record(self, kind, n, *args, race=False, env=None, seed_off=0, timeout=600):
        drv = self.build(race)
        out = os.path.join(self.work, "trace-%s-%d.ndjson" % (kind, seed_off))
        e = dict(os.environ)
        e.setdefault("LANG", "C.UTF-8")
        e.update(env or {})
        sand = tempfile.mkdtemp(prefix="cwd-", dir=self.work)
        e["VERIF_SCRATCH"] = sand
        p = subprocess.run([drv, "record", "-kind", kind, "-out", out, "-n", str(n),
                            "-seed", str(self.seed * 1000003 + seed_off)] + list(args),
                           cwd=sand, env=e, capture_output=True, text=True, errors="replace", timeout=timeout,
                           preexec_fn=None if race else limit_memory)
        if race and p.returncode == 66:
            self.violation({"record": kind, "n": n, "seed_off": seed_off}, "data race", tail(p.stderr, 40), "no data race")
            return None
        if p.returncode != 0 and "driver error" not in p.stderr and (
                re.search(r"(?m)^(fatal error|runtime): ", p.stderr)
                or re.search(r"(?m)^panic: ", p.stderr) and re.search(r"(?m)^github\.com/youthlin/t(?!/cmd/xtemplate/internal/verifdrv)\S*\(", p.stderr)):
            # a panic in a goroutine of the code, or memory exhausted, stack overflow, unsynchronised map access: nothing the driver could recover from
            self.violation({"record": kind, "n": n, "seed_off": seed_off}, "the process died", tail(p.stderr, 25), "no crash")
            return None
        if p.returncode != 0:
            raise Infra("recording %s failed (%d): %s" % (kind, p.returncode, tail(p.stderr, 30)))
        return out

    def validate(self, module, trace, name, cfg=None, cfgtext=None, histories=None, workers=None, **kw):
        """TLC checks a recorded log; returns the mismatching lines as dicts."""
        if trace is None:       # the recording ended in a violation
            return []
        mm = os.path.join(self.work, "mm-%s.ndjson" % name)
        open(mm, "w").close()
        t = time.time()
        gen, dist = self.tlc(module, cfg, cfgtext, env={"TRACE": trace, "MISMATCH": mm}, workers=workers, **kw)
        lines = count_lines(trace)
        if dist < lines:
            raise Infra("%s: TLC consumed %d of %d log lines" % (name, dist, lines))
        self.traces += histories if histories is not None else lines
        self.checks += lines
        self.parts.append({"part": name, "spec": module, "states": dist, "transitions": gen,
                           "log_lines": lines, "histories": histories if histories is not None else lines,
                           "tlc_s": round(time.time() - t, 1)})
        self.sample_from(trace)
        res = []
        for l in open(mm):
            r = json.loads(l)
            if isinstance(r, str):
                r = json.loads(r)
            r["line"] = json.loads(nth_line_raw(trace, r["i"]))
            res.append(r)
        return sorted(res, key=lambda r: r["i"])

    def validate_split(self, module, trace, name, lines=900, lanes=4, **kw):
        """Like validate, for logs of long lines: in parts small enough for TLC's memory."""
        if trace is None:
            return []
        parts, cur, n = [], None, 0
        with open(trace) as f:
            for k, l in enumerate(f):
                if k % lines == 0:
                    if cur:
                        cur.close()
                    parts.append("%s.%d" % (trace, k // lines))
                    cur = open(parts[-1], "w")
                cur.write(l)
        if cur:
            cur.close()
        if not parts:
            raise Infra("%s: empty log" % name)
        with ThreadPoolExecutor(lanes) as ex:
            res = list(ex.map(lambda x: self.validate(module, x[1], "%s-%d" % (name, x[0]), workers=max(2, NCPU // lanes), **kw),
                              enumerate(parts)))
        return [m for r in res for m in r]

    def finding(self, fid, note):
        """A mismatch that the specification attributes to a recorded deviation."""
        if (self.prop, fid) in self.findings:
            self.known.setdefault(fid, []).append(note)
            return True
        return False

    def violation(self, case, note, obs=None, exp=None):
        self.violations.append({"case": case, "r": {"v": "bad", "obs": obs, "exp": exp, "note": note}})

    def sample_from(self, path, k=2):
        if len(self.samples) >= 8:
            return
        n = count_lines(path)
        for i in {max(1, n // 3), max(1, (2 * n) // 3)}:
            s = nth_line(path, i)
            self.samples.append(shorten(s))

    # ---- the end --------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "comparisons": self.checks,
               "samples": self.samples, "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations), "known_findings": {k: len(v) for k, v in self.known.items()}}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for fid, notes in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s: %s (%d cases this run, e.g. %s)" % (
                self.prop, fid, self.findings[(self.prop, fid)], len(notes), one_line(notes[0])))
        if not self.violations and self.unconfirmed:
            raise Infra("mismatches that did not repeat: %s" % json.dumps(self.unconfirmed[:3])[:3000])
        if not self.violations:
            print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d comparisons=%d wall=%.1fs" % (
                self.prop, self.tier, self.seed, self.states, self.transitions, self.traces, self.checks,
                time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-seed%d.json" % (self.prop, self.seed))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "total": len(self.violations), "violations": self.violations[:20]},
                      f, indent=1, ensure_ascii=False)
        for v in self.violations[:5]:
            print("  " + one_line(str(v["r"].get("note")), 600))
            print("    observed=%s" % one_line(json.dumps(v["r"].get("obs"), ensure_ascii=False), 400))
            print("    expected=%s" % one_line(json.dumps(v["r"].get("exp"), ensure_ascii=False), 400))
            print("    case=%s" % one_line(json.dumps(v.get("case"), ensure_ascii=False), 800))
        print("%d violating cases" % len(self.violations))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def run(prop, body, tier=None, seed=None):
    c = Check(prop, tier, seed)
    try:
        body(c)
        return c.finish()
    except Exception as e:
        what = str(e) if isinstance(e, Infra) else "time-out: %s" % e.cmd[:3] if isinstance(e, subprocess.TimeoutExpired) \
            else traceback.format_exc()
        print("ERROR property=%s: %s" % (prop, printable(what)))
        if c.violations:        # what was found and confirmed before stays found
            return c.finish()
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("work directory kept: " + c.work)
        else:
            c.close()


def limit_memory():
    """For the driver: damaged input must not make the code under test exhaust the machine."""
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def printable(s):
    return "".join(ch if ch.isprintable() or ch == "\n" else repr(ch)[1:-1] for ch in s)


def load_findings():
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\w+) id=(\S+) (.*)", l.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


def torn(path):
    """whether some line of a file of cases is not one whole JSON text"""
    with open(path, "rb") as f:
        for line in f:
            if not (line.startswith(b'"{') and line.endswith(b'}"\n')):
                return True
    return False


def count_lines(path):
    n = 0
    with open(path, "rb") as f:
        while True:
            b = f.read(1 << 20)
            if not b:
                return n
            n += b.count(b"\n")


def nth_line_raw(path, n):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == n:
                return l
    return "null"


def nth_line(path, n):
    try:
        v = json.loads(nth_line_raw(path, n))
        return json.loads(v) if isinstance(v, str) else v
    except ValueError:
        return None


def shorten(v, depth=0):
    """Samples: byte arrays become text, long things are cut."""
    if isinstance(v, list):
        if len(v) > 2 and all(isinstance(x, int) and 0 <= x < 256 for x in v) and len(v) != 8:
            return "".join(chr(x) if 32 <= x < 127 else "\\x%02x" % x for x in v)[:400]
        r = [shorten(x, depth + 1) for x in v[:12]]
        return r + ["... %d more" % (len(v) - 12)] if len(v) > 12 else r
    if isinstance(v, dict):
        return {k: shorten(x, depth + 1) for k, x in v.items()}
    if isinstance(v, str):
        return v[:400]
    return v


def tail(s, n):
    return "\n".join(s.strip().split("\n")[-n:])


def one_line(s, n=300):
    s = printable(" ".join(s.split()))
    return s if len(s) <= n else s[:n] + "..."
