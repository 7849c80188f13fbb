"""Machinery shared by all checks: building drivers, running TLC, validating
traces, reporting."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
NPROC = os.cpu_count() or 4


_numlock = threading.Lock()


class CheckError(Exception):
    """the machinery itself failed (exit status 2)"""


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.w = os.path.join(B, "run", pid)
        shutil.rmtree(self.w, ignore_errors=True)
        os.makedirs(self.w)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.notes = []
        self.rejections = []          # (key, description, replay file)
        self.known = self._known()
        self.bounds = {}

    # -- known findings ---------------------------------------------------
    def _known(self):
        r = []
        p = os.path.join(V, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    r.append((m.group(2), m.group(3)))
        return r

    # -- build --------------------------------------------------------------
    def build(self, driver, lib="core", opt="-O1", extra=""):
        d = os.path.join(B, lib + (("-" + hashlib.md5((opt + extra).encode()).hexdigest()[:6]) if (opt, extra) != ("-O1", "") else ""))
        os.makedirs(d, exist_ok=True)
        lock = open(d + ".lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        self._drop_stale(d)
        cmd = ["make", "-s", "-f", V + "/harness/Makefile", f"-j{NPROC}", f"B={d}", f"LIB={lib}",
               f"DRIVER={driver}", f"V={V}", f"REPO={REPO}", f"OPT={opt}", f"EXTRA={extra}", f"{d}/{driver}"]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError(f"building {driver} failed:\n" + p.stdout[-4000:])
        log(f"[{self.pid}] built {driver} ({lib}) in {time.time()-t:.1f}s")
        return os.path.join(d, driver)

    def _drop_stale(self, d):
        """objects are kept between runs only if everything they were made from has the same content (make looks at times only)"""
        man = {}
        for top in (REPO + "/src/PROPOSAL", V + "/harness"):
            for r, _, fs in os.walk(top):
                for f in fs:
                    if f.rsplit(".", 1)[-1] in ("h", "cxx", "cpp", "hpp", "in", "txt") or f == "Makefile":
                        p = os.path.join(r, f)
                        man[p] = hashlib.md5(open(p, "rb").read()).hexdigest()
        mf = os.path.join(d, "contents.json")
        try:
            old = json.load(open(mf))
        except Exception:
            old = {}
        changed = {p for p in set(man) | set(old) if man.get(p) != old.get(p)}
        if changed:
            for r, _, fs in os.walk(d):
                for f in fs:
                    if f.endswith(".d"):
                        p = os.path.join(r, f)
                        deps = set(re.findall(r"[^\s\\:]+", open(p).read()))
                        if not old or {os.path.normpath(x) for x in deps} & changed:
                            for q in (p, p[:-2] + ".o", p[:-2]):
                                if os.path.isfile(q):
                                    os.remove(q)
            for f in os.listdir(d):
                if f.endswith(".a") or f == "gen":
                    q = os.path.join(d, f)
                    shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
        json.dump(man, open(mf, "w"))

    def numclass(self):
        with _numlock:
            return self._numclass()

    def _numclass(self):
        d = os.path.join(B, "java")
        src = os.path.join(V, "harness/java/Num.java")
        cls = os.path.join(d, "Num.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            tmp = d + f".{os.getpid()}"
            os.makedirs(tmp, exist_ok=True)
            p = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise CheckError("javac: " + p.stdout)
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(tmp):
                os.replace(os.path.join(tmp, f), os.path.join(d, f))
            shutil.rmtree(tmp, ignore_errors=True)
        return d

    # -- TLC ------------------------------------------------------------------
    def tlc(self, module, cfg=None, args=(), env=None, workers=1, timeout=600, xmx="3g", tag=""):
        """runs TLC on spec/<module>.tla; cfg is text or None for spec/<module>.cfg"""
        w = os.path.join(self.w, f"tlc-{module}{tag}")
        os.makedirs(w, exist_ok=True)
        if cfg is None:
            cfgf = f"{V}/spec/{module}.cfg"
        else:
            cfgf = f"{w}/{module}.cfg"
            open(cfgf, "w").write(cfg)
        cp = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{self.numclass()}"
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss256m", "-XX:TieredStopAtLevel=4",
               "-cp", cp, f"-DTLA-Library={V}/spec", "tlc2.TLC", "-nowarning", "-metadir", w + "/meta",
               "-workers", str(workers), "-noGenerateSpecTE", "-config", cfgf, *args, f"{V}/spec/{module}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=w)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        out = "\n".join(l for l in p.stdout.split("\n") if not l.startswith(("Parsing file", "Semantic processing", "Loading ")))
        open(w + "/out.txt", "w").write(out)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(w + "/meta", ignore_errors=True)
        return p.returncode, out, gen, dist

    def model(self, module, cfg=None, args=(), timeout=600, workers=None, min_states=1, env=None, tag=""):
        """exhaustive check of a design model: its invariants must hold"""
        t = time.time()
        rc, out, gen, dist = self.tlc(module, cfg, args, env=env, workers=workers or min(NPROC, 4), timeout=timeout, tag="-mc" + tag)
        if rc != 0:
            raise CheckError(f"design model {module} fails (rc {rc}):\n" + out[-3000:])
        if dist < min_states:
            raise CheckError(f"design model {module} explored only {dist} states")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        log(f"[{self.pid}] model {module}{tag}: {dist} distinct states, {gen} transitions, {time.time()-t:.1f}s")
        return out

    def generate(self, module, cfg=None, args=(), timeout=600, tag="", env=None, minimum=1):
        """TLC as generator: every line 'GEN <json>' printed by the module becomes one script line"""
        rc, out, gen, dist = self.tlc(module, cfg, args, env=env, workers=1, timeout=timeout, tag="-gen" + tag)
        lines = []
        for l in out.splitlines():
            m = re.match(r'^"?GEN (.*?)"?$', l)
            if m:
                s = m.group(1)
                if l.startswith('"'):
                    s = json.loads('"' + s + '"')
                lines.append(s)
        if rc not in (0,) or len(lines) < minimum:
            raise CheckError(f"generator {module} failed (rc {rc}, {len(lines)} lines):\n" + out[-3000:])
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        f = os.path.join(self.w, f"gen-{module}{tag}.ndjson")
        open(f, "w").write("\n".join(lines) + "\n")
        log(f"[{self.pid}] generator {module}{tag}: {len(lines)} behaviours")
        return f

    def gen_file(self, module, cfg=None, timeout=600, tag="", env=None):
        """TLC as generator: the module serialises its cases to the file named by OUT"""
        f = os.path.join(self.w, f"gen-{module}{tag}.ndjson")
        rc, out, gen, dist = self.tlc(module, cfg, env={**(env or {}), "OUT": f}, workers=1, timeout=timeout, tag="-gen" + tag)
        if rc != 0 or not os.path.exists(f):
            raise CheckError(f"generator {module} failed (rc {rc}):\n" + out[-3000:])
        n = sum(1 for _ in open(f))
        log(f"[{self.pid}] generator {module}{tag}: {n} cases")
        return f

    # -- drivers --------------------------------------------------------------
    def drive(self, binary, args, trace=None, timeout=400, env=None):
        """runs a driver; a crash or hang of the code under test is a rejection"""
        trace = trace or os.path.join(self.w, "trace-" + "-".join(re.sub(r"\W+", "_", os.path.basename(str(a))) for a in args) + ".ndjson")
        e = dict(os.environ)
        e.update({"VERIF_SEED": str(SEED), "VERIF_TIER": TIER})
        e.update(env or {})
        for attempt in (1, 2):
            t = time.time()
            try:
                p = subprocess.run([binary, trace, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=self.w)
                rc, out = p.returncode, p.stdout.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            if rc == 0:
                break
            if rc in (2, 3):
                raise CheckError(f"driver {os.path.basename(binary)} {args}: {out[-2000:]}")
        if rc != 0:
            last = ""
            if os.path.exists(trace):
                ls = [l for l in open(trace).read().split("\n") if l]
                last = ls[-1] if ls else ""
            rep = self._replay(f"driver ended abnormally ({rc})\ndriver: {os.path.basename(binary)} {args} seed {SEED}\nlast event logged: {last}\noutput: {out[-1500:]}\n", "crash")
            self.rejections.append(("crash", f"driver {os.path.basename(binary)} {args} ended with {rc} after {last[:200]}", rep))
            # drop a possibly truncated last line
            if os.path.exists(trace):
                ls = open(trace).read().split("\n")
                good = []
                for l in ls:
                    try:
                        json.loads(l); good.append(l)
                    except Exception:
                        pass
                open(trace, "w").write("\n".join(good) + ("\n" if good else ""))
        log(f"[{self.pid}] drive {os.path.basename(binary)} {' '.join(os.path.basename(str(a)) for a in args)}: {time.time()-t:.1f}s")
        return trace

    def drive_many(self, binary, args, n=None, **kw):
        """the same driver in n processes, told its part as two further arguments; one joined trace"""
        n = n or NPROC
        with ThreadPoolExecutor(n) as ex:
            ts = list(ex.map(lambda i: self.drive(binary, [*args, i, n], **kw), range(n)))
        f = ts[0] + ".all"
        with open(f, "w") as o:
            for t in ts:
                if os.path.exists(t):
                    o.write(open(t).read())
                    os.remove(t)
        return f

    def _replay(self, text, kind):
        d = os.path.join(B, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{self.pid}-{kind}-{hashlib.md5(text.encode()).hexdigest()[:8]}.txt")
        open(f, "w").write(text)
        return f

    # -- trace validation -------------------------------------------------------
    def validate(self, module, trace, cfg=None, split=None, chunks=None, timeout=600, max_events=None, min_events=1, keyf=None, context=True, cfgx=""):
        """TLC checks that the trace is a behaviour of spec/<module>.tla.
        split: predicate on an event that starts an independent case (None: anywhere)."""
        t = time.time()
        lines = [l for l in open(trace).read().split("\n") if l] if os.path.exists(trace) else []
        if len(lines) < min_events:
            if any(r[0] == "crash" for r in self.rejections):
                return
            raise CheckError(f"trace {trace} has only {len(lines)} events")
        cuts = [i for i, l in enumerate(lines) if split is None or split(json.loads(l))]
        k = chunks or max(1, min(NPROC, len(lines) // 300 + 1))
        bounds = [0]
        for j in range(1, k):
            want = j * len(lines) // k
            c = next((i for i in cuts if i >= want), len(lines))
            if c > bounds[-1] and c < len(lines):
                bounds.append(c)
        bounds.append(len(lines))
        cfg = cfg or "INIT TraceInit\nNEXT TraceNext\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n" + cfgx
        parts = []
        for j in range(len(bounds) - 1):
            f = f"{trace}.part{j}"
            open(f, "w").write("\n".join(lines[bounds[j]:bounds[j + 1]]) + "\n")
            parts.append((f, bounds[j], bounds[j + 1]))

        def one(a):
            j, (f, lo, hi) = a
            for attempt in (1, 2):
                rc, out, gen, dist = self.tlc(module, cfg, env={"TRACE": f}, workers=1, timeout=timeout, tag=f"-{os.path.basename(trace)}-{j}")
                rej = sorted({int(x) for x in re.findall(r'<<"REJECT", (\d+)', out)})
                full = f'<<"CONSUMED", {hi-lo}>>' in out
                if rc == 0 and full and not rej:
                    break
                if not (rc == 0 and full) and not rej and "CONSUMED" not in out and not (rc in (75, 76) and dist):
                    if attempt == 2:
                        raise CheckError(f"TLC failed on {module} / {f} (rc {rc}):\n{out[-3000:]}")
            if rc != 0 or not full:
                m = re.search(r'<<"CONSUMED", (\d+)>>', out)
                if m and rc == 0:
                    rej = sorted(set(rej) | {int(m.group(1)) + 1})
                elif rc in (75, 76) and dist:
                    # no meaning of the event in the specification (a number beyond all bounds, ...)
                    rej = sorted(set(rej) | {min(dist, hi - lo)})
                else:
                    raise CheckError(f"TLC failed on {module} / {f} (rc {rc}):\n{out[-3000:]}")
            return [(lo + r - 1, out) for r in rej], gen, dist

        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, enumerate(parts)))
        nrej = 0
        for (rej, gen, dist), (_, lo, _) in zip(res, parts):
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            for i, out in rej:
                nrej += 1
                ev = json.loads(lines[i])
                key = keyf(ev, lines, i) if keyf else ev.get("key", ev.get("e", "?"))
                start = max([c for c in cuts if c <= i] or [0]) if split else i
                ctx = ([lines[start]] if i - 60 > start else []) + lines[max(start, i - 60):i + 1] if context else [lines[i]]
                why = [re.sub(r"\s+", " ", x) for x in re.findall(r'(?ms)^<<\s*"(?:FAILS|REJECT)".*?>>$', out[:out.find(f'<<"REJECT", {i - lo + 1}')])]
                why = why[len(why) - next((k for k, x in enumerate(reversed(why)) if '"REJECT"' in x), len(why)):]
                rep = self._replay(f"property {self.pid}: the event below is not allowed by spec/{module}.tla\n"
                                   f"driver seed {SEED}, tier {TIER}, event {i+1} of {os.path.basename(trace)}\n" + "".join(x + "\n" for x in why) + f"\nrejected event:\n{lines[i]}\n\npreceding events of the case:\n"
                                   + "\n".join(ctx[:-1]) + "\n", "reject")
                self.rejections.append((key, f"{module}: {lines[i][:400]}", rep))
                if os.environ.get("VERIF_DUMP"):
                    open(os.environ["VERIF_DUMP"], "a").write(json.dumps({**ev, "why": why}) + "\n")
        for f, _, _ in parts:
            os.remove(f)
        self.cov["traces_validated_against_impl"] += len(cuts) if split else len(lines)
        self.cov["evaluations"] += len(lines)
        for i in {0, len(lines) // 2}:
            if len(self.cov["samples"]) < 12 and lines:
                self.cov["samples"].append(f"{os.path.basename(trace)}#{i+1}: " + lines[i][:600])
        log(f"[{self.pid}] validate {module} on {len(lines)} events ({len(parts)} parts): {nrej} rejected, {time.time()-t:.1f}s")
        return nrej

    def selftest(self, module, trace, mutate, split=None, cfg=None, n=1, window=400):
        """binding check: corrupted copies of an accepted trace must be rejected"""
        if self.rejections:
            return
        lines = [l for l in open(trace).read().split("\n") if l]
        evs = [json.loads(l) for l in lines]
        idx = [i for i, e in enumerate(evs) if mutate(json.loads(lines[i])) is not None]
        if not idx:
            raise CheckError(f"self-test of {module}: nothing to corrupt")
        # a corruption may happen to be allowed (ties between sectors, ...): any of four must be noticed
        for k in range(4):
            i = idx[((SEED + k) * 7919) % len(idx)]
            lo = i
            while split and lo > 0 and not split(evs[lo]):
                lo -= 1
            seg = lines[lo:i] + [json.dumps(mutate(json.loads(lines[i])))]
            f = trace + ".selftest"
            open(f, "w").write("\n".join(seg) + "\n")
            c = cfg or "INIT TraceInit\nNEXT TraceNext\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n"
            rc, out, *_ = self.tlc(module, c, env={"TRACE": f}, tag="-selftest")
            m = re.search(r'<<"CONSUMED", (\d+)>>', out)
            if not m:
                raise CheckError("self-test: TLC failed\n" + out[-2000:])
            if '<<"REJECT"' in out or int(m.group(1)) != len(seg):
                self.notes.append(f"self-test: corrupted event rejected by {module}")
                return
        raise CheckError(f"self-test: corrupted events accepted by {module}: {seg[-1][:500]}")

    def violated(self):
        return any(all(k[0] != key for k in self.known) for key, *_ in self.rejections)

    # -- report -----------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        new, knownhits = [], {}
        for key, desc, rep in self.rejections:
            k = next((k for k in self.known if k[0] == key), None)
            if k:
                knownhits[k] = knownhits.get(k, 0) + 1
            else:
                new.append((key, desc, rep))
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": {**{k: v for k, v in self.cov.items()}, **({"bounds": self.bounds} if self.bounds else {})},
              "wall_s": round(wall, 2)}
        if self.notes:
            ev["notes"] = "; ".join(dict.fromkeys(self.notes))
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{self.pid}.json", "w"), indent=1)
        for (k, d), n in knownhits.items():
            print(f"KNOWN-FINDING: property={self.pid} {d} (key {k}, {n} events)")
        # every entry of the file is announced, also when this run did not reach it
        for k in self.known:
            if k not in knownhits:
                print(f"KNOWN-FINDING: property={self.pid} {k[1]} (key {k[0]}, not reached in this run)")
        if new:
            seen = {}
            for key, desc, rep in new:
                seen.setdefault(key, []).append((desc, rep))
            for key, l in seen.items():
                log(f"  rejected [{key}] x{len(l)}: {l[0][0]}")
            print(f"VIOLATION property={self.pid} replay={new[0][2]}", flush=True)
            shutil.rmtree(self.w, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
            sys.exit(1)
        log(f"[{self.pid}] held on everything explored, {wall:.1f}s")
        shutil.rmtree(self.w, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
        sys.exit(0)
