"""Shared driver: builds diman from /repo, compiles and runs monitored workloads, writes evidence and verdicts.

Verdicts are three-valued: held (exit 0), violated (exit 1 and a VIOLATION line), inconclusive (exit 2, never
reported as either of the others)."""
import collections
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
DEPS_CRATE = os.path.join(ROOT, "harness", "vfdeps")
HARNESS = os.path.join(ROOT, "harness")
TOOLCHAIN = "nightly-2024-10-20-x86_64-unknown-linux-gnu"
JOBS = max(2, min(8, os.cpu_count() or 2))

GLAM = ["glam-vec2", "glam-vec3", "glam-dvec2", "glam-dvec3"]
CONFIGS = {
    # name: (diman features, vfdeps features)
    "std": (["f32", "f64", "si", "std", *GLAM, "serde", "rand"], []),
    "rat": (["f32", "f64", "si", "std", *GLAM, "serde", "rand", "rational-dimensions"], []),
    "min": (["f32", "f64", "si", "std"], []),
    "minrat": (["f32", "f64", "si", "std", "rational-dimensions"], []),
    "nostd": (["f32", "f64", "si"], []),
    "libm": (["f32", "f64", "si", "num-traits-libm"], []),
    "libmrat": (["f32", "f64", "si", "num-traits-libm", "rational-dimensions"], []),
    "f32only": (["f32", "si", "std"], []),
    "f64only": (["f64", "si", "std"], []),
    "nosi": (["f32", "f64", "std"], []),
    "full": (["f32", "f64", "si", "std", *GLAM, "serde", "rand", "mpi", "hdf5"], ["withmpi", "withhdf5"]),
    "fullrat": (
        ["f32", "f64", "si", "std", *GLAM, "serde", "rand", "mpi", "hdf5", "rational-dimensions"],
        ["withmpi", "withhdf5"],
    ),
    "all": (
        ["f32", "f64", "si", "std", *GLAM, "serde", "rand", "mpi", "hdf5", "rational-dimensions", "num-traits-libm"],
        ["withmpi", "withhdf5"],
    ),
}


class Inconclusive(Exception):
    """The run decided nothing (tool failure, time-out, too few events)."""


class BuildFailure(Exception):
    """diman itself does not build in a configuration."""

    def __init__(self, cfg, text):
        super().__init__(f"diman does not build in configuration {cfg}: {text[-1500:]}")
        self.cfg, self.text = cfg, text


def env():
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        CARGO_TARGET_DIR=TARGET,
        RUSTC_ICE="0",
        RUST_BACKTRACE="0",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_rmaps_base_oversubscribe="1",
        OMPI_MCA_btl_base_warn_component_unused="0",
        ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:handle_abort=1",
    )
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "TRYBUILD"):
        e.pop(k, None)
    return e


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def sh(cmd, timeout, cwd=None, stdin=None, extra_env=None):
    e = env()
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.run(
            cmd,
            cwd=cwd,
            env=e,
            input=stdin,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"timed out after {timeout} s: {' '.join(map(str, cmd))[:200]}")
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


# ---------------------------------------------------------------- building diman


def repo_hash():
    """Content hash of everything in /repo that a build can see."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        dirs[:] = sorted(d for d in dirs if not (rel == "." and d in ("target", ".git", "images")))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".md")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


_fresh = False


def ensure_fresh():
    """Cargo decides by modification times; a change of content must be seen whatever its time stamp."""
    global _fresh
    if _fresh:
        return
    now = repo_hash()
    stamp = os.path.join(TARGET, "repo.sha256")
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old != now:
        for base, dirs, _ in os.walk(TARGET):
            if os.path.basename(base) == ".fingerprint":
                for d in list(dirs):
                    if d.startswith(("diman", "vfdeps")):
                        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
                dirs[:] = []
            else:
                dirs[:] = [d for d in dirs if d not in ("deps", "build", "incremental")]
        os.makedirs(TARGET, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)
    _fresh = True


class Deps:
    def __init__(self, cfg):
        self.cfg, self.externs, self.search = cfg, {}, []
        self.asan = False

    def has(self, feature):
        return feature in CONFIGS[self.cfg][0]


_deps = {}
# Set by C19: the workloads of other checks are then built with the sanitizer.
SANITIZE = False


def deps(cfg, asan=False):
    """Build vfdeps (and so diman, from /repo) in a configuration; return what rustc needs to link against it."""
    asan = asan or SANITIZE
    key = (cfg, asan)
    if key in _deps:
        return _deps[key]
    ensure_fresh()
    dfeat, vfeat = CONFIGS[cfg]
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--features"]
    cmd.append(",".join([f"diman/{f}" for f in dfeat] + vfeat))
    extra = {}
    if asan:
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        extra["RUSTFLAGS"] = "-Zsanitizer=address"
    for attempt in (1, 2):
        rc, out, err = sh(cmd, 600, cwd=DEPS_CRATE, extra_env=extra)
        if rc == 0 or re.search(r"error(\[E\d+\])?:", out + err):
            break
    d = Deps(cfg)
    d.asan = asan
    msgs = []
    for line in out.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j["reason"] == "compiler-message" and j["message"]["level"] == "error":
            msgs.append((j.get("target", {}).get("name"), j["message"].get("rendered") or j["message"]["message"]))
        if j["reason"] == "build-script-executed":
            for p in j.get("linked_paths", []):
                d.search.append(p if "=" in p else f"native={p}")
        if j["reason"] == "compiler-artifact":
            kinds = j["target"]["kind"]
            files = [f for f in j["filenames"] if f.endswith((".rlib", ".so"))]
            if ("lib" in kinds or "rlib" in kinds or "proc-macro" in kinds) and files:
                name = j["target"]["name"].replace("-", "_")
                if name == "hdf5_metno":
                    name = "hdf5"
                d.externs[name] = files[0]
    if rc != 0:
        in_diman = [t for n, t in msgs if n and n.startswith("diman")]
        if in_diman and not re.search(r"signal: \d+|out of memory|No space left", err):
            raise BuildFailure(cfg, "\n".join(in_diman))
        raise Inconclusive(f"building the harness dependencies failed ({cfg}): {(err + ' '.join(t for _, t in msgs))[-1500:]}")
    # The root artifact has one path whatever the features: keep one per configuration.
    keep = os.path.join(TARGET, "vf", cfg + ("-asan" if asan else ""))
    os.makedirs(keep, exist_ok=True)
    shutil.copyfile(d.externs["vfdeps"], os.path.join(keep, "libvfdeps.rlib"))
    d.externs["vfdeps"] = os.path.join(keep, "libvfdeps.rlib")
    if asan:
        d.search.append(f"dependency={TARGET}/x86_64-unknown-linux-gnu/debug/deps")
    d.search.append(f"dependency={TARGET}/debug/deps")
    _deps[key] = d
    return d


USES = ("diman", "vfdeps", "glam", "serde", "serde_yaml", "serde_json", "rand", "once_cell", "mpi", "hdf5")


class Diag:
    def __init__(self, j, src):
        self.level = j["level"]
        self.code = (j.get("code") or {}).get("code") if j.get("code") else None
        self.message = j["message"]
        self.rendered = j.get("rendered") or ""
        self.lines = set()
        self.primary = set()
        self.notes = [k["message"] for k in j.get("children", [])]
        self.marks = [(s["line_start"], s["column_start"], s["line_end"], s["column_end"]) for s in j.get("spans", [])
                      if s.get("is_primary") and os.path.basename(s["file_name"]) == src]
        for s in j.get("spans", []):
            self._span(s, src, s.get("is_primary"))

    def _span(self, s, src, primary):
        while s:
            if os.path.basename(s["file_name"]) == src:
                rng = range(s["line_start"], s["line_end"] + 1)
                self.lines.update(rng)
                if primary:
                    self.primary.update(rng)
            s = (s.get("expansion") or {}).get("span")


class Compiled:
    def __init__(self, rc, diags, out, stderr):
        self.rc, self.diags, self.out, self.stderr = rc, diags, out, stderr
        self.errors = [d for d in diags if d.level == "error" and not d.message.startswith("aborting due to")]

    @property
    def ok(self):
        return self.rc == 0


def rustc(src, d, out=None, emit="link", extra=(), timeout=300, opt=None):
    """Compile one source file against a configuration. Tool failures are inconclusive; compile errors are data."""
    out = out or src[:-3] + ("" if emit == "link" else ".rmeta")
    cmd = ["rustc", "--edition", "2021", src, "-o", out, f"--emit={emit}", "--error-format=json", "-Awarnings"]
    cmd += ["-Cdebuginfo=0"]
    for name in USES:
        if name in d.externs:
            cmd += ["--extern", f"{name}={d.externs[name]}"]
    for s in d.search:
        cmd += ["-L", s]
    if d.asan:
        cmd += ["-Zsanitizer=address", "--target", "x86_64-unknown-linux-gnu", "-Cdebug-assertions=on", "-Cforce-frame-pointers=yes"]
    if opt is not None:
        cmd += [f"-Copt-level={opt}"]
    cmd += list(extra)
    for attempt in (1, 2):
        # derive macros look up the names of their crates
        rc, so, se = sh(cmd, timeout, extra_env={"CARGO_MANIFEST_DIR": DEPS_CRATE})
        diags, rest = [], []
        for line in se.splitlines():
            try:
                diags.append(Diag(json.loads(line), os.path.basename(src)))
            except (ValueError, KeyError, TypeError):
                rest.append(line)
        c = Compiled(rc, diags, out, "\n".join(rest))
        ice = rc not in (0, 1) or "internal compiler error" in se or "memory allocation" in se
        if not ice:
            return c
    if rc < 0 or rc in (137, 134) or "memory allocation" in se or "No space left" in se:
        raise Inconclusive(f"rustc was killed (rc {rc}) on {src}: {se[-300:]}")
    c.ice = True
    return c


def pmap(fn, items, jobs=None):
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- a check


class Check:
    def __init__(self, pid, tier, level="exploration", keep=None):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = seed()
        self.t0 = time.time()
        self.violations = []
        self.lock = threading.Lock()
        self.evals = 0
        self.distinct = set()
        self.distinct_n = 0
        self.forms = collections.Counter()
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.rule = ""
        self.extra = {}
        self.work = keep or os.path.join(ROOT, "work", pid)
        self.replays = os.path.join(ROOT, "replay", pid)
        for p in (self.work,) if keep else (self.work, self.replays):
            shutil.rmtree(p, ignore_errors=True)
            os.makedirs(p)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def event(self, kind, key=None, n=1):
        self.evals += n
        self.forms[kind] += n
        if key is not None:
            self.distinct.add(hash((kind, key)))

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def violate(self, what, detail, files=()):
        """Record a violation with a replay file holding everything needed to see it again."""
        with self.lock:
            n = len(self.violations)
            if n >= 40:
                return
            path = os.path.join(self.replays, f"{n:03d}.json")
            self.violations.append((what, path))
        copies = []
        for f in list(files)[:4]:
            try:
                dst = os.path.join(self.replays, f"{n:03d}.{os.path.basename(f)}")
                shutil.copyfile(f, dst)
                copies.append(dst)
            except OSError:
                pass
        with open(path, "w") as f:
            json.dump(
                {"property": self.pid, "what": what, "detail": detail, "files": copies, "seed": self.seed, "tier": self.tier,
                 "again": f"cd {ROOT} && VERIF_SEED={self.seed} python3 vf/check.py {self.pid} {self.tier}"},
                f, indent=1, default=str,
            )

    # -- compiled workloads

    def compile(self, src, d, must=True, **kw):
        """Compile a workload that uses only documented API, so on a correct tree it compiles. A rejection by the
        compiler is an observation: an operation the property speaks about is not offered as documented."""
        c = rustc(src, d, **kw)
        if not c.ok and must:
            if not c.errors:
                raise Inconclusive(f"{src} did not compile without a diagnostic: {c.stderr[-500:]}")
            first = c.errors[0]
            self.violate(
                "a program using only documented operations is rejected by the compiler",
                {"config": d.cfg, "errors": [e.rendered[:1500] for e in c.errors[:4]]},
                [src],
            )
            print(f"  compile errors in {os.path.basename(src)} [{d.cfg}]: {first.message[:200]}", flush=True)
        return c

    def merge(self, out, exe, args=(), label=""):
        """Take over what monitors reported; returns the other lines and whether a monitor came to its end."""
        got_summary = False
        lines = []
        for line in out.splitlines():
            if not line.startswith("VF "):
                lines.append(line)
                continue
            j = json.loads(line[3:])
            if j["t"] == "viol":
                self.violate(j["form"], {"label": label, "detail": j["detail"], "exe": exe, "args": list(map(str, args))}, [exe + ".rs"])
            elif j["t"] == "sum":
                got_summary = True
                with self.lock:
                    self.evals += j["events"]
                    self.distinct_n += j["distinct"]
                    for k, v in j["forms"].items():
                        self.forms[f"{label}{k}"] += v
                    for s in j["samples"][:4]:
                        self.sample(f"{label}{s}")
        return lines, got_summary

    def run(self, exe, args=(), timeout=300, stdin=None, env=None, label="", ok_codes=(0,), wrapper=()):
        """Run a monitored workload and merge what its monitors report."""
        rc, out, err = sh([*wrapper, exe, *map(str, args)], timeout, cwd=self.work, stdin=stdin, extra_env=env)
        lines, got_summary = self.merge(out, exe, args, label)
        if rc not in ok_codes:
            if rc in (-9, 137) or "memory allocation of" in err:
                raise Inconclusive(f"workload was killed: {exe} rc={rc}")
            self.violate(
                "the workload crashed or was aborted",
                {"label": label, "rc": rc, "stderr": err[-6000:], "args": list(map(str, args))},
                [exe + ".rs"],
            )
        return rc, lines, err, got_summary

    # -- the end

    def finish(self, floor=1):
        wall = round(time.time() - self.t0, 2)
        distinct = self.distinct_n + len(self.distinct)
        known = load_known(self.pid)
        fresh = []
        for what, path in self.violations:
            fresh.append((what, path))
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": min(distinct, self.evals),
                "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "events_by_kind": dict(self.forms.most_common(60)),
                "event_kinds": len(self.forms),
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.evals} observations, {distinct} distinct, "
              f"{len(self.forms)} kinds, {len(fresh)} violations, {wall} s", flush=True)
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for what, path in fresh:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {what}")
        if fresh:
            return 1
        if self.evals < floor:
            print(f"inconclusive: only {self.evals} observations, expected at least {floor}")
            return 2
        return 0


def load_known(pid):
    """Known findings: every line 'known: property=<id> <signature>' (fixed: lines suppress nothing). None at present,
    so no check consults it to suppress anything."""
    out = []
    try:
        for line in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except OSError:
        pass
    return out
