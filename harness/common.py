"""Paths, builds, processes and TLC."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JOBS = min(8, os.cpu_count() or 4)
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    """Something of ours went wrong: neither a pass nor a violation."""


def cargo_env(target):
    env = dict(os.environ)
    env.update(
        HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target,
        CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", LANG="C.UTF-8",
    )
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    if os.path.exists("/opt/vp/rustc-wrapper.sh"):
        env["RUSTC_WRAPPER"] = "/opt/vp/rustc-wrapper.sh"
    return env


def _cargo(args, cwd, env):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed in %s:\n%s" % (" ".join(args), cwd, p.stdout[-3000:]))
    return p.stdout


LIBRARY = os.path.join(BUILD, "target", "debug", "treeview")   # calls the libraries


def build(library=False):
    """Builds bulloak from the working tree of /repo, and our own viewers."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target")
    env = cargo_env(target)
    # Never trust time stamps: the workspace's own crates are always rebuilt.
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("bulloak"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(_cargo, ["build", "--offline", "--locked", "-p", "bulloak"], REPO, env)
        b = ex.submit(_cargo, ["build", "--offline", "--locked"], os.path.join(VERIF, "harness", "solview"),
                      cargo_env(os.path.join(BUILD, "solview")))
        a.result()
        b.result()
    if library:
        # The libraries were rebuilt for the command; this uses them.
        d = os.path.join(VERIF, "harness", "treeview")
        args = ["build", "--offline"] + (["--features", library] if isinstance(library, str) else [])
        try:
            _cargo(args + ["--locked"], d, env)
        except ToolError:
            _cargo(args, d, env)
    exe = os.path.join(target, "debug", "bulloak")
    view = os.path.join(BUILD, "solview", "debug", "solview")
    for f in (exe, view):
        if not os.path.exists(f):
            raise ToolError("missing " + f)
    return exe, view


class Scratch:
    """A scratch directory, removed at the end."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix="bulloak-verif-", dir=base)
        os.chmod(self.path, 0o755)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Run:
    """What one execution of the tool did."""
    __slots__ = ("argv", "rc", "out", "err", "timeout", "rawout")

    def __init__(self, argv, rc, out, err, timeout):
        self.argv, self.rc, self.timeout = argv, rc, timeout
        self.rawout = out
        self.out = ANSI.sub("", out.decode("utf-8", "replace"))
        self.err = ANSI.sub("", err.decode("utf-8", "replace"))

    @property
    def crashed(self):
        return self.timeout or self.rc not in (0, 1) or "panicked at" in self.err or "RUST_BACKTRACE" in self.err


EXE = None


NOBODY = 65534
_can_drop = None


def can_drop():
    """Can we run commands as an unprivileged user?"""
    global _can_drop
    if _can_drop is None:
        try:
            _can_drop = os.geteuid() == 0 and subprocess.run(
                [EXE, "--version"], user=NOBODY, group=NOBODY, extra_groups=[], stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL).returncode == 0
        except (OSError, subprocess.SubprocessError):
            _can_drop = False
    return _can_drop


HUNG = 0    # how many commands did not end, in this process


def bulloak(args, cwd, timeout=20, drop=False):
    global HUNG
    if HUNG:
        timeout = 3     # There is a violation already; do not spend the day on it.
    argv = [EXE] + list(args)
    env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": "/nonexistent"}
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True,
                         **(dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop else {}))
    try:
        out, err = p.communicate(timeout=timeout)
        return Run(list(args), p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        HUNG += 1
        return Run(list(args), -9, out, err, True)


def solviews(view, srcs, fmt=False):
    """Views of many sources. Sources are str; the result is a list of dicts."""
    if not srcs:
        return []
    uniq = list(dict.fromkeys(srcs))
    n = max(1, min(JOBS, len(uniq) // 50 + 1))
    shards = [uniq[i::n] for i in range(n)]

    def one(shard):
        data = "".join(json.dumps({"src": s, "fmt": fmt}) + "\n" for s in shard)
        p = subprocess.run([view], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines = p.stdout.decode().split("\n")[:-1]
        if p.returncode != 0 or len(lines) != len(shard):
            raise ToolError("solview failed: %r" % p.stderr[-500:])
        return [json.loads(l) for l in lines]

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, shards))
    by = {}
    for shard, rs in zip(shards, res):
        by.update(zip(shard, rs))
    return [by[s] for s in srcs]


# ---------------------------------------------------------------------------
# TLC

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, env=None, workers=1, args=(), heap="1500m", timeout=900, spec_dir=None):
    """Runs TLC in a private copy of the specification. Returns (rc, output)."""
    with Scratch() as d:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8")
        e.update(env or {})
        cp = ":".join([JAR] + [os.path.join(os.path.dirname(JAR), x) for x in os.listdir(os.path.dirname(JAR))
                               if x.endswith(".jar") and "tla2tools" not in x])
        # A queue of states that does not fit into its buffer goes to the disk, which TLC does with one byte per
        # character: "─" would come back as another one.
        argv = ["java", "-Xmx" + heap, "-Xss256m", "-Dtlc2.tool.queue.DiskStateQueue.BufSize=4000000", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
                "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8",
                "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-config", "run.cfg",
                "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
                "-deadlock"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(argv, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise ToolError("TLC timed out on %s" % module) from ex
        return p.returncode, p.stdout.decode("utf-8", "replace")


def tlc_stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
