"""Building, running TLC and keeping evidence."""
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(BUILD, "classes")
HTARGET = os.path.join(BUILD, "harness")
HARNESS = os.path.join(HTARGET, "release", "harness")


class ToolError(Exception):
    pass


def cargo_env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOC")) and k != "CARGO_HOME":
            del e[k]
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="stable",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.update(kw)
    return e


def sh(cmd, what, timeout=850, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("%s: timed out" % what)
    if r.returncode != 0:
        raise ToolError("%s failed (%d):\n%s" % (what, r.returncode, r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(f for f in glob.glob(p + "/**/*", recursive=True) if os.path.isfile(f))
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


def build_num():
    """The Java overrides of Num.tla."""
    with locked("num"):
        stamp = os.path.join(BUILD, "num.stamp")
        h = tree_hash([os.path.join(SPEC, "Num.java")])
        if read(stamp) == h and os.path.exists(os.path.join(CLASSES, "Num.class")):
            return
        os.makedirs(CLASSES, exist_ok=True)
        sh(["javac", "-nowarn", "-cp", JAR, "-d", CLASSES, os.path.join(SPEC, "Num.java")], "javac")
        with open(stamp, "w") as f:
            f.write(h)


LIB = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]
CLI = LIB + [os.path.join(REPO, "elinor-cli", "src"), os.path.join(REPO, "elinor-cli", "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]


def build_harness():
    """The harness against the library in /repo's working tree (cargo judges staleness by time; we by content)."""
    with locked("harness"):
        stamp = os.path.join(BUILD, "harness.stamp")
        h = tree_hash(LIB + [os.path.join(ROOT, "harness", "src"), os.path.join(ROOT, "harness", "Cargo.toml")])
        if read(stamp) == h and os.path.exists(HARNESS):
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        for d in glob.glob(os.path.join(HTARGET, "release", ".fingerprint", "elinor-*")) + \
                glob.glob(os.path.join(HTARGET, "release", ".fingerprint", "harness-*")):
            shutil.rmtree(d)
        sh(["cargo", "build", "--release", "--offline"], "building the harness",
           cwd=os.path.join(ROOT, "harness"), env=cargo_env(CARGO_TARGET_DIR=HTARGET))
        with open(stamp, "w") as f:
            f.write(h)


def build_cli():
    """The command-line tools of /repo's working tree; returns the directory that holds them.  The target
    directory of the repository is used when it is there (its dependencies are compiled already)."""
    with locked("cli"):
        own = os.path.join(BUILD, "cli")
        shared = os.path.join(REPO, "target")
        target = shared if glob.glob(os.path.join(shared, "debug", "deps", "libpolars-*")) else own
        bins = os.path.join(BUILD, "bin")
        stamp = os.path.join(BUILD, "cli.stamp")
        h = tree_hash(CLI)
        names = ["elinor-evaluate", "elinor-convert", "elinor-compare"]
        if read(stamp) == h and all(os.path.exists(os.path.join(bins, n)) for n in names):
            return bins
        if os.path.exists(stamp):
            os.remove(stamp)
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "elinor*")):
            shutil.rmtree(d, ignore_errors=True)
        sh(["cargo", "build", "--workspace", "--features", "elinor/serde", "--offline", "--bins", "--lib"], "building the tools",
           cwd=REPO, env=cargo_env(CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only"))
        os.makedirs(bins, exist_ok=True)
        for n in names:
            shutil.copy2(os.path.join(target, "debug", n), os.path.join(bins, n))
        with open(stamp, "w") as f:
            f.write(h)
        return bins


class Tlc:
    """Result of one TLC run."""

    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        errors = [e for e in re.findall(r"^Error: (.*)$", out, re.M)
                  if not e.startswith(("The behavior up to this point", "The error occurred"))]
        self.deadlock = errors == ["Deadlock reached."]
        self.errors = errors
        # the ALIAS of the trace specifications prints line of the log and position (an initial state is printed plainly)
        line = re.findall(r"line = (\d+)", out) or re.findall(r"^/\\ s = (\d+)$", out, re.M)
        pos = re.findall(r"position = (\d+)", out) or re.findall(r"^/\\ l = (\d+)$", out, re.M)
        self.where = (int(line[-1]), int(pos[-1])) if line and pos else None
        self.out = re.sub(r"^Loading .* operator override.*\n", "", out, flags=re.M)


def tlc(module, cfg, env, work, timeout, workers=8, heap="8g", extra=()):
    """cfg: text of a configuration file."""
    os.makedirs(work, exist_ok=True)
    cfgfile = os.path.join(work, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    meta = os.path.join(work, "meta-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ, JAVA_TOOL_OPTIONS="")
    e.update(env)
    tmp = os.path.join(work, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC",
           "-cp", ":".join([CLASSES, JAR, COMMUNITY]), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfgfile] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s: timed out" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(r.stdout.decode(errors="replace"), r.returncode)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(script, log, segs, timeout=600):
    """Executes the script.  When the process dies (an abort in the code under test), every segment is run on
    its own and the call that killed it is logged as "abort"."""
    r = subprocess.run([HARNESS, script, log], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit_memory)
    if r.returncode == 0:
        return False
    err = r.stderr.decode(errors="replace")
    if "script:" in err or r.returncode > 0 and r.returncode not in (101, 134):
        raise ToolError("harness failed (%d): %s" % (r.returncode, err[-2000:]))
    died = []
    deadline = time.time() + 200
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        if time.time() > deadline or len(died) >= 3:
            return None
        r = subprocess.run([HARNESS, "stream", script, str(i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
                           preexec_fn=limit_memory)
        evs = [json.loads(x) for x in r.stdout.decode().splitlines()]
        if r.returncode != 0:
            if "script:" in r.stderr.decode(errors="replace") or len(evs) >= len(segs[i]["ev"]):
                raise ToolError("harness failed on segment %d: %s" % (i, r.stderr.decode(errors="replace")[-2000:]))
            died.append(i)
            evs.append(dict(segs[i]["ev"][len(evs)], r={"st": "abort"}))
        return dict(segs[i], ev=evs)

    with ThreadPoolExecutor(8) as ex:
        done = [x for x in ex.map(one, range(len(segs))) if x]
    if not died:
        raise ToolError("harness failed (%d) but no segment does so on its own: %s" % (r.returncode, err[-2000:]))
    with open(log, "w") as f:
        for x in done:
            f.write(json.dumps(x) + "\n")
    return True


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "wall_s": round(wall, 2),
                   "violations": violations, "assumptions": assumptions}, f, indent=1)
        f.write("\n")
