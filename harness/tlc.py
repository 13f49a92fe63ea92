"""Running TLC on the modules of /verif/spec."""
import glob
import os
import re
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
JAR, CM = f"{TLA}/tla2tools.jar", f"{TLA}/CommunityModules-deps.jar"


def build():
    """Compile the Java implementation of BigRat when absent or older than its source."""
    src = sorted(glob.glob(f"{SPEC}/java/*.java"))
    cls = [f"{BUILD}/{os.path.basename(s)[:-5]}.class" for s in src]
    if all(os.path.exists(c) and os.path.getmtime(c) >= os.path.getmtime(s) for s, c in zip(src, cls)):
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["javac", "-cp", JAR, "-d", BUILD, *src], check=True, timeout=120)


class Result:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.states = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.ok = "Model checking completed. No error has been found." in out or \
            ("Finished in" in out and "Error" not in out)


def run(module, cfg, scratch, env=None, workers=8, args=(), timeout=800, override=True, jvm=()):
    cp = ":".join(([BUILD] if override else []) + [JAR, CM])
    meta = os.path.join(scratch, f"meta.{os.path.basename(cfg)}.{time.time_ns()}")
    cmd = ["java", "-Xss64m", "-Xmx12g", "-XX:+UseParallelGC", *jvm, "-cp", cp, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return Result(p.returncode, p.stdout, time.time() - t)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return Result(-1, out if isinstance(out, str) else out.decode(errors="replace"), time.time() - t)
