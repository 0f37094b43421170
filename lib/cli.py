"""Runs the command line program in a scratch directory of its own."""
import os, subprocess
from lib.worker import Violation, Crash


def run(ctx, args, stdin=b"", cwd=None, which="apex", timeout=30, env=None):
    home = os.path.join(ctx.scratch, "home")
    os.makedirs(home, exist_ok=True)
    e = {"PATH": os.environ.get("PATH", ""), "HOME": home, "XDG_CONFIG_HOME": os.path.join(home, ".config"), "LC_ALL": "C.UTF-8",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99"}
    e.update(env or {})
    if isinstance(stdin, str): stdin = stdin.encode("utf-8", "surrogateescape")
    try:
        p = subprocess.run([ctx.bins[which]] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or ctx.scratch, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Crash("timeout", "apex %s did not end in %d s" % (args, timeout), "")
    if p.returncode < 0 or p.returncode == 99:
        raise Violation("apex %s died (%d): %s" % (args, p.returncode, p.stderr.decode(errors="replace")[-600:]))
    return p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "replace")


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(text.encode("utf-8", "surrogateescape") if isinstance(text, str) else text)
