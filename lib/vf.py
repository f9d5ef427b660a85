"""Shared plumbing of every check: paths, building the compiler from /repo's
working tree, evidence, known findings and violation reports."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
DIST = os.path.join(REPO, "dist", "vxlisp")
NCPU = max(1, min(8, os.cpu_count() or 1))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
START = time.time()
# every check stops exploring at this age and reports what it covered
DEADLINE = START + (780 if TIER == "thorough" else 600)


class CheckError(Exception):
    """The machinery could not give an answer (exit status 3)."""


def quick():
    return TIER != "thorough"


def log(*args):
    print(*args, file=sys.stderr, flush=True)


def go_env():
    env = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        if line.startswith("export "):
            for word in line[len("export "):].split():
                k, _, v = word.partition("=")
                env[k] = v
    # our own caches: /opt/vp stays as it was
    env["GOCACHE"] = os.path.join(WORK, "gocache")
    env["CCACHE_DIR"] = os.path.join(WORK, "ccache")
    env["CCACHE_MAXSIZE"] = "2G"
    env.setdefault("HOME", "/root")
    return env


def run(cmd, cwd=None, env=None, timeout=600, input=None):
    return subprocess.run(cmd, cwd=cwd, env=env or go_env(), timeout=timeout,
                          input=input, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT)


def fresh_dir(path):
    path = os.path.abspath(path)
    if not path.startswith(WORK + os.sep) or path == WORK:
        raise CheckError("refusing to clear " + path)
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def build_compiler(dest):
    """go build of the compiler from /repo's working tree into dest."""
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    p = run(["go", "build", "-o", dest, "."], cwd=os.path.join(REPO, "src"),
            timeout=600)
    if p.returncode != 0:
        raise CheckError("compiler does not build:\n" + p.stdout.decode(errors="replace"))
    return dest


# ---------------------------------------------------------------- reporting

class Report:
    """Collects what one check run saw and turns it into evidence + exit."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.coverage = {}
        self.assumptions = []
        self.violations = []      # (key, message, replay-object)
        self.known_hit = {}
        self.exhaustive = True
        self.samples = []
        self.known = load_known(prop)
        self.seen = set()

    def sample(self, obj, cap=12):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def violation(self, key, message, replay):
        """key identifies the specific input/history; known keys are notes."""
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return False
        if key in self.seen:
            return False
        self.seen.add(key)
        self.violations.append((key, message, replay))
        return True

    def finish(self):
        outdir = os.path.join(WORK, "replay")
        os.makedirs(outdir, exist_ok=True)
        cov = dict(self.coverage)
        cov.setdefault("exhaustive", self.exhaustive)
        cov["samples"] = self.samples
        recs = []
        lines = []
        for i, (key, message, replay) in enumerate(self.violations[:int(os.environ.get("VF_MAX", "20"))]):
            path = os.path.join(outdir, "%s-%d.json" % (self.prop, i + 1))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "message": message,
                           "replay": replay}, f, indent=1, default=str)
            recs.append({"key": key, "message": message[:2000], "replay": path})
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        cov["known_findings_seen"] = len(self.known_hit)
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "wall_s": round(time.time() - START, 2),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
            "violation_records": recs,
        }
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for key in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known_hit[key]))
        for (key, message, _), line in zip(self.violations, lines):
            print("  " + message.replace("\n", "\n  "))
            print(line)
        if len(self.violations) > 20:
            print("  ... and %d more" % (len(self.violations) - 20))
        print("%s tier=%s %s violations=%d known=%d wall=%.1fs" % (
            self.prop, TIER,
            {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))},
            len(self.violations), len(self.known_hit), time.time() - START))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(prop):
    """known-findings.txt: `known: property=<id> key=<key> :: <what fails>`."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path, encoding="utf-8"):
        line = line.rstrip("\n")
        if not line.startswith("known: "):
            continue
        head, _, what = line[len("known: "):].partition(" :: ")
        p, _, key = head.partition(" key=")
        if p == "property=" + prop:
            out[key] = what
    return out


def main(fn):
    """Run a check body; anything unexpected is a check error, not a verdict."""
    try:
        code = fn()
    except CheckError as e:
        print("CHECK-ERROR", e)
        sys.stdout.flush()
        sys.exit(3)
    except Exception:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR unexpected exception")
        sys.stdout.flush()
        sys.exit(3)
    sys.exit(code)


def digest(text):
    if isinstance(text, str):
        text = text.encode("utf-8", "surrogatepass")
    return hashlib.sha256(text).hexdigest()[:16]
