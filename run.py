#!/usr/bin/env python3
"""Decides one property of gozwave by generated-input search.

    run.py check C07          explore with VERIF_SEED and VERIF_TIER (quick, thorough)
    run.py replay C07 FILE    run one saved case
    run.py setup              build everything once, to see that it can be built

Everything is built from the working tree of /repo into a scratch directory.
See DESIGN.md.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from config import CHECKS  # noqa: E402

EXIT_HANG, EXIT_SLOW, EXIT_BUG, EXIT_RACE = 97, 98, 99, 66
SHARDS = 8
START = time.time()


class Inconclusive(Exception):
    """The check can give no answer."""


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


# --- building -------------------------------------------------------------

def go_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") and k not in ("GOCACHE", "GOPATH", "GOMODCACHE"):
            del env[k]
    env.setdefault("HOME", "/root")
    if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
        env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
               GOTRACEBACK="all")
    return env


class Build:
    """A copy of the harness, and what is built from it, in a scratch directory."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.env = go_env()
        self.harness = os.path.join(tmp, "harness")
        shutil.copytree(os.path.join(HERE, "harness"), self.harness)
        self.repo = REPO
        if not os.path.exists(os.path.join(REPO, "go.mod")):
            # The project has none of its own: leave the working tree alone
            self.repo = os.path.join(tmp, "repo")
            shutil.copytree(REPO, self.repo, ignore=shutil.ignore_patterns(".git"))
            shutil.copy("/opt/vp/go.mod", self.repo)
            shutil.copy("/opt/vp/go.sum", self.repo)
        if self.repo != "/repo":
            p = os.path.join(self.harness, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + self.repo)
            open(p, "w").write(s)
        self.env["VERIF_REPO"] = self.repo

    def go(self, args, cwd=None, check=True, timeout=600):
        r = subprocess.run(["go"] + args, cwd=cwd or self.harness, env=self.env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if check and r.returncode != 0:
            raise Inconclusive("go %s failed:\n%s" % (" ".join(args), r.stdout[-6000:]))
        return r

    def overlay(self):
        """In the overlay the library uses vsync instead of sync: the clock of a
        bubble goes on while a goroutine waits for such a lock."""
        out = os.path.join(self.tmp, "overlay")
        os.makedirs(out, exist_ok=True)
        rep = {}
        for d, ds, fs in os.walk(self.repo):
            ds[:] = [x for x in ds if not x.startswith(".") and x not in ("json", "testdata")]
            for f in fs:
                if not f.endswith(".go") or f.endswith("_test.go"):
                    continue
                p = os.path.join(d, f)
                if os.path.getsize(p) > 2000000:
                    continue
                s = open(p, encoding="utf-8", errors="surrogateescape").read()
                n = re.sub(r'(?m)^(\s*(?:import\s+)?)"sync"(\s*(?://.*)?)$',
                           r'\1sync "gozwaveverif/vsync"\2', s)
                n = re.sub(r'(?m)^(\s*(?:import\s+)?[A-Za-z_]\w*\s+)"sync"(\s*(?://.*)?)$',
                           r'\1"gozwaveverif/vsync"\2', n)
                if n != s:
                    q = os.path.join(out, os.path.relpath(p, self.repo).replace("/", "__"))
                    with open(q, "w", encoding="utf-8", errors="surrogateescape") as g:
                        g.write(n)
                    rep[p] = q
        path = os.path.join(self.tmp, "overlay.json")
        json.dump({"Replace": rep}, open(path, "w"))
        return path

    def props(self, race=False):
        out = os.path.join(self.tmp, "props.race" if race else "props.test")
        args = ["test", "-c", "-overlay", self.overlay(), "-o", out] + (["-race"] if race else []) + ["./props"]
        r = self.go(args, check=False)
        if r.returncode != 0:
            args = [a for a in args if a != "-overlay" and not a.endswith("overlay.json")]
            r2 = self.go(args, check=False)
            if r2.returncode != 0:
                raise Inconclusive("the harness does not build:\n" + r.stdout[-3000:] + r2.stdout[-3000:])
        return out

    def tool(self, name, pkg):
        """Build a command of the repository."""
        out = os.path.join(self.tmp, "tool." + name)
        self.go(["build", "-o", out, "github.com/stampzilla/gozwave/" + pkg])
        self.env["VERIF_TOOL_" + name.upper()] = out
        return out


# --- running --------------------------------------------------------------

RUNNING = set()


def spawn(binary, env, args, cwd, timeout):
    """Run the test binary; gives (exit code or None, its output)."""
    p = subprocess.Popen([binary, "-test.timeout", "0"] + args, cwd=cwd, env=env, start_new_session=True,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    RUNNING.add(p)
    buf = []

    def pump():
        size = 0
        while True:
            b = p.stdout.read1(65536)
            if not b:
                return
            if size < 4000000:
                buf.append(b)
                size += len(b)
    th = threading.Thread(target=pump, daemon=True)
    th.start()
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    th.join(5)
    RUNNING.discard(p)
    return rc, b"".join(buf).decode("utf-8", "replace")


FRAME = re.compile(r"^\s{0,6}(github\.com/stampzilla/gozwave[\w./]*|gozwaveverif/(?:props|vsync))[.(]")


def classify_crash(rc, out):
    """(kind, text): "violation" when the code under test crashed, "hang", or None."""
    if rc == EXIT_HANG:
        m = re.search(r"(?m)^HANG: .*$", out)
        return "hang", m.group(0) if m else "the case does not end"
    if rc in (EXIT_SLOW, EXIT_BUG) or rc is None or rc < 0:
        return None, ""
    m = re.search(r"(?m)^(WARNING: DATA RACE|panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)$", out)
    if not m:
        return None, ""
    head = m.group(1)
    if "out of memory" in head or "cannot allocate" in head or "all goroutines are asleep" in head:
        return None, ""
    if "test timed out" in head or "test executed panic" in head:
        return None, ""
    lines = out[m.end():].split("\n")
    if head == "WARNING: DATA RACE":
        # Both accesses are to be in the library: the first frame of each that is
        # neither the runtime's nor the shim's.
        ends, inside, section = [], False, 0
        for ln in lines:
            if ln.startswith("==="):
                break
            if re.match(r"^(Read|Write|Previous read|Previous write|Previous|Atomic).* at 0x", ln.strip(" ")) or \
               re.match(r"^\s*(Read|Write|Previous (read|write|atomic)).*at 0x", ln):
                inside, section = True, section + 1
                continue
            if re.match(r"^\s*Goroutine ", ln):
                inside = False
            if inside:
                f = FRAME.match(ln)
                if f and "vsync" not in f.group(1):
                    ends.append(ln.strip())
                    inside = False
        lib = [e for e in ends if e.startswith("github.com/")]
        if not lib:
            return None, ""
        return "violation", "data race: " + " / ".join(ends)
    # The first goroutine printed is the one that crashed
    for ln in lines:
        f = FRAME.match(ln)
        if f and "vsync" not in f.group(1):
            if f.group(1).startswith("github.com/"):
                return "violation", "%s in %s" % (head[:300], ln.strip()[:200])
            return None, ""
    return None, ""


class Runner:
    def __init__(self, pid, tier, seed, tmp):
        self.id, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.cfg = CHECKS[pid]
        self.build = Build(tmp)
        self.n = 0
        self.lock = threading.Lock()
        self.deadline = START + (780 if tier == "quick" else 3 * 3600)

    def prepare(self):
        for name, pkg in self.cfg.get("tools", {}).items():
            self.build.tool(name, pkg)
        self.binary = self.build.props(self.cfg.get("race", False))
        log("built")

    def environ(self, extra):
        env = dict(self.build.env)
        for k in ("VERIF_STDOUT", "VERIF_LOG", "VERIF_TRACE"):
            if k in os.environ:
                env[k] = os.environ[k]
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmp, "run%d" % self.n)
        os.mkdir(d)
        env.update(VERIF_PROP=self.id, VERIF_SCRATCH=d, VERIF_OUT=os.path.join(d, "out.json"),
                   VERIF_CUR=os.path.join(d, "cur.json"), VERIF_TIER=self.tier,
                   GORACE="halt_on_error=1 exitcode=%d" % EXIT_RACE)
        env.update(extra)
        return env, d

    def result(self, rc, out, env):
        """What a process found: (status, text, case); status is ok, fail, crash, hang or error."""
        st = {}
        try:
            st = json.load(open(env["VERIF_OUT"]))
        except (OSError, ValueError):
            pass
        if st.get("fail"):
            return "fail", st["fail"], st.get("case"), st
        if st.get("done") and rc in (0, 1):
            if rc == 1:
                return "error", "the test failed without a violation:\n" + out[-3000:], None, st
            return "ok", "", None, st
        kind, text = classify_crash(rc, out)
        case = None
        try:
            case = json.load(open(env["VERIF_CUR"]))
        except (OSError, ValueError):
            kind = None
        if kind:
            return ("hang" if kind == "hang" else "crash"), text, case, st
        return "error", "exit code %s:\n%s" % (rc, out[-6000:]), None, st

    def explore(self, shard, cases, extra={}):
        seed = int.from_bytes(hashlib.sha256(("%s/%d/%d/%s" % (self.id, self.seed, shard, self.tier)).encode())
                              .digest()[:6], "big") + 1
        env, d = self.environ(extra)
        rc, out = spawn(self.binary, env,
                        ["-test.run", "^TestExplore$", "-rapid.checks=%d" % cases, "-rapid.seed=%d" % seed,
                         "-rapid.nofailfile", "-rapid.shrinktime=%s" % self.cfg.get("shrink", "20s")],
                        d, max(10, self.deadline - time.time()))
        return self.result(rc, out, env)

    def replay(self, files, times=1, timeout=300):
        env, d = self.environ({"VERIF_FILES": ":".join(files), "VERIF_TIMES": str(times)})
        rc, out = spawn(self.binary, env, ["-test.run", "^TestReplay$"], d,
                        max(5, min(timeout, self.deadline - time.time())))
        r = self.result(rc, out, env)
        shutil.rmtree(d, ignore_errors=True)
        return r

    def save(self, text, case):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.id, "seed": self.seed, "fails": text, "case": case}, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.id, hashlib.sha256(body.encode()).hexdigest()[:10]))
        open(p, "w").write(body + "\n")
        return p

    def reproduces(self, case, times, timeout=120):
        p = os.path.join(self.tmp, "try%d.json" % threading.get_ident())
        json.dump({"case": case}, open(p, "w"))
        r = self.replay([p], times, timeout)
        return r[0] in ("fail", "crash", "hang"), r

    def minimise(self, case, times, budget):
        """Delta debugging on the lists of a case that kills the process."""
        end = time.time() + budget

        def lists(v, path=()):
            if isinstance(v, list):
                if v:
                    yield path
                for i, x in enumerate(v):
                    yield from lists(x, path + (i,))
            elif isinstance(v, dict):
                for k in v:
                    yield from lists(v[k], path + (k,))

        def get(v, path):
            for k in path:
                v = v[k]
            return v
        changed = True
        while changed and time.time() < end:
            changed = False
            for path in list(lists(case)):
                try:
                    n = len(get(case, path))
                except (KeyError, IndexError, TypeError):
                    continue
                size = n
                while size >= 1 and time.time() < end:
                    i = 0
                    while time.time() < end:
                        cand = json.loads(json.dumps(case))
                        lst = get(cand, path)
                        if i >= len(lst):
                            break
                        del lst[i:i + size]
                        if self.reproduces(cand, times, 60)[0]:
                            case, changed = cand, True
                        else:
                            i += size
                    size //= 2
        return case

    def check(self):
        cfg = self.cfg
        self.prepare()
        violations = []
        # 1. the saved cases
        corpus = os.path.join(HERE, "corpus", self.id)
        files = sorted(os.path.join(corpus, f) for f in os.listdir(corpus)) if os.path.isdir(corpus) else []
        if files:
            st, text, case, _ = self.replay(files, cfg.get("times", 1))
            if st == "error":
                raise Inconclusive("replaying the saved cases: " + text)
            if st != "ok":
                violations.append((st, text, case))
            log("replayed %d saved cases" % len(files))
        # 2. generated cases
        total = cfg[self.tier]
        shards = cfg.get("shards", SHARDS)
        results = [None] * shards
        stop = threading.Event()
        rounds = max(1, -(-total // (shards * cfg.get("per_process", 20000))))
        per = -(-total // (shards * rounds))

        timer = []

        def over():
            for p in list(RUNNING):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

        def found_one(r):
            if r[0] in ("fail", "crash") and not timer:  # the others need not go on for long
                timer.append(threading.Timer(30, over))
                timer[0].start()
            return r

        def work(i):
            res = []
            for k in range(rounds):
                if stop.is_set():
                    break
                r = found_one(self.explore(i + k * shards, per))
                res.append(r)
                if r[0] != "ok":
                    stop.set()
                    break
            results[i] = res
        real = []
        if not violations:
            ths = [threading.Thread(target=work, args=(i,)) for i in range(shards)]
            if cfg.get("real"):  # cases without the virtual clock
                n = 1 if self.tier == "quick" else 30
                ths += [threading.Thread(target=lambda i=i: real.append(found_one(
                    self.explore(10**6 + i, n, {"VERIF_REAL": "1"})))) for i in range(cfg["real"])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        for t in timer:
            t.cancel()
            t.join()
        flat = [r for res in results if res for r in res] + real
        stats = [r[3] for r in flat if r[3]]
        bad = [r for r in flat if r[0] != "ok"]
        log("explored %d cases" % sum(s.get("cases", 0) for s in stats))
        # 3. violations are confirmed from their replay files
        errors = [r for r in bad if r[0] == "error"]
        found = violations + [(r[0], r[1], r[2]) for r in bad if r[0] != "error"]
        found.sort(key=lambda v: ({"fail": 0, "crash": 1, "hang": 2}[v[0]], len(json.dumps(v[2]))))
        confirmed = None
        unconfirmed = None
        for st, text, case in found[:3]:
            tries = cfg.get("retries", 20) if st != "hang" else 1
            ok, r = self.reproduces(case, tries, 400)
            if ok:
                confirmed = (st, r[1] or text, case)
                break
            # The oracle or the runtime has spoken; the schedule is not part of the case
            if st != "hang":
                unconfirmed = unconfirmed or (st, text, case)
        verdict = confirmed or unconfirmed
        if verdict:
            st, text, case = verdict
            if st == "crash" and confirmed:
                case = self.minimise(case, cfg.get("retries", 20) if cfg.get("race") else 1, 60)
            path = self.save(text, case)
        self.evidence(stats, len(files), 1 if verdict else 0)
        if verdict:
            print(text[:3000])
            print("VIOLATION property=%s replay=%s" % (self.id, path), flush=True)
            return 1
        if errors:
            raise Inconclusive(errors[0][1])
        if found:
            raise Inconclusive("not reproduced: " + found[0][1])
        return 0

    def evidence(self, stats, saved, violations):
        keys, labels, samples = set(), {}, []
        for s in stats:
            keys.update(s.get("keys") or [])
            for k, v in (s.get("labels") or {}).items():
                labels[k] = labels.get(k, 0) + v
            samples += (s.get("samples") or [])
        samples.sort(key=lambda c: hashlib.sha256(json.dumps(c).encode()).hexdigest())
        samples.sort(key=lambda c: len(json.dumps(c)) > 1500)
        rule = next((s["rule"] for s in stats if s.get("rule")), "")
        cov = {
            "evaluations": sum(s.get("evaluations", 0) for s in stats),
            "cases": sum(s.get("cases", 0) for s in stats),
            "distinct_nontrivial": len(keys),
            "rule": rule,
            "samples": samples[:4],
            "labels": dict(sorted(labels.items())),
            "saved_cases_replayed": saved,
            "processes": len(stats),
        }
        if self.cfg.get("exhaustive"):
            cov["exhaustive_part"] = self.cfg["exhaustive"]
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.id + ".json")
        json.dump({
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": self.cfg.get("assumes", []),
            "wall_s": round(time.time() - START, 2), "violations": violations,
        }, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"^known: property=(\S+) (.*)$", ln)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tmp = tempfile.mkdtemp(prefix="gozwaveverif.")
    try:
        if argv[1] == "setup":
            b = Build(tmp)
            binary = b.props()
            rc, out = spawn(binary, dict(b.env), ["-test.run", "^TestList$"], tmp, 60)
            have = set(out.split())
            miss = [c for c in CHECKS if c not in have]
            if rc != 0 or miss:
                print("missing checks:", miss, out[-2000:])
                return 2
            print("ok:", len(CHECKS), "checks")
            return 0
        if argv[1] == "check":
            r = Runner(argv[2], tier, seed, tmp)
            for k in known_findings(argv[2]):
                print("KNOWN-FINDING: property=%s %s" % (argv[2], k))
            rc = r.check()
            log("%s: %s" % (argv[2], "held on everything explored" if rc == 0 else "VIOLATED"))
            return rc
        if argv[1] == "replay":
            r = Runner(argv[2], tier, seed, tmp)
            r.prepare()
            st, text, _, _ = r.replay([os.path.abspath(argv[3])], r.cfg.get("retries", 20), 600)
            print(st, text[:6000])
            return {"ok": 0, "error": 2}.get(st, 1)
        print(__doc__)
        return 2
    except Inconclusive as e:
        print("INCONCLUSIVE:", e, flush=True)
        return 2
    except subprocess.TimeoutExpired as e:
        print("INCONCLUSIVE:", e, flush=True)
        return 2
    finally:
        for p in list(RUNNING):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if tmp.startswith(tempfile.gettempdir()) and "gozwaveverif." in tmp:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
