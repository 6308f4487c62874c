#!/usr/bin/env python3
"""Driver of the checks.

  check.py setup             build the conformance harness
  check.py <ID> [--tier T]   decide one property on /repo's working tree

exit 0: held on everything explored; exit 1: VIOLATION line(s) printed; exit 2: the check failed to run.
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
TARGET = HARNESS / "target"
BIN = TARGET / "debug" / "lc3-conform"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEADLINE = 840

from props import PROPS  # noqa: E402


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=str(TARGET), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k == "RUSTFLAGS":
            del env[k]
    # cargo decides by mtime: always recompile the code under test
    fp = TARGET / "debug" / ".fingerprint"
    if fp.is_dir():
        for d in fp.glob("lc3-ensemble-*"):
            shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0 or not BIN.exists():
        raise ToolError("harness build failed:\n" + p.stdout[p.stdout.find("\nerror"):][:1500])


class Tlc:
    """One TLC run."""

    def __init__(self, module, work, cfg=None, trace=None, workers=8, heap="6g", extra=()):
        self.module, self.cfg, self.trace = module, cfg or module, trace
        self.workers, self.heap, self.extra = workers, heap, list(extra)
        self.work = work
        self.tag = f"{self.cfg}" + (f"-{Path(trace).stem}" if trace else "")
        self.out, self.rc = "", None

    def run(self, timeout):
        meta = self.work / f"meta-{self.tag}"
        tmp = self.work / f"tmp-{self.tag}"
        tmp.mkdir(parents=True, exist_ok=True)
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        if self.trace:
            env["TRACE"] = str(self.trace)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{self.heap}", "-Xss64m", f"-Djava.io.tmpdir={tmp}",
               "-cp", JARS, "tlc2.TLC",
               "-workers", str(self.workers), "-noGenerateSpecTE", "-metadir", str(meta),
               "-config", f"{self.cfg}.cfg", *self.extra, f"{self.module}.tla"]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {self.tag} timed out after {timeout:.0f}s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        self.secs = time.time() - t0
        self.out, self.rc = p.stdout, p.returncode
        (self.work / f"{self.tag}.tlc.log").write_text(self.out)
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", self.out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        i = re.search(r"Finished computing initial states: (\d+) distinct", self.out)
        self.transitions = self.generated - (int(i.group(1)) if i else 0)
        return self


def rejects(out):
    """(trace, line, aspects) of every rejected event, and an evaluation error's position if any."""
    res = []
    for m in re.finditer(r'^"?REJECT (\d+) (\d+) (.*?)"?$', out, re.M):
        asp = m.group(3).replace('\\"', '"')
        try:
            asp = json.loads(asp)
        except ValueError:
            pass
        res.append((int(m.group(1)), int(m.group(2)), asp))
    return res


def known_keys(pid):
    keys = {}
    f = VERIF / "known_findings.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            keys[m.group(2)] = m.group(3)
    return keys


def short(v, n=300):
    s = v if isinstance(v, str) else json.dumps(v)
    return s if len(s) <= n else s[:n] + "..."


def check(pid, tier, seed):
    t0 = time.time()
    left = lambda: max(20, DEADLINE - (time.time() - t0))
    P = PROPS[pid]
    work = VERIF / "work" / f"{pid}-{tier}"
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    replays = VERIF / "work" / "replay"
    replays.mkdir(parents=True, exist_ok=True)
    for old in replays.glob(f"{pid}-*"):
        old.unlink()

    # --- the design: exhaustive model checking, in parallel with the build
    errs, mcs = [], []

    def run_mc():
        try:
            for m in P.get("mc", []) + (P.get("mc_thorough", []) if tier == "thorough" else []):
                m = m if isinstance(m, tuple) else (m, m)
                r = Tlc(m[0], work, cfg=m[1], workers=4, heap="4g").run(left())
                if r.rc != 0 or "No error has been found" not in r.out:
                    raise ToolError(f"model checking {r.tag} failed (rc={r.rc}), see {work}/{r.tag}.tlc.log:\n" + r.out[-1500:])
                mcs.append(r)
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    th = threading.Thread(target=run_mc)
    th.start()
    violations, known_hits = [], {}
    keys = known_keys(pid)

    def violation(name, data, key=None):
        if key is not None and key in keys:
            known_hits[key] = keys[key]
            return
        n = len(violations) + 1
        if n > 20:
            violations.append((name, None))
            return
        path = replays / f"{pid}-{n}.json"
        data = dict(property=pid, seed=seed, tier=tier, what=name,
                    rerun=f"cd {VERIF} && VERIF_SEED={seed} python3 check.py {pid} --tier {tier}", **data)
        path.write_text(json.dumps(data, indent=1))
        violations.append((name, path))

    traces = events = 0
    samples, per_trace = [], {}
    tlcs = []
    try:
        build()
        # --- drive the real code
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, RUST_BACKTRACE="0", TMPDIR=str(work))
        env.pop("TRACE", None)

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        gen = [str(BIN), pid, str(work), *P.get("args", [])]
        try:
            p = subprocess.run(gen, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=left(), preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        (work / "harness.log").write_text(p.stdout + p.stderr)
        hsecs = time.time() - t0
        if p.returncode == 2 or p.returncode == -9:
            raise ToolError(f"harness failed rc={p.returncode}: " + p.stderr[-2000:])
        if p.returncode != 0:
            # the code under test hung, aborted, or refused something the driver relies on
            hang = work / "hang.txt"
            what = "hang" if p.returncode == 3 else "abort" if p.returncode < 0 else "driver could not proceed"
            desc = hang.read_text() if hang.exists() else (p.stdout + p.stderr)[-3000:]
            violation(what, dict(rc=p.returncode, case=desc))
        # --- validate what it recorded
        files = sorted(work.glob("T_*.ndjson"))
        if not files and not violations:
            raise ToolError("harness recorded nothing")
        if violations:
            files = []
        for f in files:
            mod = f.stem.split("@")[0]
            lens, lines = [], []
            with f.open() as fh:
                lines = fh.readlines()
            for ln in lines:
                lens.append(json.loads(ln)["ev"].__len__() if len(ln) < 5_000_000 else len(json.loads(ln)["ev"]))
            if not lines:
                continue
            r = Tlc(P.get("module", {}).get(mod, mod), work, cfg=mod, trace=f, heap=P.get("heap", "10g")).run(left())
            tlcs.append(r)
            rej = rejects(r.out)
            seen = set()
            for (ti, li, asp) in sorted(rej):
                seen.add(ti)
                tr = json.loads(lines[ti - 1])
                ev = tr["ev"][li - 1]
                key = tr.get("kf")
                violation(f"{mod}: trace {ti} ({tr.get('name')}) event {li}: {short(asp, 200)}",
                          dict(module=mod, trace_index=ti, event_index=li, mismatch=asp, event=ev,
                               previous=tr["ev"][li - 2] if li > 1 else None,
                               context={k: v for k, v in tr.items() if k != "ev"} if len(lines[ti-1]) < 2_000_000 else tr.get("name")),
                          key)
            expected = sum(n + 1 for n in lens)
            if r.rc != 0 or "Error:" in r.out:
                m = re.findall(r"/\\ t = (\d+)\s*\n/\\ l = (\d+)", r.out) or \
                    [(b, a) for a, b in re.findall(r"/\\ l = (\d+)\s*\n/\\ t = (\d+)", r.out)]
                if not m:
                    raise ToolError(f"TLC failed on {f.name}: rc={r.rc}\n" + r.out[-1500:])
                ti, li = int(m[-1][0]), int(m[-1][1])
                tr = json.loads(lines[ti - 1])
                ev = tr["ev"][li - 1] if 0 < li <= len(tr["ev"]) else None
                violation(f"{mod}: trace {ti} ({tr.get('name')}) event {li}: not explainable by the specification",
                          dict(module=mod, trace_index=ti, event_index=li, event=ev, tlc=r.out[-3000:]))
            elif not rej and r.distinct != expected:
                raise ToolError(f"{f.name}: {r.distinct} states, expected {expected}")
            traces += len(lens) - len(seen)
            events += r.distinct - len(lens)
            per_trace[f.name] = dict(traces=len(lens), events=sum(lens), states=r.distinct, secs=round(r.secs, 1))
            step = max(1, len(lines) // 3)
            for ln in lines[::step][:3]:
                if len(ln) < 3_000_000:
                    tr = json.loads(ln)
                    samples.append(f"{mod} {tr.get('name', '')}: {short(tr['ev'][len(tr['ev'])//2] if tr['ev'] else [], 400)}")
    finally:
        th.join()
    if errs:
        raise errs[0]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(r.distinct for r in mcs + tlcs),
                            transitions=sum(r.transitions for r in mcs + tlcs),
                            traces_validated_against_impl=traces,
                            events_validated=events,
                            model_checked={r.tag: dict(distinct=r.distinct, generated=r.generated, secs=round(r.secs, 1)) for r in mcs},
                            trace_files=per_trace,
                            samples=samples[:8]),
              assumptions=P.get("assumptions", []),
              violations=len(violations), wall_s=round(time.time() - t0, 2))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    for k, what in known_hits.items():
        print(f"KNOWN-FINDING: property={pid} {what} [{k}]")
    for name, path in violations[:20]:
        print(f"  {name}")
        print(f"VIOLATION property={pid} replay={path}")
    if len(violations) > 20:
        print(f"  ... and {len(violations) - 20} more")
    print(f"{pid} {tier}: {traces} traces, {events} events validated; "
          f"{ev['coverage']['states']} states; {len(violations)} violations; {ev['wall_s']}s")
    # keep the work folder small
    for f in work.glob("T_*.ndjson"):
        if not os.environ.get("VERIF_KEEP"):
            f.unlink()
    return 1 if violations else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a[0] == "setup":
            build()
            return 0
        return check(a[0], tier, seed)
    except ToolError as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 2
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print(f"ERROR {e!r}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
