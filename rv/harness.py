"""Runner shared by every check: seeded cases over forked workers, watchdog, evidence, replay.

A check module defines ID, RULE, ASSUMPTIONS and PARTS.  A part is a function that executes the
real code under one generated workload while its monitors watch, and raises Violation when one of
them is refuted.  Everything random comes from the case's own seeded generator.
"""
from __future__ import annotations

import faulthandler
import gc
import hashlib
import json
import os
import resource
import random
import select
import signal
import struct
import sys
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("RV_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the domain (counted, never a verdict)."""


@dataclass
class Part:
    name: str
    fn: Callable[["Case"], None]
    quick: int
    thorough: int
    idle_s: float = 25.0  # all threads asleep this long: deadlock
    cpu_s: float = 120.0  # CPU spent by one case: runaway


class Case:
    def __init__(self, check: str, part: str, seed: int, index: int, tier: str) -> None:
        self.check, self.part, self.seed, self.index, self.tier = check, part, seed, index, tier
        self.rng = random.Random(f"{check}:{part}:{seed}:{index}")
        self.counts: Counter[str] = Counter()
        self.states: set[int] = set()
        self.signature: str | None = None
        self.nontrivial = False
        self.trace: list[str] = []
        self.sample: Any = None
        self.describe: Callable[[], str] | None = None

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] += n

    def state(self, *what: Any) -> None:
        self.states.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), "big"))

    def note(self, text: str) -> None:
        self.trace.append(text)

    def fail(self, text: str) -> None:
        raise Violation(text)

    def check_that(self, ok: bool, text: str | Callable[[], str]) -> None:
        self.counts["assertions"] += 1
        if not ok:
            raise Violation(text if isinstance(text, str) else text())


def _run_case(mod: Any, part: Part, seed: int, index: int, tier: str) -> dict[str, Any]:
    case = Case(mod.ID, part.name, seed, index, tier)
    warned: list[str] = []
    old_show = warnings.showwarning
    old_unraisable = sys.unraisablehook

    def show(message: Any, category: Any, *_a: Any, **_k: Any) -> None:
        warned.append(f"{getattr(category, '__name__', category)}: {message}")

    def unraisable(args: Any) -> None:
        warned.append(f"unraisable: {args.exc_value!r} in {args.object!r}")

    warnings.showwarning = show
    sys.unraisablehook = unraisable
    warnings.simplefilter("always")
    res: dict[str, Any] = {"part": part.name, "index": index, "status": "ok"}
    tb = ""
    try:
        part.fn(case)
    except Skip as e:
        res["status"] = "skip"
        res["message"] = str(e)
    except Violation as e:
        res["status"] = "violation"
        res["message"] = str(e)
        tb = traceback.format_exc()
    except Inconclusive as e:
        res["status"] = "inconclusive"
        res["message"] = str(e)
    except BaseException as e:  # noqa: BLE001
        res["status"] = "violation"
        res["message"] = f"unexpected {type(e).__name__}: {e}"
        tb = traceback.format_exc()
    finally:
        warnings.showwarning = old_show
        sys.unraisablehook = old_unraisable
    if res["status"] == "ok":
        bad = [w for w in warned if "never awaited" in w]
        if bad:
            res["status"] = "violation"
            res["message"] = "un-awaited coroutine: " + bad[0]
    if res["status"] == "violation":
        res["trace"] = case.trace[-4000:]
        res["traceback"] = tb
        if case.describe is not None:
            try:
                res["describe"] = case.describe()
            except Exception as e:  # noqa: BLE001
                res["describe"] = f"<describe failed: {e!r}>"
    res["counts"] = dict(case.counts)
    res["states"] = list(case.states)
    res["nontrivial"] = case.nontrivial
    res["sig"] = case.signature or f"{part.name}:{index}"
    if case.sample is not None and index < 3:
        res["sample"] = case.sample
    return res


# ---------------------------------------------------------------------------------------------
# workers


def _send(fd: int, obj: Any) -> None:
    data = json.dumps(obj, default=repr).encode()
    data = struct.pack("<I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd: int) -> Any | None:
    head = b""
    while len(head) < 4:
        b = os.read(fd, 4 - len(head))
        if not b:
            return None
        head += b
    (n,) = struct.unpack("<I", head)
    buf = b""
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            return None
        buf += b
    return json.loads(buf)


class Worker:
    def __init__(self, mod: Any, tier: str, seed: int, stack_file: str) -> None:
        task_r, task_w = os.pipe()
        res_r, res_w = os.pipe()
        self.stack_file = stack_file
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(task_w)
            os.close(res_r)
            code = 0
            try:
                os.setpgid(0, 0)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))  # runaway allocation is a verdict, not an outage
                f = open(stack_file, "w")
                faulthandler.register(signal.SIGUSR1, file=f, all_threads=True)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if not os.environ.get("RV_DEBUG"):
                    os.dup2(devnull, 2)
                gc.collect()
                gc.freeze()
                parts = {p.name: p for p in mod.PARTS}
                while True:
                    task = _recv(task_r)
                    if task is None:
                        break
                    _send(res_w, _run_case(mod, parts[task[0]], seed, task[1], tier))
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(task_r)
        os.close(res_w)
        self.pid, self.task_w, self.res_r = pid, task_w, res_r
        self.task: tuple[Part, int] | None = None
        self.started = 0.0
        self.cpu0 = 0.0
        self.last_cpu = 0.0
        self.idle_since = 0.0

    def ended(self) -> str:
        """How a process whose pipe closed came to its end."""
        for _ in range(40):
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                for fd in (self.task_w, self.res_r):
                    os.close(fd)
                return f"exit {os.waitstatus_to_exitcode(status)}"
            time.sleep(0.05)
        self.kill()
        return "its pipe closed"

    def give(self, part: Part, index: int) -> None:
        self.task = (part, index)
        self.started = time.monotonic()
        self.cpu0 = self.last_cpu = self._cpu()
        self.idle_since = self.started
        _send(self.task_w, [part.name, index])

    def _cpu(self) -> float:
        try:
            with open(f"/proc/{self.pid}/stat") as f:
                fields = f.read().rsplit(")", 1)[1].split()
            return (int(fields[11]) + int(fields[12]) + int(fields[13]) + int(fields[14])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def _runnable(self) -> bool:
        try:
            for tid in os.listdir(f"/proc/{self.pid}/task"):
                with open(f"/proc/{self.pid}/task/{tid}/stat") as f:
                    if f.read().rsplit(")", 1)[1].split()[0] in "RD":
                        return True
            with open(f"/proc/{self.pid}/task/{self.pid}/children") as f:
                if f.read().strip():
                    return True
        except OSError:
            return True
        return False

    def verdict(self) -> str | None:
        """Deadlock or runaway of the running case, judged from CPU use, not from wall time alone."""
        if self.task is None:
            return None
        now, cpu = time.monotonic(), self._cpu()
        if cpu - self.last_cpu > 0.05 or self._runnable():
            self.last_cpu = cpu
            self.idle_since = now
        part = self.task[0]
        if now - self.idle_since > part.idle_s:
            return f"deadlock: every thread of the case asleep for {part.idle_s:.0f}s"
        if cpu - self.cpu0 > part.cpu_s:
            return f"runaway: the case used more than {part.cpu_s:.0f}s of CPU"
        return None

    def stacks(self) -> str:
        try:
            os.kill(self.pid, signal.SIGUSR1)
            time.sleep(0.5)
            with open(self.stack_file) as f:
                return f.read()[-6000:]
        except OSError:
            return ""

    def kill(self) -> None:
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.task_w, self.res_r):
            try:
                os.close(fd)
            except OSError:
                pass


def run_check(mod: Any, *, replay: str | None = None, only: str | None = None, scale: float = 1.0) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    os.makedirs(EVID, exist_ok=True)
    if replay is not None:
        rec = json.load(open(replay))
        part = next(p for p in mod.PARTS if p.name == rec["part"])
        os.environ["VERIF_TIER"] = rec["tier"]
        res = _run_case(mod, part, rec["seed"], rec["index"], rec["tier"])
        print(json.dumps({k: res.get(k) for k in ("status", "message")}))
        for k in ("describe", "traceback"):
            if res.get(k):
                print(res[k])
        for line in res.get("trace", []):
            print("  ", line)
        if res["status"] == "violation":
            print(f"VIOLATION property={mod.ID} replay={replay}")
            return 1
        return 0

    tasks: list[tuple[Part, int]] = []
    parts = [p for p in mod.PARTS if only is None or p.name == only]
    sizes = {p.name: max(1, int((p.quick if tier == "quick" else p.thorough) * scale)) if (p.quick if tier == "quick" else p.thorough) else 0 for p in parts}
    # interleave the parts so that a truncated run still exercises all of them
    order = sorted(((i + 0.5) / sizes[p.name], k, i) for k, p in enumerate(parts) for i in range(sizes[p.name]))
    tasks = [(parts[k], i) for _, k, i in order]
    budget = float(os.environ.get("RV_BUDGET", "150" if tier == "quick" else "780"))
    nworkers = min(int(os.environ.get("RV_WORKERS", "8")), max(1, len(tasks)))
    scratch = os.path.join(EVID, f".work-{mod.ID}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    results: list[dict[str, Any]] = []
    violation: dict[str, Any] | None = None
    done = 0
    truncated = False
    pos = 0
    workers: list[Worker] = []
    deaths: Counter[tuple[str, int]] = Counter()
    serial = 0

    def spawn() -> Worker:
        nonlocal serial
        serial += 1
        return Worker(mod, tier, seed, os.path.join(scratch, f"stack-{serial}"))

    try:
        workers = [spawn() for _ in range(nworkers)]
        last_watch = time.monotonic()
        while True:
            if time.monotonic() - t0 > budget:
                truncated = truncated or pos < len(tasks)
                pos = len(tasks)
            for w in workers:
                if w.task is None and pos < len(tasks):
                    w.give(*tasks[pos])
                    pos += 1
            busy = [w for w in workers if w.task is not None]
            if not busy:
                break
            ready, _, _ = select.select([w.res_r for w in busy], [], [], 0.5)
            for w in list(busy):
                if w.res_r not in ready:
                    continue
                part, index = w.task  # type: ignore[misc]
                res = _recv(w.res_r)
                if res is None:
                    how = w.ended()
                    workers.remove(w)
                    workers.append(spawn())
                    deaths[part.name, index] += 1
                    if deaths[part.name, index] < 3:
                        # ended from outside, perhaps: only what keeps dying is a verdict
                        tasks.append((part, index))
                        continue
                    res = {"part": part.name, "index": index, "status": "violation",
                           "message": f"the process running the case died ({how})", "counts": {}, "states": [], "nontrivial": False, "sig": ""}
                else:
                    w.task = None
                done += 1
                results.append(res)
                if res["status"] == "violation" and violation is None:
                    violation = res
            if violation is not None:
                break
            if time.monotonic() - last_watch > 1.0:
                last_watch = time.monotonic()
                for w in list(workers):
                    v = w.verdict()
                    if v is None:
                        continue
                    part, index = w.task  # type: ignore[misc]
                    violation = {"part": part.name, "index": index, "status": "violation", "message": v,
                                 "traceback": w.stacks(), "counts": {}, "states": [], "nontrivial": False, "sig": ""}
                    results.append(violation)
                    break
                if violation is not None:
                    break
    finally:
        for w in workers:
            w.kill()
        for name in os.listdir(scratch):
            os.unlink(os.path.join(scratch, name))
        os.rmdir(scratch)

    known_lines: list[str] = []
    known_status = 0
    if violation is None and hasattr(mod, "KNOWN"):
        listed = read_known()
        for key, fn in mod.KNOWN.items():
            try:
                failing = fn()
            except BaseException as e:  # noqa: BLE001
                violation = {"part": "known:" + key, "index": 0, "status": "violation", "counts": {}, "states": [], "nontrivial": False, "sig": "",
                             "message": f"unexpected {type(e).__name__} in probe {key}: {e}", "traceback": traceback.format_exc()}
                break
            if failing is None:
                continue
            if (mod.ID, key) in listed:
                known_lines.append(f"KNOWN-FINDING: property={mod.ID} {key}: {failing}")
            else:
                violation = {"part": "known:" + key, "index": 0, "status": "violation", "counts": {}, "states": [], "nontrivial": False, "sig": "",
                             "message": f"{key}: {failing}"}
                break

    counts: Counter[str] = Counter()
    states: set[int] = set()
    sigs: set[str] = set()
    samples: list[Any] = []
    by_part: Counter[str] = Counter()
    status: Counter[str] = Counter()
    incon: list[str] = []
    for r in results:
        counts.update(r["counts"])
        states.update(r["states"])
        by_part[r["part"]] += 1
        status[r["status"]] += 1
        if r["nontrivial"]:
            sigs.add(r["sig"])
        if "sample" in r and len(samples) < 6:
            samples.append({"part": r["part"], "index": r["index"], "case": r["sample"]})
        if r["status"] == "inconclusive":
            incon.append(f"{r['part']}:{r['index']}: {r.get('message')}")
    ev = {
        "property": mod.ID,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "observed": dict(sorted(counts.items())),
            "distinct_states_or_schedules": len(states),
            "cases_by_part": dict(sorted(by_part.items())),
            "case_status": dict(status),
            "inconclusive": incon[:5],
            "truncated_by_time": truncated,
            "known_findings_seen": known_lines,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 0 if violation is None else 1,
    }
    with open(os.path.join(EVID, f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    for line in known_lines:
        print(line)
    print(f"{mod.ID} tier={tier} seed={seed}: {len(results)} cases, {len(sigs)} distinct non-trivial, "
          f"{sum(counts.values())} observations, {len(states)} states, {ev['wall_s']}s"
          + (" (truncated)" if truncated else "") + (f" inconclusive={len(incon)}" if incon else ""))
    if violation is not None:
        path = os.path.join(EVID, f"violation-{mod.ID}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "part": violation["part"], "index": violation["index"], "seed": seed, "tier": tier,
                       "message": violation.get("message"), "describe": violation.get("describe"),
                       "traceback": violation.get("traceback"), "trace": violation.get("trace")}, f, indent=1)
        print("violated:", violation.get("message"))
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    if incon and len(incon) * 10 > len(results):
        print("INCONCLUSIVE:", incon[0])
        return 2
    minimum = getattr(mod, "MINIMUM", {})
    short = {k: (counts[k], v) for k, v in minimum.items() if counts[k] < v}
    if (not sigs or short) and only is None and not truncated:
        print("INCONCLUSIVE: monitors observed too little", short)
        return 2
    return 0


def read_known() -> set[tuple[str, str]]:
    out: set[tuple[str, str]] = set()
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                words = line.split()
                prop = words[1].removeprefix("property=")
                out.add((prop, words[2].removeprefix("key=")))
    return out
