"""
Driver (python3-vt, CPython with Hypothesis).

  driver.py Cnn [quick|thorough]      run the check
  driver.py Cnn --replay FILE         run one saved case, bypassing Hypothesis

Hypothesis generates JSON cases from VERIF_SEED alone, a worker process on the
interpreter of the code under test executes each against the oracle, and
Hypothesis shrinks what fails. The shrunk case is the replay file.
"""
import sys
import os
import json
import time
import hashlib
import importlib
import shutil
import signal
import subprocess
import tempfile
import threading
import multiprocessing as mp
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = "/opt/venv/bin/python"
N_SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
CASE_TIMEOUT = 200
SHRINK_S = {"quick": 40, "thorough": 120}
SOFT_LIMIT_S = {"quick": 420, "thorough": 7200}

sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True


class WorkerError(Exception):
    pass


class Worker:
    def __init__(self, prop, root):
        self.scratch = tempfile.mkdtemp(prefix="w", dir=root)
        env = {
            "HOME": self.scratch,
            "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
            "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8",
            "TZ": "UTC",
            "PYTHONHASHSEED": "0",
            "PYTHONDONTWRITEBYTECODE": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
            "MPLBACKEND": "Agg",
            "TQDM_DISABLE": "1",
            "TMPDIR": self.scratch,
        }
        if "VERIF_REPO" in os.environ:
            env["VERIF_REPO"] = os.environ["VERIF_REPO"]
        self.p = subprocess.Popen(
            [PYPY, os.path.join(VERIF, "lib", "worker.py"), prop, self.scratch],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=env,
            cwd=self.scratch,
            text=True,
        )
        self.sent = []
        first = self._read(CASE_TIMEOUT)
        if first.get("status") != "ready":
            msg = first.get("msg")
            self.close()
            raise WorkerError(msg)

    def _read(self, timeout):
        timer = threading.Timer(timeout, self.p.kill)
        timer.start()
        try:
            line = self.p.stdout.readline()
        finally:
            timer.cancel()
        if not line:
            self.p.wait()
            return {"status": "error", "msg": "worker died or timed out"}
        return json.loads(line)

    def run(self, kind, case):
        text = json.dumps({"kind": kind, "case": case})
        self.sent.append(text)
        try:
            self.p.stdin.write(text + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise WorkerError("worker died")
        res = self._read(CASE_TIMEOUT)
        if res["status"] == "error":
            raise WorkerError(
                "%s\ncase: %s" % (res.get("msg"), text[:2000])
            )
        return res

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.scratch, ignore_errors=True)


def derive_seed(*parts):
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def digest(kind, case):
    text = kind + json.dumps(case, sort_keys=True)
    return hashlib.sha1(text.encode()).hexdigest()[:16]


class Failed(Exception):
    pass


def shard_main(prop, tier, seed, shard, n_shards, root, queue):
    """One shard: all the kinds of the property, its part of the cases"""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, Verbosity

    t0 = time.time()
    out = {
        "shard": shard,
        "evals": Counter(),
        "nt": set(),
        "distinct": set(),
        "labels": Counter(),
        "known": set(),
        "samples": [],
        "fail": None,
        "error": None,
        "truncated": False,
        "kind_s": {},
    }
    worker = None
    try:
        gen = importlib.import_module(prop.lower() + "_gen")
        worker = Worker(prop, root)
        for spec in gen.KINDS:
            kind = spec["kind"]
            total = spec[tier]
            n = total // n_shards + (1 if shard < total % n_shards else 0)
            st = {"failing": None, "shrink_until": None, "worker": worker, "k": 0}

            def execute(case):
                if st["failing"] is None:
                    if time.time() - t0 > SOFT_LIMIT_S[tier]:
                        out["truncated"] = True
                        return
                elif time.time() > st["shrink_until"]:
                    return
                res = worker.run(kind, case)
                if st["failing"] is None:
                    h = digest(kind, case)
                    out["evals"][kind] += 1
                    out["distinct"].add(h)
                    if res.get("nt"):
                        if h not in out["nt"] and st["k"] < 2:
                            out["samples"].append({"kind": kind, "case": case})
                            st["k"] += 1
                        out["nt"].add(h)
                        out["labels"][kind + ":nontrivial"] += 1
                    for lab in res.get("labels", []):
                        out["labels"][kind + ":" + lab] += 1
                    out["known"].update(res.get("known", []))
                if res["status"] == "fail":
                    if st["failing"] is None:
                        st["shrink_until"] = time.time() + SHRINK_S[tier]
                    size = len(json.dumps(case))
                    prev = st["failing"]
                    if prev is None or size <= prev["size"]:
                        st["failing"] = {
                            "kind": kind,
                            "case": case,
                            "msg": res["msg"],
                            "size": size,
                            "seq": len(worker.sent),
                        }
                        if prev is None:
                            st["failing"]["first"] = True
                            st["first"] = st["failing"]
                    raise Failed(res["msg"])

            k0 = time.time()
            try:
                for case in spec.get("examples", []) if shard == 0 else []:
                    execute(json.loads(json.dumps(case)))
                if n:
                    test = hypothesis.given(spec["strategy"])(execute)
                    test = settings(
                        max_examples=n,
                        database=None,
                        deadline=None,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink],
                        verbosity=Verbosity.quiet,
                        report_multiple_bugs=False,
                        print_blob=False,
                    )(test)
                    test = hypothesis.seed(derive_seed(seed, prop, kind, shard))(test)
                    test()
            except WorkerError as e:
                if st["failing"] is None:
                    raise
            except BaseException as e:
                if st["failing"] is None:
                    raise
            out["kind_s"][kind] = round(time.time() - k0, 2)
            if st["failing"] is not None:
                fail = st["failing"]
                fail["sent"] = worker.sent[: fail["seq"]]
                fail["first_case"] = st["first"]["case"]
                fail["first_sent"] = worker.sent[: st["first"]["seq"]]
                out["fail"] = fail
                break
    except WorkerError as e:
        out["error"] = str(e)
    except BaseException as e:
        import traceback

        out["error"] = traceback.format_exc()[-4000:]
    finally:
        if worker is not None:
            worker.close()
    queue.put(out)


def replay_cases(prop, root, cases):
    """Run a list of {"kind","case"} in a fresh worker: the first failure, or None"""
    worker = Worker(prop, root)
    try:
        for item in cases:
            res = worker.run(item["kind"], item["case"])
            if res["status"] == "fail":
                return res["msg"]
    finally:
        worker.close()
    return None


def write_replay(prop, seed, cases, msg):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = {"property": prop, "seed": seed, "message": msg, "cases": cases}
    name = "%s-%s.json" % (prop, digest("r", cases))
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def confirm(prop, root, seed, fail):
    """Confirm a failure in a fresh worker and write its replay file"""
    one = [{"kind": fail["kind"], "case": fail["case"]}]
    msg = replay_cases(prop, root, one)
    if msg is not None:
        return write_replay(prop, seed, one, msg), msg
    first = [{"kind": fail["kind"], "case": fail["first_case"]}]
    msg = replay_cases(prop, root, first)
    if msg is not None:
        return write_replay(prop, seed, first, msg), msg
    # it needs the history of the process: replay the sequence that led to it
    seq = [json.loads(x) for x in fail["first_sent"]]
    msg = replay_cases(prop, root, seq)
    if msg is None:
        return None, None
    until = time.time() + 60
    keep = seq
    while len(keep) > 1 and time.time() < until:
        half = keep[len(keep) // 2 :]
        m = replay_cases(prop, root, half)
        if m is None:
            break
        keep, msg = half, m
    return write_replay(prop, seed, keep, msg), msg


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        body = json.load(f)
    return [k for k in body.get("findings", []) if k["property"] == prop]


def main():
    args = sys.argv[1:]
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    root = tempfile.mkdtemp(prefix="vf%s_" % prop)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(root, "hyp")
    try:
        if len(args) > 1 and args[1] == "--replay":
            with open(args[2]) as f:
                body = json.load(f)
            msg = replay_cases(prop, root, body["cases"])
            if msg is None:
                print("replay: no violation")
                return 0
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, args[2]))
            return 1
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        return check(prop, tier, seed, root)
    except WorkerError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 3
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check(prop, tier, seed, root):
    t0 = time.time()
    gen = importlib.import_module(prop.lower() + "_gen")
    ctx = mp.get_context("fork")
    queue = ctx.Queue()
    procs = []
    for shard in range(N_SHARDS):
        p = ctx.Process(
            target=shard_main, args=(prop, tier, seed, shard, N_SHARDS, root, queue)
        )
        p.start()
        procs.append(p)
    outs = []
    stop = t0 + SOFT_LIMIT_S[tier] + 400
    while len(outs) < N_SHARDS and time.time() < stop:
        try:
            outs.append(queue.get(timeout=2))
        except Exception:
            if not any(p.is_alive() for p in procs):
                try:
                    while True:
                        outs.append(queue.get(timeout=1))
                except Exception:
                    break
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    outs.sort(key=lambda o: o["shard"])

    evals, labels = Counter(), Counter()
    nt, distinct, known = set(), set(), set()
    samples, fails, errors, truncated = [], [], [], False
    kind_s = Counter()
    for o in outs:
        evals.update(o["evals"])
        labels.update(o["labels"])
        nt |= o["nt"]
        distinct |= o["distinct"]
        known |= o["known"]
        truncated = truncated or o["truncated"]
        for k, v in o["kind_s"].items():
            kind_s[k] = max(kind_s[k], v)
        if o["fail"]:
            fails.append(o["fail"])
        if o["error"]:
            errors.append(o["error"])
        if len(samples) < 12:
            samples += o["samples"][:4] if o["shard"] else o["samples"]
    if len(outs) < N_SHARDS:
        errors.append("%d shard(s) gave no answer" % (N_SHARDS - len(outs)))

    def clip(x):
        text = json.dumps(x)
        return x if len(text) < 1500 else {"kind": x["kind"], "case": text[:1500]}

    violations = []
    for fail in sorted(fails, key=lambda f: f["size"]):
        if any(v[2] == fail["kind"] for v in violations):
            continue
        try:
            path, msg = confirm(prop, root, seed, fail)
        except WorkerError as e:
            errors.append("confirming: " + str(e))
            continue
        if path is None:
            errors.append("not reproducible in a fresh process: " + fail["msg"])
        else:
            violations.append((path, msg, fail["kind"]))

    findings = load_known(prop)
    known_lines = []
    for item in findings:
        msg = replay_known(prop, root, item)
        if msg is not None:
            known_lines.append(
                "KNOWN-FINDING: property=%s %s" % (prop, item["what"])
            )
    unlisted = known - {k["id"] for k in findings}
    if unlisted:
        errors.append("harness reports unlisted known findings: %s" % sorted(unlisted))

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(evals.values()),
            "distinct_nontrivial": len(nt),
            "rule": gen.RULE,
            "samples": [clip(s) for s in samples[:12]],
            "distinct_cases": len(distinct),
            "evaluations_per_kind": dict(sorted(evals.items())),
            "classes": dict(sorted(labels.items())),
            "seconds_per_kind": dict(sorted(kind_s.items())),
            "shards": N_SHARDS,
            "stopped_by_time_limit": truncated,
            "known_findings_still_failing": len(known_lines),
            "harness_errors": [e[:500] for e in errors],
        },
        "assumptions": list(getattr(gen, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in known_lines:
        print(line)
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s"
        % (prop, tier, seed, sum(evals.values()), len(nt), time.time() - t0)
    )
    if violations:
        for path, msg, kind in violations:
            print("  [%s] %s" % (kind, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR property=%s %s" % (prop, e))
        return 3
    return 0


def replay_known(prop, root, item):
    """Re-run the recorded failing input of a known finding, as a plain case"""
    worker = Worker(prop, root)
    try:
        res = worker.run(item["kind"], item["case"])
        if item["id"] in res.get("known", []):
            return item["what"]
        return None
    finally:
        worker.close()


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(4))
    sys.exit(main())
