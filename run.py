#!/usr/bin/env python3
"""Builds and runs the monitors of one property: run.py <ID> | run.py --replay <file>."""
import array
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks  # noqa: E402

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "none": [],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=1:"
                    "handle_abort=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=43",
    "TSAN_OPTIONS": "exitcode=43:halt_on_error=1:second_deadlock_stack=1:allocator_may_return_null=1",
}
EXIT_VIOLATION = 42


def command(b, out):
    cmd = [b["cxx"], "-std=" + b["std"], "-g1", b.get("opt", "-O1"), "-pthread",
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness"), "-w"]
    cmd += SAN[b.get("san", "asan")]
    if not b.get("exc", True):
        cmd.append("-fno-exceptions")
    if b.get("asserts", True):
        cmd.append("-DCETL_ENABLE_DEBUG_ASSERT=1")
    else:
        cmd.append("-DNDEBUG")
    cmd += b.get("defs", [])
    cmd += [os.path.join(HERE, "harness", b["src"]), "-o", out]
    return cmd


class DoesNotCompile(Exception):
    """The headers compile but a program which uses them as documented does not."""


def headers_compile(b, out):
    """Whether the headers a harness uses compile alone."""
    inc, todo = [], [b["src"]]
    for name in todo:
        for line in open(os.path.join(HERE, "harness", name)):
            m = re.match(r'\s*#\s*include\s*([<"])(\S+)[>"]', line)
            if m and m.group(1) == '"' and m.group(2) not in todo:
                todo.append(m.group(2))
            elif m and m.group(1) == "<" and m.group(2).startswith("cetl/"):
                inc.append(line)
    path = out + ".headers.cpp"
    with open(path, "w") as f:
        f.write("".join(inc) + "int main() {}\n")
    cmd = [a if not a.endswith(b["src"]) else path for a in command(b, out + ".headers")]
    return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def frame_of(text):
    """The innermost frame inside the library."""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (\S+?):(\d+)", text):
        if "/include/cetl" in m.group(2):
            name = re.sub(r"<.*", "", m.group(1)).split("(")[0].split(" ")[-1]
            return os.path.basename(m.group(2)) + ":" + name
    return ""


def classify(rc, out):
    """None if the run is clean, else (key, detail). Raises for anything that is not an outcome."""
    if rc == 0 and "\n@DONE" in out:
        return None
    m = re.search(r"^@VIOLATION key=(\S+)\n@DETAIL (.*)$", out, re.M)
    if m:
        if m.group(1).startswith("harness"):
            raise RuntimeError("harness: " + m.group(2))
        return m.group(1), m.group(2)
    if "@HANG" in out:
        return "hang", "one case did not finish in time"
    m = re.search(r"SUMMARY: (\w+): (\S+)", out)
    r = re.search(r"runtime error: (.*)", out)
    if r:
        return "ubsan@" + frame_of(out), r.group(1)
    if m:
        return m.group(1) + "." + m.group(2) + "@" + frame_of(out), m.group(0)
    m = re.search(r"(.*Assertion .* failed.*)", out)
    if m:
        c = re.search(r"CDE_\w+", m.group(1))
        return "assertion." + (c.group(0) if c else "library"), m.group(1)
    m = re.search(r"^@DEATH (.*)$", out, re.M)
    if m:
        return "death." + m.group(1).replace(" ", "-"), out[-2000:]
    if rc < 0:
        if rc == -9:
            raise RuntimeError("killed")
        return "signal.%d" % -rc, out[-2000:]
    raise RuntimeError("exit %d\n%s" % (rc, out[-3000:]))


def execute(binary, args, timeout):
    env = dict(os.environ)
    env.update(ENV)
    p = subprocess.run(["setarch", "-R", binary] + args if SETARCH else [binary] + args,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


SETARCH = False


def one(binary, args, timeout):
    """Runs a job; a run which took too long is run once more."""
    for attempt in (0, 1):
        try:
            rc, out = execute(binary, args, timeout)
        except subprocess.TimeoutExpired:
            if attempt == 0:
                continue
            raise RuntimeError("inconclusive: no result in %d s: %s %s" % (timeout, binary, " ".join(args)))
        v = classify(rc, out)
        if v and v[0] == "hang" and attempt == 0:
            m = re.search(r"@CONTEXT suite=(\S+) case=(\d+)", out)
            again = args + ["--suite", m.group(1), "--case", m.group(2)]
            rc2, out2 = execute(binary, again, timeout)
            if classify(rc2, out2) is None:
                continue  # was only slow: once more from the start
            return rc2, out2, classify(rc2, out2)
        return rc, out, v
    raise RuntimeError("unreachable")


def load_known():
    known = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) probe=(\S+) key=(\S+) (.*)", line)
        if m:
            known.append({"property": m.group(1), "probe": m.group(2), "key": m.group(3), "what": m.group(4).strip()})
    return known


def report(prop, n, job, args, cmd, v, out):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    m = re.search(r"@CONTEXT suite=(\S+) case=(\d+) seed=(\d+)", out)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    rargs = list(args)
    if m:
        rargs = ["--seed", m.group(3), "--suite", m.group(1), "--case", m.group(2), "--verbose"] + job.get("args", [])
    with open(path, "w") as f:
        json.dump({"property": prop, "build": cmd, "other": job.get("other"), "args": rargs, "key": v[0],
                   "detail": v[1], "output": out[-20000:]}, f, indent=1)
    return path


def compare(r, b):
    """Finds the first case of which two configurations observe something different."""
    if subprocess.call(r["other"][:-1] + [b + ".other"]) != 0:
        print("REPLAY does-not-compile")
        return 1
    args = r["args"]
    pick = lambda name: args[args.index(name) + 1]
    digest = lambda out: json.loads(re.search(r"^@COV (.*)$", out, re.M).group(1))["digest"]
    base = ["--seed", pick("--seed"), "--suite", pick("--suite"), "--tier", pick("--tier")]
    for case in range(int(pick("--first")), int(pick("--cases")), int(pick("--stride"))):
        both = [execute(x, base + ["--case", str(case), "--verbose"], 600)[1] for x in (b, b + ".other")]
        if digest(both[0]) != digest(both[1]):
            print(both[0] + "\n" + "-" * 80 + "\n" + both[1])
            print("REPLAY ('digest-differs', 'case %d of %s')" % (case, pick("--suite")))
            return 1
    print("REPLAY None")
    return 0


def main():
    t0 = time.time()
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
        b = os.path.join(HERE, "build", "replay.bin")
        cmd = r["build"][:-1] + [b]
        if subprocess.call(cmd) != 0:
            print("REPLAY does-not-compile")
            return 1
        if r.get("other"):
            return compare(r, b)
        rc, out = execute(b, r["args"], 600)
        print(out)
        v = classify(rc, out)
        print("REPLAY", v)
        return 1 if v else 0
    if sys.argv[1:] == ["--setup"]:
        for tool in ("clang++", "g++"):
            subprocess.check_call([tool, "--version"], stdout=subprocess.DEVNULL)
        for d in ("evidence", "replay", "build"):
            os.makedirs(os.path.join(HERE, d), exist_ok=True)
        print("ready: the checks build what they need")
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    spec = checks.CHECKS[prop]
    bdir = os.path.join(HERE, "build", prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    ncpu = max(1, min(8, os.cpu_count() or 1))

    builds = spec["builds"]
    names = [b["name"] for b in builds]
    assert len(set(names)) == len(names), "duplicate build names"
    cov = {"evaluations": 0, "operations": 0, "counts": {}}
    sigs, samples, violations, knowns, errors = set(), [], [], [], []
    digests, digest_runs = {}, {}
    runs = 0

    def do_build(b):
        out = os.path.join(bdir, b["name"])
        cmd = command(b, out)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            text = p.stdout.decode("utf-8", "replace")
            if re.search(r"\berror:", text) and headers_compile(b, out):
                raise DoesNotCompile(b, cmd, text)
            raise RuntimeError("build %s failed\n%s\n%s" % (b["name"], " ".join(cmd), text[-6000:]))
        return b, out, cmd

    def do_run(b, binary, cmd, job, shard, shards):
        cases = job["cases"][1 if tier == "thorough" else 0]
        sig = "%s.%s.%d.sig" % (binary, job.get("suite", "all").replace(",", "+"), shard)
        args = ["--seed", str(seed), "--cases", str(cases), "--first", str(shard), "--stride", str(shards),
                "--sigs", sig, "--tier", "1" if tier == "thorough" else "0"]
        if job.get("suite"):
            args += ["--suite", job["suite"]]
        args += job.get("args", [])
        rc, out, v = one(binary, args, job.get("timeout", 400))
        return b, job, args, cmd, rc, out, v, sig

    with cf.ThreadPoolExecutor(ncpu) as pool:
        pend = {pool.submit(do_build, b): ("build", b) for b in builds}
        while pend:
            done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                kind, _ = pend.pop(f)
                try:
                    r = f.result()
                except DoesNotCompile as e:
                    b, cmd, text = e.args
                    what = re.search(r"error:.*", text).group(0)
                    violations.append(({}, ("does-not-compile", what), b, [], cmd, text[:20000]))
                    continue
                except Exception as e:  # noqa: BLE001
                    errors.append(str(e))
                    continue
                if kind == "build":
                    b, binary, cmd = r
                    for job in b["jobs"]:
                        shards = job.get("shards", 1)
                        for s in range(shards):
                            pend[pool.submit(do_run, b, binary, cmd, job, s, shards)] = ("run", b)
                    continue
                b, job, args, cmd, rc, out, v, sig = r
                runs += 1
                if v:
                    if job.get("probe"):
                        knowns.append((job, v, b, args, cmd, out))
                    else:
                        violations.append((job, v, b, args, cmd, out))
                    continue
                if job.get("probe"):
                    continue
                m = re.search(r"^@COV (.*)$", out, re.M)
                c = json.loads(m.group(1))
                cov["evaluations"] += c["evaluations"]
                cov["operations"] += c["ops"]
                for k, n in c["counts"].items():
                    cov["counts"][k] = cov["counts"].get(k, 0) + n
                if os.path.exists(sig):
                    a = array.array("Q")
                    with open(sig, "rb") as fh:
                        a.frombytes(fh.read())
                    tag = names.index(b["name"])
                    sigs.update((tag, x) for x in a)
                    os.unlink(sig)
                if len(samples) < 10:
                    samples += ["%s: %s" % (b["name"], x[:600]) for x in c["samples"][:2]]
                if job.get("digest"):
                    digests.setdefault((job["digest"], args[args.index("--first") + 1]), {})[b["name"]] = c["digest"]
                    digest_runs[(job["digest"], args[args.index("--first") + 1], b["name"])] = (b, cmd, args)

    for key, d in sorted(digests.items()):
        if len(set(d.values())) > 1:
            vals = sorted(d.items())
            out = "digests of observed behaviour differ: " + json.dumps(vals)
            one_name, other_name = vals[0][0], [n for n, v in vals if v != vals[0][1]][0]
            b, cmd, args = digest_runs[key + (one_name,)]
            _, other, _ = digest_runs[key + (other_name,)]
            violations.append(({"other": other}, ("digest-differs", out), b, args, cmd, out))
    if digests:
        cov["configurations_compared"] = max(len(d) for d in digests.values())
        cov["digests_compared"] = sum(len(d) for d in digests.values())

    known_db = load_known()
    seen_known = []
    for job, v, b, args, cmd, out in knowns:
        hit = [k for k in known_db if k["property"] == prop and k["probe"] == job["probe"] and re.fullmatch(k["key"], v[0])]
        if hit:
            seen_known.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
        else:
            violations.append((job, v, b, args, cmd, out))
    for line in sorted(set(seen_known)):
        print(line)

    rc = 0
    if violations:
        # One report per distinct key, the first ones in full.
        seen = {}
        for job, v, b, args, cmd, out in violations:
            seen.setdefault(v[0], (job, v, b, args, cmd, out))
        for n, (key, (job, v, b, args, cmd, out)) in enumerate(sorted(seen.items())):
            path = report(prop, n, job, args, cmd, v, out)
            print("# %s in %s: %s" % (key, b["name"], v[1][:500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for e in errors[:5]:
            print("ERROR " + e[:6000])
        rc = 2
    elif cov["evaluations"] == 0 or not sigs:
        print("ERROR nothing was observed")
        rc = 2

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": cov["evaluations"],
            "distinct_nontrivial": len(sigs),
            "rule": spec["rule"],
            "samples": samples[:10],
            "operations": cov["operations"],
            "builds": len(builds),
            "runs": runs,
            "counts": cov["counts"],
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(set(v[1][0] for v in violations)),
        "wall_s": round(time.time() - t0, 2),
    }
    for k in ("configurations_compared", "digests_compared"):
        if k in cov:
            ev["coverage"][k] = cov[k]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d operations, %d builds, %.1f s: %s"
          % (prop, tier, seed, cov["evaluations"], len(sigs), cov["operations"], len(builds), time.time() - t0,
             {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc]))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
