#!/usr/bin/env python3
"""Runs one check: check.py <ID> [quick|thorough]; or runs a saved failure again: check.py replay <file>."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
GO = "/opt/veriftools/go1.27.3/bin/go"
LIMIT = {"quick": 840, "thorough": 7200}
RACE = {"C19"}        # built with the race detector
BINARY = {"C23"}  # need the program itself

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOSUMDB": "off",
    "CGO_ENABLED": "1", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "TZ": "UTC", "LC_ALL": "C.UTF-8",
})
ENV.pop("GODEBUG", None)
ENV.pop("GOTRACEBACK", None)


def error(message):
    print("CHECK-ERROR: " + message, flush=True)
    sys.exit(2)


def build(tmp, race, with_program):
    # The module file is copied, so that building never rewrites a committed file.
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    out = os.path.join(tmp, "checks.test")
    cmd = [GO, "test", "-c", "-vet=off", "-modfile=" + mod, "-tags", "sqlite_fts5", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./checks")
    run = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if run.returncode != 0:
        error("building the checks failed:\n" + run.stdout[-6000:])
    if with_program:
        program = os.path.join(tmp, "rodb")
        cmd = [GO, "build", "-modfile=" + mod, "-tags", "sqlite_fts5", "-o", program, "github.com/rodb-io/rodb/cmd"]
        run = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if run.returncode != 0:
            error("building rodb failed:\n" + run.stdout[-6000:])
    return out


def known_findings(prop):
    """Entries 'KNOWN-FINDING property=<id> key=<key> <what>' of known-findings.txt."""
    result = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                result[m.group(2)] = m.group(3)
    return result


def read(path):
    try:
        with open(path, encoding="utf-8", errors="replace") as f:
            return f.read()
    except OSError:
        return ""


def execute(prop, tier, seed, tmp, binary, test, extra, limit, env_extra=None):
    work = os.path.join(tmp, "work")
    scratch = os.path.join(tmp, "scratch")
    os.makedirs(work, exist_ok=True)
    os.makedirs(scratch, exist_ok=True)
    env = dict(ENV)
    env.update({
        "VERIF_OUT": os.path.join(tmp, "coverage.json"), "VERIF_ERRFILE": os.path.join(tmp, "harness-error"),
        "VERIF_HANGFILE": os.path.join(tmp, "hang"), "VERIF_TIER": tier, "VERIF_SEED": str(seed),
        "VERIF_SCRATCH": scratch, "VERIF_PROGRAM": os.path.join(tmp, "rodb"), "TMPDIR": scratch,
        "VERIF_KNOWN": json.dumps(sorted(known_findings(prop))), "VERIF_SELF": binary,
        "VERIF_CURRENT": os.path.join(tmp, "current"),
        "GORACE": "halt_on_error=1 exitcode=66 history_size=3", "VERIF_CERTS": os.path.join(HERE, "harness", "certs"),
    })
    env.update(env_extra or {})
    out = os.path.join(tmp, "output.txt")
    with open(out, "wb") as f:
        p = subprocess.Popen([binary, "-test.run", test, "-test.timeout", "0", "-test.count", "1"] + extra,
                             cwd=work, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            code = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            code = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
    return code, read(out), work


def judge(tmp, code, output):
    """'pass', 'violation' or 'error', and a reason."""
    if os.path.exists(os.path.join(tmp, "harness-error")):
        return "error", "error of the machinery:\n" + read(os.path.join(tmp, "harness-error"))[-4000:]
    if code is None:
        return "error", "time limit reached:\n" + output[-3000:]
    if os.path.exists(os.path.join(tmp, "hang")):
        return "violation", "a case did not end"
    if code == 0:
        return "pass", ""
    if "WARNING: DATA RACE" in output:
        if "/repo/" in output or "rodb-io/rodb" in output:
            return "violation", "data race"
        return "error", "data race outside rodb:\n" + output[-6000:]
    if re.search(r"^(panic:|fatal error:|unexpected fault)", output, re.M) and not re.search(r"^\s*--- FAIL", output, re.M):
        if "github.com/rodb-io/rodb/" in output and "out of memory" not in output and "cannot allocate" not in output:
            return "violation", "the process crashed"
        return "error", "the test process crashed outside rodb:\n" + output[-6000:]
    panicked = re.search(r"\[rapid\] panic after.*?Traceback:(.*?)(Failed test output|\Z)", output, re.S)
    if panicked and "rodb-io/rodb/pkg" not in panicked.group(1):
        return "error", "the check itself panicked:\n" + output[-6000:]
    if re.search(r"--- FAIL", output):
        if "cannot allocate memory" in output or "too many open files" in output and prop_is_not_leak(output):
            return "error", "resources of the sandbox ran out:\n" + output[-4000:]
        return "violation", "the property failed"
    return "error", "exit status %s:\n%s" % (code, output[-4000:])


def prop_is_not_leak(output):
    return "TestC20" not in output


def failed_test(output, prop):
    names = re.findall(r"--- FAIL: (\S+)", output)
    names = [n for n in names if n.startswith("Test" + prop)]
    return max(names, key=len) if names else "Test" + prop


def failfile(work):
    base = os.path.join(work, "testdata", "rapid")
    found = []
    for root, _, files in os.walk(base):
        found += [os.path.join(root, f) for f in files if f.endswith(".fail")]
    return max(found, key=os.path.getmtime) if found else None


def check(prop, tier):
    seed_text = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(seed_text)
    except ValueError:
        seed = sum(ord(c) * 31 ** i for i, c in enumerate(seed_text)) % (1 << 31)
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json"), encoding="utf-8"))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), {})
    tmp = tempfile.mkdtemp(prefix="rodbverif-")
    started = time.time()
    try:
        binary = build(tmp, prop in RACE, prop in BINARY)
        code, output, work = execute(prop, tier, seed, tmp, binary, "^Test%s$" % prop, [], LIMIT[tier])
        if os.environ.get("VERIF_VERBOSE"):
            print(output[-6000:])
        verdict, reason = judge(tmp, code, output)
        if verdict == "error":
            error(reason)
        coverage = {}
        if os.path.exists(os.path.join(tmp, "coverage.json")):
            coverage = json.load(open(os.path.join(tmp, "coverage.json"), encoding="utf-8"))
        if verdict == "pass" and not coverage.get("evaluations"):
            error("nothing was evaluated:\n" + output[-3000:])
        known = known_findings(prop)
        seen = coverage.pop("known_findings", None) or []
        for key in seen:
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[key]), flush=True)
        coverage.setdefault("evaluations", 0)
        coverage.setdefault("distinct_nontrivial", 0)
        coverage.setdefault("rule", "")
        coverage["samples"] = coverage.get("samples") or []
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": entry.get("level", "exploration"),
            "coverage": coverage, "assumptions": [
                "Only what was generated is covered; nothing is proved about other inputs.",
                "The Go runtime and standard library, SQLite and the loopback network behave as specified.",
            ],
            "wall_s": round(time.time() - started, 2), "violations": 1 if verdict == "violation" else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)
        if verdict == "violation":
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (prop, tier, seed, int(time.time() * 1000)))
            ff = failfile(work)
            with open(path, "w", encoding="utf-8") as f:
                json.dump({
                    "property": prop, "tier": tier, "seed": seed, "reason": reason, "test": failed_test(output, prop),
                    "rapid_failfile": read(ff) if ff else None, "hang": read(os.path.join(tmp, "hang"))[:200000],
                    "current_case": read(os.path.join(tmp, "current"))[:200000], "output": output[-200000:],
                }, f, indent=1)
            print("%s: %s" % (failed_test(output, prop), reason))
            print(output[-4000:])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            sys.exit(1)
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
            prop, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"], time.time() - started))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    saved = json.load(open(path, encoding="utf-8"))
    prop = saved["property"]
    tmp = tempfile.mkdtemp(prefix="rodbverif-")
    try:
        binary = build(tmp, prop in RACE, prop in BINARY)
        extra = []
        if saved.get("rapid_failfile"):
            ff = os.path.join(tmp, "saved.fail")
            with open(ff, "w", encoding="utf-8") as f:
                f.write(saved["rapid_failfile"])
            extra = ["-rapid.failfile=" + ff]
        test = "/".join("^%s$" % re.escape(part) for part in saved["test"].split("/"))
        code, output, _ = execute(prop, saved["tier"], saved["seed"], tmp, binary, test, extra, LIMIT["thorough"],
                                  {"VERIF_REPLAYING": "1"})
        verdict, reason = judge(tmp, code, output)
        print(output[-20000:])
        print("replay: %s %s" % (verdict, reason))
        sys.exit({"pass": 0, "violation": 1}.get(verdict, 2))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif sys.argv[1:] == ["setup"]:
        tmp = tempfile.mkdtemp(prefix="rodbverif-")
        try:
            build(tmp, False, True)
            build(tmp, True, False)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("the checks build")
    elif len(sys.argv) in (2, 3) and re.match(r"^C\d\d$", sys.argv[1]):
        check(sys.argv[1], sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick"))
    else:
        print(__doc__)
        sys.exit(2)
