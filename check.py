#!/usr/bin/env python3
"""Run the check of one property: check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the property's harness parts from the current tree of /repo (header-only, so every part
is compiled against /repo/include), runs them, merges what they covered into evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: 'VIOLATION property=<ID> replay=<path>'.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CONFIGOR_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)
from parts import PARTS  # noqa: E402

BASE = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-I", os.path.join(REPO, "include"),
        "-I", os.path.join(REPO, "tests", "3rd-party")]


def digest(part):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "engine"), os.path.join(HERE, "harness")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if root.endswith("harness") and re.fullmatch(r"C\d\d\w*\.cpp", f) and f != part["src"]:
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(repr(sorted(part.items())).encode())
    return h.hexdigest()[:24]


def compile_part(pid, part):
    """-> (binary or None, log)"""
    out = os.path.join(BUILD, "%s-%s-%s" % (pid, part["name"], digest(part)))
    if os.path.exists(out):
        return out, ""
    for old in os.listdir(BUILD):
        if old.startswith("%s-%s-" % (pid, part["name"])):
            p = os.path.join(BUILD, old)
            if os.path.isfile(p):
                os.remove(p)
    tmp = "%s.%d" % (out, os.getpid())
    cmd = [part.get("cxx", "g++")] + BASE + part.get("flags", []) + [os.path.join(HERE, "harness", part["src"]), "-o", tmp] + part.get("libs", [])
    for attempt in (0, 1):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.rename(tmp, out)
            return out, ""
        if "error:" in p.stdout:
            break
        time.sleep(2)
    return None, " ".join(cmd) + "\n" + p.stdout


def known_list():
    """(property, key) of the findings recorded in known_findings.txt"""
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                r[m.group(1), m.group(2)] = m.group(3).strip()
    return r


def env_for(part):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=%d:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=4000" % part.get("lsan", 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    e["LC_ALL"] = "C"
    return e


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        replay = a[a.index("--replay") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PARTS[pid]
    parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
    t0 = time.time()
    for d in (BUILD, REPLAYS, os.path.join(HERE, "evidence")):
        os.makedirs(d, exist_ok=True)

    if replay:
        txt = open(replay).read()
        name = re.search(r"^part (\S+)", txt, re.M).group(1)
        what = re.search(r"^replay (\S+)", txt, re.M).group(1)
        rt = re.search(r"^tier (\S+)", txt, re.M)
        part = [p for p in spec["parts"] if p["name"] == name][0]
        b, log = compile_part(pid, part)
        if not b:
            print(log)
            return 2
        return subprocess.run([b, "--replay", what, "--tier", rt.group(1) if rt else tier, "--work", BUILD], env=env_for(part)).returncode

    violations, known, partials, lines = [], [], [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda p: compile_part(pid, p), parts))
    # a harness uses the public interface only; if one does not compile, see whether anything does
    if any(b is None for b, _ in built):
        probe = os.path.join(BUILD, "probe-%d" % os.getpid())
        src = probe + ".cpp"
        open(src, "w").write('#include <configor/json.hpp>\nint main(){configor::json::value v=configor::json::parse("[1]");return v.size()==1?0:1;}\n')
        r = subprocess.run(["g++"] + BASE + [src, "-o", probe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 0
        for f in (src, probe):
            if os.path.exists(f):
                os.remove(f)
        for p, (b, log) in zip(parts, built):
            if b is None:
                print(log[-6000:])
                if ok:
                    path = os.path.join(REPLAYS, "%s-%s-compile.txt" % (pid, p["name"]))
                    open(path, "w").write("property %s\npart %s\nUses of the public interface that this property covers do not compile any more.\n\n%s\n" % (pid, p["name"], log))
                    violations.append((path, "uses of the public interface do not compile"))
        if not ok:
            return 2
    deadline = t0 + (800 if tier == "quick" else 20000)
    for p, (b, _) in zip(parts, built):
        if b is None or violations:
            continue
        work = os.path.join(BUILD, "work-%s-%s-%d" % (pid, p["name"], os.getpid()))
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        out = os.path.join(work, "out.json")
        rc, err = None, ""
        for attempt in (0, 1):
            try:
                r = subprocess.run([b, "--tier", tier, "--out", out, "--work", work, "--replays", REPLAYS], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", env=env_for(p), cwd=work,
                                   timeout=max(30, deadline - time.time()))
                rc, err = r.returncode, r.stdout
            except subprocess.TimeoutExpired as e:
                rc, err = -1, "the harness did not finish"
            if os.path.exists(out):
                break
        print(err.strip()[-3000:])
        if not os.path.exists(out):
            print("the harness part %s gave no result (status %s)" % (p["name"], rc))
            shutil.rmtree(work, ignore_errors=True)
            return 2
        d = json.load(open(out))
        shutil.rmtree(work, ignore_errors=True)
        d["part"] = p["name"]
        partials.append(d)
        if d["verdict"] != "ok":
            violations.append((d["replay"], d["detail"]))
        listed = known_list()
        for k in d.get("known", []):
            if not k["failed"]:
                continue
            if (pid, k["key"]) in listed:
                known.append(k)
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["key"], k["what"]))
            else:
                path = os.path.join(REPLAYS, "%s-%s-%s.txt" % (pid, p["name"], k["key"]))
                open(path, "w").write("property %s\npart %s\nreplay known:%s\n%s\n%s\n" % (pid, p["name"], k["key"], k["what"], k["msg"]))
                violations.append((path, k["what"] + ": " + k["msg"]))

    lvl = spec["level"]
    tot = lambda k: sum(d.get(k, 0) for d in partials)  # noqa: E731
    cov = {
        "evaluations": tot("evaluations"),
        "exhaustive": all(d["exhaustive"] for d in partials) and bool(partials),
        "rule": " | ".join(d["part"] + ": " + d["rule"] for d in partials) or "no part ran",
        "samples": [s for d in partials for s in d["samples"]] or ["none: see the violation"],
        "families": [dict(f, part=d["part"]) for d in partials for f in d["families"]],
    }
    if lvl == "model_checking":
        cov["states"] = tot("states")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("traces")
        cov["distinct_outcomes"] = tot("outcomes")
    else:
        cov["distinct_nontrivial"] = tot("outcomes")
        if tot("transitions"):
            cov["transitions"] = tot("transitions")
    if any(d.get("outcomes_saturated") or d.get("states_saturated") for d in partials):
        cov["counting_note"] = "a distinct count stopped at the capacity of the counting table; the true number is larger"
    for d in partials:
        for k, v in d.items():
            if k.startswith("x_"):
                cov[k[2:]] = cov.get(k[2:], 0) + v
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
        "assumptions": sorted({x for d in partials for x in d["assumptions"]} | set(spec.get("assumptions", []))),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        "known_findings": [k["key"] for k in known],
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for path, detail in violations:
        print(detail)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not violations:
        print("%s held on everything explored (%.1f s)" % (pid, time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
