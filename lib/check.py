#!/usr/bin/env python3
"""Supervisor of the monitors.

  check.py check <ID> [quick|thorough]   run the check of a property
  check.py replay <file>                 run the failing case of a replay file again
  check.py setup                         warm the build cache

It builds the harness group of the property from /repo's working tree, runs it
in a scratch directory, and turns what was observed - the monitor's verdict,
race reports, crashes and stalls - into evidence and an exit code.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/vivint/rothko"

sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    return e


def build(group, race, out, work):
    replace = {}
    for d in ("hk", group):
        src = os.path.join(VERIF, "harness", d)
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                replace[f"{REPO}/internal/zzverif/{d}/{f}"] = os.path.join(src, f)
    ov = os.path.join(work, f"overlay-{group}.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": replace}, fh)
    cmd = ["go", "build", "-tags", "verif", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(f"./internal/zzverif/{group}")
    p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building the harness failed:\n" + p.stdout[-6000:])


def module_frames(stack):
    """The frames of a stack that are in the module, innermost first."""
    out = []
    for line in stack.splitlines():
        s = line.strip()
        if line.startswith("\t") or s.startswith("goroutine ") or s.startswith("created by"):
            continue
        if re.match(r"^/|^\S+\.go:\d+", s):
            continue
        m = re.match(r"^((?:%s|main)[^\s]*)\(" % re.escape(MOD), s)
        if m:
            out.append(s)
        elif s.startswith(MOD):
            out.append(s)
    return out


def ours(frame):
    return "/internal/zzverif/" in frame or frame.startswith("main.")


def crash_of(stderr):
    """The panic and the innermost frame of the code under test, if it is to blame."""
    m = None
    for m in re.finditer(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|SIGBUS|runtime: goroutine stack exceeds)", stderr, re.M):
        break
    if not m:
        return None, None
    text = stderr[m.start():]
    head = text.splitlines()[0]
    if "harness panic" in head:
        return head, None
    g = re.search(r"^goroutine \d+ .*?:\n(.*?)(?:\n\n|\Z)", text, re.M | re.S)
    stack = g.group(1) if g else text
    if "\npanic(" in stack:
        stack = stack[stack.rindex("\npanic("):]
    frames = module_frames(stack)
    if frames and not ours(frames[0]):
        return head, frames[0]
    if head.startswith("unexpected fault address"):
        # the harness uses no unmapped memory of its own
        return head, "memory the code under test handed out"
    return head, None


def stall_of(stderr, mark="STALL:"):
    if mark not in stderr:
        return None
    text = stderr[stderr.index(mark):]
    found = []
    for g in re.split(r"\n\n", text):
        frames = module_frames(g)
        if frames and any(not ours(f) for f in frames):
            f = [f for f in frames if not ours(f)][0]
            state = re.search(r"^goroutine \d+ .*\[(.*?)\]", g, re.M)
            found.append("%s [%s]" % (f.split("(0x")[0], state.group(1) if state else "?"))
    return sorted(set(found))


PLUG = re.compile(r"^main\.(\(\*?)?Plug")
BLOCK = re.compile(r"={18}\nWARNING: DATA RACE\n(.*?)\n={18}", re.S)


def races_of(scratch):
    """Race reports that involve the code under test, without duplicates."""
    found, harness = {}, []
    for f in sorted(os.listdir(scratch)):
        if not f.startswith("race."):
            continue
        text = open(os.path.join(scratch, f), errors="replace").read()
        for m in BLOCK.finditer(text):
            body = m.group(1)
            parts = re.split(r"\n\s*\n", body)
            access = [p for p in parts if re.match(r"\s*(Previous )?(atomic )?(read|write) at|\s*(Previous )?(Atomic )?(Read|Write) at", p.strip() if False else p)]
            if len(access) < 2:
                access = parts[:2]
            tops, funcs = [], []
            for a in access[:2]:
                lines = [l.strip() for l in a.splitlines()[1:]]
                fn = [l for l in lines if l and not l.startswith("/") and not re.match(r"^\S+\.go:\d+", l)]
                funcs.append(fn)
                # what the code under test plugs in (Plug...) acts on its behalf.
                mod = [l for l in fn if (l.startswith(MOD) or l.startswith("main.")) and not PLUG.match(l)]
                tops.append(mod[0] if mod else (fn[0] if fn else "?"))
            # closing the queue while others send is what the database does by
            # design: the senders recover, which is no data race in effect.
            first = [f[0] if f else "" for f in funcs]
            if len(first) == 2 and any("runtime.closechan" in f for f in first) and \
                    any("runtime.chansend" in f for f in first) and \
                    all("rothko/database/files." in t for t in tops):
                continue
            if all(ours(t) for t in tops):
                harness.append(body)
                continue
            key = " / ".join(sorted(re.sub(r"\(.*", "", re.sub(r"\(\*(\w+)\)", r"\1", t)) for t in tops))
            found.setdefault(key, body)
    return found, harness


NOBODY = 65534


def drop():
    """Become nobody, so that what escapes from the scratch directory fails."""
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def can_drop():
    if os.geteuid() != 0:
        return False
    try:
        return subprocess.run(["true"], preexec_fn=drop).returncode == 0
    except (OSError, subprocess.SubprocessError):
        return False


def run_step(prop, step, tier, seed, work, only=None, budget=840):
    group, race = step["group"], step.get("race", False)
    exe = os.path.join(work, group + ("-race" if race else ""))
    if not os.path.exists(exe):
        build(group, race, exe, work)
    for extra in step.get("build", []):
        build_extra(extra, work)
    scratch = tempfile.mkdtemp(prefix="s", dir=work)
    verdict = os.path.join(scratch, "verdict.json")
    unprivileged = can_drop()
    if unprivileged:
        os.chown(scratch, NOBODY, NOBODY)
    e = env()
    e["VERIF_SEED"], e["VERIF_TIER"] = str(seed), tier
    e["VERIF_WORK"] = work
    e["TMPDIR"] = e["HOME"] = scratch
    e["GORACE"] = f"log_path={scratch}/race halt_on_error=0 exitcode=0 history_size=3"
    e["GOTRACEBACK"] = "all"
    e.update(step.get("env", {}))
    cmd = [exe, "-prop", step.get("prop", prop), "-out", verdict, "-scratch", scratch]
    if only:
        cmd += ["-only", only]
    log = open(os.path.join(work, "stderr"), "w+b")
    p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=log, stderr=log, start_new_session=True,
                         preexec_fn=drop if unprivileged else None)
    try:
        code = p.wait(timeout=budget)
    except subprocess.TimeoutExpired:
        code = None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    log.seek(0)
    stderr = log.read().decode(errors="replace")
    log.close()

    res = {}
    if os.path.exists(verdict):
        res = json.load(open(verdict))
    viol = list(res.get("violations") or [])

    races, harness = races_of(scratch) if race else ({}, [])
    for key, body in races.items():
        viol.append({"section": "race", "case": -1, "seed": seed, "kind": "race",
                     "what": "data race between " + key, "log": body.splitlines()})
    if harness and not viol:
        raise CheckError("data race inside of the harness:\n" + harness[0])

    stall = stall_of(stderr) if code == 77 else None
    if stall:
        viol.append({"section": "stall", "case": -1, "seed": seed, "kind": "stall",
                     "what": "no progress; goroutines in the code under test: " + ", ".join(stall)[:1500],
                     "log": stderr[stderr.index("STALL:"):].splitlines()[:3000]})
    greedy = stall_of(stderr, "MEMORY:") if code == 78 else None
    if greedy:
        viol.append({"section": "memory", "case": -1, "seed": seed, "kind": "memory",
                     "what": "memory without bound; goroutines in the code under test: " + ", ".join(greedy)[:1500],
                     "log": stderr[stderr.index("MEMORY:"):].splitlines()[:3000]})
    elif code not in (0, 3, 77):
        head, frame = crash_of(stderr)
        if frame:
            viol.append({"section": "crash", "case": -1, "seed": seed, "kind": "crash",
                         "what": f"{head} in {frame}", "log": stderr[-40000:].splitlines()})
        elif not viol:
            raise CheckError(f"the harness ended with {code}:\n" + stderr[:3000] + "\n...\n" + stderr[-3000:])
    if not viol and (code == 3 or res.get("status") == "inconclusive"):
        raise CheckError("inconclusive: " + stderr[-3000:])
    if not viol and (code != 0 or res.get("status") != "done"):
        raise CheckError(f"no verdict, exit code {code}:\n" + stderr[-6000:])
    shutil.rmtree(scratch, ignore_errors=True)
    return res, viol


def build_extra(name, work):
    """Other binaries a harness runs: the real program."""
    out = os.path.join(work, name)
    if os.path.exists(out):
        return
    table = {
        "rothko": ["./bin/rothko"],
        "rothko-race": ["-race", "./bin/rothko"],
    }
    if name in ("pluga.so", "plugb.so"):
        # plugins for rothko-race
        target = "internal/zzverif/" + name[:-3]
        files = {os.path.join(REPO, target, "plug.go"): os.path.join(VERIF, "harness/plug/plug.go"),
                 os.path.join(REPO, target, "name.go"): os.path.join(VERIF, "harness", name[:-3], "name.go")}
        overlay = os.path.join(work, name + ".json")
        with open(overlay, "w") as fh:
            json.dump({"Replace": files}, fh)
        table[name] = ["-race", "-buildmode=plugin", "-overlay", overlay, "./" + target]
    cmd = ["go", "build", "-o", out] + table[name]
    p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building %s failed:\n%s" % (name, p.stdout[-6000:]))


def known_findings():
    """key -> description of the findings that are not repaired."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def merge(total, res):
    for k in ("evaluations", "distinct_nontrivial"):
        total[k] = total.get(k, 0) + int(res.get(k) or 0)
    total["rule"] = " | ".join(x for x in (total.get("rule"), res.get("rule")) if x)
    total.setdefault("samples", [])
    total["samples"] += res.get("samples") or []
    cs = total.setdefault("observed", {})
    for k, v in (res.get("counters") or {}).items():
        cs[k] = cs.get(k, 0) + v


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    spec = PROPS[prop]
    began = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(work, 0o755)
    total, viol, known = {}, [], []
    status = None
    budget = 800 if tier == "quick" else 6 * 3600
    try:
        for step in spec["steps"]:
            if step.get("tier", tier) != tier:
                continue
            left = max(60, budget - (time.time() - began))
            res, v = run_step(prop, step, tier, seed, work, budget=left)
            merge(total, res)
            viol += [dict(x, step=step) for x in v]
            known += res.get("known") or []
            if viol:
                break
    except CheckError as err:
        status = str(err)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    listed = known_findings()
    for k in known:
        key, what = k.split(" ", 1)
        if (prop, key) in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, what))
        else:
            viol.append({"section": "finding", "case": -1, "seed": seed, "kind": key, "what": what, "log": []})

    total.setdefault("evaluations", 0)
    total.setdefault("distinct_nontrivial", 0)
    total.setdefault("rule", "")
    total.setdefault("samples", [])
    total["samples"] = total["samples"][:8] or ["none recorded"]
    if status:
        total["error"] = status[:2000]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": total, "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - began, 2), "violations": len(viol),
    }
    tmp = os.path.join(evdir, prop + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    os.rename(tmp, os.path.join(evdir, prop + ".json"))

    if viol:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        v = viol[0]
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, re.sub(r"\W+", "_", v["section"]), v["case"]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": viol}, fh, indent=1)
        print("%s: %s" % (v["kind"], v["what"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if status:
        print("ERROR property=%s: %s" % (prop, status))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
        prop, tier, seed, total["evaluations"], total["distinct_nontrivial"], time.time() - began))
    return 0


def replay(path):
    doc = json.load(open(path))
    v = doc["violations"][0]
    prop, tier = doc["property"], doc["tier"]
    only = None if v["case"] < 0 else "%s/%d" % (v["section"], v["case"])
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        _, viol = run_step(prop, v.get("step") or PROPS[prop]["steps"][0], tier, doc["seed"], work, only=only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for v in viol:
        print("%s/%s: %s: %s" % (v["section"], v["case"], v["kind"], v["what"]))
        for line in v.get("log") or []:
            print("   ", line)
    return 1 if viol else 0


def setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        done = set()
        for spec in PROPS.values():
            for step in spec["steps"]:
                k = (step["group"], step.get("race", False))
                if k not in done:
                    done.add(k)
                    build(k[0], k[1], os.path.join(work, "%s-%d" % k), work)
        print("built", len(done), "harness groups")
    except CheckError as err:
        print(err)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main(argv):
    if argv[:1] == ["setup"]:
        return setup()
    if argv[:1] == ["replay"] and len(argv) == 2:
        return replay(argv[1])
    if argv[:1] == ["check"] and len(argv) in (2, 3) and argv[1] in PROPS:
        tier = argv[2] if len(argv) == 3 else os.environ.get("VERIF_TIER") or "quick"
        return check(argv[1], tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
