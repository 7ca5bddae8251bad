#!/usr/bin/env python3
"""Runs the simulation that decides one property.

  check.py C01 [quick|thorough]      search; exit 0 held, 1 violation, 2 no answer
  check.py --replay FILE             repeat a recorded violation
"""
import collections
import glob
import hashlib
import json
import os
import re
import struct
import subprocess
import sys
import time

import build
from plan import PLAN, COMPONENTS

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "_build", "work")
REPLAYS = os.path.join(HERE, "replays")
WORKERS = 8


def say(*a):
    print(*a, flush=True)


def known_findings(prop):
    """Lines 'known: property=<id> class=<regex> :: <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) class=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run_part(part, exe, prop, seed, count, deadline, tag, workers=WORKERS, max_viol=3, known=None):
    procs = []
    extra = []
    stop = os.path.join(WORK, "%s-%s.stop" % (prop, tag))
    if os.path.exists(stop):
        os.unlink(stop)
    if known is not None:
        kf = os.path.join(WORK, "%s-%s.known" % (prop, tag))
        with open(kf, "w") as f:
            f.write("".join(rx.pattern + "\n" for rx, what in known))
        extra = ["--stop", stop, "--known", kf]
    for w in range(workers):
        hf = os.path.join(WORK, "%s-%s-%d.h" % (prop, tag, w))
        cmd = [exe, "run", "--family", part["family"], "--prop", prop + part.get("salt", ""), "--seed", str(seed), "--first", str(w), "--step",
               str(workers), "--count", str(count), "--deadline", str(deadline), "--max-viol", str(max_viol), "--hashes", hf] + extra
        procs.append((hf, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    tot = collections.Counter()
    probes = collections.Counter()
    prof = []
    viol, errs, hashes = [], [], {}
    cut = False
    slow = (0, 0)
    for hf, p in procs:
        out, err = p.communicate()
        try:
            d = json.loads(out)
        except ValueError:
            say("worker failed: rc=%s %s" % (p.returncode, err[-2000:]))
            sys.exit(2)
        for k in ("runs", "nontrivial", "ops", "sim_ns", "sessions", "choices"):
            tot[k] += d[k]
        for k, v in d["probes"].items():
            probes[k] += v
        prof = [a + b for a, b in zip(prof, d["profiles"])] if prof else d["profiles"]
        viol += d["violations"]
        errs += d["errors"]
        cut = cut or d["cut"]
        slow = max(slow, (d["slowest"], d["slowest_i"]))
        with open(hf, "rb") as f:
            raw = f.read()
        for k in range(0, len(raw) // 24 * 24, 24):
            i, h, nt = struct.unpack_from("<QQQ", raw, k)
            hashes[i] = (h, nt)
        os.unlink(hf)
    viol.sort(key=lambda v: (v["msg"].startswith("hang"), v["i"]))
    return dict(tot=tot, probes=probes, profiles=prof, violations=viol, errors=errs, hashes=hashes, cut=cut, slowest=slow)


def tool(exe, mode, part, profile, choices, extra=()):
    cf = os.path.join(WORK, "choices-%d" % os.getpid())
    with open(cf, "w") as f:
        f.write(" ".join(map(str, choices)))
    r = subprocess.run([exe, mode, "--family", part["family"], "--profile", str(profile), "--choices", cf] + list(extra),
                       capture_output=True, text=True)
    os.unlink(cf)
    return json.loads(r.stdout)


def gate(exe, prop, part, v):
    """A violation counts only if it repeats exactly, twice, in fresh processes; it is then minimised."""
    first = tool(exe, "replay", part, v["profile"], v["choices"])
    again = tool(exe, "replay", part, v["profile"], v["choices"])
    if first["status"] != 2 or again["status"] != 2 or first["hash"] != again["hash"]:
        say("not reproducible: status %s/%s hash %s/%s msg %s" % (first["status"], again["status"], first["hash"], again["hash"], v["msg"]))
        return None
    rec = dict(choices=v["choices"], msg=first["msg"], cls=first["class"], hash=first["hash"], trace=first["trace"], stderr=first["stderr"])
    m = tool(exe, "minimise", part, v["profile"], v["choices"], ["--deadline", "40"])
    if m.get("reproduced"):
        fresh = tool(exe, "replay", part, v["profile"], m["choices"])
        if fresh["status"] == 2 and fresh["hash"] == m["hash"]:
            rec = dict(choices=m["choices"], msg=fresh["msg"], cls=fresh["class"], hash=fresh["hash"], trace=fresh["trace"], stderr=fresh["stderr"],
                       minimised_from=m["from"], tries=m["tries"])
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, hashlib.sha1(rec["cls"].encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=prop, family=part["family"], variant=part["variant"], profile=v["profile"], seed=v["seed"], index=v["i"],
                       hash=rec["hash"], message=rec["msg"], cls=rec["cls"], choices=rec["choices"], minimised_from=rec.get("minimised_from"),
                       trace=rec["trace"].split("\n"), stderr=rec["stderr"].split("\n")), f, indent=1)
    rec["path"] = path
    return rec


def replay(path):
    with open(path) as f:
        r = json.load(f)
    os.makedirs(WORK, exist_ok=True)
    exe = build.build(r["variant"], quiet=True)
    o = tool(exe, "replay", dict(family=r["family"]), r["profile"], r["choices"])
    say(o["trace"])
    if o["status"] == 2:
        say("violation repeated (%s): %s" % ("same execution" if o["hash"] == r["hash"] else "different execution", o["msg"]))
        return 1
    say("no violation on this tree (status %d)" % o["status"])
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    say("property %s tier %s seed %d" % (prop, tier, seed))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    plan = PLAN[prop]
    known = known_findings(prop)
    total_cap = 560 if tier == "quick" else plan.get("thorough_cap", 3000)
    parts_ev, samples = [], []
    tot, probes = collections.Counter(), collections.Counter()
    distinct = set()
    verdict, known_hit, unstable = [], {}, []
    det_checked = det_bad = 0
    errors = []
    search_s = 0.0
    nparts = len(plan["parts"])
    for k, part in enumerate(plan["parts"]):
        exe = build.build(part["variant"])
        count = part["quick"] if tier == "quick" else part["quick"] * plan.get("thorough_factor", 40)
        left = total_cap - (time.time() - t0)
        deadline = max(20, left / (nparts - k) * (1.6 if k + 1 < nparts else 1.0) if tier == "quick" else left / (nparts - k))
        ts = time.time()
        r = run_part(part, exe, prop, seed, count, min(deadline, left), "p%d" % k, known=known)
        dt = time.time() - ts
        search_s += dt
        tot.update(r["tot"])
        probes.update(r["probes"])
        errors += r["errors"]
        hs = {h for h, nt in r["hashes"].values() if nt}
        distinct |= {(k, h) for h in hs}
        parts_ev.append(dict(family=part["family"], variant=part["variant"], runs=r["tot"]["runs"], nontrivial=r["tot"]["nontrivial"],
                             distinct_executions=len(hs), runs_per_profile=r["profiles"], cut_by_deadline=r["cut"], wall_s=round(dt, 1),
                             seeds_per_hour=int(r["tot"]["runs"] / max(dt, .01) * 3600), slowest_run_s=r["slowest"][0]))
        say("part %s/%s: %d runs, %d distinct non-trivial executions, %.1f s%s" % (part["family"], part["variant"], r["tot"]["runs"], len(hs), dt,
                                                                                   ", cut" if r["cut"] else ""))
        for e in r["errors"][:3]:
            say("harness error in run %s: %s" % (e["i"], e["msg"]))
        # determinism: repeat some runs with another distribution over processes
        n = min(part.get("det", 24), r["tot"]["runs"])
        if n and not r["violations"]:
            r2 = run_part(part, exe, prop, seed, n, 60, "d%d" % k, workers=3, max_viol=99)
            for i, hv in r2["hashes"].items():
                if i in r["hashes"]:
                    det_checked += 1
                    det_bad += hv != r["hashes"][i]
        if len(samples) < 4 and r["tot"]["runs"] and part.get("sample", True):
            s = subprocess.run([exe, "one", "--family", part["family"], "--prop", prop + part.get("salt", ""), "--seed", str(seed), "--index", "1"],
                               capture_output=True, text=True).stdout
            samples.append(dict(family=part["family"], variant=part["variant"], index=1, output=s[:3000].split("\n")))
        seen = collections.OrderedDict()
        for v in r["violations"]:
            for rx, what in known:
                if rx.search(v["class"]):
                    known_hit[what] = known_hit.get(what, 0) + 1
                    break
            else:
                seen.setdefault(v["class"], v)
        for cls, v in list(seen.items())[:4]:
            if time.time() - t0 > total_cap + 120:
                break
            g = gate(exe, prop, part, v)
            if g is None:
                unstable.append(v["msg"])
                continue
            hit = [w for rx, w in known if rx.search(g["cls"])]
            if hit:
                known_hit[hit[0]] = known_hit.get(hit[0], 0) + 1
                continue
            verdict.append(dict(message=g["msg"], replay=g["path"], variant=part["variant"], family=part["family"], seed=v["seed"]))
            break
        if verdict:
            break
    wall = time.time() - t0
    faults = {n[6:]: v for n, v in probes.items() if n.startswith("fault:") and v}
    ev = dict(
        property=prop, tier=tier, seed=seed, level=plan.get("level", "exploration"),
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=len(distinct), rule=plan["rule"], samples=samples,
            simulated_runs=tot["runs"], runs_per_hour=int(tot["runs"] / max(search_s, .01) * 3600), simulated_time_s=round(tot["sim_ns"] / 1e9, 3),
            simulated_disk_operations=tot["ops"], library_sessions=tot["sessions"], choices_drawn=tot["choices"],
            faults_injected=faults, reach_probes={n: v for n, v in probes.items() if not n.startswith("fault:")},
            distinct_measure="distinct 64-bit hashes over every simulated system call, schedule decision, fault and observed result of a non-trivial run",
            parts=parts_ev, determinism=dict(reruns=det_checked, mismatches=det_bad), components=COMPONENTS,
            harness_errors=len(errors), known_findings_seen=known_hit, unstable_reports=unstable),
        assumptions=plan.get("assumptions", []), wall_s=round(wall, 1), violations=len(verdict))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for rx, what in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, what))
    if det_bad:
        say("warning: %d of %d repeated runs differ" % (det_bad, det_checked))
    if verdict:
        for v in verdict:
            say(v["message"])
            say("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if unstable:
        say("no answer: a reported violation did not repeat")
        return 2
    if tot["runs"] == 0 or len(errors) * 20 > tot["runs"]:
        say("no answer: %d runs, %d harness errors" % (tot["runs"], len(errors)))
        return 2
    say("held: %d runs, %d distinct non-trivial executions, %.0f s" % (tot["runs"], len(distinct), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
