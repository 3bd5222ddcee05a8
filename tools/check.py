#!/usr/bin/env python3
"""Runs the check of one property: the deductive part (gover) and the labelled
bounded part (drv), both built from /repo's current working tree."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOENV = dict(os.environ)
GOENV["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + GOENV.get("PATH", "")
GOENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1")
GOENV.setdefault("HOME", "/root")
GOENV.setdefault("GOMODCACHE", "/root/go/pkg/mod")
GOENV.setdefault("GOCACHE", "/root/.cache/go-build")

# factor on the number of quick cases and time limits (seconds)
SCALE = {"N01": 5, "N02": 4, "H01": 2, "M01": 8}
LIMIT = {"quick": 40, "thorough": 900}


def run(cmd, cwd, timeout, env=GOENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), "timeout"


def build(mod, out):
    """Builds a module of /verif against /repo without touching its go.mod/go.sum."""
    rc, o, e = run(["go", "build", "-o", out, "."], os.path.join(V, mod), 600)
    return rc, o + e


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    conf = json.load(open(os.path.join(V, "tools", "props.json")))[prop]
    tmp = tempfile.mkdtemp(prefix="vchk")
    try:
        rc = check(prop, tier, seed, t0, ev, conf, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def known_findings(prop):
    p = os.path.join(V, "known-findings.json")
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def check(prop, tier, seed, t0, ev, conf, tmp):
    res = {}

    def ded():
        if not conf.get("contracts"):
            return
        g = os.path.join(tmp, "gover")
        rc, msg = build("gover", g)
        if rc != 0:
            res["ded"] = {"error": "building the verifier failed:\n" + msg}
            return
        out = os.path.join(tmp, "gover.json")
        lim = 780 if tier == "quick" else 1800
        cmd = [g, "-prop", prop, "-out", out, "-contracts", os.path.join(V, "contracts"), "-repo", "/repo", "-tier", tier]
        rc, o, e = run(cmd, V, lim)
        if not os.path.exists(out) and time.time() - t0 < 200:  # killed or starved: once more
            rc, o, e = run(cmd, V, lim - 220)
        try:
            res["ded"] = json.load(open(out))
        except Exception:
            res["ded"] = {"error": "verifier failed (exit %d):\n%s" % (rc, (o + e)[-3000:])}

    def bnd():
        d = os.path.join(tmp, "drv")
        rc, msg = build("drv", d)
        if rc != 0:
            res["bnd"] = {"error": "building the bounded driver failed:\n" + msg}
            return
        out = os.path.join(tmp, "drv.json")
        wd = os.path.join(tmp, "wd")
        os.makedirs(wd)
        env = dict(GOENV, TMPDIR=wd)
        rc, o, e = run([d, "-prop", prop, "-tier", tier, "-seed", str(seed), "-scale", str(SCALE.get(prop, 10)),
                        "-limit", str(LIMIT[tier]), "-out", out], wd, LIMIT[tier] + 600, env)
        try:
            res["bnd"] = json.load(open(out))
        except Exception:
            res["bnd"] = {"error": "bounded driver failed (exit %d):\n%s" % (rc, (o + e)[-3000:])}
        kf = known_findings(prop)
        if kf:
            rc, o, e = run([d, "-findings", prop], wd, 100, env)
            res["kf"] = o

    ts = [threading.Thread(target=ded), threading.Thread(target=bnd)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ded_r, bnd_r = res.get("ded"), res.get("bnd", {})
    violations = []  # (replay name, content, has_input)
    cover = {}
    assumptions = list(conf.get("assumptions", []))
    # ------------------------------------------------------ deductive part
    failed = []
    if ded_r is not None:
        if "error" in ded_r:
            failed = [{"obligation": "verifier-run", "reason": ded_r["error"]}]
            ded_r = {"obligations": 0, "discharged": 0, "functions": [], "failed": failed}
        else:
            failed = ded_r.get("failed") or []
        assumptions += ded_r.get("assumptions") or []
        cover.update(obligations=ded_r["obligations"], discharged=ded_r["discharged"],
                     functions_under_contract=ded_r.get("functions"), vacuity_checks=ded_r.get("vacuity_checks"),
                     obligations_by_backend=ded_r.get("by_backend"), solver_seconds=ded_r.get("solver_seconds"),
                     inlined_functions=ded_r.get("inlined"), trusted_base=ded_r.get("trusted") or [],
                     checker_cmd="gover -prop %s -repo /repo -contracts /verif/contracts" % prop)
    # ------------------------------------------------------ bounded part
    fams = []
    if "error" in bnd_r:
        violations.append(("build", {"property": prop, "error": bnd_r["error"]}, False))
    else:
        samples, ev_n, dis_n = [], 0, 0
        for f in bnd_r.get("families") or []:
            ev_n += f["evaluations"]
            dis_n += f["distinct_nontrivial"]
            samples += (f.get("samples") or [])[:1]
            fams.append({"family": f["family"], "functions": f["functions"], "bound": f["bound"], "evaluations": f["evaluations"],
                         "distinct_nontrivial": f["distinct_nontrivial"], "oracle_gave_up": f["oracle_gave_up"],
                         "contract_clauses": len(f["clauses_evaluated"]), "clause_evaluations": sum(f["clauses_evaluated"].values())})
        cover.update(evaluations=ev_n, distinct_nontrivial=dis_n, samples=[s[:600] for s in samples] or ["none"],
                     rule="pseudo-random cases from seed %d; a case is distinct by its written-out inputs; trivial ones (no clause beyond well-formedness evaluated) are not counted" % seed,
                     bounded_stand_ins=fams)
        for f in bnd_r.get("failures") or []:
            violations.append(("%s-%s" % (re.sub(r"\W+", "_", f["family"]), f["idx"]),
                               {"property": prop, "part": "bounded", "family": f["family"], "case": f["idx"], "input": f["case"],
                                "failed_contract_clauses": f["failed_contract_clauses"],
                                "replay": "cd /verif/drv && go build -o /tmp/drv . && /tmp/drv -prop %s -tier %s -seed %d -scale %d -family %s -case %s -shard 0 -shards 1"
                                % (prop, tier, seed, SCALE.get(prop, 10), f["family"], f["idx"])}, True))
    for k in known_findings(prop):
        if k["id"] in res.get("kf", ""):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    have_input = [v for v in violations if v[2]]
    for f in failed:
        content = {"property": prop, "part": "deductive", "failed_obligation": f}
        if have_input:
            content["failing_input_from_bounded_part"] = have_input[0][1]
        violations.append((re.sub(r"\W+", "_", f["obligation"])[:80], content, bool(have_input)))
    level = conf["level"]
    cover["explanation"] = conf["explanation"]
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": {k: v for k, v in cover.items() if v is not None},
         "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for name, content, inp in violations[:10]:
        p = os.path.join(ev, "replay-%s-%s.json" % (prop, name))
        json.dump(content, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if inp else " no-failing-input-found"))
    if violations:
        return 1
    print("OK property=%s obligations=%s discharged=%s bounded_evaluations=%s wall=%.1fs" %
          (prop, cover.get("obligations", 0), cover.get("discharged", 0), cover.get("evaluations", 0), time.time() - t0))
    return 0


main()
