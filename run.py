#!/usr/bin/env python3
"""run.py ID [quick|thorough]: builds from /repo's working tree, runs the check of one property and writes its evidence."""
import json, os, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.path.insert(0, str(VERIF / "py"))
import vbuild
from spec import PROPS

JOBS = os.cpu_count() or 8


def env():
    e = dict(os.environ)
    d = vbuild.BUILD / "dicts"
    e.update(VERIF_DICT=str(d / "standard"), VERIF_DICTS=str(d), VERIF_DATA=str(VERIF / "data"), VERIF_BUILD_DIR=str(vbuild.BUILD), LC_ALL="C.UTF-8",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:symbolize=1",
             UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1")
    return e


def known(pid):
    f = VERIF / "known_findings.txt"
    out = []
    if f.exists():
        for l in f.read_text().splitlines():
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l)
    return out


def write_evidence(pid, tier, seed, cfg, st, wall, violations):
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    cov = dict(evaluations=int(st.get("evaluations", 0)), distinct_nontrivial=int(st.get("distinct_nontrivial", 0)), rule=cfg["rule"],
               samples=st.get("samples", [])[:12], cases=int(st.get("cases", 0)), discarded=int(st.get("discards", 0)), unreproduced=int(st.get("unreproduced", 0)),
               labels=st.get("labels", {}))
    if st.get("fuzz"):
        cov["fuzz"] = st["fuzz"]
    d = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=violations,
             assumptions=cfg.get("assumptions", []))
    (ev / (pid + ".json")).write_text(json.dumps(d, ensure_ascii=False, indent=1) + "\n")


def fuzz(pid, cfg, seed, secs, rd, e):
    """coverage guided search with the same properties (libFuzzer); failures are replayed as ordinary cases"""
    d = vbuild.build("fuzz", checks=[cfg["prog"]])
    corpus = vbuild.BUILD / "corpus" / cfg["prog"]
    corpus.mkdir(parents=True, exist_ok=True)
    art = rd / (pid + "-fuzz-")
    for old in rd.glob(pid + "-fuzz-*"):
        old.unlink()
    r = subprocess.run([str(d / cfg["prog"]), str(corpus), "-fork=%d" % JOBS, "-ignore_timeouts=1", "-ignore_ooms=1", "-ignore_crashes=0", "-max_len=2000", "-timeout=120",
                        "-seed=%d" % (seed or 1), "-max_total_time=%d" % secs, "-artifact_prefix=" + str(art), "-print_final_stats=1"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, text=True, errors="replace")
    out = dict(seconds=secs, corpus=len(list(corpus.iterdir())))
    for l in r.stdout.splitlines():
        if l.startswith("#") and "cov:" in l:
            out["last"] = l.strip()
    return out, sorted(rd.glob(pid + "-fuzz-crash-*"))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = next(x for x in PROPS if x["id"] == pid)
    cfg = p["check"]
    t0 = time.time()
    for l in known(pid):
        print(l)
    rd = VERIF / "build" / "replay"
    rd.mkdir(parents=True, exist_ok=True)
    for old in rd.glob(pid + "-*"):
        if old.is_file():
            old.unlink()
    vbuild.dicts()
    shutil.rmtree(vbuild.BUILD / "scratch", ignore_errors=True)
    (vbuild.BUILD / "scratch").mkdir(parents=True, exist_ok=True)
    e = env()
    if "py" in cfg:
        import importlib
        st = importlib.import_module(cfg["py"]).run(pid, tier, seed, cfg, rd, e)
        viol = st.get("violation")
        write_evidence(pid, tier, seed, cfg, st, time.time() - t0, 1 if viol else 0)
        if viol:
            print("VIOLATION property=%s replay=%s" % (pid, viol))
            return 1
        print("%s: ok, %d cases, %d evaluations, %d distinct non-trivial, %.1f s" % (pid, st.get("cases", 0), st["evaluations"], st["distinct_nontrivial"], time.time() - t0))
        return 0
    for fl, names in cfg.get("tools", {}).items():
        vbuild.build(fl, tools=names)
    d = vbuild.build(cfg["flavor"], checks=[cfg["prog"]], tools=cfg.get("tools", {}).get(cfg["flavor"], []))
    out = rd / (pid + "-stats.json")
    cap = cfg.get("cap", 240) if tier == "quick" else cfg.get("thorough_cap", 3000)
    st = None
    # the standard dictionary, then the others with a share of the cases
    for name, share in [(None, 1)] + cfg.get("dicts", []):
        r = subprocess.run([str(d / cfg["prog"]), "--tier", tier, "--seed", str(seed), "--cases", str(int(cfg[tier] * share)), "--time", str(cap), "--jobs", str(JOBS),
                            "--cpu", str(cfg.get("cpu", 60)), "--out", str(out), "--replay-dir", str(rd), "--property", pid] + (["--dict", name] if name else []), env=e)
        if r.returncode not in (0, 1) or not out.exists():
            print("check program ended with status %d" % r.returncode, file=sys.stderr)
            return 2
        s = json.loads(out.read_text(errors="replace"))
        out.unlink()
        if st is None:
            st = s
        else:
            for k in ("cases", "evaluations", "discards", "distinct_nontrivial", "unreproduced"):
                st[k] += s[k]
            for k, n in s["labels"].items():
                st["labels"][k] = st["labels"].get(k, 0) + n
            st["labels"]["cases with dictionary " + name] = s["cases"]
            st["samples"] = st["samples"][:8] + ["(%s) %s" % (name, x) for x in s["samples"][:2]] + st["samples"][8:]
            st.update(violations=s["violations"], replay=s["replay"])
        if s["violations"]:
            break
    viol = st["replay"] if st["violations"] else None
    if not viol and tier == "thorough" and cfg["flavor"] == "asan" and not cfg.get("nofuzz"):
        st["fuzz"], crashes = fuzz(pid, cfg, seed, cfg.get("fuzz_s", 600), rd, e)
        for cr in crashes:
            rep = Path(str(cr) + ".replay")
            b = cr.read_bytes()
            rep.write_text("fuzz - %s\n" % b.hex())
            if all(subprocess.run([str(d / cfg["prog"]), "--replay", str(rep), "--cpu", str(cfg.get("cpu", 60))], env=e, stdout=subprocess.DEVNULL).returncode == 1 for _ in range(3)):
                viol = str(rep)
                print("VIOLATION property=%s replay=%s" % (pid, viol))
                break
    write_evidence(pid, tier, seed, cfg, st, time.time() - t0, 1 if viol else 0)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
