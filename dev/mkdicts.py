#!/usr/bin/env python3
"""Builds data/dev and data/sukija (dictionaries with generated vocabularies, built from ref/, and words that use their transitions). Run once; the results are committed."""
import lzma, os, random, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "py")]
import vbuild, c21
d = vbuild.build("plain", checks=["c21"], tools=vbuild.TOOLS)


def corners(words):
    """words with conflicting readings and short words with flags, which hardly come up by chance"""
    r, out = random.Random(99), []

    def new(e, **kw):
        x = dict(e, id="w%d" % (800000 + len(out)), flags={g: list(f) for g, f in e["flags"].items()}, fclass=None)
        x.update(kw)
        out.append(x)
        return x
    plain = [e for e in words if e["infclass"] and not e.get("hist") and not any(g in e["flags"] for g in ("style", "usage", "application"))]
    verbs = [e for e in plain if e["wclass"] == ["verb"]]
    for e in r.sample(verbs, 30):
        k = r.randrange(3)
        a = new(e, flags=dict(grammar=["require_following_a"]))
        if k:
            new(e, flags=dict(grammar=["require_following_ma"]))
        a["forms"] = list(e["forms"])
    nouns = [e for e in plain if e["wclass"] == ["noun"]]
    for e in r.sample(nouns, 40):
        k = r.randrange(5)
        w = e["forms"][0].replace("=", "").replace("|", "").replace("-", "")
        if k == 0:
            new(e, wclass=["adjective"])
        elif k == 1:
            new(e, wclass=[r.choice(["pnoun_place", "pnoun_firstname", "pnoun_lastname", "pnoun_misc"])], forms=[w[0].upper() + w[1:]])
        elif k == 2 and len(w) > 5:
            i = r.randrange(2, len(w) - 3)
            new(e, forms=[w])
            new(e, forms=[w[:i] + "=" + w[i:]])
        elif k == 3:
            new(e, flags=dict(compounding=["ei_ys"]))
        else:
            new(e, flags=dict(compounding=[r.choice(["geo_suffix", "org_suffix", "free_suffix"])]))
    for w, c in (("ko", "valo"), ("ti", "risti"), ("ta", "kala"), ("as", "vieras"), ("se", "nalle")):
        new(nouns[0], forms=[w], infclass=c, flags=dict(compounding=["free_suffix"]), vtype=None)
    return out


for name, size in (("dev", 1500), ("sukija", 500)):
  w = Path("/tmp/mkdicts")
  shutil.rmtree(w, ignore_errors=True)
  w.mkdir()
  for k in range(20):
    case = c21.make_case(4711, k, size, 0, w, name == "sukija")
    o = case["options"]
    if name == "dev":
        case["words"] += corners(case["words"])
        o.update(target="vvfst", make=["VANHAT_MUODOT=yes"], genlex=["--sourceid", "--min-frequency=10", "--style=dialect,foreign,foreignloan,inappropriate,incorrect,international,old",
                 "--extra-usage=education,human,it,medicine,nature,orgname,science"])
    err = c21.build(c21.REF / "voikko-fi", w / "b", case["words"], o, str(d))
    print(str(err)[-300:])
    if err is None:
        break
  t = V / "data" / name
  t.mkdir(exist_ok=True)
  m = w / "b/dict/5/mor-standard/mor.vfst"
  (t / "mor.vfst.xz").write_bytes(lzma.compress(m.read_bytes(), preset=9))
  (w / "expect").write_text("")
  env = dict(os.environ, LD_LIBRARY_PATH=str(d), LC_ALL="C.UTF-8")
  print(subprocess.run([str(d / "c21"), str(w / "b/dict"), str(w / "b/dict"), "1", "200000", str(w / "expect"), str(w / "words"), "list"], env=env, stdout=subprocess.PIPE, text=True).stdout)
  ws = sorted(set((w / "words").read_text().split("\n")) - {""})
  random.Random(5).shuffle(ws)
  ws = ws[:40000]
  (t / "covwords.txt").write_text("\n".join(ws[:30000]) + "\n")
  short = [x for x in ws if len(x) < 14]
  base = [f.replace("=", "").replace("|", "") for e in case["words"] for f in e["forms"]]
  (t / "lexwords.txt").write_text("\n".join(base + short[:8000] + (["ko", "kon", "koa", "ti", "tin", "ta", "as", "se", "sen"] * 15 if name == "dev" else [])) + "\n")
  print(name, m.stat().st_size, len(ws), len(short), len(base))
