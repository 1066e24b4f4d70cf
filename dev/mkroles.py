#!/usr/bin/env python3
"""Builds data/roles.txt and data/dev/roles.txt: words that differ in what the grammar rules look at, a few of each kind. Run once; the results are committed."""
import os, random, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "py")]
import vbuild
os.environ.update(VERIF_LIBDIR=str(vbuild.build("plain")))
vbuild.dicts()
import bindlib as B
import c21
for name in ("standard", "dev"):
    d = V / "data" / ("" if name == "standard" else name)
    ws = sorted({w for f in ("covwords.txt", "lexwords.txt", "testwords.txt") if (d / f).exists() for w in B.lines(d / f)})
    if name == "dev":
        extra = set()
        for w in B.lines(d / "lexwords.txt"):
            for t in c21.VERBS + c21.NOUNS:
                for cl in t.joukahainenClasses:
                    for x in c21.infl.inflectWord(w, cl, [t]) or []:
                        extra.add(x.inflectedWord)
        ws += sorted(extra - set(ws))
    r = B.Ref("fi", str(vbuild.BUILD / "dicts" / name))
    random.Random(3).shuffle(ws)
    kinds = {}
    for w in ws:
        if len(w) > 25:
            continue
        sig = []
        for a in r.analyze(w):
            cls = a.get("CLASS")
            x = (cls if cls in ("teonsana", "kieltosana", "sidesana", "paikannimi") else "nimi" if a["STRUCTURE"][1:2] in "ij" else None, a.get("MOOD"), a.get("PERSON"), a.get("NEGATIVE"), a.get("REQUIRE_FOLLOWING_VERB"),
                 a.get("PARTICIPLE") == "agent", a.get("SIJAMUOTO") in ("omanto", "vajanto") and a.get("SIJAMUOTO"), a.get("POSSIBLE_GEOGRAPHICAL_NAME"), a["STRUCTURE"][1:2] in "pq")
            if x not in sig:
                sig.append(x)
        kinds.setdefault(tuple(sig), []).append(w)
    out = [w for k in kinds.values() for w in k[:8]]
    # verb chains are rare and get more words
    out += [w for k, v in kinds.items() if any(x[4] for x in k) for w in v[8:40]]
    out += [w for k, v in kinds.items() if any(x[1] in ("A-infinitive", "MA-infinitive") for x in k) for w in v[8:60]]
    (d / "roles.txt").write_text("\n".join(sorted(set(out))) + "\n")
    print(name, len(ws), len(kinds), len(out), [(k, v[:3]) for k, v in kinds.items() if len({x[4] for x in k}) > 1 and None not in {x[4] for x in k}], [v[:3] for k, v in kinds.items() if {"A-infinitive", "MA-infinitive"} <= {x[1] for x in k}])
