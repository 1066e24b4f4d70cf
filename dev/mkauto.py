#!/usr/bin/env python3
"""Builds data/dev/autocorrect.xml: corrections of all shapes (short, nested, capitalised, with hyphens). Run once; the result is committed."""
import random
from pathlib import Path
V = Path(__file__).resolve().parent.parent
r = random.Random(21)
ws = [w for w in (V / "data/dev/lexwords.txt").read_text().split("\n") if 1 < len(w) < 12 and w.isalpha()]
pairs = {}


def word(n):
    return "".join(r.choice("aeiouäöy") if i % 2 else r.choice("hjklmnprstv") for i in range(n))


for n in (1, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 5):
    for _ in range(6):
        pairs[word(n)] = r.choice([word(n + 1), word(max(1, n - 1)), word(3) + " " + word(3)])
for _ in range(60):
    a, b = r.choice(ws), r.choice(ws)
    k = r.randrange(7)
    if k == 0:
        pairs[a + " " + b] = a + b
    elif k == 1:
        pairs[a + b] = a + " " + b
    elif k == 2:
        pairs[a + "-" + b] = a + b
    elif k == 3:
        pairs[a.capitalize()] = a
    elif k == 4:
        pairs[a] = b.capitalize()
        pairs[a + " " + b] = b
    elif k == 5:
        pairs[a + " " + word(2) + " " + b] = a + " – " + b
    else:
        pairs[a[0].upper() + a[1:] + " " + b] = a.upper()
pairs = {a: b for a, b in pairs.items() if a != b and not any(c in a + b for c in "0<>:;!#%\"")}
s = '<?xml version="1.0" encoding="UTF-8" ?>\n<autocorrect xml:lang="fi">\n'
for a, b in sorted(pairs.items()):
    s += "<replacement>\n  <incorrect>%s</incorrect>\n  <correct>%s</correct>\n</replacement>\n" % (a, b)
(V / "data/dev/autocorrect.xml").write_text(s + "</autocorrect>\n")
print(len(pairs))
