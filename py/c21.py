"""C21: a dictionary built from a vocabulary knows exactly the words and forms that the vocabulary and the inflection rules give"""
import importlib.util, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(VERIF), str(VERIF / "py")]
import vbuild

REF = VERIF / "ref"


def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


sys.dont_write_bytecode = True
hfconv = load("ref_hfconv", REF / "voikko-fi/common/hfconv.py")
_u = load("voikkoutils", REF / "pylib/voikkoutils.py")
sys.modules["voikkoutils"] = _u
infl = load("ref_voikkoinfl", REF / "pylib/voikkoinfl.py")
del sys.modules["voikkoutils"]
NOUNS = infl.readInflectionTypes(str(REF / "data/subst.aff"))
VERBS = infl.readInflectionTypes(str(REF / "data/verb.aff"))
CLASSMAP = hfconv.compileClassmapREs(hfconv.modern_classmap)
GRADCLASS = {}
for (_, g, c) in hfconv.grads:
    GRADCLASS.setdefault(g, []).append(c)
FIRST_VERB = [c[0] for c in hfconv.modern_classmap].index("punoa")
CASES = dict(nominatiivi="nimento", genetiivi="omanto", partitiivi="osanto", translatiivi="tulento", essiivi="olento", inessiivi="sisaolento", elatiivi="sisaeronto",
             illatiivi="sisatulento", adessiivi="ulkoolento", ablatiivi="ulkoeronto", allatiivi="ulkotulento", abessiivi="vajanto", komitatiivi="seuranto", instruktiivi="keinonto")

CONS = "bdfghjklmnprstv"
CL = {True: dict(V="aouei", A="a", O="o", U="u"), False: dict(V="äöyei", A="ä", O="ö", U="y")}


def stem(r, back, n=None):
    v = "aouei" if back else "äöyei"
    if r.random() < getattr(r, "odd", .12):    # neutral vowels only, or foreign letters
        v = r.choice(["ei", "ei", "e", "aåoå" if back else "eåi", "aéo", "yei"])
    n = r.choice([1, 1, 2, 2, 3]) if n is None else n
    s = ""
    for i in range(n):
        s += r.choice(["", "", "s", "t"]) * (i == 0) + r.choice(CONS) + r.choice(v)
        if r.random() < .2:
            s += s[-1] if r.random() < .5 else r.choice("iuy"[:2] if back else "iy")
        if r.random() < .3:
            s += r.choice("nlrsmkpt")
    return s


# continuation classes that the generator of the lexicon treats in a way of their own
SPECIAL = ("heittää", "muistaa", "juontaa", "hohtaa", "murtaa", "nousta", "loistaa", "jättää", "kihistä", "kyntää2", "nainen")


def expand(r, pattern, back):
    """a word that matches a pattern of the class map"""
    p = pattern.replace("(", "").replace(")", "")
    out = ""
    i = 0
    while i < len(p):
        c = p[i]
        if p.startswith(".*", i):
            out += stem(r, back)
            i += 2
            continue
        if c == "[":
            j = p.index("]", i)
            ch = [x for x in p[i + 1:j]]
            ch2 = []
            for x in ch:
                ch2 += list(CL[back].get(x, x))
            ok = [x for x in ch2 if x not in ("äöy" if back else "aou")] or ch2
            out += r.choice(ok)
            i = j + 1
            continue
        if c == ".":
            out += r.choice(CONS + "aeiou") if len(out) else r.choice(CONS)
        elif c == "C":
            out += r.choice(CONS + "cqwxzšž" if r.random() < .05 else CONS)
        elif c in "VAOU":
            out += r.choice("éé" if back else "á") if c == "V" and r.random() < (.5 if pattern == "(.*V)" else .15) else r.choice(CL[back][c])
        else:
            out += c
        i += 1
    return out


def entry(r, k, rules):
    """one vocabulary word; rules is (class, gradation class or None, pattern, word classes or None, is verb)"""
    e = dict(id="w%d" % (500000 + k), forms=[], wclass=[], infclass=None, vtype=None, flags={}, fclass=None, base=None, hist=None)
    name, grad, pattern, wc, verb = rules
    back = r.random() < .6
    w = expand(r, pattern, back)
    if verb:
        e["wclass"] = ["verb"]
    elif wc == [hfconv.ADJ] and r.random() < .7:
        e["wclass"] = r.choice([["adjective"], ["noun", "adjective"]])
    elif wc == [hfconv.SUBST] and r.random() < .7:
        e["wclass"] = r.choice([["noun"], ["pnoun_place"], ["pnoun_lastname"]])
    else:
        e["wclass"] = r.choice([["noun"]] * 6 + [["adjective"]] * 4 + [["noun", "adjective"]] * 2 + [["pnoun_place"], ["pnoun_firstname"], ["pnoun_lastname"], ["pnoun_misc"]] * 2 + [["pnoun_place", "pnoun_lastname"]])
    e["infclass"] = name + ("-" + grad if grad else "")
    if r.random() < .15:
        w = stem(r, r.random() < .5, 2) + r.choice("==|") + w
    elif r.random() < .05:
        w = stem(r, r.random() < .5, 2) + "-" + w
    elif r.random() < .03 and len(w) > 5:
        i = r.randrange(2, len(w) - 2)
        w = w[:i] + "|" + w[i:]
    if r.random() < .06:
        w = stem(r, r.random() < .5, r.choice([1, 2])) + r.choice("=||-") + w
    if e["wclass"][0].startswith("pnoun"):
        if r.random() < .95:
            w = w[0].upper() + w[1:]
        if r.random() < .3:
            w = re.sub(r"([-])(.)", lambda m: m.group(1) + m.group(2).upper(), w)
    elif r.random() < .03:
        w = w[0].upper() + w[1:]
    elif r.random() < .02:
        i = r.randrange(len(w))
        w = w[:i] + w[i].upper() + w[i + 1:]
    e["forms"] = [w]
    if r.random() < .05:
        e["forms"].append(expand(r, pattern, back))
        if any(c in w for c in "=|-"):
            e["forms"] = [w]
    if r.random() < .06:
        e["vtype"] = r.choice(["a", "ä", "aä"])
    f = e["flags"]
    def flag(group, name, p):
        if r.random() < p:
            f.setdefault(group, []).append(name)
    if not verb:
        flag("inflection", "ei_yks", .04)
        flag("inflection", "ei_vertm", .06 if "adjective" in e["wclass"] else 0)
        flag("compounding", r.choice(["ei_ys", "ei_ysa", "ei_ysj", "ysj"]), .15)
        flag("compounding", r.choice(["geo_suffix", "org_suffix", "free_suffix"]), .05)
        flag("derivation", r.choice(["ei_lainen", "ei_mainen", "inen", "ei_inen"]), .15)
        if e["wclass"][0] == "pnoun_place":
            flag("inflection", r.choice(["paikannimi_sisäpaikallissijat", "paikannimi_ulkopaikallissijat"]), .6)
    else:
        flag("inflection", "yt", .08)
        flag("inflection", "ym3", .08)
        flag("grammar", r.choice(["require_following_a", "require_following_ma"]), .08)
        flag("compounding", r.choice(["ei_ys", "ei_ysa", "ei_ysj", "ysj"]), .1)
    selection(r, e)
    return e


STYLES = ["dialect", "old", "international", "foreign", "incorrect", "foreignloan", "inappropriate"]
USAGES = ["it", "medicine", "science", "education", "orgname", "nature", "human"]


def selection(r, e, p=.1):
    f = e["flags"]
    if r.random() < p:
        f["style"] = sorted(set(r.choices(STYLES, k=r.choice([1, 1, 2]))))
    if r.random() < p / 2:
        f["usage"] = sorted(set(r.choices(USAGES, k=r.choice([1, 1, 2]))))
    if r.random() < p / 4:
        f.setdefault("application", []).append(r.choice(["not_voikko", "not_sukija"]))
    if r.random() < p:
        e["fclass"] = r.choice([1, 5, 7, 8, 9, 9, 10, 10, 11])
        if r.random() < .4:
            f.setdefault("frequency", []).append("confusing")


def other(r, k):
    """words of the classes without an inflection class"""
    e = dict(id="w%d" % (500000 + k), forms=[], wclass=[], infclass=None, vtype=None, flags={}, fclass=None, base=None, hist=None)
    back = r.random() < .6
    w = stem(r, back)
    kind = r.choice(["interjection", "prefix", "prefix", "abbreviation", "abbreviation", "adverb", "adverb", "adverb", "conjunction"])
    e["wclass"] = [kind]
    f = e["flags"]
    if kind == "prefix":
        if r.random() < .3:
            w += "-"
        fl = sorted(set(r.choices(["eln", "ell", "elt", "eltj"], k=r.choice([1, 1, 2, 3, 4]))))
        if r.random() < .1:
            fl.append("el_altark")
        f["compounding"] = fl
    elif kind == "abbreviation":
        w = r.choice([w[:3], w[:2].upper(), w[:4].upper(), w[:3] + ".", w[:1] + "." + w[1:2] + ".", w[:2] + w[2:3].upper()])
        if r.random() < .3:
            f["inflection"] = ["none"]
        if r.random() < .2:
            e["vtype"] = r.choice(["a", "ä", "aä"])
    elif kind == "adverb":
        w += r.choice(["", "sti", "lla" if back else "llä", "ssa" if back else "ssä", "ti", "lle", "ten", "n"])
        fl = []
        for x, p in (("liitesana", .5), ("omistusliite", .4), ("required", .15), ("ulkopaikallissijat_yks", .1)):
            if r.random() < p:
                fl.append(x)
        if "required" in fl and len(fl) == 1:
            fl = []
        if fl:
            f["inflection"] = fl
        if r.random() < .2:
            e["base"] = stem(r, back) + r.choice(["", "|", ""]) + "n"
    elif kind == "conjunction" and r.random() < .3:
        e["base"] = stem(r, back)
    if r.random() < .15 and kind != "abbreviation":
        w = stem(r, back, 1) + r.choice("=|") + w
    e["forms"] = [w]
    selection(r, e)
    return e


# words and endings that the sources treat specially
LITERALS = sorted({w for f in ("vvfst/generate_sukija.py", "vvfst/generate_lex.py", "common/hfconv.py") for w in re.findall("[\"']([a-zäöå]+(?:=[a-zäöå]+)?)[\"']", (REF / "voikko-fi" / f).read_text()) if len(w) > 3}
                  | {w for g in re.findall(r"\(([a-zäöå]+(?:\|[a-zäöå]+)+)\)", (REF / "voikko-fi/vvfst/generate_sukija.py").read_text()) for w in g.split("|") if len(w) > 3})
ENDINGS = ("aali aalinen iivi iivinen uuri yyri ööri torio oittaa öittää ottaa öttää oitella öitellä otella ötellä ottua öttyä oittua isoida oitin oite aatio uutio ktio ptio itio uusio afi adia ofia ominen ori "
           "mmainen mmäinen lainen läinen inen istä ista minen ton tön ampi in sti uus yys us ys ja jä nen ia iö io ea eä").split()
ALLCLASSES = sorted({(n, g if g is None else c, i >= FIRST_VERB) for i, (n, _, rs) in enumerate(hfconv.modern_classmap) for x in rs for g in [x[0]] for c in (GRADCLASS[g] if g is not None else [None])}, key=str)


def special(r, k):
    e = entry(r, k, ("valo", None, ".*o", None, False))
    w = r.choice(LITERALS) if r.random() < .5 else stem(r, r.random() < .6, r.choice([1, 2])) + r.choice(["", "", r.choice(CONS), "d", "t"]) + r.choice(ENDINGS)
    if r.random() < .2 and "=" not in w:
        w = stem(r, True, 2) + "=" + w
    verb = w[-1] in "aä" and r.random() < .6
    e["forms"] = [w]
    e["wclass"] = ["verb"] if verb else r.choice([["noun"], ["noun"], ["adjective"], ["noun", "adjective"]])
    e["vtype"] = None
    if verb:
        e["flags"] = {g: f for g, f in e["flags"].items() if g not in ("inflection", "compounding", "derivation")}
    cs = [n + ("-" + g if g else "") for n, g, v in ALLCLASSES if v == verb and jatko_of(dict(e, infclass=n + ("-" + g if g else "")))]
    if w.endswith(("tio", "sio")):      # words in -tio have one inflection
        cs = [c for c in cs if c == "autio"]
    if not cs:
        return None
    e["infclass"] = r.choice(cs)
    return e if fits(w, e) else None


def rules():
    out = []
    for i, (name, g, rs) in enumerate(hfconv.modern_classmap):
        for x in rs:
            gt, pat, jatko, wc = (list(x) + [None])[:4]
            grads = [None] if gt is None else sorted(set(GRADCLASS[gt]))
            for gc in grads:
                out.append((name, gc, pat, wc, i >= FIRST_VERB, jatko))
    return out


def usable(words, work, opts=()):
    """the words whose continuation lexicons exist in the reference (the vocabulary editor offers no others)"""
    d = work / "probe"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REF / "voikko-fi", d)
    (d / "vocabulary/joukahainen.xml").write_text(xml([dict(e, flags={g: f for g, f in e["flags"].items() if g not in ("style", "usage", "application", "frequency")}, fclass=None) for e in words]))
    env = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    def sh(c):
        return subprocess.run(c, cwd=d, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    sh(["python3", "vvfst/generate_lex.py", "--destdir=vvfst", "--sourceid", *opts])
    sh(["python3", "vvfst/generate_taivutuskaavat.py", "--destdir=vvfst", *opts])
    names = {"#"}
    for f in (d / "vvfst").glob("*.lexc"):
        for l in f.read_text().splitlines():
            if l.startswith("LEXICON "):
                names.add(l[8:].split("!")[0].strip())
    bad, seen = set(), set()
    for f in (d / "vvfst").glob("joukahainen-*.lexc"):
        for l in f.read_text().splitlines():
            m = re.match(r"\[L\w+\]\[Xs\]([%0-9]+)\[X\].* (\S+) ?;$", l)
            if m:
                i = "w" + m.group(1).replace("%", "")
                seen.add(i)
                if m.group(2) not in names:
                    bad.add(i)
    odd = set()
    if "--sukija" in opts:  # the lines this target derives from those of the vocabulary, found by the base form
        sh(["python3", "vvfst/generate_lex.py", "--destdir=vvfst", *opts])
        (d / "vvfst/all.lexc").write_text("".join(f.read_text() for f in sorted((d / "vvfst").glob("joukahainen-*.lexc"))))
        sh(["python3", "vvfst/generate_sukija.py", "--destdir=vvfst", *opts])
        for l in (d / "vvfst/all-sukija.lexc").read_text().splitlines():
            m = re.match(r"\[L\w+\].*?\[Xp\](.*?)\[X\].* (\S+) ?;$", l)
            if m and m.group(2) not in names:
                odd.add(plain(m.group(1)))
    shutil.rmtree(d)
    return [e for e in words if (e["infclass"] == "poikkeava" or (e["id"] in seen and e["id"] not in bad)) and not odd & {plain(f) for f in e["forms"]}]


def plain(f):
    return re.sub("[|=%]", "", f).lower()


def jatko_of(e):
    wc = e["wclass"]
    w = e["forms"][0].replace("|", "").replace("=", "")
    inf, grad = (e["infclass"].split("-") + [None])[:2]
    grads = [None] if grad is None else [g[1] for g in hfconv.grads if g[2] == grad]
    cls = hfconv.ADJ if "adjective" in wc else hfconv.VERB if "verb" in wc else hfconv.SUBST
    for (n, _, rs) in CLASSMAP:
        if n != inf:
            continue
        for x in rs:
            gt, pat, jatko, wcs = (list(x) + [None])[:4]
            if (wcs is None or cls in wcs) and gt in grads and pat.match(w):
                return jatko
    return None


TABLE_CLASSES = {c for t in NOUNS + VERBS for c in t.joukahainenClasses}


def fits(w, e):
    """the tables describe the word, if they know its class at all"""
    return e["infclass"].split("-")[0] not in TABLE_CLASSES or bool(infl.inflectWord(w, e["infclass"], VERBS if e["wclass"] == ["verb"] else NOUNS))


def vocabulary(r, size, work, specials=6):
    rs = rules()
    out = []
    todo = list(rs)
    r.shuffle(todo)
    todo = (todo + [r.choice(rs) for _ in range(size)])[:size]
    own = [x for x in rs if x[5] in SPECIAL]
    odd = [r.choice(own) for _ in range(size // 12 + 2)]
    for k, x in enumerate(todo + odd):
        r.odd = .12 if k < len(todo) else .6
        for i in range(20):
            e = entry(r, len(out), x[:5])
            js = [jatko_of(dict(e, forms=[f])) for f in e["forms"]]
            # a pattern for which the tables have no words is used all the same
            if all(js) and ((i == 19 and x[0] != "autio") or all(fits(f, e) for f in e["forms"])) and not (x[5] == "nalle" and any("é" in f for f in e["forms"])):
                out.append(dict(e, unfit=i == 19))
                break
    r.odd = .12
    for _ in range(size // 6):
        out.append(other(r, len(out)))
    for _ in range(size // specials):
        e = special(r, len(out))
        if e:
            out.append(e)
    if out and r.random() < .5:
        e = dict(out[0], infclass="poikkeava", id="w%d" % (500000 + len(out)), forms=[stem(r, True, 3) + "a"], wclass=["noun"])
        out.append(e)
    r.shuffle(out)
    return usable(out, work)


def xml(words):
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<wordlist xml:lang="fi">\n'
    for e in words:
        s += '<word id="%s">\n\t<forms>\n' % e["id"]
        s += "".join("\t\t<form>%s</form>\n" % f for f in e["forms"])
        s += "\t</forms>\n"
        if e["base"]:
            s += "\t<baseform>%s</baseform>\n" % e["base"]
        s += "\t<classes>\n" + "".join("\t\t<wclass>%s</wclass>\n" % c for c in e["wclass"]) + "\t</classes>\n"
        fl = dict(e["flags"])
        inf = ""
        if e["infclass"]:
            inf += "\t\t<infclass>%s</infclass>\n" % e["infclass"]
        if e["hist"]:
            inf += '\t\t<infclass type="historical">%s</infclass>\n' % e["hist"]
        if e["vtype"]:
            inf += "\t\t<vtype>%s</vtype>\n" % e["vtype"]
        inf += "".join("\t\t<flag>%s</flag>\n" % x for x in fl.pop("inflection", []))
        if inf:
            s += "\t<inflection>\n" + inf + "\t</inflection>\n"
        fr = ""
        if e["fclass"] is not None:
            fr += "\t\t<fclass>%d</fclass>\n" % e["fclass"]
        fr += "".join("\t\t<flag>%s</flag>\n" % x for x in fl.pop("frequency", []))
        if fr:
            s += "\t<frequency>\n" + fr + "\t</frequency>\n"
        for g in sorted(fl):
            s += "\t<%s>\n" % g + "".join("\t\t<flag>%s</flag>\n" % x for x in fl[g]) + "\t</%s>\n" % g
        s += "</word>\n"
    return s + "</wordlist>\n"


def options(r):
    o = dict(target="vvfst", genlex=[], make=[])
    if r.random() < .3:
        o["genlex"].append("--min-frequency=%d" % r.choice([1, 5, 7, 8, 10, 11]))
    if r.random() < .3:
        o["genlex"].append("--style=" + ",".join(sorted(set(r.choices(STYLES, k=r.choice([1, 2, 4]))))))
    if r.random() < .3:
        o["genlex"].append("--extra-usage=" + ",".join(sorted(set(r.choices(USAGES, k=r.choice([1, 2, 3]))) | ({"sukija"} if r.random() < .3 else set()))))
    if r.random() < .15:
        o["genlex"].append("--sourceid")
    if r.random() < .1:
        o["make"].append("VVFST_BASEFORMS=no")
    if r.random() < .2:
        o["make"].append("VANHAT_MUODOT=yes")
    if r.random() < .3:
        o["make"].append("VOIKKO_VARIANT=" + r.choice(["koe", "m1", "laaja_2"]))
    if r.random() < .3:
        o["make"].append("VOIKKO_DESCRIPTION=" + r.choice(["koesanasto", "suomi (laaja sanasto)", "ääkkösiä: 1-2"]))
    return o


def included(e, o):
    """the documented selection rules"""
    freq, style, usage = 9, ["old", "international", "inappropriate"], []
    for x in o["genlex"]:
        k, _, v = x.partition("=")
        if k == "--min-frequency":
            freq = int(v)
        if k == "--style":
            style = v.split(",")
        if k == "--extra-usage":
            usage = v.split(",")
    f = e["flags"]
    if "not_voikko" in f.get("application", []) and "sukija" not in usage:
        return False
    if any(s != "foreignloan" and s not in style for s in f.get("style", [])):
        return False
    if f.get("usage") and not any(u in usage for u in f["usage"]):
        return False
    fc = 7 if e["fclass"] is None else e["fclass"]
    if fc > freq or (fc == freq and "confusing" in f.get("frequency", [])):
        return False
    return e["infclass"] != "poikkeava"


def corrections(r):
    out = {}
    for _ in range(r.choice([5, 20, 60])):
        w = " ".join(stem(r, r.random() < .6) + r.choice(["", "n", "kin"]) for _ in range(r.choice([1, 1, 2, 2, 3])))
        c = w.replace(" ", "") if r.random() < .3 else w[:1] + stem(r, r.random() < .6) if r.random() < .5 else w.replace("n", " n")
        if r.random() < .1:
            w = w[0].upper() + w[1:]
        if r.random() < .05:
            w = w.replace("k", "č").replace("t", "š")
        c = c.strip()
        if w and c and c != w:
            out[w] = c
    return out


def autoxml(r, pairs):
    s = '<?xml version="1.0" encoding="UTF-8" ?>\n<autocorrect xml:lang="fi">\n'
    for w, c in sorted(pairs.items()):
        i = r.randrange(len(w) + 1)
        s += '<replacement%s>\n  <incorrect>%s</incorrect>\n  <correct>%s</correct>\n%s</replacement>\n' % (
            r.choice(["", "", ' type="optional"']), w[:i] + ("=" if 0 < i < len(w) and r.random() < .3 else "") + w[i:], c, r.choice(["", "  <reason>Syy</reason>\n"]))
    return s + "</autocorrect>\n"


def build(src, work, words, o, tools):
    """runs the dictionary build and installation of the sources src; returns (error text or None)"""
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(src, work / "vf", ignore=shutil.ignore_patterns("*.vfst", "*.att", "__pycache__", "joukahainen*", "all*.lexc", "*.stamp"))
    (work / "vf/vocabulary/joukahainen.xml").write_text(xml(words))
    if o.get("autocorrect"):
        (work / "vf/vocabulary/autocorrect/fi.xml").write_text(o["autocorrect"])
    env = dict(os.environ, PATH="%s:%s" % (tools, os.environ["PATH"]), LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", SOURCE_DATE_EPOCH="1600000000", MAKEFLAGS="", MFLAGS="")
    sukija = o["target"] == "vvfst-sukija"
    cmd = ["make", "-C", str(work / "vf"), "vvfst-install-sukija" if sukija else "vvfst-install", "DESTDIR=" + str(work / "inst")] + o["make"]
    if o["genlex"] and not sukija:
        cmd.append("GENLEX_OPTS=" + " ".join(o["genlex"]))
    p = subprocess.run(["timeout", "600"] + cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    bad = [l for l in p.stdout.splitlines() if l.startswith("***") or "ERROR" in l]
    inst = sorted((work / "inst").glob("5/*"))
    if p.returncode != 0 or bad or len(inst) != 1 or not all((inst[0] / n).exists() for n in ("mor.vfst", "autocorr.vfst", "index.txt")):
        return "status %d: %s\n%s" % (p.returncode, " ".join(bad[:5]), p.stdout[-1500:])
    d = work / "dict/5/mor-standard"
    d.mkdir(parents=True)
    for n in ("mor.vfst", "autocorr.vfst", "index.txt"):
        shutil.copy(inst[0] / n, d)
    s = (d / "index.txt").read_text()
    (d / "index.txt").write_text(re.sub("Language: fi-x-\\w+", "Language: fi-x-standard", s))
    shutil.rmtree(work / "vf")
    return None


NOUNCLASS = dict(noun="nimisana", adjective="laatusana")


def expectations(words, o):
    """what the inflection tables say about the plain words of the vocabulary: (sign, word, base form, case, number, class)"""
    out = []
    for e in words:
        if e["infclass"] in (None, "poikkeava") or e["infclass"].split("-")[0] not in TABLE_CLASSES:
            continue
        verb = e["wclass"] == ["verb"]
        inc = included(e, o)
        w = e["forms"][0]
        plain = w.replace("=", "").replace("|", "")
        if e["vtype"] or len(e["forms"]) > 1 or (not verb and e["wclass"] not in (["noun"], ["adjective"])) or w != w.lower() or "-" in w or "VVFST_BASEFORMS=no" in o["make"]:
            continue
        if e["flags"].get("inflection") or e["flags"].get("grammar") or "ysj" in e["flags"].get("compounding", []):
            continue
        for f in infl.inflectWord(w, e["infclass"], VERBS if verb else NOUNS):
            if f.priority > 1:
                continue
            form = f.inflectedWord.replace("=", "").replace("|", "")
            case, number, cls = "", "", ""
            if verb:
                if f.formName.startswith(("verbi_", "subst_", "adj_")):
                    continue
                cls = "teonsana"
                if f.formName == "partisiippi_2":
                    cls = ""
            else:
                c, _, m = f.formName.partition("_")
                if c not in CASES or m not in ("", "mon"):
                    continue
                case, number, cls = CASES[c], "plural" if m else "singular", NOUNCLASS[e["wclass"][0]]
            if "'" in form:     # whether the apostrophe is written is decided differently by the tables and the dictionary
                continue
            out.append(("+" if inc else "-", form, "" if f.formName == "partisiippi_2" and inc else plain, case, number, cls, e["infclass"] + " " + f.formName))
    return out


LISTER = """
import sys, json
import bindlib as B
L = B.lib()
import ctypes as C
L.voikko_list_dicts.restype = C.POINTER(C.c_void_p); L.voikko_list_dicts.argtypes = [C.c_char_p]
out = []
fs = []
for n in ("language", "script", "variant", "description"):
    f = getattr(L, "voikko_dict_" + n); f.restype = C.c_char_p; f.argtypes = [C.c_void_p]; fs.append(f)
for d in sys.argv[1:]:
    p = L.voikko_list_dicts(d.encode())
    i, x = 0, []
    while p[i]:
        x.append([f(p[i]).decode() for f in fs]); i += 1
    out.append(sorted(x))
print(json.dumps(out))
"""

INFL = """
import sys, json
sys.dont_write_bytecode = True
root = sys.argv[1]
sys.path.insert(0, root + "/tools/pylib")
import voikkoinfl
t = dict(n=voikkoinfl.readInflectionTypes(root + "/data/subst.aff"), v=voikkoinfl.readInflectionTypes(root + "/data/verb.aff"))
for l in sys.stdin:
    k, w, c = json.loads(l)
    print(json.dumps(sorted([f.formName, f.inflectedWord, f.priority, f.isCharacteristic] for f in voikkoinfl.inflectWord(w, c, t[k]))))
"""


def tables(words, e):
    """differences of the tables of the current tree from the pinned ones: (number compared, [(word, class, got, want)])"""
    qs = [("v" if x["wclass"] == ["verb"] else "n", f, x["infclass"]) for x in words if x["infclass"] and x["infclass"] != "poikkeava" for f in x["forms"]]
    p = subprocess.run([sys.executable, "-c", INFL, str(vbuild.REPO)], input="".join(json.dumps(q) + "\n" for q in qs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    got = p.stdout.splitlines()
    if p.returncode != 0 or len(got) != len(qs):
        return len(qs), [("", "", "inflection module failed: " + p.stderr[-600:], "")]
    out = []
    for (k, w, c), g in zip(qs, got):
        want = json.loads(json.dumps(sorted([f.formName, f.inflectedWord, f.priority, f.isCharacteristic] for f in infl.inflectWord(w, c, VERBS if k == "v" else NOUNS))))
        if json.loads(g) != want:
            g = json.loads(g)
            out.append((w, c, [x for x in g if x not in want], [x for x in want if x not in g]))
    return len(qs), out


def attempt(case, work, d, e, only=None, full=True):
    """builds both dictionaries and compares them; returns (problems, statistics)"""
    words, o = case["words"], case["options"]
    err = build(vbuild.REPO / "voikko-fi", work / "a", words, o, d)
    ref = build(REF / "voikko-fi", work / "b", words, o, d)
    if ref:
        return [], dict(discard=ref)
    if err:
        return [("build", "", err, "")], {}
    probs = []
    p = subprocess.run([sys.executable, "-c", LISTER, str(work / "a/inst"), str(work / "b/inst")], stdout=subprocess.PIPE, env=e)
    if p.returncode == 0:
        la, lb = json.loads(p.stdout)
        if la != lb:
            probs.append(("list", "", la, lb))
    same = (work / "a/dict/5/mor-standard/mor.vfst").read_bytes() == (work / "b/dict/5/mor-standard/mor.vfst").read_bytes()
    lines = ["=\t%s\n" % w for w in only or []]
    if full:
        lines += ["\t".join(x) + "\n" for x in expectations(words, o)]
    keys = sorted(case.get("pairs", {}))
    lines += ["a\t%s\t%s\n" % (w, case["pairs"][w]) for w in keys if not any(w != v and w.startswith(v) for v in keys)]
    (work / "exp").write_text("".join(lines))
    walks = 0 if not full else case["walks"] if same else 8 * case["walks"]
    p = subprocess.run([str(d / "c21"), str(work / "a/dict"), str(work / "b/dict"), str(case["seed"]), str(walks), str(work / "exp"), str(work / "out")], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    st = dict(same=same)
    if p.returncode == 3:
        return probs + [("unreadable", "", "a built dictionary cannot be read", "")], st
    if p.returncode < 0:
        return probs + [("crash", "", "the library ended with signal %d while it used the built dictionaries: %s" % (-p.returncode, p.stdout[-500:]), "")], st
    if p.returncode != 0:
        raise RuntimeError("comparison ended with status %d: %s" % (p.returncode, p.stdout[-500:]))
    for l in (work / "out").read_text(errors="replace").splitlines():
        t = l.split("\t")
        if t[0] == "STATS":
            n = [int(x) for x in t[1:]] + [0] * 9
            st.update(words=n[0], accepted=n[1], expects=n[2], unmet=n[3], edges=n[4], covered=n[5])
        elif t[0] == "DIFF":
            probs.append((t[1], t[2], t[3], t[4]))
        elif t[0] == "EXPECT":
            probs.append(("table", t[-3], t[-2], t[-1] + " expected " + " ".join(t[1:-3])))
    if full:
        n, bad = tables(words, e)
        st["inflected"] = n
        probs += [("inflection tables", w + " " + c, g, x) for w, c, g, x in bad]
    return probs, st


def minimise(case, work, d, e, probs):
    """a smaller vocabulary that still shows the first problem"""
    kind, word = probs[0][0], probs[0][1]
    if kind in ("list", "inflection tables"):
        return case, probs[:1]
    best, bp = case, probs[:1]
    low = word.lower()
    near = [x for x in case["words"] if any(low.startswith(re.split("[=|-]", f)[-1].lower()[:3]) or re.split("[=|-]", f)[-1].lower()[:3] in low for f in x["forms"])] if word else []
    steps = 0
    def works(ws, pairs, auto):
        nonlocal best, bp, steps
        steps += 1
        c = dict(case, words=ws, options=dict(case["options"], autocorrect=auto), pairs=pairs)
        p, _ = attempt(c, work, d, e, only=[word] if word else None, full=kind == "table" and bool(pairs is not case["pairs"]))
        p = [x for x in p if x[1] == word]
        if p:
            best, bp = c, p[:1]
        return bool(p)
    if near and len(near) < len(case["words"]):
        works(near, case["pairs"], case["options"]["autocorrect"])
    works([], case["pairs"], case["options"]["autocorrect"])
    n = 2
    while len(best["words"]) > 1 and steps < 24:
        ws = best["words"]
        k = max(1, len(ws) // n)
        for i in range(0, len(ws), k):
            if works(ws[:i] + ws[i + k:], best["pairs"], best["options"]["autocorrect"]):
                n = max(2, n - 1)
                break
            if steps >= 24:
                break
        else:
            if k == 1:
                break
            n = min(len(ws), 2 * n)
    return best, bp


HISTORICAL = ["aavistaa-av1", "antautua", "arvelu", "asema", "autio", "edam", "haastaa", "haravoida", "huuli", "kantaja", "karahka", "kiiski", "koiras", "matala", "paperi", "paperi-av1", "peruna", "banaali", "pasuuna", "nuori", "palaa"]


def make_case(seed, k, size, walks, work, sukija):
    r = random.Random("%d/%d" % (seed, k))
    words = vocabulary(r, size, work, 2 if sukija else 6)
    o = options(r)
    pairs = corrections(r)
    o["autocorrect"] = autoxml(r, pairs)
    if sukija:
        o.update(target="vvfst-sukija", make=[], genlex=[])
        for e in words:     # historical inflection classes are used by this target only
            if e["infclass"] and r.random() < .25 and not any(f.endswith(("tio", "sio")) or re.search("[áé]", f) for f in e["forms"]):
                verb = "verb" in e["wclass"]
                ends = dict(arvelu="uyoö", asema="aä", autio="oö", huuli="i", kantaja="aä", karahka="aä", kiiski="i", koiras="s", matala="aä", paperi="i", peruna="aä", banaali="i", pasuuna="aä", nuori="i", palaa="aä",
                            edam="bdfghjklmnprstv")
                hs = [x for x in HISTORICAL if (x.split("-")[0] in ("aavistaa", "antautua", "haastaa", "haravoida", "heittää")) == verb
                      and all(f[-1] in ends.get(x.split("-")[0], "aä") and jatko_of(dict(e, infclass=x, forms=[f])) for f in e["forms"])]
                if hs:
                    e["hist"] = r.choice(hs)
        words = usable(words, work, ["--sukija", "--style=" + ",".join(STYLES), "--min-frequency=10"])
    return dict(seed=seed * 1000 + k, words=words, options=o, pairs=pairs, walks=walks)


def run(pid, tier, seed, cfg, rd, env):
    d = vbuild.build("plain", checks=["c21"], tools=vbuild.TOOLS)
    scratch = vbuild.BUILD / "scratch" / "c21"
    e = dict(env, VERIF_LIBDIR=str(d), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(VERIF / "py"))
    n = cfg[tier]
    st = dict(cases=0, evaluations=0, distinct_nontrivial=0, samples=[], labels={}, unreproduced=0, discards=0, violation=None)
    lab = st["labels"]
    def one(k):
        work = scratch / str(k)
        work.mkdir(parents=True, exist_ok=True)
        r = random.Random(seed * 77 + k)
        case = make_case(seed, k, r.choice([60, 200, 400, 700]), 12000 if tier == "quick" else 60000, work, k % 6 == 5)
        probs, s = attempt(case, work, d, e)
        for _ in range(5):
            if "discard" not in s:
                break
            # some word does not fit the lexicon (an editor of the vocabulary would see the build fail): a part of the vocabulary
            fit = [x for x in case["words"] if not x.get("unfit")]
            case["words"] = fit if len(fit) < len(case["words"]) else r.sample(fit, (len(fit) + 1) // 2)
            probs, s = attempt(case, work, d, e)
        shutil.rmtree(work)
        return k, case, probs, s
    suspects = []
    with ThreadPoolExecutor(8) as ex:
        for k, case, probs, s in ex.map(one, range(n)):
            st["cases"] += 1
            if "discard" in s:
                st["discards"] += 1
                lab["discarded: " + re.sub(r"\s+", " ", str(s["discard"]))[:120]] = 1
                continue
            for x in ("words", "accepted", "expects", "unmet", "edges", "covered", "inflected"):
                lab[x] = lab.get(x, 0) + s.get(x, 0)
            lab["identical dictionaries"] = lab.get("identical dictionaries", 0) + bool(s.get("same"))
            st["evaluations"] += s.get("words", 0) + s.get("expects", 0) + s.get("inflected", 0)
            st["distinct_nontrivial"] += s.get("accepted", 0)
            if len(st["samples"]) < 8:
                st["samples"].append("%d words, %s, e.g. %s; %d transitions of which %d used, %d words compared, %d accepted" % (
                    len(case["words"]), " ".join(case["options"]["genlex"] + case["options"]["make"]) or "default options", [(x["forms"][0], x["infclass"] or x["wclass"][0]) for x in case["words"][:3]], s.get("edges", 0), s.get("covered", 0), s.get("words", 0), s.get("accepted", 0)))
            if probs:
                suspects.append((len(case["words"]), k, case, probs))
    for _, k, case, probs in sorted(suspects, key=lambda x: x[:2]):
        work = scratch / "again"
        work.mkdir(parents=True, exist_ok=True)
        if all(attempt(case, work, d, e)[0] for _ in range(2)):
            case, probs = minimise(case, work, d, e, probs)
            rep = rd / (pid + "-replay.json")
            rep.write_text(json.dumps(dict(case, problem=probs[0]), ensure_ascii=False, indent=1))
            print("%s: vocabulary of %d words, %s: %s\n current: %s\n pinned:  %s" % ((pid, len(case["words"]), " ".join(case["options"]["genlex"] + case["options"]["make"])) + (probs[0][:2], probs[0][2], probs[0][3])))
            print("replay: python3 %s %s" % (Path(__file__).resolve(), rep))
            st["violation"] = str(rep)
            break
        st["unreproduced"] += 1
    return st


if __name__ == "__main__":
    import run as R
    d = vbuild.build("plain", checks=["c21"], tools=vbuild.TOOLS)
    case = json.loads(Path(sys.argv[1]).read_text())
    w = case["problem"][1]
    work = vbuild.BUILD / "scratch" / "c21replay"
    work.mkdir(parents=True, exist_ok=True)
    probs, _ = attempt(case, work, d, dict(R.env(), VERIF_LIBDIR=str(d), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(VERIF / "py")), only=[w] if w else None)
    shutil.rmtree(work)
    for x in probs[:10]:
        print(x)
    sys.exit(1 if probs else 0)
