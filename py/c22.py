"""C22: the text tools of the project (statistics, error listing, comparison with annotated text) report what the library finds"""
import io, json, os, random, sys, types
from pathlib import Path
import bindlib as B

CASES = dict(Nom="nimento", Gen="omanto", Par="osanto", Ine="sisaolento", Ela="sisaeronto", Ill="sisatulento", Ade="ulkoolento", Abl="ulkoeronto", All="ulkotulento",
             Ess="olento", Tra="tulento", Com="seuranto", Acc="kohdanto", Ins="keinonto", Abe="vajanto")
MOODS = dict(Ind="indicative", Cnd="conditional", Pot="potential", Imp="imperative")


# ---------------------------------------------------------------- generation
def clean(s):
    return "".join(c for c in s if c != "\0" and not 0xd800 <= ord(c) < 0xe000 and ord(c) not in (0xfffe, 0xffff))


def make_case(r):
    g = B.Gen(r)
    ops = []
    for _ in range(r.choice([1, 2, 4, 8])):
        k = r.random()
        if k < .4:
            t = clean("".join(g.text(False) + r.choice(["\n", "\n\n", " ", ""]) for _ in range(r.choice([0, 1, 1, 2, 4]))))
            ops.append(["stats", t, [[n, r.random() < .5] for n in sorted(B.BOOL) if r.random() < .15], r.choice([None, None, 0, 2, 3, 6, 20])])
        elif k < .75:
            t = ""
            for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
                k = r.randrange(10)
                t += (clean(g.text(False)) if k < 7 else " ".join(g.lexword() for _ in range(r.randrange(4))) if k < 9 else r.choice(["", " ", "\t", "\u00a0", "\u3000"]))
                t += r.choice(["\n", "\n", "\n\n", "\n \n", "\n\n\n", "\r\n", "\r\n\r\n", " \n", "\r"])
            if r.random() < .5:
                t = t.rstrip("\r\n")
            ops.append(["pretty", t, r.random() < .6])
        else:
            words = []
            for _ in range(r.choice([1, 3, 6, 12])):
                w = clean(g.word(False)) if r.random() < .2 else g.case(g.lexword())
                words.append([w, r.randrange(1 << 30)])
            ops.append(["conllu", words])
    return dict(ops=ops)


# ---------------------------------------------------------------- what the tools should print
def syllables(r, word):
    p = r.pattern(word)
    return 1 + (0 if p is None else sum(c != " " for c in p))


def statistics(r, text):
    words = [t for t, k in r.tokens(text) if k == "WORD"]
    hist = {}
    for w in words:
        bases = [a["BASEFORM"] for a in r.analyze(w) if "BASEFORM" in a]
        n = syllables(r, bases[0]) if bases else 0
        hist[n] = hist.get(n, 0) + 1
    nw, ns = len(words), sum(k in ("NONE", "PROBABLE") for _, k in r.sentences(text))
    syl = sum(syllables(r, w) for w in words)
    known = nw - hist.get(0, 0)
    e = dict(SENTENCES=ns, WORDS=nw, KNOWN_WORDS=known, BASEFORM_SYLLABLES_HISTOGRAM=hist, SYLLABLES=syl, LETTERS=sum(map(len, words)),
             PUNCTUATION=sum(k == "PUNCTUATION" for _, k in r.tokens(text)), FLESCH_READING_EASE=0, FLESCH_KINCAID_GRADE_LEVEL=0, WIIO_SIMPLE=0)
    if known and ns:
        e["FLESCH_READING_EASE"] = 206.823 - 1.015 * (nw / ns) - 84.6 * (syl / nw)
        e["FLESCH_KINCAID_GRADE_LEVEL"] = 0.39 * (nw / ns) + 11.8 * (syl / nw) - 15.59
        e["WIIO_SIMPLE"] = 2.7 + 30.0 * (sum(v for k, v in hist.items() if k > 3) / known)
    return e


def paragraphs(text, empty):
    ls = [l.strip() for l in text.replace("\r\n", "\n").replace("\r", "\n").split("\n")]
    if not empty:
        return [l for l in ls if l]
    out = [[]]
    for l in ls:
        if l:
            out[-1].append(l)
        else:
            out.append([])
    return [" ".join(p) for p in out if p]


def pretty(r, text, empty):
    out = []
    for p in paragraphs(text, empty):
        for code, start, n, desc, sugg in r.grammar(p, "fi"):
            out += [p, "E: %s (start=%d)" % (desc, start), 'E: "%s"' % p[start:start + n]] + ['S:  "%s"' % s for s in sugg] + ["=" * 49]
    return "".join(l + "\n" for l in out)


def features(a):
    """the features of Universal Dependencies that an analysis gives"""
    f = {}

    def rev(table, key, name):
        if key in a:
            f[name] = next((k for k, v in table.items() if v == a[key]), a[key])
    rev(dict(Sing="singular", Plur="plural"), "NUMBER", "Number")
    rev(CASES, "SIJAMUOTO", "Case")
    if "POSSESSIVE" in a:
        p = a["POSSESSIVE"]
        f["Person[psor]"] = p[0] if p in ("1s", "2s", "1p", "2p") else p
        f["Number[psor]"] = {"s": "Sing", "p": "Plur"}[p[1]] if p in ("1s", "2s", "1p", "2p") else p
    rev(dict(Pos="positive", Cmp="comparative", Sup="superlative"), "COMPARISON", "Degree")
    rev({}, "PERSON", "Person")
    rev(dict(Pres="present_simple", Past="past_imperfective"), "TENSE", "Tense")
    if "MOOD" in a:
        rev(MOODS, "MOOD", "Mood")
        m = a["MOOD"]
        if m in ("A-infinitive", "E-infinitive"):
            f["VerbForm"], f["InfForm"] = "Inf", {"A": "1", "E": "2"}[m[0]]
        elif m == "MINEN-infinitive":
            f["Derivation"] = "Minen"
    rev(dict(Kin="kin", Kaan="kaan"), "FOCUS", "Clitic")
    if "KYSYMYSLIITE" in a:
        f["Clitic"] = "Ko"
    if "PARTICIPLE" in a:
        p = a["PARTICIPLE"]
        f["VerbForm"] = "Part"
        f["PartForm"] = "Pres" if p.startswith("present_") else "Past" if p.startswith("past_") else "Agt" if p == "agent" else p
        f["Voice"] = "Pass" if p.endswith("_passive") else "Act" if p.endswith("_active") or p == "agent" else p
    return f


def annotation(analyses, seed):
    """an annotated token: right for one of the analyses, with some mistakes"""
    r = random.Random(seed)
    a = r.choice(analyses) if analyses else {}
    f = features(a)
    lemma = a.get("BASEFORM", "x")
    if r.random() < .3:
        lemma = lemma[:-1] + r.choice("aäx")
    for k in sorted(f):
        if r.random() < .25:
            f[k] = r.choice(["Sing", "Plur", "Nom", "Gen", "1", "2", "Ind", "Inf", "Part", "Act", "Pass", "Kin"])
        elif r.random() < .15:
            del f[k]
    if r.random() < .2:
        f["Style"] = "Coll"
    return lemma, f if f and r.random() < .95 else None


def comparison(r, words):
    out = ""
    for w, seed in words:
        as_ = r.analyze(w)
        lemma, f = annotation(as_, seed)
        if len(as_) != 1:
            continue
        base = as_[0].get("BASEFORM")
        if base is not None and base != lemma:
            out += "%s Attr: lemma, %s <-> %s\n" % (w, lemma, base)
        mine = features(as_[0])
        for k in f or {}:
            if k in mine and mine[k] != f[k]:
                out += "%s Attr: %s, %s <-> %s\n" % (w, k, f[k], mine[k])
    return out


# ---------------------------------------------------------------- execution
class Runner:
    def __init__(self, st):
        self.st = st
        self.repo = os.environ["VERIF_REPO"]
        sys.path[:0] = [self.repo + "/libvoikko/python", self.repo + "/tools/pylib"]
        prefs = types.ModuleType("voikko_dev_prefs")
        prefs.language_variant, prefs.encoding = "fi", "UTF-8"
        sys.modules["voikko_dev_prefs"] = prefs
        import libvoikko
        import voikkostatistics
        libvoikko.Voikko.setLibrarySearchPath(B.libdir())
        self.lib, self.stat = libvoikko, voikkostatistics
        self.conllu = types.ModuleType("conllu")
        sys.modules["conllu"] = self.conllu
        self.code = {}
        self.ref = B.Ref("fi", None)

    def tool(self, name, args, text):
        """what the tool prints, run in this process with its own standard streams"""
        if name not in self.code:
            f = self.repo + "/tools/bin/" + name
            self.code[name] = compile(Path(f).read_text(encoding="utf-8"), f, "exec")
        old = sys.stdin, sys.stdout, sys.argv
        out = io.BytesIO()
        sys.stdin, sys.stdout, sys.argv = io.TextIOWrapper(io.BytesIO(text.encode()), encoding="utf-8"), io.TextIOWrapper(out, encoding="utf-8", newline=""), [name] + args
        try:
            ns = dict(__name__="__main__", __file__=name)
            try:
                exec(self.code[name], ns)
            except SystemExit as e:
                if e.code not in (None, 0):
                    return "ended with %s" % e.code
            except Exception as e:
                return "raised %s: %s" % (type(e).__name__, e)
            sys.stdout.flush()
            return out.getvalue().decode()
        finally:
            sys.stdin, sys.stdout, sys.argv = old
            v = ns.get("voikko")
            if isinstance(v, self.lib.Voikko):
                v.terminate()

    def __call__(self, case):
        for op in case["ops"]:
            self.st.evals += 1
            try:
                m = self.step(op)
            except Exception as e:
                import traceback
                m = "".join(traceback.format_exception(e))
            if m:
                return m
        return None

    def differ(self, what, got, want):
        return "%s\n got      %s\n expected %s" % (what, ascii(got), ascii(want))

    def step(self, op):
        r, k = self.ref, op[0]
        if k == "stats":
            v, h = self.lib.Voikko("fi"), B.Ref("fi", None)
            try:
                for n, on in op[2]:
                    getattr(v, "set" + n)(on)
                    h.boolean(B.BOOL[n], on)
                if op[3] is not None:
                    v.setMinHyphenatedWordLength(op[3])
                    h.integer(B.INT["MinHyphenatedWordLength"], op[3])
                got, want = self.stat.getStatistics(op[1], v), statistics(h, op[1])
            finally:
                v.terminate()
                h.close()
            for key in sorted(set(got) | set(want)):
                a, b = got.get(key), want.get(key)
                same = a is not None and b is not None and abs(a - b) <= 1e-6 * max(1, abs(b)) if isinstance(b, float) else a == b
                if not same:
                    return self.differ("statistics: " + key, a, b)
            if want["KNOWN_WORDS"]:
                self.st.note(op, "statistics")
                self.st.sample([op[1], want])
        elif k == "pretty":
            got, want = self.tool("voikko-gc-pretty", ["--empty-line"] if op[2] else [], op[1]), pretty(r, op[1], op[2])
            if got != want:
                return self.differ("voikko-gc-pretty", got, want)
            if want:
                self.st.note(op, "error listing" + (", empty lines" if op[2] else ""))
                self.st.sample([op[1:], want])
        else:
            toks = []
            for w, seed in op[1]:
                lemma, f = annotation(r.analyze(w), seed)
                toks.append(dict(id=len(toks) + 1, form=w, lemma=lemma, feats=f))
                if seed % 50 == 0:
                    toks.append(dict(id=0, lemma="x", feats=None))
            half = len(toks) // 2
            self.conllu.parse = lambda t: [toks[:half], toks[half:]]
            got, want = self.tool("voikko-conllu", [], "x"), comparison(r, op[1])
            if got != want:
                return self.differ("voikko-conllu", got, want)
            if want:
                self.st.note(op, "comparison")
                self.st.sample([op[1], want])
        return None


# ---------------------------------------------------------------- called by run.py
def run(pid, tier, seed, cfg, rd, env):
    import vbuild
    d = vbuild.build("plain")
    scratch = vbuild.BUILD / "scratch" / "c22"
    e = dict(env, VERIF_LIBDIR=str(d), VERIF_SCRATCH=str(scratch), VERIF_REPO=str(vbuild.REPO), VOIKKO_DICTIONARY_PATH=str(vbuild.BUILD / "dicts" / "standard"), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(B.VERIF / "py"))
    return B.search(pid, [sys.executable, str(Path(__file__).resolve())], cfg[tier], 200 if tier == "quick" else 2400, seed, rd, e, scratch)


if __name__ == "__main__":
    B.worker_main(make_case, Runner)
