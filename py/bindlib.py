"""Shared by the checks of the language bindings: the library called directly (own declarations, wide character and UTF-8
interface), generators of texts and of sequences of operations, and the search, confirmation and shrinking of failures."""
import ctypes as C, hashlib, json, os, random, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
WORKERS = os.cpu_count() or 8

# ---------------------------------------------------------------- the library itself
P, S, W, I, Z = C.c_void_p, C.c_char_p, C.c_wchar_p, C.c_int, C.c_size_t
SIG = dict(voikkoInit=(P, [C.POINTER(S), S, S]), voikkoTerminate=(None, [P]), voikkoSetBooleanOption=(I, [P, I, I]), voikkoSetIntegerOption=(I, [P, I, I]),
           voikkoSpellUcs4=(I, [P, W]), voikkoSuggestUcs4=(C.POINTER(W), [P, W]), voikko_free_suggest_ucs4=(None, [P]),
           voikkoHyphenateUcs4=(P, [P, W]), voikkoInsertHyphensCstr=(P, [P, S, S, I]), voikkoFreeCstr=(None, [P]),
           voikkoAnalyzeWordUcs4=(C.POINTER(P), [P, W]), voikko_free_mor_analysis=(None, [P]), voikko_mor_analysis_keys=(C.POINTER(S), [P]), voikko_mor_analysis_value_ucs4=(W, [P, S]),
           voikkoNextTokenUcs4=(I, [P, W, Z, C.POINTER(Z)]), voikkoNextSentenceStartUcs4=(I, [P, W, Z, C.POINTER(Z)]),
           voikkoNextGrammarErrorUcs4=(P, [P, W, Z, Z, I]), voikkoGetGrammarErrorCode=(I, [P]), voikkoGetGrammarErrorStartPos=(Z, [P]), voikkoGetGrammarErrorLength=(Z, [P]),
           voikkoGetGrammarErrorSuggestions=(C.POINTER(S), [P]), voikkoFreeGrammarError=(None, [P]), voikkoGetGrammarErrorShortDescription=(P, [P, S]), voikkoFreeErrorMessageCstr=(None, [P]),
           voikkoSpellCstr=(I, [P, S]), voikkoSuggestCstr=(C.POINTER(S), [P, S]), voikkoHyphenateCstr=(P, [P, S]), voikkoAnalyzeWordCstr=(C.POINTER(P), [P, S]), voikko_mor_analysis_value_cstr=(P, [P, S]), voikko_free_mor_analysis_value_cstr=(None, [P]),
           voikkoNextTokenCstr=(I, [P, S, Z, C.POINTER(Z)]), voikkoNextSentenceStartCstr=(I, [P, S, Z, C.POINTER(Z)]), voikkoNextGrammarErrorCstr=(P, [P, S, Z, Z, I]),
           voikkoGetAttributeValues=(C.POINTER(S), [P, S]), voikkoFreeCstrArray=(None, [P]), voikkoGetVersion=(S, []),
           voikko_list_dicts=(C.POINTER(P), [S]), voikko_free_dicts=(None, [P]), voikko_dict_language=(S, [P]), voikko_dict_script=(S, [P]), voikko_dict_variant=(S, [P]), voikko_dict_description=(S, [P]),
           voikkoListSupportedSpellingLanguages=(C.POINTER(S), [S]), voikkoListSupportedHyphenationLanguages=(C.POINTER(S), [S]), voikkoListSupportedGrammarCheckingLanguages=(C.POINTER(S), [S]))

# the options as the header files document them
BOOL = dict(IgnoreDot=0, IgnoreNumbers=1, IgnoreUppercase=3, NoUglyHyphenation=4, AcceptFirstUppercase=6, AcceptAllUppercase=7, IgnoreNonwords=10,
            AcceptExtraHyphens=11, AcceptMissingHyphens=12, AcceptTitlesInGc=13, AcceptUnfinishedParagraphsInGc=14, HyphenateUnknownWords=15, AcceptBulletedListsInGc=16)
INT = dict(MinHyphenatedWordLength=9, SpellerCacheSize=17)
OCR = 8
TOKENS = ["NONE", "WORD", "PUNCTUATION", "WHITESPACE", "UNKNOWN"]
STARTS = ["NONE", "NO_START", "PROBABLE", "POSSIBLE"]


def libdir():
    return os.environ["VERIF_LIBDIR"]


_lib = None


def lib():
    global _lib
    if _lib is None:
        l = C.CDLL(libdir() + "/libvoikko.so.1")
        for n, (r, a) in SIG.items():
            f = getattr(l, n)
            f.restype, f.argtypes = r, a
        _lib = l
    return _lib


def arr(p, conv=lambda x: x):
    out, i = [], 0
    while p[i]:
        out.append(conv(p[i]))
        i += 1
    return out


def u8(b):
    return b.decode("UTF-8")


def dicts(path):
    p = lib().voikko_list_dicts(path)
    r = arr(p, lambda d: [u8(lib().voikko_dict_language(d)), u8(lib().voikko_dict_script(d)), u8(lib().voikko_dict_variant(d)), u8(lib().voikko_dict_description(d))])
    lib().voikko_free_dicts(C.cast(p, P))
    return r


def languages(kind, path):
    p = getattr(lib(), "voikkoListSupported%sLanguages" % kind)(path)
    r = arr(p, u8)
    lib().voikkoFreeCstrArray(C.cast(p, P))
    return r


class InitError(Exception):
    pass


class Ref:
    """one handle of the library"""
    def __init__(self, lang, path):
        e = S()
        self.h = lib().voikkoInit(C.byref(e), lang.encode() if lang else None, path.encode() if path else None)
        if e.value is not None:
            raise InitError(u8(e.value))

    def close(self):
        if self.h:
            lib().voikkoTerminate(self.h)
            self.h = None

    def boolean(self, o, v):
        return lib().voikkoSetBooleanOption(self.h, o, 1 if v else 0) == 1

    def integer(self, o, v):
        return lib().voikkoSetIntegerOption(self.h, o, v) == 1

    def spell(self, w):
        return lib().voikkoSpellUcs4(self.h, w)

    def suggest(self, w):
        p = lib().voikkoSuggestUcs4(self.h, w)
        if not p:
            return []
        r = arr(p)
        lib().voikko_free_suggest_ucs4(C.cast(p, P))
        return r

    def analyze(self, w):
        p = lib().voikkoAnalyzeWordUcs4(self.h, w)
        if not p:
            return []
        r = arr(p, lambda a: {u8(k): lib().voikko_mor_analysis_value_ucs4(a, k) for k in arr(lib().voikko_mor_analysis_keys(a))})
        lib().voikko_free_mor_analysis(C.cast(p, P))
        return r

    def pattern(self, w):
        p = lib().voikkoHyphenateUcs4(self.h, w)
        if not p:
            return None
        r = C.string_at(p).decode("ASCII")
        lib().voikkoFreeCstr(p)
        return r

    def hyphenate(self, w, sep, ctx):
        p = lib().voikkoInsertHyphensCstr(self.h, w.encode(), sep.encode(), 1 if ctx else 0)
        if not p:
            return None
        r = u8(C.string_at(p))
        lib().voikkoFreeCstr(p)
        return r

    def tokens(self, t):
        r, n = [], Z()
        while t:
            k = lib().voikkoNextTokenUcs4(self.h, t, len(t), C.byref(n))
            if k == 0:
                break
            r.append([t[:n.value], TOKENS[k]])
            t = t[n.value:]
        return r

    def sentences(self, t):
        r, n = [], Z()
        while t:
            k = lib().voikkoNextSentenceStartUcs4(self.h, t, len(t), C.byref(n))
            r.append([t[:n.value], STARTS[k]])
            if k == 0:
                break
            t = t[n.value:]
        return r

    def grammar(self, paragraph, lang):
        """[code, start, length, description, suggestions] in code points of the paragraph"""
        r = []
        while True:
            e = lib().voikkoNextGrammarErrorUcs4(self.h, paragraph, len(paragraph), 0, len(r))
            if not e:
                return r
            d = lib().voikkoGetGrammarErrorShortDescription(e, lang.encode())
            s = lib().voikkoGetGrammarErrorSuggestions(e)
            r.append([lib().voikkoGetGrammarErrorCode(e), lib().voikkoGetGrammarErrorStartPos(e), lib().voikkoGetGrammarErrorLength(e), u8(C.string_at(d)), arr(s, u8) if s else []])
            lib().voikkoFreeErrorMessageCstr(d)
            lib().voikkoFreeGrammarError(e)

    def attributes(self, name):
        p = lib().voikkoGetAttributeValues(self.h, name.encode())
        if not p:
            return None
        r = arr(p, u8)
        lib().voikkoFreeCstrArray(C.cast(p, P))
        return r


# ---------------------------------------------------------------- generators
def lines(f):
    return [l for l in Path(f).read_text(encoding="UTF-8").split("\n") if l]


class Gen:
    """texts from dictionary words, typos, punctuation, characters outside of the basic plane and unusual ones"""
    ODD = "\ufb01\ufb04\u2103\u0301\u0308\u030aéßæøÿšžŠ\u2028\u2029\u00a0\u0085\u2000\u202f\u3000\u200b\ufeff\u03b1\u0418\u0439\u05d0\u4e00\ufffd\u0001\u007f\u0080½°\U0001f600\U0001d400\U0010fffd"
    SPECIAL = "-.'’\u00ad:/,0123456789‐–—()[]\"”»@&%?!…;{}+*#_="
    LETTERS = "aeinstlokäuöyrmvphdjgbfcšžåqwxz"

    def __init__(self, rnd):
        self.r = rnd
        d = VERIF / "data"
        if not hasattr(Gen, "lex"):
            Gen.lex, Gen.test, Gen.cov, Gen.sent = lines(d / "lexwords.txt"), lines(d / "testwords.txt"), lines(d / "covwords.txt"), lines(d / "sentences.txt")
            Gen.phr = [l.split("\t")[0] for l in lines(Path(os.environ["VERIF_DICTS"]) / "phrases.txt")]

    def odd(self):
        r = self.r
        k = r.randrange(10)
        if k < 4:
            return r.choice(self.SPECIAL)
        if k < 8:
            return r.choice(self.ODD)
        if k < 9:
            return chr(r.randrange(0x10000, 0x10fffe))
        while True:
            x = r.randrange(1, 0xfffe)
            if not 0xd800 <= x < 0xe000:
                return chr(x)

    def case(self, w):
        k = self.r.randrange(12)
        return w[:1].upper() + w[1:] if k < 3 else w.upper() if k < 5 else w

    def typo(self, w):
        r = self.r
        i = r.randrange(len(w) + 1)
        k = r.randrange(4)
        if k == 0:
            return w[:i] + r.choice(self.LETTERS) + w[i:]
        if k == 1:
            return w[:i] + w[i + 1:]
        if k == 2:
            return w[:i] + r.choice(self.LETTERS) + w[i + 1:]
        return w[:i] + w[i + 1:i + 2] + w[i:i + 1] + w[i + 2:]

    def lexword(self):
        return self.r.choice(self.r.choice([Gen.lex, Gen.test, Gen.cov]))

    def word(self, nul=True):
        r = self.r
        k = r.randrange(20)
        if k < 9:
            w = self.lexword()
        elif k < 11:
            w = self.lexword() + self.lexword()
        elif k < 12:
            w = self.lexword() + "-" + self.lexword()
        elif k < 16:
            w = self.typo(self.lexword())
            if r.random() < .3:
                w = self.typo(w)
        elif k < 18:
            w = self.lexword()
            i = r.randrange(len(w) + 1)
            w = w[:i] + self.odd() + w[i + r.randrange(2):]
        elif k < 19:
            w = "".join(self.odd() if r.random() < .5 else r.choice(self.LETTERS) for _ in range(r.randrange(12)))
        else:
            n = r.choice([0, 1, 2, 254, 255, 256, 300])
            w = (self.lexword() + r.choice(["", "-"])) * n
            w = w[:n]
        w = self.case(w)
        if r.random() < .05:
            w += r.choice([".", "-", ":n", "..."])
        if nul and r.random() < .03:
            i = r.randrange(len(w) + 1)
            w = w[:i] + "\0" + w[i:]
        return w

    def sentence(self):
        r = self.r
        k = r.randrange(10)
        if k < 3:
            s = r.choice(Gen.sent)
        elif k < 5:
            s = " ".join([self.lexword(), r.choice(Gen.phr), self.lexword()])
        else:
            parts = []
            for _ in range(r.randrange(1, 9)):
                parts.append(self.case(self.lexword()) if r.random() < .85 else self.word(False))
                if r.random() < .1:
                    parts.append(parts[-1])
            s = parts[0]
            for p in parts[1:]:
                s += r.choice([" "] * 12 + [", ", "  ", " ,", ",", " (", ") ", " – ", "\t", " \"", "\" ", "; ", "\u00a0"]) + p
        if r.random() < .7:
            s = s[:1].upper() + s[1:]
        return s + r.choice(["."] * 6 + ["", "?", "!", " .", "...", "…", ".)", "\".", ":", ","])

    def text(self, nul=True, newlines=True):
        r = self.r
        s = ""
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])):
            s += self.sentence() + r.choice([" ", " ", " ", "", "  ", "\n" if newlines else " ", "\n\n" if newlines else " ", "\r\n" if newlines else " ", "\r" if newlines else " "])
        if r.random() < .5:
            s = s.rstrip()
        for _ in range(r.choice([0, 0, 0, 1, 2, 4])):
            i = r.randrange(len(s) + 1)
            s = s[:i] + self.odd() + s[i:]
        if nul and r.random() < .06:
            i = r.randrange(len(s) + 1)
            s = s[:i] + "\0" * r.choice([1, 1, 2]) + s[i:]
        return s

    def operation(self, wtext=None):
        r = self.r
        k = r.choice(["spell", "spell", "suggest", "suggest", "analyze", "pattern", "hyphenate", "hyphenate", "tokens", "tokens", "sentences", "sentences", "grammar", "grammar", "attributes", "option", "option", "option"])
        if k in ("spell", "analyze", "pattern"):
            return [k, self.word()]
        if k == "suggest":
            return [k, self.word() if r.random() < .3 else self.typo(self.lexword())]
        if k == "hyphenate":
            return [k, self.word(), r.choice(["-", "-", "=", "\u00ad", "&shy;", "", "\U0001f600", "ä", "\0", "--"]), r.random() < .6]
        if k in ("tokens", "sentences"):
            return [k, self.text()]
        if k == "grammar":
            return [k, self.text(), r.choice(["fi", "en", "en_US", "sv", "xx"])]
        if k == "attributes":
            return [k, r.choice(["CLASS", "NUMBER", "PERSON", "MOOD", "TENSE", "COMPARISON", "NEGATIVE", "PARTICIPLE", "POSSESSIVE", "SIJAMUOTO", "FOCUS", "POSSIBLE_GEOGRAPHICAL_NAME", "REQUIRE_FOLLOWING_VERB", "BASEFORM", "STRUCTURE", "", "x", "ÄÖ", "CLASS\0"])]
        k = r.randrange(10)
        if k < 7:
            return ["bool", r.choice(sorted(BOOL)), r.random() < .5]
        if k < 8:
            return ["int", "MinHyphenatedWordLength", r.choice([0, 1, 2, 3, 5, 8, 20])]
        if k < 9:
            return ["int", "SpellerCacheSize", r.choice([-1, 0, 1, 3])]
        return ["strategy", r.choice(["OCR", "TYPO"])]


# ---------------------------------------------------------------- search
class Stats:
    def __init__(self):
        self.cases = self.evals = 0
        self.keys, self.samples, self.labels = set(), [], {}

    def note(self, key, label):
        self.keys.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())
        self.labels[label] = self.labels.get(label, 0) + 1

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(str(x)[:300])

    def dump(self):
        return dict(cases=self.cases, evals=self.evals, keys=sorted(self.keys), samples=self.samples, labels=self.labels)


def case_seed(seed, worker, i):
    return int.from_bytes(hashlib.sha256(("%d/%d/%d" % (seed, worker, i)).encode()).digest()[:8], "big")


def worker_main(make_case, make_runner):
    """worker SEED WORKER CASES SECONDS DIR: runs cases; exec FILE: runs one and ends with 0, or 1 and a message"""
    if sys.argv[1] == "exec":
        case = json.loads(Path(sys.argv[2]).read_text(encoding="utf-8", errors="surrogatepass"))
        run = make_runner(Stats())
        msg = None
        for _ in range(10 if any(o[0] == "threads" for o in case["ops"]) else 1):    # schedules vary
            msg = run(case)
            if msg:
                break
        if msg:
            print(msg)
            sys.stdout.flush()
            os._exit(1)
        os._exit(0)
    seed, worker, cases, secs, d = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), Path(sys.argv[6])
    st = Stats()
    run = make_runner(st)
    t0 = time.time()
    for i in range(cases):
        if time.time() - t0 > secs:
            break
        case = make_case(random.Random(case_seed(seed, worker, i)))
        (d / ("cur-%d.json" % worker)).write_text(json.dumps(case))
        msg = run(case)
        st.cases += 1
        if msg:
            (d / ("fail-%d.json" % worker)).write_text(json.dumps(dict(case=case, message=msg)))
            break
    (d / ("stats-%d.json" % worker)).write_text(json.dumps(st.dump()))
    sys.stdout.flush()
    os._exit(0)


def fails(cmd, case, d, env, tag, limit=120):
    f = d / ("try-%s.json" % tag)
    f.write_text(json.dumps(case))
    try:
        r = subprocess.run(cmd + ["exec", str(f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=limit)
    except subprocess.TimeoutExpired:
        return "no answer in %d s" % limit
    if r.returncode == 0:
        return None
    return (r.stdout.strip() or "") + ("" if r.returncode == 1 else "\nprocess ended with status %d" % r.returncode)


def shrink(cmd, case, d, env, budget=90):
    t0 = time.time()
    best = fails(cmd, case, d, env, "s")
    steps = 0

    def attempt(c):
        nonlocal case, best, steps
        if time.time() - t0 > budget:
            return False
        m = fails(cmd, c, d, env, "s")
        steps += 1
        if m:
            case, best = c, m
            return True
        return False
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        n = len(case["ops"])
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(case["ops"]):
                c = dict(case, ops=case["ops"][:i] + case["ops"][i + size:])
                if c["ops"] and attempt(c):
                    progress = True
                else:
                    i += size
            size //= 2
        for i in range(len(case["ops"])):
            for j in range(1, len(case["ops"][i])):
                if not isinstance(case["ops"][i][j], str) or case["ops"][i][0] in ("bool", "int", "strategy", "open", "use", "dicts", "languages") or (case["ops"][i][0] == "grammar" and j == 2):
                    continue
                size = max(1, len(case["ops"][i][j]) // 2)
                while size >= 1:
                    k = 0
                    while k < len(case["ops"][i][j]):
                        s = case["ops"][i][j]
                        op = list(case["ops"][i])
                        op[j] = s[:k] + s[k + size:]
                        c = dict(case, ops=case["ops"][:i] + [op] + case["ops"][i + 1:])
                        if attempt(c):
                            progress = True
                        else:
                            k += size
                    size //= 2
    return case, best, steps


def search(pid, cmd, cases, secs, seed, rd, env, scratch):
    """runs the workers and returns the statistics for the evidence"""
    scratch.mkdir(parents=True, exist_ok=True)
    for f in scratch.glob("*.json"):
        f.unlink()
    per = max(1, cases // WORKERS)
    procs = [subprocess.Popen(cmd + ["worker", str(seed), str(w), str(per), str(secs), str(scratch)], env=env, stdout=open(scratch / ("log-%d" % w), "w"), stderr=subprocess.STDOUT) for w in range(WORKERS)]
    st = dict(cases=0, evaluations=0, distinct_nontrivial=0, samples=[], labels={}, unreproduced=0)
    keys = set()
    suspects = []
    deadline = time.time() + secs + 300
    for w, p in enumerate(procs):
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        sf, ff, cf = scratch / ("stats-%d.json" % w), scratch / ("fail-%d.json" % w), scratch / ("cur-%d.json" % w)
        if sf.exists():
            s = json.loads(sf.read_text(errors="replace"))
            st["cases"] += s["cases"]
            st["evaluations"] += s["evals"]
            keys.update(s["keys"])
            st["samples"] += s["samples"][:2]
            for k, v in s["labels"].items():
                st["labels"][k] = st["labels"].get(k, 0) + v
        if ff.exists():
            suspects.append(json.loads(ff.read_text())["case"])
        elif p.returncode != 0:
            sys.stderr.write("worker %d ended with %s\n%s\n" % (w, p.returncode, (scratch / ("log-%d" % w)).read_text(errors="replace")[-2000:]))
            if cf.exists():
                suspects.append(json.loads(cf.read_text()))
            else:
                raise SystemExit(2)
    st["distinct_nontrivial"] = len(keys)
    for case in suspects:
        if all(fails(cmd, case, scratch, env, "c%d" % k) for k in range(3)):
            case, msg, steps = shrink(cmd, case, scratch, env)
            rep = rd / (pid + "-replay.json")
            rep.write_text(json.dumps(case))
            (rd / (pid + "-message.txt")).write_text(str(msg) + "\n")
            print("%s: failing case after %d shrinking steps: %s\n%s" % (pid, steps, json.dumps(case, ensure_ascii=True), msg))
            print("replay: %s exec %s" % (" ".join(cmd), rep))
            st["violation"] = str(rep)
            break
        st["unreproduced"] += 1
    return st
