"""C16: the Python binding answers what the library answers (generated histories of operations on several objects)"""
import ctypes as C, gc, json, os, random, sys
from pathlib import Path
import bindlib as B

KINDS = ["Spelling", "Hyphenation", "GrammarChecking"]


# ---------------------------------------------------------------- generation
def make_case(r):
    g = B.Gen(r)
    ops = []
    n = r.choice([3, 6, 10, 16])
    for _ in range(n):
        k = r.random()
        if k < .06:
            ops.append(["use", r.choice(["a", "b"])])
        elif k < .08:
            ops.append(["close"])
        elif k < .10:
            ops.append(["drop"])
        elif k < .12:
            ops.append(["open", r.choice(["fi", "fi-x-standard", "fi-x-other", "xx", "fi_FI", "", "fi-x-ei", "sv"]), r.choice(["std", "tree", "none"])])
        elif k < .14:
            ops.append(["dicts", r.choice(["std", "tree", "none"])])
        elif k < .16:
            ops.append(["languages", r.choice(KINDS), r.choice(["std", "tree", "none"])])
        elif k < .17:
            ops.append(["rawoption", r.choice(["bool", "int"]), r.choice([-1, 0, 1, 2, 3, 4, 5, 8, 9, 14, 17, 18, 99]), r.choice([0, 1])])
        elif k < .18:
            ops.append(["strategy", r.choice([2, -1, 7])])
        elif k < .19:
            part = lambda *x: r.choice(x)
            ops.append(["order", [[part("fi", "sv", "fi-"), part("", "Latn", "Cyrl"), part("", "standard", "x"), part("", "suomi", "a")] for _ in range(r.randrange(2, 8))]])
        else:
            ops.append(g.operation())
    return dict(ops=ops)


# ---------------------------------------------------------------- execution
def tree():
    """two dictionaries that can be listed: descriptions with all kinds of characters, a directory name that is not ASCII"""
    t = Path(os.environ["VERIF_SCRATCH"]) / ("tree-ä-%d" % os.getpid())
    if not t.exists():
        for name, tag, desc, backend in [("mor-a", "fi-x-other", "kuvaus ÄÖ \U0001f600", "null"), ("mor-b", "sv", "svenska å", "null"), ("mor-c", "se-Latn-x-yksi", "", "null")]:
            d = t / "5" / name
            d.mkdir(parents=True)
            (d / "index.txt").write_text("Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: %s\nMorphology-Backend: %s\nSpeller-Backend: AnalyzerToSpeller\n" % (tag, desc, backend), encoding="utf-8")
    return str(t)


class Runner:
    def __init__(self, st):
        self.st = st
        repo = os.environ.get("VERIF_REPO", "/repo")
        sys.path.insert(0, repo + "/libvoikko/python")
        import libvoikko
        self.m = libvoikko
        libvoikko.Voikko.setLibrarySearchPath(os.environ["VERIF_SHIM"])
        self.shim = C.CDLL(os.environ["VERIF_SHIM"] + "/libvoikko.so.1")
        self.shim.shimProblem.restype = self.shim.shimKinds.restype = C.c_void_p
        self.paths = dict(std=os.environ["VERIF_DICT"], tree=tree(), none=None)

    def fail(self, op, got, want):
        return "%s\n  binding: %r\n  library: %r" % (json.dumps(op), got, want)

    def make(self, lang, path):
        return self.m.Voikko(lang, path)

    def __call__(self, case):
        M = self.m
        objs, refs = {}, {}
        cur = "a"

        def ensure():
            if cur not in objs:
                objs[cur] = M.Voikko("fi", self.paths["std"])
                refs[cur] = B.Ref("fi", self.paths["std"])
        for op in case["ops"]:
            k = op[0]
            self.st.evals += 1
            if k == "use":
                cur = op[1]
            elif k in ("close", "drop"):
                ensure()
                if k == "close":
                    objs[cur].terminate()
                    objs[cur].terminate()
                    for f in (lambda v: v.spell("kissa"), lambda v: v.suggest("kisssa"), lambda v: v.analyze("kissa"), lambda v: v.tokens("kissa"), lambda v: v.sentences("Kissa."), lambda v: v.grammarErrors("Kissa.", "fi"),
                              lambda v: v.getHyphenationPattern("kissa"), lambda v: v.hyphenate("kissa"), lambda v: v.attributeValues("CLASS"), lambda v: v.setIgnoreDot(True), lambda v: v.setMinHyphenatedWordLength(3)):
                        try:
                            x = f(objs[cur])
                        except M.VoikkoException:
                            continue
                        return "use after terminate() gave %r instead of VoikkoException" % (x,)
                del objs[cur]
                refs.pop(cur).close()
                gc.collect()
                self.st.note((k, json.dumps(case["ops"])), k)
            elif k == "open":
                path = self.paths[op[2]]
                try:
                    r = B.Ref(op[1], path)
                    want = None
                except B.InitError as e:
                    r, want = None, str(e)
                try:
                    v = M.Voikko(op[1], path)
                    got = None
                except M.VoikkoException as e:
                    v, got = None, str(e)
                if r:
                    r.close()
                if v:
                    v.terminate()
                if (got is None) != (want is None) or (want and want not in got):
                    return self.fail(op, got, want)
                self.st.note(op, "open")
            elif k == "dicts":
                p = self.paths[op[1]]
                want = B.dicts(p.encode() if p else None)
                got = M.Voikko.listDicts(p) if p else M.Voikko.listDicts()
                g = [[d.language, d.script, d.variant, d.description] for d in got]
                if g != want:
                    return self.fail(op, g, want)
                self.st.note(op, "dicts")
            elif k == "languages":
                p = self.paths[op[2]]
                want = B.languages(op[1], p.encode() if p else None)
                got = getattr(M.Voikko, "listSupported%sLanguages" % op[1])(p)
                if got != want:
                    return self.fail(op, got, want)
                if M.Voikko.getVersion() != B.lib().voikkoGetVersion().decode():
                    return "getVersion"
                self.st.note(op, "languages")
            elif k == "order":
                ds = [M.Dictionary(*x) for x in op[1]]
                for a, x in zip(ds, op[1]):
                    for b, y in zip(ds, op[1]):
                        if (a == b) != (x == y) or (a == b and hash(a) != hash(b)):
                            return "Dictionary equality of %r and %r" % (x, y)
                        if (a < b) + (b < a) + (a == b) != 1 or (a < b) != (x < y):
                            return "Dictionary order of %r and %r" % (x, y)
                self.st.note(op, "order")
            else:
                ensure()
                m = self.step(objs[cur], refs[cur], op)
                if m:
                    return m
            m = self.account(len(objs))
            if m:
                return "after %s: %s" % (json.dumps(op), m)
        for v in objs.values():
            v.terminate()
        for r in refs.values():
            r.close()
        return self.account(0)

    def account(self, handles):
        s = self.shim
        p = C.string_at(s.shimProblem()).decode()
        if p:
            return p
        if s.shimOwned():
            return "not released: " + C.string_at(s.shimKinds()).decode()
        if s.shimHandles() != handles:
            return "%d handles are open instead of %d" % (s.shimHandles(), handles)
        return None

    def answer(self, v, op):
        """what the binding says, as plain values"""
        k = op[0]
        if k == "spell":
            return v.spell(op[1])
        if k == "suggest":
            return v.suggest(op[1])
        if k == "analyze":
            return v.analyze(op[1])
        if k == "pattern":
            return v.getHyphenationPattern(op[1])
        if k == "hyphenate":
            return v.hyphenate(op[1], op[2], op[3]) if (op[2], op[3]) != ("-", True) else v.hyphenate(op[1])
        if k == "tokens":
            return [[t.tokenText, t.tokenType, t.tokenTypeName] for t in v.tokens(op[1])]
        if k == "sentences":
            return [[s.sentenceText, s.nextStartType, s.nextStartTypeName] for s in v.sentences(op[1])]
        if k == "grammar":
            return [[e.errorCode, e.startPos, e.errorLen, e.shortDescription, list(e.suggestions)] for e in v.grammarErrors(op[1], op[2])]
        if k == "attributes":
            return v.attributeValues(op[1])

    def expected(self, r, op):
        k = op[0]
        nul = "\0" in op[1]
        if k == "spell":
            return not nul and r.spell(op[1]) == 1
        if k == "suggest":
            return [] if nul else r.suggest(op[1])
        if k == "analyze":
            return [] if nul else r.analyze(op[1])
        if k == "pattern":
            p = None if nul else r.pattern(op[1])
            return " " * len(op[1]) if p is None else p
        if k == "hyphenate":
            h = None if nul or "\0" in op[2] else r.hyphenate(op[1], op[2], op[3])
            return op[1] if h is None else h
        if k == "tokens":
            out = []
            for i, part in enumerate(op[1].split("\0")):
                if i:
                    out.append(["\0", "UNKNOWN"])
                out += r.tokens(part)
            return [[t, B.TOKENS.index(n), n] for t, n in out]
        if k == "sentences":
            return [[t, B.STARTS.index(n), n] for t, n in ([[op[1], "NONE"]] if nul else r.sentences(op[1]))]
        if k == "grammar":
            out, off = [], 0
            for par in ([] if nul else op[1].split("\n")):
                out += [[c, off + s, l, d, list(x)] for c, s, l, d, x in r.grammar(par, op[2])]
                off += len(par) + 1
            return out
        if k == "attributes":
            return None if nul else r.attributes(op[1])

    def step(self, v, r, op):
        M, k = self.m, op[0]
        if k in ("bool", "int", "rawoption"):
            if k == "rawoption":
                ok = r.boolean(op[2], op[3]) if op[1] == "bool" else r.integer(op[2], op[3])
                f = (lambda: v.setBooleanOption(op[2], bool(op[3]))) if op[1] == "bool" else (lambda: v.setIntegerOption(op[2], op[3]))
            else:
                ok = r.boolean(B.BOOL[op[1]], op[2]) if k == "bool" else r.integer(B.INT[op[1]], op[2])
                f = lambda: getattr(v, "set" + op[1])(op[2])
            try:
                f()
                got = True
            except M.VoikkoException:
                got = False
            return None if got == ok else self.fail(op, got, ok)
        if k == "strategy":
            if op[1] not in ("OCR", "TYPO"):
                try:
                    v.setSuggestionStrategy(op[1])
                except M.VoikkoException:
                    return None
                return "invalid strategy accepted"
            r.boolean(B.OCR, op[1] == "OCR")
            v.setSuggestionStrategy(getattr(M.SuggestionStrategy, op[1]))
            return None
        want = self.expected(r, op)
        got = self.answer(v, op)
        if got != want or type(got) is not type(want):
            return self.fail(op, got, want)
        if want and (k != "pattern" or want.strip()) and (k != "hyphenate" or want != op[1]):
            self.st.note(op, k)
            self.st.sample(op)
        return None


# ---------------------------------------------------------------- called by run.py
def run(pid, tier, seed, cfg, rd, env):
    import vbuild
    d = vbuild.build("plain")
    scratch = vbuild.BUILD / "scratch" / "c16"
    e = dict(env, VERIF_LIBDIR=str(d), VERIF_SHIM=str(vbuild.shim()), VERIF_REAL_LIB=str(d / "libvoikko.so.1"), VERIF_SCRATCH=str(scratch), VERIF_REPO=str(vbuild.REPO), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(B.VERIF / "py"))
    return B.search(pid, [sys.executable, str(Path(__file__).resolve())], cfg[tier], 200 if tier == "quick" else 2400, seed, rd, e, scratch)


if __name__ == "__main__":
    B.worker_main(make_case, Runner)
