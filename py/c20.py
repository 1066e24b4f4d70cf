"""C20: the JavaScript binding answers what the library answers (executed by node in an emulated Emscripten runtime whose native functions are the library's)"""
import ctypes as C, json, os, select, subprocess, sys
from pathlib import Path
import bindlib as B
import c17
from c16 import tree

MAXWAIT = 40
NOSUCH = 2 ** 64 - 1


def make_case(r):
    g = B.Gen(r)
    ops = []
    for _ in range(r.choice([3, 6, 10, 16])):
        k = r.random()
        if k < .06:
            ops.append(["use", r.choice(["a", "b"])])
        elif k < .09:
            ops.append(["close"])
        elif k < .12:
            ops.append(["open", r.choice(["fi", "fi-x-standard", "fi-x-other", "xx", "fi_FI", "fi-x-ei", "sv"]), r.choice(["std", "tree", "none"])])
        elif k < .13:
            ops.append(["strategy", r.choice(["X", "ocr"])])
        else:
            o = c17.operation(g)
            if o[0] == "int" and o[1] == "SpellerCacheSize":    # not in this binding
                continue
            ops.append(o)
    return dict(ops=ops or [["spell", "kissa"]])


class Server:
    """the native side: executes calls of the harness with the library's UTF-8 interface"""
    def __init__(self):
        self.handles, self.errors, self.next = {}, {}, 1

    def call(self, name, *a):
        L = B.lib()
        a = [x.encode("latin-1") if isinstance(x, str) else x for x in a]
        if name == "init":
            e = B.S()
            h = L.voikkoInit(C.byref(e), a[0], a[1])
            if e.value is not None:
                return B.u8(e.value)
            self.next += 1
            self.handles[self.next] = h
            return self.next
        if name == "describe":
            d = L.voikkoGetGrammarErrorShortDescription(self.errors[a[0]], a[1])
            r = B.u8(C.string_at(d))
            L.voikkoFreeErrorMessageCstr(d)
            return r
        if name == "freeerror":
            L.voikkoFreeGrammarError(self.errors.pop(a[0]))
            return None
        h = self.handles[a[0]]
        if name == "terminate":
            L.voikkoTerminate(h)
            del self.handles[a[0]]
            return None
        if name == "bool":
            return L.voikkoSetBooleanOption(h, a[1], a[2])
        if name == "int":
            return L.voikkoSetIntegerOption(h, a[1], a[2])
        if name == "spell":
            return L.voikkoSpellCstr(h, a[1])
        if name in ("suggest", "attributes"):
            p = (L.voikkoSuggestCstr if name == "suggest" else L.voikkoGetAttributeValues)(h, a[1])
            if not p:
                return None
            r = B.arr(p, B.u8)
            L.voikkoFreeCstrArray(C.cast(p, B.P))
            return r
        if name in ("pattern", "hyphenate"):
            p = L.voikkoHyphenateCstr(h, a[1]) if name == "pattern" else L.voikkoInsertHyphensCstr(h, a[1], a[2], a[3])
            if not p:
                return None
            r = B.u8(C.string_at(p))
            L.voikkoFreeCstr(p)
            return r
        if name in ("token", "sentence"):
            n = B.Z(NOSUCH)
            k = (L.voikkoNextTokenCstr if name == "token" else L.voikkoNextSentenceStartCstr)(h, a[1], len(a[1]), C.byref(n))
            return [k, None if n.value == NOSUCH else n.value]
        if name == "error":
            e = L.voikkoNextGrammarErrorCstr(h, a[1], len(a[1]), a[2], a[3])
            if not e:
                return None
            self.next += 1
            self.errors[self.next] = e
            s = L.voikkoGetGrammarErrorSuggestions(e)
            return dict(id=self.next, code=L.voikkoGetGrammarErrorCode(e), start=L.voikkoGetGrammarErrorStartPos(e), length=L.voikkoGetGrammarErrorLength(e), suggestions=B.arr(s, B.u8) if s else None)
        if name == "analyze":
            p = L.voikkoAnalyzeWordCstr(h, a[1])
            if not p:
                return None

            def value(x, k):
                v = L.voikko_mor_analysis_value_cstr(x, k)
                r = B.u8(C.string_at(v))
                L.voikko_free_mor_analysis_value_cstr(v)
                return r
            r = B.arr(p, lambda x: [[B.u8(k), value(x, k)] for k in B.arr(L.voikko_mor_analysis_keys(x))])
            L.voikko_free_mor_analysis(C.cast(p, B.P))
            return r
        raise RuntimeError(name)


def expected(r, op):
    if op[0] != "tokens":
        return c17.expected(r, op)
    out, part = [], ""
    for c in op[1] + "\0":
        if c == "\0" or c17.bad(c):
            out += r.tokens(part)
            out.append([c, "UNKNOWN"])
            part = ""
        else:
            part += c
    return out[:-1]


class Runner:
    def __init__(self, st):
        self.st = st
        self.p = None
        self.server = Server()
        self.paths = dict(std=os.environ["VERIF_DICT"], tree=tree(), none=None)

    def ask(self, *op):
        if self.p is None:
            self.p = subprocess.Popen(["node", "--max-old-space-size=600", str(B.VERIF / "js" / "harness.js"), os.environ["VERIF_REPO"] + "/libvoikko/js/libvoikko_api.js"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0, stderr=subprocess.DEVNULL)
            self.buf = b""
        self.send(op)
        calls = 0
        while True:
            l = self.receive()
            if l.startswith("C"):
                calls += 1
                if calls > 20000:
                    self.p.kill()
                    raise RuntimeError("the binding does not stop calling the library")
                self.send(self.server.call(*json.loads(l[1:])))
            else:
                return json.loads(l[1:])

    def send(self, x):
        self.p.stdin.write(json.dumps(x).encode() + b"\n")

    def receive(self):
        while b"\n" not in self.buf:
            if not select.select([self.p.stdout], [], [], MAXWAIT)[0]:
                self.p.kill()
                raise RuntimeError("no answer from node in %d s" % MAXWAIT)
            x = os.read(self.p.stdout.fileno(), 1 << 16)
            if not x:
                raise RuntimeError("node ended with status %s" % self.p.wait())
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("ascii")

    def __call__(self, case):
        refs = {}
        try:
            return self.execute(case, refs)
        except (RuntimeError, BrokenPipeError) as e:
            return str(e)
        finally:
            for r in refs.values():
                r.close()

    fail = c17.Runner.fail

    def account(self, handles):
        p, owned, h, kinds = self.ask("account")
        if p:
            return p
        if owned:
            return "not released: " + kinds
        if h != handles:
            return "%d handles are open instead of %d" % (h, handles)

    def execute(self, case, refs):
        cur = "a"

        def ensure():
            if cur not in refs:
                if self.ask("open", cur, "fi", self.paths["std"]) is not True:
                    raise RuntimeError("could not open")
                refs[cur] = B.Ref("fi", self.paths["std"])
        for op in case["ops"]:
            k = op[0]
            self.st.evals += 1
            if k == "use":
                cur = op[1]
            elif k == "close":
                ensure()
                self.ask("terminate", cur)
                self.ask("terminate", cur)
                for o in (["spell", cur, "kissa"], ["suggest", cur, "kisssa"], ["analyze", cur, "kissa"], ["tokens", cur, "kissa"], ["sentences", cur, "Kissa."], ["grammar", cur, "Kissa.", "fi"], ["pattern", cur, "kissa"],
                          ["hyphenate", cur, "kissa", "-", True], ["attributes", cur, "CLASS"], ["bool", cur, "IgnoreDot", True], ["int", cur, "MinHyphenatedWordLength", 3], ["strategy", cur, "OCR"]):
                    x = self.ask(*o)
                    if not isinstance(x, dict) or "terminate" not in x.get("exception", ""):
                        return "%s after terminate() gave %r instead of an exception" % (o[0], x)
                self.ask("forget", cur)
                refs.pop(cur).close()
                self.st.note(json.dumps(case["ops"]), k)
            elif k == "open":
                path = self.paths[op[2]]
                try:
                    B.Ref(op[1], path).close()
                    want = True
                except B.InitError as e:
                    want = {"exception": str(e)}
                got = self.ask("open", "x", op[1], path)
                if got is True:
                    self.ask("terminate", "x")
                    self.ask("forget", "x")
                if got != want:
                    return self.fail(op, got, want)
                self.st.note(op, "open")
            elif k in ("bool", "int", "strategy"):
                ensure()
                r = refs[cur]
                ok = r.boolean(B.BOOL[op[1]], op[2]) if k == "bool" else r.integer(B.INT[op[1]], op[2]) if k == "int" else op[1] in ("OCR", "TYPO") and r.boolean(B.OCR, op[1] == "OCR")
                got = self.ask(k, cur, *op[1:])
                if (got is True) != ok:
                    return self.fail(op, got, ok)
            else:
                ensure()
                want = expected(refs[cur], op)
                got = self.ask(k, cur, *op[1:])
                if got != want or type(got) is not type(want):
                    return self.fail(op, got, want)
                if want and (k != "pattern" or want.strip()) and (k != "hyphenate" or want != op[1]):
                    self.st.note(op, k)
                    self.st.sample(op)
            m = self.account(len(refs))
            if m:
                return "after %s: %s" % (json.dumps(op), m)
        for name in list(refs):
            self.ask("terminate", name)
            self.ask("forget", name)
        return self.account(0)


def run(pid, tier, seed, cfg, rd, env):
    import vbuild
    d = vbuild.build("plain")
    scratch = vbuild.BUILD / "scratch" / "c20"
    e = dict(env, VERIF_LIBDIR=str(d), VERIF_SCRATCH=str(scratch), VERIF_REPO=str(vbuild.REPO), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(B.VERIF / "py"))
    return B.search(pid, [sys.executable, str(Path(__file__).resolve())], cfg[tier], 240 if tier == "quick" else 2400, seed, rd, e, scratch)


if __name__ == "__main__":
    B.worker_main(make_case, Runner)
