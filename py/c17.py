"""C17: the Java binding answers what the library answers (generated histories of operations, also from several threads on one object)"""
import json, os, subprocess, sys
from pathlib import Path
import bindlib as B
from c16 import tree

MAXWAIT = 40

DEFAULTS = dict(dict.fromkeys(B.BOOL, False), AcceptFirstUppercase=True, AcceptAllUppercase=True, IgnoreNonwords=True, HyphenateUnknownWords=True, MinHyphenatedWordLength=2, SpellerCacheSize=0, strategy="TYPO")


# ---------------------------------------------------------------- generation
def operation(g):
    while True:
        o = g.operation()
        if o[0] == "attributes" and not all(ord(c) < 128 for c in o[1]):
            continue
        if o[0] == "pattern" and any(ord(c) > 0xffff for c in o[1]):
            continue    # one character of the pattern for each code point: says nothing about UTF-16 units
        if g.r.random() < .04 and o[0] not in ("bool", "int", "strategy"):
            i = g.r.randrange(len(o[1]) + 1)
            o[1] = o[1][:i] + g.r.choice("\ufffe\uffff") + o[1][i:]
        return o


def make_case(r):
    g = B.Gen(r)
    ops = []
    for _ in range(r.choice([3, 6, 10, 16])):
        k = r.random()
        if k < .06:
            ops.append(["use", r.choice(["a", "b"])])
        elif k < .08:
            ops.append(["close"])
        elif k < .082:
            ops.append(["drop"])
        elif k < .10:
            ops.append(["open", r.choice(["fi", "fi-x-standard", "fi-x-other", "xx", "fi_FI", "fi-x-ei", "sv"]), r.choice(["std", "tree", "none"])])
        elif k < .13:
            ops.append(["dicts", r.choice(["std", "tree", "none"])])
        elif k < .15:
            part = lambda *x: r.choice(x)
            ops.append(["order"] + [part("fi", "sv", "fi-"), part("", "Latn"), part("", "standard", "x"), part("", "suomi")] + [part("fi", "sv", "fi-"), part("", "Latn"), part("", "standard", "x"), part("", "suomi")])
        elif k < .19:
            l = []
            while len(l) < r.randrange(2, 6):
                o = operation(g)
                if o[0] in ("bool", "int", "strategy"):
                    o[-1] = None    # sets the option to the value it has
                l.append(o)
            if r.random() < .25:
                l.append(["terminate"])
            ops.append(["threads", r.choice([2, 5, 12])] + l)
        else:
            ops.append(operation(g))
    return dict(ops=ops)


# ---------------------------------------------------------------- execution
def units(s):
    return len(s.encode("utf-16-le", "surrogatepass")) // 2


def hexed(s):
    return "~" if s is None else "=" + s.encode("utf-16-be", "surrogatepass").hex()


def bad(s):
    return "\ufffe" in s or "\uffff" in s


def expected(r, op):
    """the documented answer in Java's terms; characters the UTF-8 interface refuses are unknown tokens and make other answers empty"""
    k, t = op[0], op[1]
    no = "\0" in t or bad(t)
    if k == "spell":
        return not no and r.spell(t) == 1
    if k == "suggest":
        return [] if no else r.suggest(t)
    if k == "analyze":
        return [] if no else r.analyze(t)
    if k == "pattern":
        p = None if no else r.pattern(t)
        return " " * units(t) if p is None else p
    if k == "hyphenate":
        h = None if no or "\0" in op[2] else r.hyphenate(t, op[2], op[3])
        return t if h is None else h
    if k == "tokens":
        out, part, pos = [], "", 0

        def flush():
            nonlocal part, pos
            for x, n in r.tokens(part):
                out.append([x, n, B.TOKENS.index(n), pos, pos + len(x)])
                pos += len(x)
            part = ""
        for c in t:
            u = c.encode("utf-16-be", "surrogatepass")
            if c == "\0" or bad(c) or len(u) == 4:
                flush()
                for i in range(0, len(u), 2):
                    out.append([chr(int.from_bytes(u[i:i + 2], "big")), "UNKNOWN", 4, pos, pos + 1])
                    pos += 1
            else:
                part += c
        flush()
        return out
    if k == "sentences":
        if not t:
            return []
        if "\0" in t:
            return [[t, "NONE"]]
        out = []
        # the rest of the text is examined with every sentence: as long as it has a refused character it is one piece
        return [[t, "NONE"]] if bad(t) else [[x, n] for x, n in r.sentences(t)]
    if k == "grammar":
        if "\0" in t:
            return []
        out, off = [], 0
        for par in t.replace("\r", "\n").split("\n"):
            for c, s, l, d, x in ([] if bad(par) else r.grammar(par, op[2])):
                out.append([c, off + units(par[:s]), units(par[s:s + l]), d, x])
            off += units(par) + 1
        return out
    if k == "attributes":
        return None if no else r.attributes(t)


def line(op, name):
    k = op[0]
    a = [k] + ([name] if name else [])
    if k == "hyphenate":
        a += [hexed(op[1]), hexed(op[2]), "1" if op[3] else "0"]
    elif k == "grammar":
        a += [hexed(op[1]), hexed(op[2])]
    elif k == "bool":
        a += [op[1], "1" if op[2] else "0"]
    elif k in ("int", "strategy"):
        a += [str(x) for x in op[1:]]
    else:
        a += [hexed(x) for x in op[1:]]
    return " ".join(a)


class Runner:
    def __init__(self, st):
        self.st = st
        self.p = None
        self.paths = dict(std=os.environ["VERIF_DICT"], tree=tree(), none=None)

    def start(self):
        self.p = subprocess.Popen(["java", "-Xmx512m", "-XX:+UseSerialGC", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-Dfile.encoding=" + os.environ.get("VERIF_JENC", "UTF-8"), "-Djna.tmpdir=" + os.environ["VERIF_SCRATCH"],
                                   "-cp", os.environ["VERIF_CP"], "Harness"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, *lines):
        for l in lines:
            self.p.stdin.write(l + "\n")
        self.p.stdin.flush()
        import select
        if not select.select([self.p.stdout], [], [], MAXWAIT)[0]:
            self.p.kill()
            raise RuntimeError("no answer from Java in %d s" % MAXWAIT)
        a = self.p.stdout.readline()
        if not a:
            raise RuntimeError("the Java process ended with status %s" % self.p.wait())
        return json.loads(a)

    def __call__(self, case):
        if self.p is None:
            self.start()
        refs = {}
        try:
            return self.execute(case, refs)
        except RuntimeError as e:
            return str(e)
        except BrokenPipeError:
            return "the Java process ended with status %s" % self.p.wait()
        finally:
            for r in refs.values():
                r.close()

    def fail(self, op, got, want):
        return "%s\n  binding: %r\n  library: %r" % (json.dumps(op), got, want)

    def account(self, handles):
        p, owned, h, kinds = self.ask("account")
        if p:
            return p
        if owned:
            return "not released: " + kinds
        if h != handles:
            return "%d handles are open instead of %d" % (h, handles)

    def execute(self, case, refs):
        cur, options = "a", {}

        def ensure():
            if cur not in refs:
                if self.ask("open %s %s %s" % (cur, hexed("fi"), hexed(self.paths["std"]))) is not True:
                    raise RuntimeError("could not open")
                refs[cur] = B.Ref("fi", self.paths["std"])
        for op in case["ops"]:
            k = op[0]
            self.st.evals += 1
            if k == "use":
                cur = op[1]
            elif k == "close":
                ensure()
                self.ask("terminate " + cur)
                self.ask("terminate " + cur)
                for o in (["spell", "kissa"], ["suggest", "kisssa"], ["analyze", "kissa"], ["tokens", "kissa"], ["sentences", "Kissa."], ["grammar", "Kissa.", "fi"], ["pattern", "kissa"], ["hyphenate", "kissa", "-", True],
                          ["hyphenate", "kissa", "=", False], ["attributes", "CLASS"], ["bool", "IgnoreDot", True], ["int", "MinHyphenatedWordLength", 3], ["strategy", "OCR"]):
                    x = self.ask(line(o, cur))
                    if x != {"exception": "VoikkoException"}:
                        return "%s after terminate() gave %r instead of VoikkoException" % (o[0], x)
                self.ask("forget " + cur)
                refs.pop(cur).close()
                options = {x: v for x, v in options.items() if x[0] != cur}
                self.st.note(json.dumps(case["ops"]), k)
            elif k == "drop":
                ensure()
                self.ask("forget " + cur)
                refs.pop(cur).close()
                options = {x: v for x, v in options.items() if x[0] != cur}
                h = self.ask("finalized %d" % len(refs))
                if h != len(refs):
                    return "an object nobody refers to keeps its handle"
                self.st.note(json.dumps(case["ops"]), k)
            elif k == "open":
                path = self.paths[op[2]]
                try:
                    r = B.Ref(op[1], path)
                    r.close()
                    want = True
                except B.InitError as e:
                    want = {"exception": "VoikkoException: " + str(e)}
                got = self.ask("open x %s %s" % (hexed(op[1]), hexed(path)))
                if got is True:
                    self.ask("terminate x")
                    self.ask("forget x")
                if got != want:
                    return self.fail(op, got, want)
                self.st.note(op, "open")
            elif k == "dicts":
                p = self.paths[op[1]]
                want = B.dicts(p.encode() if p else None)
                got = self.ask("dicts " + hexed(p))
                if got != want:
                    return self.fail(op, got, want)
                self.st.note(op, "dicts")
            elif k == "order":
                a, b = op[1:5], op[5:9]
                sign, eq, hsame = self.ask(line(op, None))
                if sign != (a > b) - (a < b) or eq != (a == b) or (eq and not hsame):
                    return "order of %r and %r: %d, equals %s, same hash %s" % (a, b, sign, eq, hsame)
                self.st.note(op, "order")
            elif k == "threads":
                ensure()
                lines, want = [], []
                for o in op[2:]:
                    if o[0] in ("bool", "int", "strategy"):
                        key = (cur, o[0]) if o[0] == "strategy" else (cur, o[1])
                        lines.append(line(o[:-1] + [options.get(key, DEFAULTS.get(key[1]))], None))
                        want.append(True)
                    else:
                        lines.append(line(o, None))
                        want.append(True if o[0] == "terminate" else expected(refs[cur], o))
                ends = ["terminate"] in op[2:]
                if not want:
                    continue
                got = self.ask("threads %s %d %d" % (cur, op[1], len(want)), *lines)
                for o, g, w in zip(op[2:], got, want):
                    if any(x != w and not (ends and o[0] != "terminate" and x == {"exception": "VoikkoException"}) for x in g):
                        return self.fail(op, got, want)
                if ends:
                    self.ask("forget " + cur)
                    refs.pop(cur).close()
                    options = {x: v for x, v in options.items() if x[0] != cur}
                if any(want):
                    self.st.note(op, "threads-terminate" if ends else "threads")
            elif k in ("bool", "int", "strategy"):
                ensure()
                r = refs[cur]
                ok = r.boolean(B.BOOL[op[1]], op[2]) if k == "bool" else r.integer(B.INT[op[1]], op[2]) if k == "int" else r.boolean(B.OCR, op[1] == "OCR")
                want = True if ok else {"exception": "VoikkoException"}
                if ok:
                    options[(cur, k) if k == "strategy" else (cur, op[1])] = op[-1]
                got = self.ask(line(op, cur))
                if got != want:
                    return self.fail(op, got, want)
            else:
                ensure()
                want = expected(refs[cur], op)
                got = self.ask(line(op, cur))
                if got != want or type(got) is not type(want):
                    return self.fail(op, got, want)
                if want and (k != "pattern" or want.strip()) and (k != "hyphenate" or want != op[1]):
                    self.st.note(op, k)
                    self.st.sample(op)
            m = self.account(len(refs))
            if m:
                return "after %s: %s" % (json.dumps(op), m)
        for name in list(refs):
            self.ask("terminate " + name)
            self.ask("forget " + name)
        return self.account(0)


# ---------------------------------------------------------------- called by run.py
def classes(vbuild):
    """compiles the binding and the harness"""
    src = vbuild.REPO / "libvoikko" / "java" / "src" / "main" / "java"
    d = vbuild.BUILD / "java"
    with vbuild.Lock("java"):
        sig = vbuild.tree_hash(src, B.VERIF / "java")
        stamp = d / "stamp"
        if not (stamp.exists() and stamp.read_text() == sig):
            import shutil
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir(parents=True)
            vbuild.sh(["javac", "-nowarn", "--release", "8", "-encoding", "UTF-8", "-cp", JNA, "-d", str(d)] + [str(f) for f in sorted(src.rglob("*.java")) if f.name != "package-info.java"] + [str(B.VERIF / "java" / "Harness.java")])
            stamp.write_text(sig)
    return d


JNA = "/usr/share/java/jna.jar"


def run(pid, tier, seed, cfg, rd, env):
    import vbuild
    d = vbuild.build("plain")
    scratch = vbuild.BUILD / "scratch" / "c17"
    e = dict(env, VERIF_LIBDIR=str(d), VERIF_SHIM=str(vbuild.shim()), VERIF_REAL_LIB=str(d / "libvoikko.so.1"), VERIF_SCRATCH=str(scratch), VERIF_REPO=str(vbuild.REPO), VERIF_CP="%s:%s" % (JNA, classes(vbuild)),
             PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(B.VERIF / "py"))
    return B.search(pid, [sys.executable, str(Path(__file__).resolve())], cfg[tier], 240 if tier == "quick" else 2400, seed, rd, e, scratch)


if __name__ == "__main__":
    B.worker_main(make_case, Runner)
