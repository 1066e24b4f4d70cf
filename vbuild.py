#!/usr/bin/env python3
"""Builds everything the checks need from /repo's current working tree into /verif/build.

Nothing is taken from /repo/_build: a check must see the current sources, and
/opt/vp/build.sh is not rerun before it.  ninja gives incremental builds; a
content hash of the sources guards against mtime confusion.
"""
import fcntl, hashlib, lzma, os, shutil, subprocess, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", str(VERIF / "build")))
SRC = REPO / "libvoikko" / "src"
# not part of the configuration the project builds here (vislcg3, lttoolbox)
EXCLUDE = {"CgGrammarChecker.cpp", "CgRuleEngine.cpp", "LttoolboxAnalyzer.cpp", "V4DictionaryLoader.cpp"}
TOOLS = ["voikkospell", "voikkohyphenate", "voikkogc", "voikkovfstc"]

SAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,shift-base"
FLAVORS = {
    # name: (compiler, cxxflags, ldflags)
    "asan": ("clang++", SAN, "-fsanitize=address,undefined"),
    "fuzz": ("clang++", SAN + " -fsanitize=fuzzer-no-link", "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -g -fsanitize=thread", "-fsanitize=thread"),
    "plain": ("g++", "-O2 -g -fPIC", ""),
}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (cmd, r.stdout[-8000:]))
        raise SystemExit(2)
    return r.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        root = Path(root)
        files = [root] if root.is_file() else sorted(p for p in root.rglob("*") if p.is_file() and "__pycache__" not in p.parts)
        for f in files:
            h.update(str(f).encode() + b"\0")
            h.update(f.read_bytes())
            h.update(b"\0")
    return h.hexdigest()


def lib_sources():
    out = []
    for p in sorted(SRC.rglob("*.cpp")):
        if "tools" in p.relative_to(SRC).parts or p.name in EXCLUDE:
            continue
        out.append(p)
    return out


class Lock:
    def __init__(self, name):
        BUILD.mkdir(parents=True, exist_ok=True)
        self.path = BUILD / (name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(flavor, checks=(), tools=()):
    """Returns the build directory of the flavor with the library, the named
    check programs (from /verif/checks/*.cpp) and the named command line tools built."""
    cxx, cflags, ldflags = FLAVORS[flavor]
    d = BUILD / flavor
    with Lock(flavor):
        d.mkdir(parents=True, exist_ok=True)
        srcs = lib_sources()
        common = "-std=gnu++17 -DHAVE_CONFIG_H -I%s -I%s -w" % (VERIF / "cfg", SRC)
        n = ["ninja_required_version = 1.5", "cxx = " + cxx, "cflags = %s %s" % (common, cflags), "ldflags = " + ldflags,
             "rule cxx", "  command = $cxx $cflags $xflags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar rcs $out $in",
             "rule so", "  command = $cxx -shared -Wl,-soname,libvoikko.so.1 $ldflags -o $out $in -lhfstospell -lpthread",
             "rule link", "  command = $cxx $ldflags -o $out $in $libs -lhfstospell -lpthread"]
        objs = []
        for s in srcs:
            o = "obj/" + str(s.relative_to(SRC)).replace("/", "__")[:-4] + ".o"
            objs.append(o)
            n.append("build %s: cxx %s" % (o, s))
            n.append("  xflags = -fvisibility=hidden")
        n.append("build libvoikko.a: ar " + " ".join(objs))
        n.append("build libvoikko.so.1: so " + " ".join(objs))
        targets = ["libvoikko.a"]
        if flavor == "plain":
            targets.append("libvoikko.so.1")
        for t in TOOLS:
            n.append("build obj/tool_%s.o: cxx %s" % (t, SRC / "tools" / (t + ".cpp")))
            n.append("build %s: link obj/tool_%s.o libvoikko.a" % (t, t))
            if t in tools:
                targets.append(t)
        for c in sorted(p.stem for p in (VERIF / "checks").glob("*.cpp")):
            n.append("build obj/check_%s.o: cxx %s" % (c, VERIF / "checks" / (c + ".cpp")))
            n.append("  xflags = -I%s" % (VERIF / "lib") + (" -DPBT_FUZZ" if flavor == "fuzz" else ""))
            n.append("build %s: link obj/check_%s.o libvoikko.a" % (c, c))
            if flavor == "fuzz":
                n.append("  ldflags = " + ldflags + " -fsanitize=fuzzer")
            if c in checks:
                targets.append(c)
        # a source whose content changed without a newer mtime (checkouts, copies) must be rebuilt too
        sig = tree_hash(SRC)
        stamp = d / "src.sha"
        old = stamp.read_text() if stamp.exists() else ""
        if old and old != sig:
            known = dict(l.split(" ", 1) for l in (d / "files.sha").read_text().splitlines()) if (d / "files.sha").exists() else {}
            headers_changed = False
            cur = {}
            for f in sorted(SRC.rglob("*")):
                if f.is_file():
                    cur[str(f)] = hashlib.sha256(f.read_bytes()).hexdigest()
            for f, h in cur.items():
                if known.get(f) != h:
                    if f.endswith(".cpp"):
                        rel = os.path.relpath(f, SRC)
                        o = d / "obj" / ((("tool_" + os.path.basename(f)[:-4]) if rel.startswith("tools/") else rel.replace("/", "__")[:-4]) + ".o")
                        if o.exists():
                            o.unlink()
                    else:
                        headers_changed = True
            if headers_changed:
                shutil.rmtree(d / "obj", ignore_errors=True)
        (d / "files.sha").write_text("".join("%s %s\n" % (f, hashlib.sha256(f.read_bytes()).hexdigest())
                                             for f in sorted(SRC.rglob("*")) if f.is_file()))
        (d / "build.ninja").write_text("\n".join(n) + "\n")
        sh(["ninja", "-C", str(d)] + targets)
        stamp.write_text(sig)
    return d


def shim():
    """Builds the accounting stand-in for libvoikko.so.1 used in the checks of the language bindings and returns its directory."""
    d = BUILD / "shim"
    with Lock("shim"):
        d.mkdir(parents=True, exist_ok=True)
        src = VERIF / "shim" / "vshim.cpp"
        sig = tree_hash(src)
        stamp = d / "stamp"
        if not (stamp.exists() and stamp.read_text() == sig):
            sh(["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fvisibility=hidden", "-Wl,-soname,libvoikko.so.1", "-o", str(d / "libvoikko.so.1"), str(src), "-ldl"])
            stamp.write_text(sig)
    return d


def dicts():
    """Builds the dictionary directories from the current tree:
    dicts/standard  full Finnish lexicon (Debian's mor.vfst) + this tree's autocorrect data
    dicts/dev, dicts/sukija  lexicons with generated vocabularies (data/, made by dev/mkdicts.py from ref/) + this tree's autocorrect data
    """
    d = BUILD / "dicts"
    plain = build("plain", tools=TOOLS)
    with Lock("dicts"):
        vf = REPO / "voikko-fi"
        sig = tree_hash(vf / "vocabulary" / "autocorrect", vf / "vvfst", plain / "voikkovfstc", Path(__file__), VERIF / "data" / "dev", VERIF / "data" / "sukija")
        stamp = d / "stamp"
        if stamp.exists() and stamp.read_text() == sig:
            return d
        shutil.rmtree(d, ignore_errors=True)
        import xml.etree.ElementTree as ET
        lists = dict(standard=vf / "vocabulary" / "autocorrect" / "fi.xml", dev=VERIF / "data" / "dev" / "autocorrect.xml")
        for name, x in lists.items():
            w = d / "work" / name
            w.mkdir(parents=True)
            sh(["python3", str(vf / "vvfst" / "autocorrect_to_lexc.py"), str(x), str(w / "autocorrect.lexc")])
            (w / "autocorrect.foma").write_text((vf / "vvfst" / "autocorrect.foma.in").read_text().replace("VVFST_BUILDDIR", str(w)))
            sh(["foma", "-f", str(w / "autocorrect.foma")])
            sh("LC_ALL=C.UTF-8 sort -n %s/autocorrect.att | %s/voikkovfstc -o %s/autocorr.vfst" % (w, plain, w), shell=True)
            with open(w / "phrases.txt", "w", encoding="utf-8") as f:
                for r in ET.parse(x).getroot().iter("replacement"):
                    f.write("%s\t%s\n" % (r.find("incorrect").text.replace("=", ""), r.find("correct").text.replace("=", "")))
        shutil.copy(d / "work/standard/phrases.txt", d)
        for name in ["standard", "dev", "sukija"]:
            t = d / name / "5" / "mor-standard"
            t.mkdir(parents=True)
            if name == "standard":
                shutil.copy("/usr/lib/voikko/5/mor-standard/mor.vfst", t)
            else:
                (t / "mor.vfst").write_bytes(lzma.decompress((VERIF / "data" / name / "mor.vfst.xz").read_bytes()))
            w = d / "work" / (name if name in lists else "standard")
            shutil.copy(w / "autocorr.vfst", t)
            shutil.copy(w / "phrases.txt", d / name)
            idx = (vf / "vvfst" / "index.txt.in").read_text()
            idx = idx.replace("SM_VOIKKO_VARIANT", "standard").replace("SM_VOIKKO_DESCRIPTION", "suomi")
            (t / "index.txt").write_text(idx)
        stamp.write_text(sig)
    return d


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["asan"]:
        print(dicts() if fl == "dicts" else build(fl, checks=[p.stem for p in (VERIF / "checks").glob("*.cpp")], tools=TOOLS))
