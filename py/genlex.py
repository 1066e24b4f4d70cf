#!/usr/bin/env python3
"""Samples word forms from a compiled unweighted dictionary by random walks (used once to make data/lexwords.txt).
usage: genlex.py mor.vfst N seed > words"""
import random, struct, sys

class V:
    def __init__(s, path):
        d = open(path, 'rb').read()
        assert struct.unpack_from('<II', d) == (0x13A6E, 0x351FA) and d[8] == 0
        n, = struct.unpack_from('<H', d, 16)
        p = 18; s.sym = []
        for i in range(n):
            e = d.index(b'\0', p); s.sym.append(d[p:e].decode()); p = e + 1
        p = (p + 7) // 8 * 8
        s.d, s.base = d, p
        s.first = next(i for i in range(1, n) if not s.sym[i].startswith('@'))
        s.cache = {}
    def trans(s, st):
        r = s.cache.get(st)
        if r is None:
            def cell(k): return struct.unpack_from('<HHI', s.d, s.base + 8 * k)
            i, o, x = cell(st); more = x >> 24
            idx = [st]
            if more == 255:
                more = struct.unpack_from('<I', s.d, s.base + 8 * (st + 1))[0] + 1
                idx += range(st + 2, st + more + 1)
            else:
                idx += range(st + 1, st + more + 1)
            r = []
            for k in idx:
                i, o, x = cell(k); r.append((i, o, x & 0xffffff))
            s.cache[st] = r
        return r
    def flag(s, sym, flags):
        t = s.sym[sym][1:-1].split('.')
        op, f = t[0], t[1]; v = t[2] if len(t) > 2 else '@'
        cur = flags.get(f, '')
        if op == 'P': return {**flags, f: v}
        if op == 'C': return {**flags, f: ''}
        if op == 'U':
            if cur: return flags if cur == v else None
            return {**flags, f: v}
        if op == 'R':
            if v == '@': return flags if cur else None
            return flags if cur == v else None
        if op == 'D':
            if (v == '@' and cur) or cur == v: return None
            return flags

def walk(v, rng, maxlen):
    budget = [3000]
    def go(st, flags, word, out, depth):
        budget[0] -= 1
        if budget[0] < 0 or len(word) > maxlen or depth > 120: return None
        ts = list(v.trans(st)); rng.shuffle(ts)
        fin = [t for t in ts if t[0] == 0xffff]
        rest = [t for t in ts if t[0] != 0xffff]
        if fin and (not rest or rng.random() < 0.6): return word, out
        for i, o, tgt in rest:
            f2, w2 = flags, word
            if i < v.first:
                if i:
                    f2 = v.flag(i, flags)
                    if f2 is None: continue
            else: w2 = word + v.sym[i]
            r = go(tgt, f2, w2, out + (v.sym[o] if o >= v.first else ''), depth + 1)
            if r: return r
            if budget[0] < 0: return None
        return (word, out) if fin else None
    return go(0, {}, '', '', 0)

if __name__ == '__main__':
    import re
    v = V(sys.argv[1]); rng = random.Random(int(sys.argv[3])); N = int(sys.argv[2])
    seen = {}; feats = {}
    tries = 0
    while len(seen) < N and tries < N * 40:
        tries += 1
        r = walk(v, rng, rng.choice([6, 10, 15, 20, 30, 40]))
        if not r or not r[0] or r[0] in seen: continue
        # without the names of the lexemes, what the analysis consists of
        sig = re.sub(r'\[X[a-z]\].*?\[X\]', '', r[1]); sig = re.sub(r'[^\[\]]+(?=\[|$)', '', re.sub(r'\[', '[', sig)) if 0 else ' '.join(re.findall(r'\[[^\]]*\]', sig))
        if feats.get(sig, 0) >= 12: continue
        feats[sig] = feats.get(sig, 0) + 1
        seen[r[0]] = r[1]
    for w in sorted(seen): print(w)
    sys.stderr.write('%d words, %d signatures, %d tries\n' % (len(seen), len(feats), tries))
