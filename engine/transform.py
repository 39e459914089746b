#!/usr/bin/env python3
"""Token-level source transformation used for the symbolic build.

The text of /repo/src (and of the harnesses) is copied with exactly these changes, on tokens only
(never inside comments, string or character literals, or #include lines):
  * the type names `double` / `float` (and `long double`)  ->  SymD
  * floating point literals L                               ->  SymD(L)
and, when --strings is given,
  * std::string, std::[io]stringstream, std::ifstream, std::getline ... -> their symbolic counterparts (sx::...)
Nothing else is touched: control flow, containers, exceptions, algorithms are the real code.
"""
import re, sys

TOK = re.compile(r'''
   (?P<raw>R"(?P<d>[^()\\\s]*)\(.*?\)(?P=d)")
 | (?P<com>//[^\n]*|/\*.*?\*/)
 | (?P<str>"(?:\\.|[^"\\\n])*")
 | (?P<chr>'(?:\\.|[^'\\\n])+')
 | (?P<inc>^[ \t]*\#[ \t]*include[^\n]*)
 | (?P<flt>(?<![\w.])(?:\d[\d']*\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)[fFlL]?)
 | (?P<num>(?<![\w.])\d[\w']*)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<ws>\s+)
 | (?P<oth>.)
''', re.X | re.S | re.M)

STRINGS = {"string", "istringstream", "stringstream", "ostringstream", "ifstream", "getline",
           "ofstream", "wstring_NOT"}

def transform(text, strings=False):
    out = []
    toks = [(m.lastgroup if m.lastgroup != 'd' else 'raw', m.group()) for m in TOK.finditer(text)]
    i = 0
    n = len(toks)
    def nxt(j):
        j += 1
        while j < n and toks[j][0] in ('ws', 'com'):
            j += 1
        return j
    while i < n:
        k, t = toks[i]
        if k == 'flt':
            out.append('SymD(%s)' % t)
        elif k == 'id' and t in ('double', 'float'):
            out.append('SymD')
        elif k == 'id' and t == 'long':
            j = nxt(i)
            if j < n and toks[j] == ('id', 'double'):
                out.append('SymD'); i = j
            else:
                out.append(t)
        elif strings and k == 'id' and t == 'std':
            # std :: NAME
            j = nxt(i)
            if j < n and toks[j][1] == ':' :
                j2 = nxt(j)
                if j2 < n and toks[j2][1] == ':':
                    j3 = nxt(j2)
                    if j3 < n and toks[j3][0] == 'id' and toks[j3][1] in STRINGS:
                        out.append('sx::' + toks[j3][1]); i = j3
                        i += 1
                        continue
            out.append(t)
        else:
            out.append(t)
        i += 1
    return ''.join(out)

if __name__ == "__main__":
    strings = "--strings" in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    with open(a[0], encoding="utf-8", errors="surrogateescape") as f:
        text = f.read()
    with open(a[1], "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(transform(text, strings))
