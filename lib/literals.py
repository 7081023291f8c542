"""Literals of nanoserde's source that the committed baseline does not have: hints for the input generators.

The search generates from fixed distributions; a change may only show at a value its own text names (a length, a
character, a keyword).  `new(repo)` lists the integer, character and string literals that occur more often in a source
file than they did when the baseline was written.  On the unchanged tree the list is empty.
`python3 lib/literals.py` rewrites the baseline from /repo.
"""
import json, os, re, sys, glob

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'literals.json')
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)))'|(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:\.[0-9]+)?(?:[iu](?:8|16|32|64|128|size)|f32|f64)?''', re.S)
PAIR = re.compile(r'(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\s*(\*|<<)\s*(0x[0-9a-fA-F_]+|[0-9][0-9_]*)')
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


def unesc(s):
    def f(m):
        g = m.group(0)
        if g.startswith('\\u{'):
            return chr(int(g[3:-1].replace('_', ''), 16))
        if g.startswith('\\x'):
            return chr(int(g[2:], 16))
        return ESC.get(g[1], g[1])
    return re.sub(r'\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)', f, s, flags=re.S)


def num(t):
    t = t.replace('_', '')
    return int(t, 16) if t.startswith('0x') else int(t[2:], 2) if t.startswith('0b') else int(t)


def collect(text):
    out = {}

    def add(k, v):
        k = k + str(v)
        out[k] = out.get(k, 0) + 1
    for m in TOK.finditer(text):
        if m.group(1) is not None:
            s = unesc(m.group(1))
            if s and len(s) < 40:
                add('s', s)
        elif m.group(2) is not None:
            add('c', unesc(m.group(2)))
        elif m.group(3) is not None:
            add('i', num(m.group(3)))
    code = TOK.sub(lambda m: m.group(0) if m.group(3) is not None else ' ', text)
    for m in PAIR.finditer(code):
        a, b = num(m.group(1)), num(m.group(3))
        v = a * b if m.group(2) == '*' else (a << b if b < 128 else 0)
        add('i', v)
    for m in re.finditer(r'\b[ui](8|16|32)::(MAX|MIN)\b', code):
        add('i', (1 << int(m.group(1)) - (m.group(0)[0] == 'i')) - (m.group(0)[0] == 'u'))
    return out


def files(repo):
    return sorted(glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True) + glob.glob(os.path.join(repo, 'derive', 'src', '**', '*.rs'), recursive=True))


def gather(repo):
    return {os.path.relpath(f, repo): collect(open(f, encoding='utf-8').read()) for f in files(repo)}


def new(repo):
    base = json.load(open(BASE))
    # a literal moved to another file is not new
    tot = {}
    for d in base.values():
        for k, n in d.items():
            tot[k] = tot.get(k, 0) + n
    out = set()
    for f, d in gather(repo).items():
        for k, n in d.items():
            if n > (base[f].get(k, 0) if f in base else tot.get(k, 0)):
                out.add(k)
    return sorted(out)


if __name__ == '__main__':
    json.dump(gather('/repo'), open(BASE, 'w'), indent=0, sort_keys=True, ensure_ascii=True)
    print(len(new('/repo')))
