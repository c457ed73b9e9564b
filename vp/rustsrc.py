"""A small Rust lexer and item extractor.

Used to cut functions, types and impl blocks out of /repo's current source,
mechanically and on every run.  Everything works on tokens, so comments,
white space and formatting never matter.
"""
import re

class Lost(Exception):
    """An anchor (item, function, loop, local) is not in the source, or the
    source uses a construct the extraction does not understand."""

TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<rs>b?r(?P<h>\#*)".*?"(?P=h))
 | (?P<str>[bc]?"(?:[^"\\]|\\.)*")
 | (?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
 | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 | (?P<num>\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?[A-Za-z0-9_]*)
 | (?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 | (?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
""", re.X | re.S)

class T:
    __slots__ = ("k", "s", "sp")
    def __init__(self, k, s, sp=False): self.k, self.s, self.sp = k, s, sp
    def __repr__(self): return self.s

def lex(src):
    """Tokens without comments and white space (sp: preceded by space)."""
    out, i, n, sp = [], 0, len(src), False
    while i < n:
        if src.startswith("/*", i):                 # nested block comments
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i, sp = j, True; continue
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup != "h" else "rs"
        if k == "num":                              # 1..2  and 1.foo()
            s = m.group()
            mm = re.match(r"0[xob][0-9a-fA-F_]+[iu]?\w*|\d[\d_]*", s)
            if "." in s and not re.match(r"\d[\d_]*\.\d", s):
                s = mm.group()
            m2 = s
            i += len(m2); out.append(T("num", m2, sp)); sp = False; continue
        i = m.end()
        if k in ("ws", "lc"): sp = True; continue
        out.append(T(k, m.group(), sp)); sp = False
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match_close(ts, i):
    """index of the token closing the bracket at i"""
    d, j = 0, i
    while j < len(ts):
        s = ts[j].s
        if ts[j].k == "op":
            if s in OPEN: d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0: return j
        j += 1
    raise Lost("unbalanced bracket")

def skip_angles(ts, i):
    """i at '<': index just past the matching '>'"""
    d, j = 0, i
    while j < len(ts):
        s = ts[j].s
        if s == "<": d += 1
        elif s == "<<": d += 2
        elif s == ">": d -= 1
        elif s == ">>": d -= 2
        elif s in OPEN: j = match_close(ts, j)
        if d <= 0: return j + 1
        j += 1
    raise Lost("unbalanced angle bracket")

def text(ts):
    """Source text of tokens, one space wherever needed."""
    out, prev = [], None
    for t in ts:
        if prev is not None:
            if t.sp or prev.k in ("id", "num", "life") and t.k in ("id", "num", "str", "chr", "rs", "life"):
                out.append(" ")
        if t.s in ("{", ";", "}") : out.append(t.s + "\n")
        else: out.append(t.s)
        prev = t
    return "".join(out)

class Item:
    """kind: struct enum fn impl trait const type use mod macro static
    name; attrs: list of token lists; vis; ts: tokens from after attrs to end"""
    def __init__(s, kind, name, attrs, ts): s.kind, s.name, s.attrs, s.ts = kind, name, attrs, ts
    def __repr__(s): return f"<{s.kind} {s.name}>"
    def cfg_test(s):
        return any(text(a).replace(" ", "").replace("\n", "").startswith("#[cfg(test") or "nightly" in text(a) or
                   text(a).replace(" ", "").startswith("#[test]") for a in s.attrs)

KW = {"struct", "enum", "fn", "impl", "trait", "const", "type", "use", "mod", "static", "union", "extern"}

def items(ts):
    out, i = [], 0
    while i < len(ts):
        attrs = []
        while i < len(ts) and ts[i].s == "#":
            j = i + 1
            if ts[j].s == "!": j += 1
            e = match_close(ts, j)
            attrs.append(ts[i:e + 1]); i = e + 1
        if i >= len(ts): break
        st = i
        # visibility and qualifiers
        j = i
        if ts[j].s == "pub":
            j += 1
            if ts[j].s == "(": j = match_close(ts, j) + 1
        while ts[j].s in ("unsafe", "async", "default") or (ts[j].s == "const" and ts[j + 1].s in ("fn", "unsafe", "async")) \
              or (ts[j].s == "extern" and ts[j + 1].k == "str" and ts[j + 2].s == "fn"):
            j += 2 if ts[j].s == "extern" else 1
        kw = ts[j].s
        if kw == ";": i = j + 1; continue
        if kw not in KW:
            # macro invocation  name! {...}  or  macro_rules! name {...}
            k = j
            while ts[k].s != "!" and k < len(ts) - 1: k += 1
            name = ts[j].s
            k += 1
            if ts[k].k == "id": name = ts[k].s; k += 1
            e = match_close(ts, k)
            if e + 1 < len(ts) and ts[e + 1].s == ";": e += 1
            out.append(Item("macro", name, attrs, ts[st:e + 1])); i = e + 1; continue
        # end of item: first ';' or '{...}' at depth 0 (after angle/paren groups)
        name = None
        if kw == "impl":
            k = j + 1
            if ts[k].s == "<": k = skip_angles(ts, k)
            h = []
            while ts[k].s not in ("{", "where"):
                h.append(ts[k]); k += 1
            name = text(h).replace("\n", "").strip()
        else:
            name = ts[j + 1].s
        k = j + 1
        while True:
            s = ts[k].s
            if s == ";": e = k; break
            if s == "{":
                e = match_close(ts, k)
                if kw in ("use", "const", "static"): k = e + 1; continue
                if kw == "struct" or kw == "union": pass
                break
            if s in OPEN: k = match_close(ts, k) + 1; continue
            k += 1
        out.append(Item(kw, name, attrs, ts[st:e + 1])); i = e + 1
    return out

class Fn:
    def __init__(s, item):
        s.item = item; ts = item.ts; s.name = item.name
        i = next(k for k, t in enumerate(ts) if t.s == "fn")
        s.pre = ts[:i]                       # visibility etc.
        j = i + 2
        s.generics = []
        if ts[j].s == "<":
            e = skip_angles(ts, j); s.generics = ts[j:e]; j = e
        e = match_close(ts, j)
        s.params = ts[j + 1:e]; j = e + 1
        s.ret = None
        if ts[j].s == "->":
            k = j + 1
            while ts[k].s not in ("{", "where", ";"):
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                elif ts[k].s == "<": k = skip_angles(ts, k) - 1
                k += 1
            s.ret = ts[j + 1:k]; j = k
        s.where = []
        if ts[j].s == "where":
            k = j
            while ts[k].s not in ("{", ";"):
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                elif ts[k].s == "<": k = skip_angles(ts, k) - 1
                k += 1
            s.where = ts[j:k]; j = k
        s.body = None
        if ts[j].s == "{":
            s.body = ts[j + 1:match_close(ts, j)]

def impl_body(item):
    ts = item.ts
    i = next(k for k, t in enumerate(ts) if t.s in ("impl", "trait")) + 1
    if ts[i - 1].s == "trait": i += 1
    if ts[i].s == "<": i = skip_angles(ts, i)
    while ts[i].s != "{": i += 1
    return items(ts[i + 1:match_close(ts, i)])

def nested(ts):
    """token spans of the items declared among the statements of a function body"""
    out = []; k = 0
    while k < len(ts):
        st = k; item = ts[k].s in ("struct", "enum", "impl", "fn", "const", "trait", "use", "pub", "#") or k + 1 < len(ts) and ts[k].k == "id" and ts[k + 1].s == "!"
        while k < len(ts) and ts[k].s != ";":
            stop = False
            if ts[k].s == "{": k = match_close(ts, k); stop = item
            elif ts[k].s in ("(", "["): k = match_close(ts, k)
            if stop: break
            k += 1
        if item and k < len(ts): out.append((st, k + 1))
        k += 1
    return out

class File:
    def __init__(s, path):
        """path, path@mod NAME (the items of that module) or path@fn IMPL::NAME (the items nested in that function)"""
        s.path = path; path, _, inner = path.partition("@")
        with open(path) as fh: s.items = items(lex(fh.read()))
        if inner.startswith("mod "):
            ts = s.find("mod", inner[4:]).ts; i = next(k for k, t in enumerate(ts) if t.s == "{")
            s.items = items(ts[i + 1:match_close(ts, i)])
        elif inner.startswith("fn "):
            im, nm = inner[3:].rsplit("::", 1); d = s.fns(im or None)
            if nm not in d: raise Lost(f"function {nm} not found in {s.path}")
            ts = d[nm].body; s.items = [x for a, b in nested(ts) for x in items(ts[a:b])]
    def find(s, kind, name, test=False):
        for it in s.items:
            if it.kind == kind and it.name == name and (test or not it.cfg_test()): return it
        raise Lost(f"{kind} {name} not found in {s.path}")
    def impls(s, pred):
        return [it for it in s.items if it.kind == "impl" and not it.cfg_test() and pred(it.name)]
    def fns(s, implname=None):
        """name -> Fn of free functions, or of all impl blocks with that header"""
        out = {}
        if implname is None:
            its = s.items
        elif implname.startswith("trait "):
            its = impl_body(s.find("trait", implname[6:]))
        else:
            its = []
            for im in s.impls(lambda n: n == implname): its += impl_body(im)
            if not its: raise Lost(f"impl {implname} not found in {s.path}")
        for it in its:
            if it.kind == "fn" and not it.cfg_test(): out[it.name] = Fn(it)
        return out

# ---------------------------------------------------------------------------
def find_loops(ts):
    """[(kw index, index of the body's '{')] of for/while/loop in order"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].k == "id" and ts[i].s in ("for", "while", "loop") and not (i and ts[i - 1].s in (".", "'")):
            if ts[i].s == "for" and ts[i + 1].s == "<": i += 1; continue
            k = i + 1
            while ts[k].s != "{":
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                k += 1
            out.append((i, k))
        i += 1
    return out

def statements(ts):
    """[(start, end, is_tail)] of the statements of a block body (depth 0)"""
    out, i, n = [], 0, len(ts)
    while i < n:
        st = i
        while i < n and ts[i].s == "#":
            i = match_close(ts, i + 1) + 1
        blk = ts[i].s in ("for", "while", "loop", "if", "match", "unsafe", "{", "proof", "assert_forall", "fn")
        j = i
        end = None
        while j < n:
            s = ts[j].s
            if s == ";": end = j + 1; break
            if s in ("(", "["): j = match_close(ts, j) + 1; continue
            if s == "{":
                e = match_close(ts, j)
                j = e + 1
                if blk:
                    if j < n and ts[j].s == "else": j += 1; continue
                    if j < n and ts[j].s in (".", "?", "as", "+", "-", "*", "/", "==", "&&", "||") and False: continue
                    if j < n and ts[j].s in (".", "?"): blk = False; continue
                    end = j
                    break
                continue
            j += 1
        if end is None:
            out.append((st, n, True)); break
        tail = end == n and ts[end - 1].s != ";"
        out.append((st, end, tail)); i = end
    return out
