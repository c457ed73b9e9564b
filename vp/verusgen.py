"""Generates a Verus file from /repo's current source plus a contract file.

A contract file (contracts/verus/NAME.py) defines
  SOURCE   path below /repo of the real code
  PRELUDE  text placed first inside verus! { } (assumed specs of externals)
  LEMMAS   names of .rs files with spec functions and lemmas
  TYPES    list of (kind, name, options): type definitions to take verbatim
  FNS      list of dict(impl=..., name=..., as_impl=..., requires/ensures/...)
Each function's executable tokens are taken from the source on every run; the
rewrites listed in RULES (and nothing else) are applied to them and every one
applied is recorded.
"""
import os, re
from .rustsrc import *

REPO = os.environ.get("VP_REPO", "/repo")

# --------------------------------------------------------------------------
# Rewrites.  Each takes and returns tokens, and reports what it did.
def tk(s): return lex(s)

def split_args(ts):
    """split tokens at top-level commas"""
    out, cur, i = [], [], 0
    while i < len(ts):
        if ts[i].s in OPEN and ts[i].k == "op":
            e = match_close(ts, i); cur += ts[i:e + 1]; i = e + 1; continue
        if ts[i].s == ",":
            out.append(cur); cur = []
        else: cur.append(ts[i])
        i += 1
    if cur: out.append(cur)
    return out

def rw_asserts(ts, log, mode="oblige"):
    """debug_assert*/assert* -> if !(c) { vp_panic() }  (reaching it is an
    obligation) or, for mode 'reject', { vp_reject() } (diverges)."""
    out, i = [], 0
    names = {"assert": 0, "debug_assert": 0, "assert_eq": "==", "debug_assert_eq": "==",
             "assert_ne": "!=", "debug_assert_ne": "!="}
    while i < len(ts):
        if ts[i].k == "id" and ts[i].s in names and i + 1 < len(ts) and ts[i + 1].s == "!":
            e = match_close(ts, i + 2)
            args = split_args(ts[i + 3:e])
            dbg = ts[i].s.startswith("debug")
            fn = "vp_panic" if (dbg or mode == "oblige") else "vp_reject"
            op = names[ts[i].s]
            if op: cond = "(%s) %s (%s)" % (text(args[0]), op, text(args[1]))
            else: cond = text(args[0])
            out += tk("if !(%s) { %s(); }" % (cond, fn))
            i = e + 1
            if i < len(ts) and ts[i].s == ";": i += 1
            log.add("assert-like macros become an explicit branch to a panic function (message text dropped)")
            continue
        out.append(ts[i]); i += 1
    return out

def rw_fold(ts, log):
    """(A .. B).fold(INIT, |acc, x| BODY)  ->  { let mut acc = INIT; for x in A .. B { acc = BODY; } acc }"""
    for i in range(len(ts) - 2):
        if ts[i].s == "(" and ts[i].k == "op":
            e = match_close(ts, i)
            if e + 2 < len(ts) and ts[e + 1].s == "." and ts[e + 2].s == "fold" and any(t.s == ".." for t in ts[i:e]):
                f = match_close(ts, e + 3)
                args = split_args(ts[e + 4:f])
                if len(args) < 2: continue
                init = args[0]
                rest = ts[e + 4 + len(init) + 1:f]
                if rest[0].s != "|": continue
                c = next(k for k in range(1, len(rest)) if rest[k].s == "|")
                ps = split_args(rest[1:c]); body = rest[c + 1:]
                if len(ps) != 2 or any(len(p) != 1 for p in ps): raise Lost("fold closure parameters")
                if body and body[-1].s == ",": body = body[:-1]
                acc, x = text(ps[0]), text(ps[1])
                new = tk("{ let mut %s = %s; for %s in %s { %s = " % (acc, text(init), x, text(ts[i + 1:e]), acc)) \
                    + body + tk("; } %s }" % acc)
                log.add("(A..B).fold(init, |acc, x| body) becomes the equivalent for loop")
                return rw_fold(ts[:i] + new + ts[f + 1:], log)
    return ts

def rw_any(ts, log):
    """X.iter().any(|p| E) -> { let mut vp_any = false; for p in X.iter() { if E { vp_any = true; } } vp_any }"""
    for i in range(len(ts) - 6):
        if [t.s for t in ts[i:i + 6]] == [".", "iter", "(", ")", ".", "any"]:
            j = i - 1                       # the receiver: a path or field chain
            while j >= 0 and (ts[j].k == "id" and ts[j].s not in ("if", "while", "return", "match", "in") or ts[j].s in (".", "::")): j -= 1
            e = match_close(ts, i + 6); cl = ts[i + 7:e]
            if cl[0].s != "|": continue
            c = next(k for k in range(1, len(cl)) if cl[k].s == "|")
            new = tk("{ let mut vp_any = false; for %s in %s.iter() { if %s { vp_any = true; } } vp_any }" % (text(cl[1:c]), text(ts[j + 1:i]), text(cl[c + 1:])))
            log.add(".iter().any(|p| e) becomes the equivalent loop (without the early exit; e has no effects)")
            return rw_any(ts[:j + 1] + new + ts[e + 1:], log)
    return ts

def rw_iter_fold(ts, log):
    """X.iter().fold(I, |a, p| E) -> { let mut a = I; for p in X.iter() { a = E; } a }"""
    for i in range(len(ts) - 6):
        if [t.s for t in ts[i:i + 6]] == [".", "iter", "(", ")", ".", "fold"]:
            j = i - 1
            while j >= 0 and (ts[j].k == "id" and ts[j].s not in ("if", "while", "return", "match", "in") or ts[j].s in (".", "::")): j -= 1
            e = match_close(ts, i + 6)
            args = split_args(ts[i + 7:e]); init = args[0]
            cl = ts[i + 7 + len(init) + 1:e]
            if cl[0].s != "|": continue
            c = next(k for k in range(1, len(cl)) if cl[k].s == "|")
            ps = split_args(cl[1:c]); body = cl[c + 1:]
            if len(ps) != 2 or len(ps[0]) != 1: raise Lost("fold closure parameters")
            if body and body[-1].s == ",": body = body[:-1]
            a = text(ps[0]).strip()
            new = tk("{ let mut %s = %s; for %s in %s.iter() { %s = " % (a, text(init), text(ps[1]), text(ts[j + 1:i]), a)) + body + tk("; } %s }" % a)
            log.add(".iter().fold(init, |a, p| e) becomes the equivalent for loop")
            return rw_iter_fold(ts[:j + 1] + new + ts[e + 1:], log)
    return ts

def rw_for_mut(ts, log):
    """for mut x in E { B }  ->  for x in E { let mut x = x; B }"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == "for" and i + 3 < len(ts) and ts[i + 1].s == "mut" and ts[i + 3].s == "in":
            k = i + 4
            while ts[k].s != "{":
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                k += 1
            e = match_close(ts, k)
            ts = ts[:i + 1] + ts[i + 2:k + 1] + tk(" let mut %s = %s;" % (ts[i + 2].s, ts[i + 2].s)) + ts[k + 1:]
            log.add("for mut x in e {..} becomes for x in e { let mut x = x; .. }")
        out.append(ts[i]); i += 1
    return out

def rw_continue(ts, log):
    """in a loop body:  if C { A; continue } REST  ->  if C { A; } else { REST }"""
    for kw, br in find_loops(ts):
        e = match_close(ts, br); body = ts[br + 1:e]
        for st, en, tail in statements(body):
            if body[st].s != "if": continue
            k = st
            while body[k].s != "{":
                if body[k].s in ("(", "["): k = match_close(body, k)
                k += 1
            c = match_close(body, k)
            if c + 1 < len(body) and body[c + 1].s == "else": continue
            blk = body[k + 1:c]
            if blk and blk[-1].s == ";": b2 = blk[:-1]
            else: b2 = blk
            if not b2 or b2[-1].s != "continue": continue
            new = body[:k + 1] + b2[:-1] + tk(" } else { ") + body[c + 1:] + tk(" }")
            log.add("if c { ..; continue } rest  becomes  if c { .. } else { rest }")
            return rw_continue(ts[:br + 1] + new + ts[e:], log)
    return ts

def rw_rmw(ts, log):
    """C.try_update(o, o, |p| E) (also fetch_update) -> the successful iteration of the compare-and-swap loop"""
    for i in range(len(ts) - 3):
        if ts[i].s == "." and ts[i + 1].s in ("try_update", "fetch_update") and ts[i + 2].s == "(":
            j = i - 1
            while j >= 0 and (ts[j].k in ("id", "num") and ts[j].s not in ("if", "while", "return", "match", "in") or ts[j].s in (".", "::")): j -= 1
            e = match_close(ts, i + 2); args = split_args(ts[i + 3:e])
            n = len(args[0]) + len(args[1]) + 2
            cl = ts[i + 3 + n:e]
            if cl[0].s != "|": continue
            c = next(k for k in range(1, len(cl)) if cl[k].s == "|")
            p = text(cl[1:c]).strip(); body = cl[c + 1:]
            if body and body[-1].s == ",": body = body[:-1]
            r = text(ts[j + 1:i])
            new = tk("{ let %s = %s.vp_rmw_begin(); match " % (p, r)) + body + tk(" { Some(vp_n) => { %s.vp_rmw_commit(%s, vp_n); Ok::<isize, isize>(%s) } None => { Err::<isize, isize>(%s) } } }" % (r, p, p, p))
            log.add("try_update(f) becomes its successful compare-and-swap iteration: one atomic change from an arbitrary value o to f(o)")
            return rw_rmw(ts[:j + 1] + new + ts[e + 1:], log)
    return ts

def rw_tail_loop(ts, log):
    """a function whose value is that of a final `loop`: its `break e` becomes `return e`"""
    st = statements(ts)
    if not st or not st[-1][2] or ts[st[-1][0]].s != "loop": return ts
    a = st[-1][0]; e = match_close(ts, a + 1); out = []; i = a + 2
    while i < e:
        t = ts[i]
        if t.k == "id" and t.s in ("loop", "while", "for"):
            k = i
            while ts[k].s != "{":
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                k += 1
            c = match_close(ts, k); out += ts[i:c + 1]; i = c + 1; continue
        if t.k == "id" and t.s == "break" and ts[i + 1].s not in (";", "}", ","):
            out += tk(" return"); log.add("break e of a function's final loop becomes return e")
            t2 = ts[i + 1]; out.append(T(t2.k, t2.s, True)); i += 2; continue
        out.append(t); i += 1
    return ts[:a + 2] + out + ts[e:]

def rw_end(ts, unit, ty=None):
    """puts the marker VP_END; at every exit of the function body"""
    ann = ": " + ty if ty else ""
    st = statements(ts)
    tail = st[-1][0] if st and st[-1][2] else None
    def walk(b):
        out, i = [], 0
        while i < len(b):
            t = b[i]
            if t.k == "id" and t.s == "return":
                k = i + 1
                while k < len(b) and b[k].s not in (";", "}", ","):
                    if b[k].k == "op" and b[k].s in OPEN: k = match_close(b, k)
                    k += 1
                ex = b[i + 1:k]
                if ex: out += tk(" { let vp_ret%s = " % ann) + walk(ex) + tk("; VP_END; return vp_ret; }")
                else: out += tk(" { VP_END; return; }")
                i = k; continue
            out.append(t); i += 1
        return out
    if unit:
        b = walk(ts)
        return b + tk(("" if tail is None else ";") + " VP_END;")
    if tail is None: return walk(ts)
    return walk(ts[:tail]) + tk(" let vp_ret%s = " % ann) + walk(ts[tail:]) + tk("; VP_END; vp_ret")

def rw_guard(ts, log):
    """let mut g = self.M.lock().unwrap();  ->  self.vp_lock(); with the guard's drops made explicit calls of
    self.vp_scope_end() (releases the lock if this scope still holds it) at every exit of its scope"""
    pat = [".", "lock", "(", ")", ".", "unwrap", "(", ")", ";"]
    for i in range(len(ts) - len(pat)):
        if [t.s for t in ts[i:i + len(pat)]] != pat: continue
        j = i
        while ts[j].s != "let":
            j -= 1
            if j < 0 or ts[j].s in (";", "{", "}"): raise Lost("a lock guard that is not bound by let")
        k = j + 1
        if ts[k].s == "mut": k += 1
        g = ts[k].s
        if ts[k + 1].s != "=" or [t.s for t in ts[k + 2:k + 4]] != ["self", "."] or k + 5 != i: raise Lost("lock guard form")
        st = i + len(pat)
        d = 0; e = st                          # end of the enclosing block
        while e < len(ts):
            if ts[e].k == "op" and ts[e].s in OPEN: e = match_close(ts, e) + 1; continue
            if ts[e].s in CLOSE: break
            e += 1
        rest = ts[st:e]
        def walk(b, inloop):
            out, i = [], 0
            while i < len(b):
                t = b[i]
                if t.k == "id" and t.s == g:
                    if i + 1 < len(b) and b[i + 1].s == ".": out += tk(" self.vp_" + b[i + 2].s); i += 3; continue
                    if [x.s for x in b[max(0, i - 2):i + 2]] == ["drop", "(", g, ")"]:
                        out = out[:-2] + tk(" self.vp_scope_end()"); i += 2; continue
                    raise Lost("use of the lock guard not understood")
                if t.k == "id" and t.s in ("loop", "while", "for"):
                    k = i
                    while b[k].s != "{":
                        if b[k].s in ("(", "["): k = match_close(b, k)
                        k += 1
                    c = match_close(b, k)
                    out += [t] + walk(b[i + 1:k], True) + [b[k]] + walk(b[k + 1:c], True) + [b[c]]; i = c + 1; continue
                if t.k == "id" and (t.s == "return" or t.s in ("break", "continue") and not inloop):
                    k = i + 1
                    while k < len(b) and b[k].s not in (";", "}", ","):
                        if b[k].k == "op" and b[k].s in OPEN: k = match_close(b, k)
                        k += 1
                    ex = b[i + 1:k]
                    if ex: out += tk(" { let vp_b = ") + walk(ex, inloop) + tk("; self.vp_scope_end(); %s vp_b; }" % t.s)
                    else: out += tk(" { self.vp_scope_end(); %s; }" % t.s)
                    i = k; continue
                out.append(t); i += 1
            return out
        stm = statements(rest)
        new = walk(rest, False)
        if stm and stm[-1][2]:
            h = rest[stm[-1][0]].s
            if h in ("if", "match", "loop", "while", "for", "{"): new = new + tk("; self.vp_scope_end();")
            else:
                hd = walk(rest[:stm[-1][0]], False); new = hd + tk(" let vp_t = ") + new[len(hd):] + tk("; self.vp_scope_end(); vp_t")
        else: new = new + tk(" self.vp_scope_end();")
        log.add("a mutex guard bound by let becomes explicit lock/unlock calls at its scope's start, its drop() and every exit of its scope")
        return rw_guard(ts[:j] + tk(" self.vp_lock();") + new + ts[e:], log)
    return ts

def rw_unimpl(ts, log, mode="oblige"):
    """unimplemented!/unreachable!/panic!/todo!(..) -> vp_panic() (an obligation)"""
    pf = " vp_panic()" if mode == "oblige" else " vp_reject()"
    out, i = [], 0
    while i < len(ts):
        if ts[i].k == "id" and ts[i].s in ("unimplemented", "unreachable", "todo", "panic") and i + 2 < len(ts) and ts[i + 1].s == "!":
            e = match_close(ts, i + 2); out += tk(pf); i = e + 1
            log.add("panicking macros become a call of a function that must not be reached")
            continue
        out.append(ts[i]); i += 1
    return out

def recv_start(ts, i):
    """start of the postfix expression that ends just before token i (a '.')"""
    j = i - 1
    while j >= 0:
        t = ts[j]
        if t.k == "op" and t.s in CLOSE:
            if t.s == "}": break
            d = 0
            while j >= 0:
                if ts[j].k == "op" and ts[j].s in CLOSE: d += 1
                elif ts[j].k == "op" and ts[j].s in OPEN:
                    d -= 1
                    if d == 0: break
                j -= 1
            j -= 1; continue
        if t.k in ("id", "num") and t.s not in ("if", "while", "return", "match", "in", "else", "let", "mut", "break") or t.s in (".", "::", "?"): j -= 1; continue
        break
    return j + 1

def closure(ts):
    """|params| body -> (params, body)"""
    if not ts or ts[0].s != "|": return None
    c = next(k for k in range(1, len(ts)) if ts[k].s == "|")
    body = ts[c + 1:]
    if body and body[-1].s == ",": body = body[:-1]
    return ts[1:c], body

def rw_optmap(ts, log):
    """Option::map / Option::inspect with a closure literal -> their defining match"""
    for i in range(len(ts) - 4):
        if ts[i].s == "." and ts[i + 1].s in ("map", "inspect", "and_then") and ts[i + 2].s == "(" and ts[i + 3].s == "|":
            e = match_close(ts, i + 2); p, body = closure(ts[i + 3:e]); j = recv_start(ts, i)
            r = text(ts[j:i])
            m = ts[i + 1].s
            if m == "map": new = tk(" (match %s { Some(%s) => Some(" % (r, text(p))) + body + tk("), None => None })")
            elif m == "and_then": new = tk(" (match %s { Some(%s) => " % (r, text(p))) + body + tk(", None => None })")
            else: new = tk(" ({ let vp_o = %s; match &vp_o { Some(%s) => { " % (r, text(p))) + body + tk(" } None => {} } vp_o })")
            log.add("Option::map/inspect/and_then of a closure literal becomes the match that defines it")
            return rw_optmap(ts[:j] + new + ts[e + 1:], log)
    return ts

def rw_orelse(ts, log):
    """Option::unwrap_or_else with a closure literal without parameters -> its defining match"""
    for i in range(len(ts) - 4):
        if ts[i].s == "." and ts[i + 1].s == "unwrap_or_else" and ts[i + 2].s == "(" and ts[i + 3].s == "||":
            e = match_close(ts, i + 2); body = ts[i + 4:e]; j = recv_start(ts, i)
            if body and body[-1].s == ",": body = body[:-1]
            log.add("Option::unwrap_or_else of a closure literal becomes the match that defines it")
            return rw_orelse(ts[:j] + tk(" (match %s { Some(vp_x) => vp_x, None => " % text(ts[j:i])) + body + tk(" })") + ts[e + 1:], log)
    return ts

def rw_resmap(ts, log):
    """Result::map with a closure literal -> its defining match"""
    for i in range(len(ts) - 4):
        if ts[i].s == "." and ts[i + 1].s == "map" and ts[i + 2].s == "(" and ts[i + 3].s == "|":
            e = match_close(ts, i + 2); p, body = closure(ts[i + 3:e]); j = recv_start(ts, i)
            log.add("Result::map of a closure literal becomes the match that defines it")
            return rw_resmap(ts[:j] + tk(" (match %s { Ok(%s) => Ok(" % (text(ts[j:i]), text(p))) + body + tk("), Err(vp_e) => Err(vp_e) })") + ts[e + 1:], log)
    return ts

def rw_futs(ts, log):
    """futures that are awaited or handed back at once: Future::map, TryFuture::map_ok, and_then, map_err with closure literals, future::ok and err,
    boxed and .await become what they mean for the result"""
    i = 0
    while i < len(ts) - 3:
        s = [t.s for t in ts[i:i + 3]]
        if s == [".", "boxed", "("] and ts[i + 3].s == ")": ts = ts[:i] + ts[i + 4:]; continue
        if s[:2] == [".", "await"]: ts = ts[:i] + ts[i + 2:]; continue
        if s == ["future", "::", "ok"] or s == ["future", "::", "err"]:
            k = i + 3
            if ts[k].s == "::": k = skip_angles(ts, k + 1)
            return rw_futs(ts[:i] + tk("Ok" if s[2] == "ok" else "Err") + ts[k:], log)
        if s[0] == "." and s[1] in ("map", "then", "map_ok", "and_then", "map_err") and s[2] == "(" and (ts[i + 3].s in ("|", "||", "move")) and not (s[1] == "then" and ts[i + 3].s == "||"):
            e = match_close(ts, i + 2); a = [t for t in ts[i + 3:e]]
            if a[-1].s == ",": a = a[:-1]
            if a[0].s == "move": a = a[1:]
            cl = closure(a)
            if cl:
                p, body = cl; j = recv_start(ts, i); r = text(ts[j:i]); p = text(p)
                log.add("map, map_ok, map_err and and_then of a future with a closure literal become the match on its result that they mean; boxed() and .await are dropped (nothing else runs in between)")
                if s[1] in ("map", "then"): new = tk(" ({ let %s = %s; " % (p, r)) + body + tk(" })")
                elif s[1] == "map_ok": new = tk(" (match %s { Ok(%s) => Ok(" % (r, p)) + body + tk("), Err(vp_e) => Err(vp_e) })")
                elif s[1] == "map_err": new = tk(" (match %s { Err(%s) => Err(" % (r, p)) + body + tk("), Ok(vp_e) => Ok(vp_e) })")
                else: new = tk(" (match %s { Ok(%s) => " % (r, p)) + body + tk(", Err(vp_e) => Err(vp_e) })")
                return rw_futs(ts[:j] + new + ts[e + 1:], log)
        i += 1
    return ts

def rw_then(ts, log):
    """a.then_with(|| e)  ->  the match that defines it"""
    for i in range(len(ts) - 4):
        if ts[i].s == "." and ts[i + 1].s == "then_with" and ts[i + 2].s == "(":
            e = match_close(ts, i + 2); a = ts[i + 3:e]; j = recv_start(ts, i)
            if a[0].s == "||": body = a[1:]
            else:
                cl = closure(a)
                if not cl or cl[0]: continue
                body = cl[1]
            if body and body[-1].s == ",": body = body[:-1]
            log.add("Ordering::then_with of a closure literal becomes the match that defines it")
            return rw_then(ts[:j] + tk(" (match %s { Ordering::Equal => " % text(ts[j:i])) + body + tk(", vp_o => vp_o })") + ts[e + 1:], log)
    return ts

def rw_local(ts, log):
    """closures bound by let and functions nested in the body, inlined where they are called
    (parameters bound first; neither returns early)"""
    for st, en, tail in statements(ts):
        a = ts[st:en]
        if a and a[-1].s == ";": a = a[:-1]
        if len(a) > 4 and a[0].s == "let" and a[1].k == "id" and a[2].s == "=" and a[3].s == "|":
            c = next(k for k in range(4, len(a)) if a[k].s == "|")
            name, ps, body = a[1].s, split_args(a[4:c]), a[c + 1:]
        elif len(a) > 3 and a[0].s == "fn":
            e = match_close(a, 2) if a[2].s == "(" else -1
            if e < 0: continue
            name, ps = a[1].s, split_args(a[3:e]); k = e
            while a[k].s != "{": k += 1
            body = a[k:]
        else: continue
        if any(t.k == "id" and t.s in ("return", "self") for t in body if a[0].s == "fn") or any(t.s == "return" for t in body): raise Lost("local function %s returns early" % name)
        rest = ts[:st] + ts[en:]; out, i = [], 0
        while i < len(rest):
            if rest[i].k == "id" and rest[i].s == name and rest[i + 1].s == "(" and rest[i - 1].s not in (".", "::"):
                e = match_close(rest, i + 1); av = split_args(rest[i + 2:e])
                if len(av) != len(ps): raise Lost("call of local function %s" % name)
                out += tk(" ({ ")
                for p, v in zip(ps, av): out += tk("let %s = " % text(p)) + v + tk("; ")
                out += body + tk(" })"); i = e + 1; continue
            if rest[i].k == "id" and rest[i].s == name and rest[i - 1].s not in (".", "::"): raise Lost("local function %s used as a value" % name)
            out.append(rest[i]); i += 1
        log.add("closures bound by let and functions nested in a function are inlined where they are called")
        return rw_local(out, log)
    return ts

def rw_spawn(ts, log, call, keep=None):
    """tokio::spawn(async move { B })  ->  the given call; B itself is extracted as a function of its own"""
    pat = ["tokio", "::", "spawn", "(", "async", "move", "{"]
    for i in range(len(ts) - len(pat)):
        if [t.s for t in ts[i:i + len(pat)]] == pat:
            e = match_close(ts, i + 3); b = i + 6
            if keep is not None: keep.append(ts[b + 1:match_close(ts, b)])
            log.add("the body of a spawned task is verified as a function of its own, started by a contract function")
            return rw_spawn(ts[:i] + tk(" " + call) + ts[e + 1:], log, call, keep)
    return ts

def rw_index(ts, log, fields):
    """x.f[k] -> (*x.f.vp_index(k)) for the listed (HashMap) fields"""
    for i in range(len(ts) - 2):
        if ts[i].s == "." and ts[i + 1].s in fields and ts[i + 2].s == "[":
            e = match_close(ts, i + 2); j = recv_start(ts, i)
            log.add("map[k] becomes map.vp_index(k), a method with the contract of Index::index")
            return rw_index(ts[:j] + tk(" (*%s.vp_index(%s))" % (text(ts[j:i + 2]), text(ts[i + 3:e]))) + ts[e + 1:], log, fields)
    return ts

def arms(ts, a, b):
    """the arms of a match body ts[a:b]: [(pattern, guard, body)]"""
    out, i = [], a
    while i < b:
        k = i
        while ts[k].s != "=>":
            if ts[k].k == "op" and ts[k].s in OPEN: k = match_close(ts, k)
            k += 1
        pat = ts[i:k]; g = None
        for m in range(i, k):
            if ts[m].k == "id" and ts[m].s == "if": pat, g = ts[i:m], ts[m + 1:k]; break
        k += 1
        if ts[k].s == "{":
            e = match_close(ts, k) + 1
            if e < b and ts[e].s in (".", "?"):
                while e < b and ts[e].s != ",":
                    if ts[e].k == "op" and ts[e].s in OPEN: e = match_close(ts, e)
                    e += 1
        else:
            e = k
            while e < b and ts[e].s != ",":
                if ts[e].k == "op" and ts[e].s in OPEN: e = match_close(ts, e)
                e += 1
        out.append((pat, g, ts[k:e]))
        i = e + 1 if e < b and ts[e].s == "," else e
    return out

def rw_orguard(ts, log):
    """`match x { A | B if g => e, .. }` becomes `match x { A if g => e, B if g => e, .. }`"""
    i = 0
    while i < len(ts):
        if ts[i].k == "id" and ts[i].s == "match":
            j = i + 1
            while ts[j].s != "{":
                if ts[j].k == "op" and ts[j].s in OPEN: j = match_close(ts, j)
                j += 1
            e = match_close(ts, j); new, ch = [], False
            for p, g, b in arms(ts, j + 1, e):
                alts, d, st = [], 0, 0
                for m, t in enumerate(p):
                    if t.k == "op" and t.s in ("(", "[", "{"): d += 1
                    elif t.k == "op" and t.s in (")", "]", "}"): d -= 1
                    elif t.s == "|" and d == 0: alts.append(p[st:m]); st = m + 1
                alts.append(p[st:]); alts = [a for a in alts if a]
                if g is None or len(alts) < 2: alts = [p]
                else: ch = True
                for a in alts: new += a + ((tk(" if ") + g) if g is not None else []) + tk(" => ") + b + tk(",")
            if ch:
                log.add("a match arm with several patterns and a guard becomes one arm for each pattern")
                ts = ts[:j + 1] + new + ts[e:]
        i += 1
    return ts

def rw_strmatch(ts, log):
    """match e { "a" | "b" => x, .., _ => y }  ->  a chain of comparisons"""
    for i in range(len(ts)):
        if ts[i].k == "id" and ts[i].s == "match":
            k = i + 1
            while ts[k].s != "{":
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                k += 1
            e = match_close(ts, k); A = arms(ts, k + 1, e)
            if not A or not A[0][0] or A[0][0][0].k != "str": continue
            out = tk(" { let vp_m = ") + ts[i + 1:k] + tk("; ")
            for n, (pat, g, body) in enumerate(A):
                if len(pat) == 1 and pat[0].s == "_" and g is None:
                    out += tk(" { ") + body + tk(" }"); break
                if any(t.k != "str" and t.s != "|" for t in pat): raise Lost("string match pattern")
                c = " || ".join("vp_streq(vp_m, %s)" % t.s for t in pat if t.k == "str")
                out += tk(" if (%s)%s { " % (c, " && (" + text(g) + ")" if g else "")) + body + tk(" } else ")
            else: raise Lost("string match without a final wildcard")
            out += tk(" }")
            log.add("match on string literals becomes a chain of string comparisons in the same order")
            return rw_strmatch(ts[:i] + out + ts[e + 1:], log)
    return ts

def rw_matches(ts, log):
    for i in range(len(ts) - 2):
        if ts[i].k == "id" and ts[i].s == "matches" and ts[i + 1].s == "!":
            e = match_close(ts, i + 2); a = split_args(ts[i + 3:e])
            log.add("matches!(e, p) becomes the match that defines it")
            return rw_matches(ts[:i] + tk(" (match ") + a[0] + tk(" { ") + a[1] + tk(" => true, _ => false })") + ts[e + 1:], log)
    return ts

def rw_maperr(ts, log):
    """e.map_err(Path)  ->  match e { Ok(v) => Ok(v), Err(x) => Err(Path(x)) }"""
    for i in range(len(ts) - 3):
        if ts[i].s == "." and ts[i + 1].s == "map_err" and ts[i + 2].s == "(":
            e = match_close(ts, i + 2); f = ts[i + 3:e]; j = recv_start(ts, i)
            cl = closure(f)
            if cl: err = "Err(%s) => Err(%s)" % (text(cl[0]), text(cl[1]))
            else: err = "Err(vp_e) => Err(%s(vp_e))" % text(f)
            log.add("Result::map_err becomes the match that defines it")
            return rw_maperr(ts[:j] + tk(" (match %s { Ok(vp_v) => Ok(vp_v), %s })" % (text(ts[j:i]), err)) + ts[e + 1:], log)
    return ts

def rw_consts(ts, log, table):
    """associated constants of fieldless/constant value replaced by their definitions in the source (also in patterns)"""
    i = 0; out = []
    while i < len(ts):
        if ts[i].k == "id" and i + 2 < len(ts) and ts[i + 1].s == "::" and (ts[i].s, ts[i + 2].s) in table:
            out += [T(t.k, t.s, n == 0) for n, t in enumerate(table[(ts[i].s, ts[i + 2].s)])]; i += 3
            log.add("associated constants replaced by their definitions in the source"); continue
        out.append(ts[i]); i += 1
    return out

def assoc_consts(f, ty):
    from .rustsrc import impl_body
    tab = {}
    for im in f.impls(lambda n: n == ty):
        for it in impl_body(im):
            if it.kind == "const" and not it.cfg_test():
                k = next(n for n, t in enumerate(it.ts) if t.s == "="); d = it.ts[k + 1:-1]
                tab[(ty, it.name)] = d; tab[("Self", it.name)] = d
    return tab

def strip_attrs(ts):
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == "#" and i + 1 < len(ts) and ts[i + 1].s == "[": i = match_close(ts, i + 1) + 1; continue
        out.append(ts[i]); i += 1
    return out

def strip_test_fields(ts):
    """fields under #[cfg(test)] are not part of what runs"""
    out, i = [], 0
    while i < len(ts):
        if [t.s for t in ts[i:i + 7]] == ["#", "[", "cfg", "(", "test", ")", "]"]:
            i += 7
            while i < len(ts) and ts[i].s not in (",", "}"):
                if ts[i].k == "op" and ts[i].s in OPEN: i = match_close(ts, i)
                if ts[i].s == "<": i = skip_angles(ts, i); continue
                i += 1
            if i < len(ts) and ts[i].s == ",": i += 1
            continue
        out.append(ts[i]); i += 1
    return out

def rw_full(ts, log):
    """x[..] -> x.vp_all(): the whole contents"""
    for i in range(1, len(ts) - 2):
        if ts[i].s == "[" and ts[i + 1].s == ".." and ts[i + 2].s == "]" and (ts[i - 1].k == "id" or ts[i - 1].s in (")", "]")):
            log.add("x[..] becomes x.vp_all(), the whole contents as a value")
            return rw_full(ts[:i] + tk(".vp_all()") + ts[i + 3:], log)
    return ts

def rw_rangemut(ts, log):
    """f(&mut x[a..], ..) -> f(&mut x, a, ..)"""
    for i in range(len(ts) - 4):
        if [t.s for t in ts[i:i + 2]] == ["&", "mut"] and ts[i + 2].k == "id" and ts[i + 3].s == "[":
            e = match_close(ts, i + 3)
            if ts[e - 1].s == "..":
                log.add("f(&mut x[a..], ..) becomes f(&mut x, a, ..): the part of a buffer from a on, as the buffer and where")
                return rw_rangemut(ts[:i + 3] + tk(",") + ts[i + 4:e - 1] + ts[e + 1:], log)
    return ts

def let_type(ts, j, types):
    """the type written (or hinted, by the name bound) in the let statement whose initialiser starts at j"""
    if j == 0 or ts[j - 1].s != "=": return None
    i = j - 2
    while i >= 0 and ts[i].s not in (";", "{", "}", "let"): i -= 1
    if i < 0 or ts[i].s != "let": return None
    lhs = ts[i + 1:j - 1]
    for t in lhs:
        if t.s in types: return types[t.s]
    d = 0
    for n, t in enumerate(lhs):
        if t.s in "([<": d += 1
        elif t.s in ")]>": d -= 1
        elif t.s == ":" and d == 0:
            ty = text(lhs[n + 1:]).strip()
            return None if "_" in [x.s for x in lhs[n + 1:]] else ty
    return None

def rw_chain(ts, log, types={}):
    """X.iter().map(F).collect() / .min().unwrap() / .unzip() (also iter_mut)  ->  the loop over X's indices"""
    for i in range(len(ts) - 6):
        if ts[i].s == "." and ts[i + 1].s in ("iter", "iter_mut") and [t.s for t in ts[i + 2:i + 7]] == ["(", ")", ".", "map", "("]:
            e = match_close(ts, i + 6); f = ts[i + 7:e]; j = recv_start(ts, i); x = text(ts[j:i]).strip()
            k = e + 1
            if ts[k].s != ".": continue
            end = ts[k + 1].s; amp = "&mut " if ts[i + 1].s == "iter_mut" else "&"
            if ts[k + 2].s == "::":                       # turbofish
                d = 0; q = k + 3
                while True:
                    if ts[q].s == "<": d += 1
                    elif ts[q].s == ">": d -= 1
                    elif ts[q].s == ">>": d -= 2
                    q += 1
                    if d == 0: break
            else: q = k + 2
            if [t.s for t in ts[q:q + 2]] != ["(", ")"]: continue
            q += 2
            cl = closure(f)
            def app(idx):
                if cl: return tk("{ let %s = %s%s[%s]; " % (text(cl[0]), amp, x, idx)) + cl[1] + tk(" }")
                return f + tk("(%s%s[%s])" % (amp, x, idx))
            ty = let_type(ts, j, types)
            if end == "collect":
                new = tk("{ let mut vp_v" + (": " + ty if ty else "") + " = Vec::new(); let mut vp_i: usize = 0; while vp_i < %s.len() { let vp_y = " % x) + app("vp_i") + tk("; vp_v.push(vp_y); vp_i += 1; } vp_v }")
            elif end == "unzip":
                a, b = ty if isinstance(ty, tuple) else (None, None)
                new = tk("{ let mut vp_v" + (": " + a if a else "") + " = Vec::new(); let mut vp_w" + (": " + b if b else "") + " = Vec::new(); let mut vp_i: usize = 0; while vp_i < %s.len() { let (vp_y, vp_z) = " % x) + app("vp_i") + tk("; vp_v.push(vp_y); vp_w.push(vp_z); vp_i += 1; } (vp_v, vp_w) }")
            elif end in ("min", "max") and [t.s for t in ts[q:q + 4]] == [".", "unwrap", "(", ")"]:
                q += 4; op = "<" if end == "min" else ">="
                new = tk("{ let mut vp_m = ") + app("0") + tk("; let mut vp_i: usize = 1; while vp_i < %s.len() { let vp_y = " % x) + app("vp_i") + tk("; if vp_y %s vp_m { vp_m = vp_y; } vp_i += 1; } vp_m }" % op)
            else: continue
            log.add("x.iter().map(f).collect()/unzip()/min().unwrap() becomes the loop over x's elements in order")
            return rw_chain(ts[:j] + new + ts[q:], log, types)
    return ts

def rw_enumerate(ts, log):
    """for (i, p) in E.enumerate() { B }  ->  an index loop over the sequence E yields (E's type stands for that sequence)"""
    for n in range(len(ts)):
        if ts[n].s == "for" and ts[n + 1].s == "(":
            c = match_close(ts, n + 1); a = split_args(ts[n + 2:c])
            if len(a) != 2 or len(a[0]) != 1 or ts[c + 1].s != "in": continue
            k = c + 2
            while ts[k].s != "{":
                if ts[k].s in ("(", "["): k = match_close(ts, k)
                k += 1
            if [t.s for t in ts[k - 4:k]] != [".", "enumerate", "(", ")"]: continue
            e = match_close(ts, k); ex = ts[c + 2:k - 4]; body = ts[k + 1:e]
            if any(t.s == "continue" for t in body): raise Lost("continue in an enumerate loop")
            log.add("for (i, p) in e.enumerate() becomes an index loop over the sequence e yields")
            i = a[0][0].s
            return rw_enumerate(ts[:n] + tk(" let vp_e = ") + ex + tk("; let mut %s: usize = 0; while %s < vp_e.len() { let %s = vp_e[%s]; " % (i, i, text(a[1]), i)) + body + tk(" %s += 1; }" % i) + ts[e + 1:], log)
    return ts

def rw_lockparam(ts, log, recv, name):
    """the state behind a lock becomes a parameter, taken between acquisition and release:
    let [mut] g = RECV.lock()/read()/write().unwrap();  is removed and g renamed; drop(g) is removed; RECV.read().unwrap() is the parameter"""
    r = [t.s for t in tk(recv)]; k = len(r); guards = set(); out, i = [], 0
    while i < len(ts):
        if [t.s for t in ts[i:i + k]] == r and [t.s for t in ts[i + k:i + k + 1]] == ["."] and ts[i + k + 1].s in ("lock", "read", "write") and [t.s for t in ts[i + k + 2:i + k + 8]] == ["(", ")", ".", "unwrap", "(", ")"]:
            e = i + k + 8
            log.add("the state behind the cluster's lock is a parameter of the methods that take the lock")
            if e < len(ts) and ts[e].s == ";" and len(out) >= 3 and out[-1].s == "=" and out[-2].k == "id" and out[-3].s in ("let", "mut"):
                guards.add(out[-2].s)
                del out[-4 if out[-3].s == "mut" else -3:]
                i = e + 1; continue
            out += tk(name); i = e; continue
        out.append(ts[i]); i += 1
    res, i = [], 0
    while i < len(out):
        if out[i].s == "drop" and i + 3 < len(out) and out[i + 1].s == "(" and out[i + 2].s in guards and out[i + 3].s == ")":
            i += 4
            if i < len(out) and out[i].s == ";": i += 1
            continue
        if out[i].s in guards and out[i].k == "id" and (i == 0 or out[i - 1].s not in (".", "::")):
            if res and res[-1].s == "mut" and res[-2].s == "&": del res[-2:]
            elif res and res[-1].s == "&": del res[-1:]
            res += tk(" " + name); i += 1; continue
        res.append(out[i]); i += 1
    return res

def rw_ghost_calls(ts, log, names, arg):
    """calls of the named functions pass a ghost argument (erased at run time)"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].k == "id" and ts[i].s in names and i + 1 < len(ts) and ts[i + 1].s == "(" and (i == 0 or ts[i - 1].s != "fn"):
            e = match_close(ts, i + 1); inner = rw_ghost_calls(ts[i + 2:e], log, names, arg)
            if inner and inner[-1].s == ",": inner = inner[:-1]
            out += ts[i:i + 2] + inner + tk((", " if inner else "") + arg) + [ts[e]]; i = e + 1
            log.add("a ghost memory parameter (erased at run time) is passed to the functions that write through pointers"); continue
        out.append(ts[i]); i += 1
    return out

LOGS = ("event", "trace", "debug", "info", "warn", "error", "println", "eprintln", "dbg")
def rw_logs(ts, log):
    out, i = [], 0
    while i < len(ts):
        if ts[i].s == "tracing" and i + 2 < len(ts) and ts[i + 1].s == "::" and ts[i + 2].s in LOGS and (i == 0 or ts[i - 1].s in (";", "{", "}")): i += 2; tr = True
        else: tr = False
        if ts[i].k == "id" and ts[i].s in LOGS and i + 2 < len(ts) and ts[i + 1].s == "!" and (tr or i == 0 or ts[i - 1].s in (";", "{", "}")):
            e = match_close(ts, i + 2)
            if e + 1 < len(ts) and ts[e + 1].s == ";":
                log.add("logging macro statements dropped"); i = e + 2; continue
        out.append(ts[i]); i += 1
    return out

def rw_mono(ts, log, param, ty):
    """monomorphise a type parameter"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].k == "id" and ts[i].s == param:
            if [t.s for t in ts[i + 1:i + 4]] == ["::", "from", "("] and ts[i + 4].k == "num" and ts[i + 5].s == ")":
                out += tk(ts[i + 4].s + ty); i += 6
            elif [t.s for t in ts[i + 1:i + 4]] == ["::", "from", "("]:
                out.append(ts[i + 3]); i += 4      # identity conversion
            else:
                out += tk(ty); i += 1
            log.add(f"type parameter {param} instantiated with {ty}, the only type the code uses it with")
            continue
        out.append(ts[i]); i += 1
    return out

def rw_subst(ts, log, table):
    """token-sequence substitutions: list of (from text, to text, why)"""
    for a, b, why in table:
        pa = [t.s for t in tk(a)]; i = 0; out = []
        hit = False
        while i < len(ts):
            if [t.s for t in ts[i:i + len(pa)]] == pa:
                out += tk(b); i += len(pa); hit = True
            else: out.append(ts[i]); i += 1
        if hit: log.add(why)
        ts = out
    return ts

# --------------------------------------------------------------------------
def clause(word, s):
    if not s: return ""
    if isinstance(s, (list, tuple)): s = ",\n            ".join(s)
    return f"\n    {word} {s},"

def emit_fn(fn, c, log):
    """fn: Fn (from source), c: contract dict -> Verus text"""
    if fn.body is None: raise Lost(f"{fn.name} has no body")
    body = fn.body; params = fn.params; ret = fn.ret; generics = fn.generics; where = fn.where
    if c.get("drop_items"):
        log.add("items declared inside the function are taken out of its body and verified by themselves"); keep = []; at = 0
        for a, b in nested(body): keep += body[at:a]; at = b
        body = keep + body[at:]
    body = rw_logs(body, log)
    body = rw_asserts(body, log, c.get("asserts", "oblige"))
    if c.get("_consts"): body = rw_consts(body, log, c["_consts"])
    if c.get("strs"): body = rw_maperr(rw_strmatch(rw_matches(body, log), log), log)
    for lp in ([c["lockparam"]] if isinstance(c.get("lockparam"), tuple) else c.get("lockparam", [])): body = rw_lockparam(body, log, *lp)
    if c.get("task"): body = rw_spawn(body, log, c["task"])
    if c.get("pre"): body = rw_subst(body, log, c["pre"])
    if c.get("orguard"): body = rw_orguard(body, log)
    if c.get("futs"): body = rw_futs(body, log)
    if c.get("local"): body = rw_then(rw_local(body, log), log)
    if c.get("pipes") is not None:
        from .pipes import rw_pipe
        body = rw_pipe(body, log, c["pipes"])
    if c.get("optmap"): body = rw_optmap(body, log)
    if c.get("orelse"): body = rw_orelse(body, log)
    if c.get("resmap"): body = rw_resmap(body, log)
    if c.get("chains"): body = rw_enumerate(rw_chain(body, log, c.get("chain_types", {})), log)
    if c.get("ghost_calls"):
        for gc in ([c["ghost_calls"]] if isinstance(c["ghost_calls"], tuple) else c["ghost_calls"]): body = rw_ghost_calls(body, log, *gc)
    if c.get("ghost_param"):
        params = (params[:-1] if params and params[-1].s == "," else params) + tk(", " + c["ghost_param"])
    if c.get("full"): body = rw_full(body, log)
    if c.get("rangemut"): body = rw_rangemut(body, log)
    if c.get("index"): body = rw_index(body, log, c["index"])
    body = rw_fold(body, log)
    body = rw_tail_loop(body, log)
    if c.get('guards'): body = rw_guard(body, log)
    body = rw_continue(rw_for_mut(rw_iter_fold(rw_any(rw_rmw(rw_unimpl(body, log, c.get('panics', 'oblige')), log), log), log), log), log)
    for p, ty in c.get("mono", []):
        body = rw_mono(body, log, p, ty); params = rw_mono(params, log, p, ty)
        ret = rw_mono(ret, log, p, ty) if ret else ret
        generics, where = [], []
    for key in ("subst",):
        if c.get(key):
            body = rw_subst(body, log, c[key]); params = rw_subst(params, log, c[key])
            ret = rw_subst(ret, log, c[key]) if ret else ret
            generics = rw_subst(generics, log, c[key]); where = rw_subst(where, log, c[key])
    if c.get("generics"): generics, where = tk(c["generics"]), []
    if c.get("end"): body = rw_end(body, not ret, c.get("end_type"))
    # loops
    loops = find_loops(body)
    want = c.get("loops", [])
    if len(loops) != len(want):
        raise Lost(f"{fn.name}: {len(loops)} loops in the source, {len(want)} under contract")
    ins = []                       # (position, order, text)
    for (kw, br), L in zip(loops, want):
        if L.get("iter") and body[kw].s == "for":
            k = kw
            while body[k].s != "in": k += 1
            ins.append((k + 1, 0, f" {L['iter']}: "))
        if L.get("kind") and L["kind"] != body[kw].s: raise Lost(f"{fn.name}: loop kind changed")
        spec = clause("invariant_except_break", L.get("invariant_except_break")) + clause("invariant", L.get("invariant"))
        if L.get("ensures"): spec += clause("ensures", L["ensures"])
        if L.get("decreases"): spec += clause("decreases", L["decreases"])
        ins.append((br, 0, spec + "\n"))
        e = match_close(body, br)
        if L.get("ghost_start"): ins.append((br + 1, -1, "\n %s\n" % L["ghost_start"]))
        if L.get("start"): ins.append((br + 1, 0, "\n proof { %s }\n" % L["start"]))
        if L.get("end") and e > br + 1 and body[e - 1].s not in (";", "}"): ins.append((e, -1, ";"))
        if L.get("end"): ins.append((e, 0, "\n proof { %s }\n" % L["end"]))
        if L.get("after"): ins.append((e + 1, 0, "\n proof { %s }\n" % L["after"]))
        if L.get("before"): ins.append((kw, 0, "\n proof { %s }\n" % L["before"]))
        if L.get("ghost_before"): ins.append((kw, -1, "\n %s\n" % L["ghost_before"]))
        for nm, pf in L.get("after_let", {}).items():
            ins.append((find_let(body, nm, br + 1, e, fn.name), 0, "\n proof { %s }\n" % pf))
    if c.get("start"): ins.append((0, 1, "\n proof { %s }\n" % c["start"]))
    if c.get("ghost_start"): ins.append((0, 0, "\n %s\n" % c["ghost_start"]))
    for nm, pf in c.get("after_let", {}).items():
        ins.append((find_let(body, nm, 0, len(body), fn.name), 0, "\n proof { %s }\n" % pf))
    if c.get("before_tail"):
        st = statements(body)
        pos = st[-1][0] if st and st[-1][2] else len(body)
        ins.append((pos, 5, "\n proof { %s }\n" % c["before_tail"]))
    for pat, pf in c.get("after_stmt", []):
        p = [t.s for t in tk(pat)]
        pos = [i for i in range(len(body)) if [t.s for t in body[i:i + len(p)]] == p]
        if len(pos) != 1: raise Lost(f"{fn.name}: anchor '{pat}' occurs {len(pos)} times")
        ins.append((pos[0] + len(p), 0, "\n proof { %s }\n" % pf))
    for pat, pf in c.get("before_stmt", []):
        p = [t.s for t in tk(pat)]
        pos = [i for i in range(len(body)) if [t.s for t in body[i:i + len(p)]] == p]
        if len(pos) != 1: raise Lost(f"{fn.name}: anchor '{pat}' occurs {len(pos)} times")
        ins.append((pos[0], 0, "\n proof { %s }\n" % pf))
    out, last = [], 0
    for pos, _, s in sorted(ins, key=lambda x: (x[0], x[1])):
        out.append(text(body[last:pos])); out.append(s); last = pos
    out.append(text(body[last:]))
    if c.get("end"): out = [re.sub(r"VP_END ?;?", lambda m: "\n proof { %s }\n" % c["end"], "".join(out))]
    h = "".join(f"    {a}\n" for a in c.get("attrs", []))
    name = c.get("as", fn.name)
    h += f"    fn {name}" + (text(generics) if generics else "") + "(" + text(params).strip() + ")"
    if c.get("ret_type"): h += f" -> ({c.get('ret', 'ret')}: {c['ret_type']})"
    elif ret: h += f" -> ({c.get('ret', 'ret')}: {text(ret).strip()})"
    if where: h += " " + text(where)
    h += clause("requires", c.get("requires")) + clause("ensures", c.get("ensures")) + clause("decreases", c.get("decreases"))
    return h + "\n    {\n" + "".join(out) + "\n    }\n"

def pick(src, f):
    """the source function a contract is about; with `spawned`, the body of the task that function spawns"""
    d = src.fns(f["impl"])
    if f["name"] not in d: raise Lost("function %s::%s not found" % (f["impl"], f["name"]))
    fn = d[f["name"]]
    if f.get("spawned"):
        keep = []; rw_spawn(fn.body, set(), "x", keep)
        if len(keep) != 1: raise Lost("%s spawns %d tasks" % (f["name"], len(keep)))
        fn.body = keep[0]; fn.params = tk(f["spawned"]); fn.ret = None; fn.generics = []; fn.where = []
    return fn

def find_let(body, nm, lo, hi, fname):
    """position just past the `let [mut] nm ... ;` (the last one)"""
    found = None
    i = lo
    while i < hi:
        if body[i].s == "let":
            j = i + 1
            if body[j].s == "mut": j += 1
            names = []
            if body[j].s == "(":
                e = match_close(body, j); names = [t.s for t in body[j:e]]
            else: names = [body[j].s]
            if nm in names:
                k = j
                while body[k].s != ";":
                    if body[k].s in OPEN and body[k].k == "op": k = match_close(body, k)
                    k += 1
                found = k + 1
                if body[j - 1].s == "\0": break
        i += 1
    if found is None: raise Lost(f"{fname}: no local named {nm}")
    return found

def emit_type(f, kind, name, opts, log):
    it = f.find(kind, name)
    t = text(strip_attrs(strip_test_fields(it.ts)))
    for a, b in opts.get("subst", []): 
        if a not in t: raise Lost(f"{name}: {a} not found")
        t = t.replace(a, b)
    for a, b in opts.get("fixed", []): t = t.replace(a, b)
    if opts.get("pub_fields"):
        t = re.sub(r"([{,(]\s*)(?:pub(?:\([^)]*\))?\s+)?(?=[a-z_]\w*\s*:[^:])", r"\1pub ", t)
        if "{" not in t: t = re.sub(r"\(\s*(pub\b)?\s*", "(pub ", t, count=1)
        t = re.sub(r"^(pub(?:\([^)]*\))?\s+)?", "pub ", t)
        log.add("visibility of types and fields widened")
    log.add("derives on the extracted types other than Clone/Copy/PartialEq/Eq dropped; field attributes and doc comments dropped")
    d = opts.get("derive", "")
    return (f"#[derive({d})]\n" if d else "") + t + "\n"


# --------------------------------------------------------------------------
HEADER = """#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
"""
def load(name, base):
    ns = {}
    path = os.path.join(base, "contracts/verus", name + ".py")
    ns["path"] = path; exec(compile(open(path).read(), path, "exec"), ns)
    return ns

def generate(name, base, repo=None):
    """-> (text, info)"""
    repo = repo or REPO
    c = load(name, base); log = set(); files = {}
    def file(p):
        if p not in files: files[p] = File(os.path.join(repo, p))
        return files[p]
    out = [c.get("HEADER", HEADER), c.get("PRELUDE", "")]
    for kind, nm, o in c.get("TYPES", []):
        out.append(emit_type(file(o.get("file", c["SOURCE"])), kind, nm, o, log))
    for l in c.get("LEMMAS", []):
        out.append(open(os.path.join(base, "contracts/verus", l)).read())
    if c.get("EXTRA"): out.append(c["EXTRA"](file, log))
    groups, names = {}, []
    for f in c["FNS"]:
        src = file(f.get("file", c["SOURCE"]))
        g = f.get("as_impl") or f["impl"]
        if f.get("consts"): f = dict(f, _consts=assoc_consts(src, f["consts"]))
        groups.setdefault(g, []).append(emit_fn(pick(src, f), f, log))
        names.append((f["impl"] + "::" if f["impl"] else "") + f["name"] + (" [as %s]" % f["as"] if f.get("as") else ""))
    for g, l in groups.items():
        extra = c.get("IMPL_EXTRA", {}).get(g)       # ghost items of an implementation
        if extra: l = [extra] + l
        if g is None: out += l
        elif g.startswith("trait "): out.append("%s {\n%s}\n" % (g, "\n".join(l)))
        else: out.append("impl %s {\n%s}\n" % (g, "\n".join(l)))
    out.append(c.get("POSTLUDE", ""))
    out.append("\n} // verus!\nfn main() {}\n")
    return "\n".join(out), dict(rules=sorted(log), functions=names, contract=c)

def probes(name, base, repo=None):
    """one lemma per precondition that must NOT verify"""
    c = load(name, base); log = set(); n = 0; out = ["mod vp_probe { use super::*;"]
    files = {}
    for f in c["FNS"]:
        if not f.get("requires") or f.get("no_probe"): continue
        p = f.get("file", c["SOURCE"])
        if p not in files: files[p] = File(os.path.join(repo or REPO, p))
        fn = pick(files[p], f)
        ty = f.get("probe_ty") or f.get("as_impl") or (f["impl"] or "").split(" for ")[-1]
        params = fn.params
        for a, b in f.get("mono", []): params = rw_mono(params, log, a, b)
        if f.get("subst"): params = rw_subst(params, log, f["subst"])
        ps = []; byref = []
        for a in split_args(params):
            t = text(a).strip()
            if re.fullmatch(r"(& *)?(mut +)?self", t.replace("&mut", "& mut")): t = "self_: " + ty
            else:
                q = re.match(r"(?:mut\s+)?(\w+)\s*:\s*&\s*mut\s+(?!\[)", re.sub(r"&\s*mut\s*\[", "&mut [", t))
                if q: byref.append(q.group(1))
                t = re.sub(r"&\s*mut\s+", "", re.sub(r"&\s*mut\s*\[", "&[", re.sub(r"^mut\s+", "", t)))
            ps.append(re.sub(r"'[a-z]\w* ?", "", t))
        r = "true && (" + ") && (".join(f["requires"]) + ")"
        if f.get("ghost_param"):
            for g in re.findall(r"(?:Tracked|Ghost)\((\w+)\): *(?:Tracked|Ghost)<(?:&(?:mut )?)?(\w+(?:<[\w, ()]+>)?)>|(\w+): &(?:mut )?(\w+(?:<[\w, ()]+>)?)", f["ghost_param"]):
                g = g[:2] if g[0] else g[2:]
                ps.append("%s: %s" % g); r = re.sub(r"\*\s*(old\(%s\)|%s\b)" % (g[0], g[0]), g[0], r)
        for g in byref: r = re.sub(r"(?<![\w)\]])\s*\*\s*(old\(%s\)|%s\b)" % (g, g), " " + g, r)
        r = re.sub(r"\b(old|final)\(self\)", "self_", r); r = re.sub(r"\bold\((\w+)\)", r"\1", r)
        r = re.sub(r"\bself\b", "self_", r); r = re.sub(r"\bSelf\b", ty, r)
        r = re.sub(r"([(,])\s*\*\s*self_\b", r"\1self_", r)
        g = f.get("probe_generics", "")
        out.append("proof fn vac_%d_%s%s(%s) requires %s { assert(false); }" % (n, f["name"], g, ", ".join(ps), r)); n += 1
    out.append("}")
    return n, "\n".join(out)

if __name__ == "__main__":
    import sys
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    print(generate(sys.argv[1], base)[0])
