"""Iterator pipelines  ->  the loops that define them.

SRC (.map|.filter|.filter_map|.enumerate|.cloned|.copied|.inspect)* SINK, where SRC is a range (A..B), a slice's or Vec's
.iter()/.into_iter(), or the .iter()/.keys()/.values()/.iter_mut() of an ordered set or map (whose keys a contract method
returns in order), and SINK is count, sum, next, find, rfind, any, all, min, max, collect, last, for_each or a for loop."""
import re
from .rustsrc import Lost, T, lex, match_close, text
STAGES = ("map", "filter", "filter_map", "enumerate", "cloned", "copied", "inspect", "into_iter", "skip_while_none")
SINKS = ("count", "sum", "next", "find", "rfind", "any", "all", "min", "max", "collect", "for_each", "position", "fold")
WHY = "iterator pipelines (SRC.map.filter...SINK) become the loops that define them"

def pat_bind(p, val):
    """`let p = val;` for closure parameter patterns: strips type ascription, `mut`, leading & and `ref`"""
    p = [t for t in p]
    n, d = None, 0
    for i, t in enumerate(p):
        if t.s in "([<{": d += 1
        elif t.s in ")]>}": d -= 1
        elif t.s == ":" and d == 0: n = i; break
    if n is not None: p = p[:n]
    if p and p[0].s == "&": return pat_bind(p[1:], "*(%s)" % val)
    if p and p[0].s == "ref": return pat_bind(p[1:], "&(%s)" % val)
    if p and p[0].s == "(" and match_close(p, 0) == len(p) - 1:
        from .verusgen import split_args
        parts = split_args(p[1:-1])
        if any(q and q[0].s in ("&", "ref") for q in parts):
            names = ["vp_t%d" % i for i in range(len(parts))]
            return "let (%s) = %s; " % (", ".join(names), val) + "".join(pat_bind(q, n) for q, n in zip(parts, names))
    s = text(p).strip()
    return "" if s == "_" else "let %s = %s; " % (s, val)

def fn_app(arg, val):
    """apply a closure literal or a path to a value -> expression text"""
    from .verusgen import closure
    a = [t for t in arg]
    if a and a[0].s == "move": a = a[1:]
    if a and a[-1].s == ",": a = a[:-1]
    c = closure(a)
    if c: return "{ %s%s }" % (pat_bind(c[0], val), text(c[1]).strip())
    return "%s(%s)" % (text(a).strip(), val)

def rw_pipe(ts, log, conf):
    """conf: kinds {receiver text without spaces: 'set' | 'map' | 'vec' (a call whose iterator is taken as a Vec) | 'refs'},
    types [hint per pipeline in order], fors (also for loops over such sources), lazy (an iterator that is returned or
    passed on is collected into a Vec at once)"""
    from .verusgen import recv_start, let_type, tk
    kinds = conf.get("kinds", {}); n = [0]
    def one(ts):
        for i in range(len(ts) - 3):
            if ts[i].s != "." or ts[i + 1].k != "id": continue
            src = None
            if ts[i].s == "." and i > 0 and ts[i - 1].s == ")" and ts[i + 1].s in STAGES + SINKS:
                # (A..B).stage
                d, o = 0, i - 1
                while o >= 0:
                    if ts[o].s in (")", "]", "}"): d += 1
                    elif ts[o].s in ("(", "[", "{"):
                        d -= 1
                        if d == 0: break
                    o -= 1
                inner = ts[o + 1:i - 1]; dd = 0; cut = None; inc = False
                if o > 0 and (ts[o - 1].k == "id" and ts[o - 1].s not in ("in", "return", "match", "if", "while") or ts[o - 1].s in (")", "]", "!")): continue
                for k, t in enumerate(inner):
                    if t.s in ("(", "[", "{"): dd += 1
                    elif t.s in (")", "]", "}"): dd -= 1
                    elif dd == 0 and t.s in ("..", "..="): cut = k; inc = t.s == "..="
                if cut is None or inc: continue
                src = ("range", text(inner[:cut]).strip(), text(inner[cut + 1:]).strip()); start = o; p = i
            elif ts[i + 1].s in ("ones", ) and ts[i + 2].s == "(" and ts[i + 3].s == ")" and ts[i + 4].s == "." and ts[i + 5].s in STAGES + SINKS:
                start = recv_start(ts, i); src = ("vec", text(ts[start:i]).strip() + ".vp_ones()", None); p = i + 4
            elif ts[i + 2].s == "(" and (vk := conf.get("calls", {}).get(ts[i + 1].s)) and (ve := match_close(ts, i + 2)) + 2 < len(ts) and (ts[ve + 1].s == "." and ts[ve + 2].s in STAGES + SINKS or conf.get("fors") and ts[ve + 1].s == "{"):
                start = recv_start(ts, i); src = (vk, text(ts[start:ve + 1]).strip(), None); p = ve + 1
            elif ts[i + 1].s in ("iter", "iter_mut", "into_iter", "keys", "values") and ts[i + 2].s == "(" and ts[i + 3].s == ")" and i + 5 < len(ts) and (ts[i + 4].s == "." and ts[i + 5].s in STAGES + SINKS or conf.get("fors") and ts[i + 4].s == "{"):
                start = recv_start(ts, i); r = text(ts[start:i]).strip()
                src = (kinds.get("".join(r.split()), "slice"), r, ts[i + 1].s); p = i + 4
            if not src: continue
            stages = []
            while True:
                if p + 1 >= len(ts) or ts[p].s != "." or ts[p + 1].s not in STAGES: break
                q = p + 2
                if ts[q].s == "::": return None
                e = match_close(ts, q); stages.append((ts[p + 1].s, ts[q + 1:e])); p = e + 1
            sink = None
            if p + 1 < len(ts) and ts[p].s == "." and ts[p + 1].s in SINKS:
                q = p + 2; ty = None
                if ts[q].s == "::":
                    d = 0; q += 1; b = q
                    while True:
                        if ts[q].s == "<": d += 1
                        elif ts[q].s == ">": d -= 1
                        elif ts[q].s == ">>": d -= 2
                        q += 1
                        if d == 0: break
                e = match_close(ts, q); sink = (ts[p + 1].s, ts[q + 1:e]); p = e + 1
            elif start > 0 and ts[start - 1].s == "in" and p < len(ts) and ts[p].s == "{":
                if not conf.get("fors"): continue
                f = start - 1; d = 0
                while f >= 0 and not (ts[f].s == "for" and d == 0): f -= 1
                pt = ts[f + 1:start - 1]; e = match_close(ts, p)
                sink = ("for", (pt, ts[p + 1:e])); start = f; p = e + 1
            elif conf.get("lazy") and stages and (p >= len(ts) or ts[p].s in (";", "}", ")", ",")): sink = ("collect", [])
            if not sink: continue
            hint = (conf.get("types") or [None] * 99)
            ty = hint[n[0]] if n[0] < len(hint) else None
            ty = ty or let_type(ts, start, {}); k = n[0]; n[0] += 1
            log.add(WHY)
            if len(src) == 3 and src[0] == "map" and src[2] == "iter_mut" and sink[0] in ("find", "next"): return find_mut(ts, start, p, src, stages, sink, k)
            g = gen(src, stages, sink, ty, k)
            return ts[:start] + tk(g if sink[0] == "for" else "(" + g + ")") + ts[p:]
        return None
    def find_mut(ts, start, p, src, stages, sink, k):
        """M.iter_mut().find(C) [} ] .map(|(k, v)| B): find the key, then map on (&key, M.get_mut(&key))"""
        from .verusgen import closure
        blk = p < len(ts) and ts[p].s == "}"
        q = p + 1 if blk else p
        if [t.s for t in ts[q:q + 3]] != [".", "map", "("]: raise Lost("iter_mut on a map")
        e = match_close(ts, q + 2); c = closure(ts[q + 3:e])
        if not c: raise Lost("iter_mut on a map")
        lo = start
        if blk:
            d = 0; lo = start - 1
            while lo >= 0:
                if ts[lo].s == "}": d += 1
                elif ts[lo].s == "{":
                    if d == 0: break
                    d -= 1
                lo -= 1
        g = gen(src, stages, sink, "&ZoneT", k, key=True)
        return ts[:lo] + tk("match ") + ts[lo:start] + tk("(" + g + ")") + (tk("}") if blk else []) + tk("{ Some(vp_k) => { let vp_v = %s.get_mut(&vp_k).unwrap(); " % src[1]) \
            + tk(pat_bind(c[0], "(&vp_k, vp_v)") + "Some({ ") + c[1] + tk("}) } None => None }") + ts[e + 1:]
    while True:
        r = one(ts)
        if r is None: break
        ts = r
    return ts

def gen(src, stages, sink, ty, num, key=False):
    kind, a, b = src; name, arg = sink
    pre, item, cond = "", "vp_k", None
    down = name == "rfind"
    if kind == "range":
        if down: head = "let mut vp_i = %s; while vp_i > %s { vp_i = vp_i - 1; let vp_x = vp_i; " % (b, a)
        else: head = "let vp_n = %s; let mut vp_i = %s; while vp_i < vp_n { let vp_x = vp_i; vp_i = vp_i + 1; " % (b, a)
    elif kind in ("set", "map"):
        key_ = "%s.vp_key(vp_s[vp_i])" % a
        acc = {"set": key_, "iter": "(%s, %s.vp_at(&vp_s[vp_i]))" % (key_, a), "iter_mut": "(%s, %s.vp_at(&vp_s[vp_i]))" % (key_, a),
               "keys": key_, "values": "%s.vp_at(&vp_s[vp_i])" % a}["set" if kind == "set" else b]
        head = "let vp_s = %s.vp_elems(); let mut vp_i: usize = 0; while vp_i < vp_s.len() { let vp_x = %s; vp_i = vp_i + 1; " % (a, acc)
    elif kind in ("vec", "refs"):
        head = "let mut vp_s = %s; let mut vp_i: usize = 0; while vp_i < vp_s.len() { let vp_x = %s; vp_i = vp_i + 1; " % (a, "vp_take(&mut vp_s, vp_i)" if kind == "vec" else "&vp_s[vp_i]")
    else:
        amp = {"iter": "&", "into_iter": "", "iter_mut": "&mut "}.get(b)
        if amp is None: raise Lost("pipeline source %s" % b)
        head = "let mut vp_i: usize = 0; while vp_i < %s.len() { let vp_x = %s%s[vp_i]; vp_i = vp_i + 1; " % (a, amp, a)
    if down: name = "find"
    t = ": " + ty if ty else ""
    opt = ": Option<%s>" % ty if ty and not ty.startswith("Option") else t
    sinks = {
        "count": ("let mut vp_acc: usize = 0; ", "vp_acc = vp_acc + 1; "),
        "sum": ("let mut vp_acc%s = 0; " % t, "vp_acc = vp_acc + vp_x; "),
        "next": ("let mut vp_acc%s = None; " % opt, "vp_acc = Some(vp_x); break; "),
        "max": ("let mut vp_acc%s = None; " % opt, "vp_acc = match vp_acc { None => Some(vp_x), Some(vp_m) => if vp_x < vp_m { Some(vp_m) } else { Some(vp_x) } }; "),
        "min": ("let mut vp_acc%s = None; " % opt, "vp_acc = match vp_acc { None => Some(vp_x), Some(vp_m) => if vp_x < vp_m { Some(vp_x) } else { Some(vp_m) } }; "),
        "collect": ("let mut vp_acc%s = %s::new(); " % (t, (ty or "Vec").split("<")[0]), "vp_acc.push(vp_x); "),
    }
    if name == "find": ini, inner = "let mut vp_acc%s = None; " % opt, "if %s { vp_acc = Some(vp_x); break; } " % fn_app(arg, "&vp_x")
    elif name == "position" and kind not in ("range", "set", "map") and not [s for s, _ in stages if s in ("filter", "filter_map", "skip", "skip_while", "take_while")]: ini, inner = "let mut vp_acc: Option<usize> = None; ", "if %s { vp_acc = Some(vp_i - 1); break; } " % fn_app(arg, "vp_x")
    elif name == "any": ini, inner = "let mut vp_acc = false; ", "if %s { vp_acc = true; break; } " % fn_app(arg, "vp_x")
    elif name == "all": ini, inner = "let mut vp_acc = true; ", "if !%s { vp_acc = false; break; } " % fn_app(arg, "vp_x")
    elif name == "fold":
        from .verusgen import split_args, closure
        i0, f0 = [[t for t in q] for q in split_args(arg)][:2]; c = closure(f0)
        if c: 
            ps = split_args(c[0])
            ini, inner = "let mut vp_acc%s = %s; " % (t, text(i0).strip()), "vp_acc = { let vp_a = vp_acc; %s%s%s }; " % (pat_bind(ps[0], "vp_a"), pat_bind(ps[1], "vp_x"), text(c[1]).strip())
        else: ini, inner = "let mut vp_acc%s = %s; " % (t, text(i0).strip()), "vp_acc = %s(vp_acc, vp_x); " % text(f0).strip()
    elif name == "for": ini, inner = "", pat_bind(arg[0], "vp_x") + text(arg[1])
    elif name in sinks: ini, inner = sinks[name]
    else: raise Lost("pipeline sink %s" % name)
    close = ""; mid = ""; enums = 0
    for s, g in stages:
        if s == "map": mid += "let vp_x = %s; " % fn_app(g, "vp_x")
        elif s == "inspect": mid += "%s; " % fn_app(g, "&vp_x")
        elif s == "filter": mid += "let vp_c = %s; if vp_c { " % fn_app(g, "&vp_x"); close += "} "
        elif s == "filter_map": mid += "let vp_y = %s; match vp_y { Some(vp_x) => { " % fn_app(g, "vp_x"); close += "} None => {} } "
        elif s in ("cloned", "copied"): mid += "let vp_x = *vp_x; "
        elif s == "into_iter": pass
        elif s == "enumerate":
            if mid: raise Lost("enumerate after another stage")
            mid += "let vp_x = (%s, vp_x); " % ("vp_i - 1")
        else: raise Lost("stage " + s)
    if key:
        if stages or name != "find": raise Lost("iter_mut on a map")
        inner = inner.replace("vp_acc = Some(vp_x)", "vp_acc = Some(vp_s[vp_i - 1])"); ini = "let mut vp_acc = None; "
    r = "{ " + ini + head + mid + inner + close + "} " + ("" if name == "for" else "vp_acc ") + "}"
    return re.sub(r"\bvp_(i|s|n|acc)\b", lambda m: m.group(0) + str(num), r) if num else r
