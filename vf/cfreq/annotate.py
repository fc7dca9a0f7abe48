"""Mechanical annotation of freqcd.c for the deductive check.

Every loop of the file is cut at its head: base assertion of the invariant, havoc of
everything the loop can modify (computed from the clang AST), assumption of the
invariant, one arbitrary iteration, step assertion.  The program text is otherwise
unchanged; library calls are intercepted by the macros of ghost.h (appended after the
file's own #include lines).  Loops are recognised by what they do, not by their position.
"""
import json, subprocess, os, re
HERE = os.path.dirname(os.path.abspath(__file__))

class Unsupported(Exception): pass

def ast(path):
    p = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-I", HERE, "-D__CPROVER_bool=_Bool", "-include", os.path.join(HERE, "ghost.h"), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode: raise Unsupported("clang: " + p.stderr.decode()[-300:])
    return json.loads(p.stdout)

def pos(loc):
    if "expansionLoc" in loc: loc = loc["expansionLoc"]
    return loc.get("offset"), loc.get("tokLen", 0)
def rng(n):
    b, _ = pos(n["range"]["begin"]); e, l = pos(n["range"]["end"])
    return b, e + l
def walk(n):
    yield n
    for c in n.get("inner", []):
        if c and "kind" in c: yield from walk(c)

LOOPS = ("ForStmt", "WhileStmt", "DoStmt")
def strip(n):
    while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"): n = n["inner"][-1]
    return n
def qt(n): return n.get("type", {}).get("desugaredQualType") or n.get("type", {}).get("qualType", "")
def isptr(t): return t.rstrip().endswith("*")
def isarr(t): return t.rstrip().endswith("]")

def lvalue(n, mod, heap):
    """record the target of a store"""
    n = strip(n)
    k = n["kind"]
    if k == "DeclRefExpr": mod[n["referencedDecl"]["id"]] = n["referencedDecl"]
    elif k == "MemberExpr":
        if n.get("isArrow"): ptr(n["inner"][0], mod, heap)
        else: lvalue(n["inner"][0], mod, heap)
    elif k == "ArraySubscriptExpr": ptr(n["inner"][0], mod, heap)
    elif k == "UnaryOperator" and n["opcode"] == "*": ptr(n["inner"][0], mod, heap)
    elif k == "ConditionalOperator":
        for c in n["inner"][1:]: lvalue(c, mod, heap)
    else: heap.append(k)
def ptr(n, mod, heap):
    """record a store through pointer expression n"""
    n = strip(n)
    if n["kind"] == "StringLiteral" or n["kind"] == "IntegerLiteral": return
    if n["kind"] == "DeclRefExpr" and isarr(n["referencedDecl"]["type"]["qualType"]): mod[n["referencedDecl"]["id"]] = n["referencedDecl"]
    elif n["kind"] == "UnaryOperator" and n["opcode"] == "&": lvalue(n["inner"][0], mod, heap)
    else:
        rs = roots(n)
        heap.extend(rs if rs else ["*"])
def roots(n):
    """pointer and array variables an address expression is computed from"""
    out = []
    def go(n):
        n = strip(n); k = n["kind"]
        if k == "DeclRefExpr":
            t = n["referencedDecl"]["type"].get("desugaredQualType") or n["referencedDecl"]["type"]["qualType"]
            if isptr(t) or isarr(t): out.append(n["referencedDecl"]["id"])
            return
        if k in ("CallExpr", "MemberExpr") or (k == "UnaryOperator" and n["opcode"] == "*"): out.append("*"); return      # loaded or returned address
        for c in n.get("inner", []):
            if c and "kind" in c and not (k == "ArraySubscriptExpr" and c is n["inner"][1] and not isarr(qt(n))): go(c)
    go(n); return out

class Info: pass
def analyse(path):
    tu = ast(path); src = open(path, "rb").read()
    text = src.decode("utf-8", "replace")
    infos = []; mallocs = {}
    funcs = [f for f in tu["inner"] if f["kind"] == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in f.get("inner", []))
             and "includedFrom" not in f.get("loc", {}) and not (f["name"].startswith("g_") or f["name"].startswith("vf_") and f["name"] != "vf_main")]
    names = {f["name"] for f in funcs}
    def visit(n, fn, parents, decls):
        for c in n.get("inner", []):
            if not c or "kind" not in c: continue
            if c["kind"] == "VarDecl": decls.append(c)
            if c["kind"] in LOOPS:
                i = Info(); i.node = c; i.fn = fn; i.parents = list(parents); i.range = rng(c); i.scope = {d["id"]: d for d in decls}
                infos.append(i)
                visit(c, fn, parents + [i], list(decls))
            elif c["kind"] == "CompoundStmt": visit(c, fn, parents, list(decls))
            else: visit(c, fn, parents, decls)
    for f in funcs:
        ps = [c for c in f["inner"] if c["kind"] == "ParmVarDecl"]
        body = [c for c in f["inner"] if c["kind"] == "CompoundStmt"][0]
        visit(body, f["name"], [], ps)
        for m in walk(body):
            tgt = None
            if m["kind"] == "BinaryOperator" and m["opcode"] == "=": tgt, val = strip(m["inner"][0]), m["inner"][1]
            elif m["kind"] == "VarDecl" and m.get("inner"): tgt, val = m, m["inner"][-1]
            if tgt is None: continue
            v = strip(val)
            if v["kind"] == "CallExpr":
                cal = strip(v["inner"][0])
                if cal.get("referencedDecl", {}).get("name") in ("malloc", "calloc", "vf_malloc"):
                    d = tgt if tgt["kind"] == "VarDecl" else tgt.get("referencedDecl")
                    if not d: raise Unsupported("allocation into something other than a variable")
                    mallocs[d["id"]] = d["name"]
    # alias classes of the pointer variables (flow-insensitive); class None: unknown
    up = {}
    def find(x):
        while up.get(x, x) != x: x = up[x]
        return x
    for f in funcs:
        for m in walk(f):
            k = m["kind"]; tgt = None
            if k == "BinaryOperator" and m["opcode"] == "=": tgt, val = strip(m["inner"][0]), m["inner"][1]
            elif k == "VarDecl" and m.get("inner"): tgt, val = m, m["inner"][-1]
            elif k == "UnaryOperator" and m["opcode"] == "&" and isptr(qt(strip(m["inner"][0]))): tgt, val = strip(m["inner"][0]), None
            if tgt is None or not (isptr(qt(tgt)) or isarr(qt(tgt))) or tgt["kind"] == "VarDecl" and isarr(qt(tgt)): continue
            t = tgt["id"] if tgt["kind"] == "VarDecl" else tgt["referencedDecl"]["id"] if tgt["kind"] == "DeclRefExpr" else "*"
            if val is None: rs = ["*"]
            else:
                v = strip(val)
                isalloc = v["kind"] == "CallExpr" and strip(v["inner"][0]).get("referencedDecl", {}).get("name") in ("malloc", "calloc", "vf_malloc", "g_alloc")
                rs = [] if isalloc else roots(val)
            for r in rs: up[find(r)] = find(t)
    for i in infos:
        mod, heap = {}, []
        i.calls = set(); i.names = set(); i.chars = set()
        for m in walk(i.node):
            k = m["kind"]
            if k in ("BinaryOperator", "CompoundAssignOperator") and (m["opcode"] == "=" or k[0] == "C"): lvalue(m["inner"][0], mod, heap)
            elif k == "UnaryOperator" and m["opcode"] in ("++", "--"): lvalue(m["inner"][0], mod, heap)
            elif k == "UnaryOperator" and m["opcode"] == "&": lvalue(m["inner"][0], mod, heap)
            elif k == "CallExpr":
                cal = strip(m["inner"][0]); nm = cal.get("referencedDecl", {}).get("name", "?"); i.calls.add(nm[3:] if nm.startswith("vf_") else nm)
                for a in m["inner"][1:]:
                    t = qt(strip(a))
                    if isptr(t) or isarr(t): ptr(a, mod, heap)
            elif k == "DeclRefExpr": i.names.add(m["referencedDecl"]["name"])
            elif k == "CharacterLiteral": i.chars.add(m["value"])
            elif k in ("GotoStmt", "LabelStmt", "GCCAsmStmt"): raise Unsupported(k)
        i.mod = {d: v for d, v in mod.items() if d in i.scope}
        inner = {m["id"] for m in walk(i.node) if m["kind"] == "VarDecl"}
        i.globals = {v["name"] for d, v in mod.items() if d not in i.scope and d not in inner and v.get("kind") == "VarDecl"}
        cls = {find(h) for h in heap}; wild = find("*") in cls or any(isinstance(h, str) and h not in up and h != "*" and not h.startswith("0x") for h in heap)
        i.heap = bool(heap)
        i.mallocs = [n for d, n in mallocs.items() if d in i.scope and (wild or find(d) in cls)]
        for d, v in i.scope.items():        # arrays stored to through pointers
            if isarr(v["type"]["qualType"]) and heap and (wild or find(d) in cls): i.mod.setdefault(d, v)
    # 64-bit signed products of two non-constants: made opaque (a commutative uninterpreted function) where VF_MULUF is set
    muls = []
    def const(n):
        n = strip(n); return n["kind"] in ("IntegerLiteral", "UnaryExprOrTypeTraitExpr", "CharacterLiteral")
    for f in funcs:
        for m in walk(f):
            if m["kind"] == "BinaryOperator" and m["opcode"] == "*" and qt(m) in ("long long", "long") and not const(m["inner"][0]) and not const(m["inner"][1]):
                if any("spellingLoc" in r["range"][w] for r in [m] + m["inner"] for w in ("begin", "end")): continue
                (b, e), (_, l), (r, _) = rng(m), rng(m["inner"][0]), rng(m["inner"][1])
                k = src.find(b"*", l, r)
                if k < 0 or b"/*" in src[l:r] or b"//" in src[l:r]: continue
                muls.append((b, 0, "VF_MUL((")); muls.append((k, 1, "), (")); muls.append((e, 0, "))"))
    return text, src, infos, muls

NONDET = {"int": "nondet_int()", "unsigned int": "nondet_unsigned()", "long": "nondet_long()", "long long": "nondet_g_i64()", "unsigned long long": "nondet_g_u64()",
          "unsigned long": "nondet_ulong()", "char": "nondet_char()", "_Bool": "nondet_bool()", "double": "nondet_double()", "bool": "nondet_bool()",
          "ll": "nondet_g_i64()", "ull": "nondet_g_u64()", "size_t": "nondet_ulong()", "ssize_t": "nondet_long()", "short": "(short)nondet_int()", "unsigned char": "(unsigned char)nondet_int()"}

def annotate(path, roles, contracts, out, entry="main"):
    """roles(info) -> name or None; contracts[name] = dict(inv=[(tag,text)], defs={var:expr}, ghosts=[...], pre=, step=)"""
    text, src, infos, muls = analyse(path)
    edits = list(muls); used = []; missing = []
    for no, i in enumerate(infos):
        r = i.role = roles(i)
        if r is None or r not in contracts: missing.append((no, sorted(i.calls)[:4])); continue
        if r in used: raise Unsupported("two loops look like " + r)
        used.append(r); c = contracts[r]; n = i.node
        names = {d["name"] for d in i.mod.values()}
        head = []; defs = c.get("defs", {})
        inv = ["if (VF_CHK_%s) __CPROVER_assert(%s, \"%s: invariant of the %s loop, @@ (%s)\")" % (tag, t, tag, r, nm) for tag, nm, t in c["inv"]]
        # definitional pointers count as invariants
        dinv = ["if (VF_CHK_C21) __CPROVER_assert(%s, \"C21: invariant of the %s loop, @@ (%s)\")" % ("(%s) || %s == (%s)" % (g, v, e) if g else "%s == (%s)" % (v, e), r, v) for v, (g, e) in defs.items() if v in names]
        base = "; ".join(x.replace("@@", "holds on entry") for x in dinv + inv)
        step = "; ".join(x.replace("@@", "is preserved") for x in dinv + inv)
        hv = []
        def havoc(d, hv):
            t = d["type"].get("desugaredQualType") or d["type"]["qualType"]; v = d["name"]
            t = re.sub(r"\bconst\b", "", t).strip()
            if isarr(t): hv.append("__CPROVER_havoc_object(%s)" % v)
            elif isptr(t): hv.append("{ %s vf_p; %s = vf_p; }" % (t, v))
            elif t in NONDET: hv.append("%s = %s" % (v, NONDET[t]))
            else: hv.append("{ %s vf_s; %s = vf_s; }" % (t, v))
        for d in i.mod.values():
            if d["name"] not in defs: havoc(d, hv)
        before = c.get("before", "{")
        if "@HAVOC" in before:      # every variable in scope that is not const
            hs = []
            for d in i.scope.values():
                if not re.match(r"\s*const\b[^*]*$", d["type"]["qualType"]): havoc(d, hs)
            before = before.replace("@HAVOC", "; ".join(hs))
        for g in sorted(i.globals):
            if not g.startswith("g_") and g not in ("optarg", "optind", "opterr", "optopt", "stderr", "errno"): raise Unsupported("global " + g + " modified in a loop")
        if i.heap:
            for v in i.mallocs: hv.append("if (%s) __CPROVER_havoc_object(%s)" % (c.get("live", {}).get(v, "1"), v))
        for g, e in c.get("ghosts", {}).items(): hv.append("%s = %s" % (g, e))
        tail0 = c.get("assume0", "0")
        for v, (g, e) in defs.items():
            if v in names: hv.append("if (!(%s)) %s = (%s)" % (g or 0, v, e))
        hv.append(tail0)
        hv += ["if (VF_USE_%s) __CPROVER_assume(%s)" % (tag, t) for tag, _, t in c["inv"]] + ["if (VF_USE_C22) __CPROVER_assume(%s)" % t for t in c.get("also", [])]
        hv.append(c.get("tail", "0"))
        F = "vf_first%d" % no
        anc = [x.role for x in i.parents]
        HEAD = "({ if (%s) { %s = 0; %s; %s; %s; %s; } 0; })" % (F, F, c.get("pre", "0"), "if (VF_BASE_%s) { %s; }" % (r, base), c.get("after_base", "0"), "; ".join(hv))
        STEP = "({ __CPROVER_assume(VF_STEP_%s); %s; %s; __CPROVER_assert(0, \"vacuity: end of the %s loop body\"); __CPROVER_assume(0); 0; })" % (r, c.get("post", "0"), step, r)
        OPEN = " ? (__CPROVER_assume(VF_BODY_%s), 1) : (__CPROVER_assume(VF_EXIT_%s), 0)" % (r, r)
        b, e = i.range
        if src[e - 1:e] not in (b"}", b";"):
            while e < len(src) and src[e:e + 1] != b";": e += 1
            e += 1
        pre = "%s { int %s = 1; " % (before, F)
        edits.append((b, 0, pre)); edits.append((e, 0, "}}"))
        if n["kind"] == "ForStmt":
            ini, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
            bb, _ = rng(body)
            # locate the two top-level semicolons and the closing parenthesis of the header
            p = src.index(b"(", b); depth = 0; semis = []; q = p; instr = None
            while True:
                ch = src[q:q + 1]
                if instr:
                    if ch == b"\\": q += 1
                    elif ch == instr: instr = None
                elif ch in (b"'", b'"'): instr = ch
                elif ch in b"([{": depth += 1
                elif ch in b")]}":
                    depth -= 1
                    if depth == 0: break
                elif ch == b";" and depth == 1: semis.append(q)
                q += 1
            s1, s2 = semis
            edits.append((s1 + 1, 0, HEAD + ", (("))
            if not src[s1 + 1:s2].strip(): edits.append((s2, 0, "1"))
            edits.append((s2, 0, ")" + OPEN + ")"))
            if src[s2 + 1:q].strip(): edits.append((q, 0, ", "))
            edits.append((q, 0, STEP))
        elif n["kind"] == "WhileStmt":
            p = src.index(b"(", b); depth = 0; q = p; instr = None
            while True:
                ch = src[q:q + 1]
                if instr:
                    if ch == b"\\": q += 1
                    elif ch == instr: instr = None
                elif ch in (b"'", b'"'): instr = ch
                elif ch == b"(": depth += 1
                elif ch == b")":
                    depth -= 1
                    if depth == 0: break
                q += 1
            edits.append((b, p + 1 - b, "for (; " + HEAD + ", (("))
            edits.append((q, 1, ")" + OPEN + "); " + STEP + ")"))
        else: raise Unsupported("do-while loop")
    buf = src; order = sorted(range(len(edits)), key=lambda k: (edits[k][0], k))
    res = []; last = 0
    # at equal positions: closing braces of inner loops first, then openings of outer loops first
    for k in order:
        o, l, t = edits[k]
        res.append(buf[last:o].decode("utf-8", "replace")); res.append(t); last = o + l
    res.append(buf[last:].decode("utf-8", "replace"))
    with open(out, "w") as f: f.write("".join(res))
    return used, missing
