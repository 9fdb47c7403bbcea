"""Mechanical extraction of functions of the repository into one Verus file per unit.

The text of every function comes from the repository on each run. What is changed on the way:
 * doc comments, attributes and visibility are dropped; modules are flattened, so module prefixes of paths go;
 * contracts, loop invariants and proof blocks of /verif/contracts are inserted (ghost code only);
 * adaptors of std which the verifier does not know are renamed to functions of the same meaning, which
   are defined (and listed) in the preludes;
 * closure parameters that are patterns become `|p| { let PATTERN = p; body }`
   (with `&x` in the pattern as `vpr_x` and `let x = *vpr_x;`);
 * where a contract says so, `for P in E` is written out as `loop { match it.next() {..} }`.
"""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(HERE, "contracts")


class Undecided(Exception):
    """The extraction cannot bring this code to the verifier; nothing is said about the property."""


# ---------------------------------------------------------------- contract files
def each(text):
    """`@each A=x,y B=1,2` .. `@end`: the lines between once per position, with @A@ and @B@ replaced."""
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if lines[i].startswith("@each "):
            vs = [(x.split("=")[0], x.split("=", 1)[1].split("|")) for x in lines[i].split()[1:]]
            j = i + 1
            while lines[j] != "@end":
                j += 1
            for k in range(len(vs[0][1])):
                t = "\n".join(lines[i + 1 : j])
                for n, l in vs:
                    t = t.replace("@" + n + "@", l[k])
                out.append(t)
            i = j + 1
        else:
            out.append(lines[i])
            i += 1
    return "\n".join(out)


def contract_text(f):
    return each(open(os.path.join(CONTRACTS, f)).read())


def s_anchor(line):
    return line.split("{{{")[0].split()[1:]


class Contract:
    def __init__(self, id):
        self.id = id
        self.ret = None
        self.spec = ""
        self.loops = {}  # k -> (mode, name, text)
        self.ats = []  # (anchor words, text)
        self.shims = []  # (method, ordinal|None, function)
        self.recvs = []
        self.vecranges = []
        self.rangefns = []
        self.macros = {}
        self.closures = {}
        self.attrs = []
        self.extra = ""
        self.free = None
        self.texts = False
        self.fromfn = None  # (step, collector, variable, type, item, contract of the step)
        self.replace = []
        self.retype = []
        self.eqs = []  # (ordinal|None, function)
        self.swaps = []  # (text, text)
        self.swapargs = []  # (method, argument, text)
        self.file = None


def parse_contracts(dirname=CONTRACTS):
    out = {}
    for f in sorted(os.listdir(dirname)):
        if not f.endswith(".vc"):
            continue
        cur = None
        lines = each(open(os.path.join(dirname, f)).read()).split("\n")
        i = 0

        def block(i):
            # the text between a line ending in {{{ and a line that is }}}
            buf = []
            first = lines[i].split("{{{", 1)[1]
            if first.rstrip().endswith("}}}"):
                return first.rstrip()[:-3], i
            i += 1
            while lines[i].strip() != "}}}":
                buf.append(lines[i])
                i += 1
            return "\n".join(buf), i

        while i < len(lines):
            line = lines[i]
            s = line.strip()
            if not s or s.startswith("#"):
                i += 1
                continue
            w = s.split()
            if w[0] == "==":
                cur = Contract(s[2:].strip())
                cur.file = f
                if cur.id in out:
                    raise SystemExit(f"two contracts for {cur.id}")
                out[cur.id] = cur
            elif w[0] == "ret":
                cur.ret = w[1]
            elif w[0] == "spec":
                cur.spec, i = block(i)
            elif w[0] == "extra":
                cur.extra, i = block(i)
            elif w[0] == "attr":
                cur.attrs.append(s[5:])
            elif w[0] == "sub":
                a, b = s[4:].split(" => ")
                cur.replace.append((a, b.strip()))
            elif w[0] == "retype":
                # retype A => B: the type behind an `impl` of the result by its name
                a, b = s[7:].split(" => ")
                cur.retype.append((a.strip(), b.strip()))
            elif w[0] == "eq":
                # eq FUNC [k]: the k-th comparison by == or !=, as a call
                cur.eqs.append((int(w[2]) if len(w) > 2 else None, w[1]))
            elif w[0] == "swap":
                # swap A => B: a path used as a function, as the closure which calls it
                a, b = s[5:].split(" => ", 1)
                cur.swaps.append((a.strip(), b.strip()))
            elif w[0] == "swaparg":
                # swaparg METHOD A => B: the argument A, a path used as a function, as the closure which calls it
                a, b = s[8:].split(" => ", 1)
                cur.swapargs.append((*a.split(), b.strip()))
            elif w[0] == "loop":
                w = s_anchor("x " + line)
                mode = w[2] if len(w) > 2 and w[2] in ("native", "desugar") else "plain"
                name = w[3] if mode != "plain" else None
                if mode == "native" and len(w) > 4:
                    name += " " + w[4]  # what IntoIterator does with the expression
                t, i = block(i)
                cur.loops[int(w[1])] = (mode, name, t)
            elif w[0] == "at":
                t, i = block(i)
                cur.ats.append((s_anchor(line), t))
            elif w[0] == "closure":
                t, i = block(i)
                cur.closures[int(w[1])] = t
            elif w[0] == "shim":
                # shim METHOD FUNC|.METHOD [k | aN]: the k-th call of that name, or those with N arguments
                k = (w[3] if w[3][0] == "a" else int(w[3])) if len(w) > 3 else None
                cur.shims.append((w[1], k, w[2]))
            elif w[0] == "recv":
                # recv METHOD k NAME {{{ ghost text }}}: names the receiver of a call
                a = s_anchor(line)
                t, i = block(i)
                cur.recvs.append((a[0], int(a[1]), a[2], t))
            elif w[0] == "vecrange":
                cur.vecranges.append(int(w[1]))
            elif w[0] == "rangefn":
                # rangefn k [ref]: the k-th slicing expression, as a call (ref: of an array, not a reference)
                cur.rangefns.append((int(w[1]), len(w) > 2))
            elif w[0] == "macro":
                cur.macros[w[1]] = w[2]
            elif w[0] == "free":
                # free NAME: a trait method as a free function of that name
                cur.free = w[1]
            elif w[0] == "texts":
                cur.texts = True
            elif w[0] == "fromfn":
                # fromfn STEP COLLECT VAR : TYPE -> ITEM {{{ contract of the step }}}
                t, i = block(i)
                h = line.strip().split("{{{")[0].strip()[7:]
                h, item = h.split(" -> ")
                h, ty = h.split(" : ")
                cur.fromfn = tuple(h.split()) + (ty.strip(), item.strip(), t)
            elif w[0] == "note":
                pass
            else:
                raise SystemExit(f"{f}:{i+1}: {s}")
            i += 1
    return out


# ---------------------------------------------------------------- macros
def balanced(t, i):
    """The end of the bracketed group starting at i (strings and comments do not hold brackets here)."""
    depth = 0
    while True:
        if t[i] in "([{":
            depth += 1
        elif t[i] in ")]}":
            depth -= 1
            if depth == 0:
                return i + 1
        elif t[i] == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        i += 1


def commas(t):
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def expand_macros(t):
    """Writes out the items made by the macros of a file which have one arm of plain fragments."""
    macros = {}
    for m in re.finditer(r"macro_rules!\s*(\w+)\s*([{(])", t):
        try:
            inner = t[m.end() : balanced(t, m.end() - 1) - 1].strip()
            if inner[0] not in "([{":
                continue
            e = balanced(inner, 0)
            pat = [x.split(":") for x in commas(inner[1 : e - 1])]
            rest = inner[e:].strip()
            if not rest.startswith("=>") or any(len(x) != 2 or not x[0].strip().startswith("$") for x in pat):
                continue
            rest = rest[2:].strip()
            e = balanced(rest, 0)
            if rest[e:].strip() not in ("", ";"):
                continue
            macros[m.group(1)] = ([(a.strip(), b.strip()) for a, b in pat], rest[1 : e - 1])
        except IndexError:
            continue
    if not macros:
        return t

    def call(m):
        pat, body = macros[m.group(1)]
        a = commas(m.group(2))
        if len(a) != len(pat):
            return m.group(0)
        for (n, frag), v in zip(pat, a):
            body = re.sub(re.escape(n) + r"\b", lambda _: v, body)
        return body

    return re.sub(r"(?ms)^(" + "|".join(macros) + r")!\s*\((.*?)\);$", call, t)


# ---------------------------------------------------------------- source index
class Source:
    def __init__(self, repo, indexer):
        files = []
        for d, _, fs in os.walk(os.path.join(repo, "src")):
            files += [os.path.join(d, f) for f in fs if f.endswith(".rs")]
        files.sort()
        self.soft = {}
        self.hints = set()
        self.text = {}
        tmp = tempfile.mkdtemp(prefix="vx-src-")
        try:
            args = []
            for k, f in enumerate(files):
                self.text[f] = expand_macros(open(f).read()).encode()
                args.append(os.path.join(tmp, f"{k}.rs"))
                open(args[-1], "wb").write(self.text[f])
            p = subprocess.run([indexer] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                raise Undecided("the source cannot be parsed: " + p.stderr[-500:])
            back = dict(zip(args, files))
            self.ix = {back[k]: v for k, v in json.loads(p.stdout).items()}
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.items = {}
        self.names = set()
        self.modules = {"crate", "super", "self"}
        for f in files:
            rel = os.path.relpath(f, os.path.join(repo, "src"))
            for part in rel[:-3].split("/"):
                if part not in ("lib", "mod", "bool"):
                    self.modules.add(part)
        self.modules.add("types")
        for f, v in self.ix.items():
            if "error" in v:
                raise Undecided(f"{f}: {v['error']}")
            for it in v["items"]:
                it["file"] = f
                self.items.setdefault(it["id"], []).append(it)
                if it["kind"] == "fn":
                    self.names.add(it["name"])

    def get(self, id, file=None):
        want = None
        if "@" in id:
            id, want = id.split("@")
        l = self.items.get(id, [])
        if want:
            l = [x for x in l if x["file"].endswith(want)]
        if len(l) != 1:
            raise Undecided(f"{id}: {len(l)} definitions in the source")
        return l[0]


class Edits:
    """Edits of a byte range; insertions at one place are ordered by `rank` (outer first at a start)."""

    def __init__(self, data, start, end):
        self.data, self.start, self.end = data, start, end
        self.e = []

    def rep(self, a, b, text, rank=0):
        self.e.append((a, b, rank, len(self.e), text))

    def ins(self, a, text, rank=0):
        self.rep(a, a, text, rank)

    def get(self, a=None, b=None):
        a = self.start if a is None else a
        b = self.end if b is None else b
        out, pos = [], a
        for s, e, _, _, t in sorted(self.e, key=lambda x: (x[0], 0 if x[0] == x[1] else 1, x[2], x[3])):
            if s < a or e > b:
                continue
            if s < pos:
                if e <= pos:
                    continue  # inside something replaced already
                raise Undecided("overlapping edits")
            out.append(self.data[pos:s].decode())
            out.append(t)
            pos = e
        out.append(self.data[pos:b].decode())
        return "".join(out)


def flatten(ed, item, src):
    for p in item.get("paths", []):
        segs = p["segs"]
        k = 0
        while k + 1 < len(segs) and segs[k]["name"] in src.modules:
            k += 1
        if k:
            ed.rep(segs[0]["span"][0], segs[k]["span"][0], "")


COMMENT = re.compile(r"^\s*//.*$", re.M)


def strip_comments(t):
    return COMMENT.sub("", t)


def emit_plain(src, id, attrs, subs=()):
    it = src.get(id)
    d = src.text[it["file"]]
    ed = Edits(d, it["start"], it["span"][1])
    flatten(ed, it, src)
    for a, b in it["strip"]:
        ed.rep(a, b, "")
    attrs = attrs + re.findall(r"#\[repr\(\w+\)\]", d[it["span"][0] : it["start"]].decode())
    t = strip_comments(ed.get())
    for a, b in subs:
        t = t.replace(a, b)
    return "\n".join(attrs) + "\n" + t + "\n"


def expand_result(text, data):
    """A file's own `type Result<T> = ..`, written out."""
    m = re.search(r"(?m)^type Result<(\w+)> = (.*);$", data)
    if not m:
        return text
    i = 0
    while True:
        k = re.compile(r"(?<![\w:])Result<").search(text, i)
        if not k:
            return text
        e = angle(text, k.end() - 1)
        new = re.sub(r"\b" + m.group(1) + r"\b", lambda _: text[k.end() : e - 1], m.group(2))
        text = text[: k.start()] + new + text[e:]
        i = k.start() + len("std::result::Result<")


def rename_words(text, m):
    if not m:
        return text
    return re.sub(r"\b(" + "|".join(map(re.escape, m)) + r")\b", lambda x: m[x.group(1)], text)


def bind_names(it):
    return [b["name"] for b in it["params"]] + [b["name"] for b in it["binds"]]


def bind_contexts(it, d):
    """What follows every binding: tells a renamed binding from another one."""
    return [b" ".join(re.findall(rb"\w+|[^\w\s]", d[b["span"][1] : b["span"][1] + 160])[:8]).decode() for b in it["binds"]]


def renaming(base, sh):
    """Which binding of the function as it was annotated is which binding now. Names still there keep their meaning."""
    if base["binds"] == sh["binds"]:
        return {}
    np = base["params"]
    if sh["params"] != np:
        return {}
    old, new = set(base["binds"]), set(sh["binds"])
    ren = {}
    for x, y in zip(base["binds"][:np], sh["binds"][:np]):
        if x != y and (x in new or y in old):
            return {}
        if x != y:
            ren[x] = y
    left = [i for i, x in enumerate(base["binds"]) if i >= np and x not in new and x not in ren]
    right = [i for i, y in enumerate(sh["binds"]) if i >= np and y not in old and y not in ren.values()]
    for _ in range(2):
        for i in left:
            x = base["binds"][i]
            if x in ren:
                continue
            want = rename_words(base["after"][i - np], ren)
            for j in right:
                y = sh["binds"][j]
                if y not in ren.values() and rename_words(want, {x: y}) == sh["after"][j - np]:
                    ren[x] = y
                    break
    return ren


def tail_name(it, d):
    """The name which is the whole tail expression, if it is one."""
    st = it["body"] and it["body"]["stmts"]
    if not st or not st[-1]["tail"]:
        return None
    x = d[st[-1]["span"][0] : st[-1]["span"][1]].decode()
    return x if re.fullmatch(r"[a-z_]\w*", x) else None


# functions of std whose meaning for the verifier does not depend on what they are called with
PLAIN = set("""Some Ok Err None len is_empty is_some is_none is_ok is_err unwrap push pop get insert contains_key clear min max abs swap matches! assert! debug_assert!
checked_add checked_sub checked_mul checked_div checked_rem saturating_add saturating_sub saturating_mul wrapping_add wrapping_sub wrapping_mul
overflowing_add overflowing_sub overflowing_mul with_capacity vec! Start Current""".split())


def shape(it, d):
    return {"binds": bind_names(it), "params": len(it["params"]), "after": bind_contexts(it, d), "loops": [l["kind"] for l in it["loops"]], "calls": sorted({c["name"] for c in it["calls"]} | {m["name"] + "!" for m in it["macros"]}), "closures": len(it["closures"]), "returns": len(it["returns"]), "named": tail_name(it, d) is not None}


def innermost(it, a, b):
    best = None
    for s, e in it["allstmts"]:
        if s <= a and b <= e and (best is None or e - s < best[1] - best[0]):
            best = (s, e)
    return best


def emit_fn(src, id, c, baseline, mode, known_ids, canary=False):
    """mode: verify | assume. Returns the text of the function with its contract."""
    it = src.get(id)
    d = src.text[it["file"]]
    base = baseline.get(id)
    ren = {}
    if base and mode == "verify":
        sh = shape(it, d)
        if sh["loops"] != base["loops"]:
            raise Undecided(f"{id}: the loops changed")
        if c.closures and sh["calls"] != base["calls"]:
            src.soft[id] = "it calls other functions than the ones its closures were annotated for"
        odd = [n for n in sh["calls"] if n not in base["calls"] and n not in PLAIN and n not in known_ids and n not in src.names and not n[0].isupper()]
        if odd:
            src.soft[id] = f"it calls {', '.join(odd)}, which the verifier may know too little about"
        if sh["closures"] != base["closures"]:
            if c.closures:
                raise Undecided(f"{id}: the closures changed")
            if sh["closures"] > base["closures"]:
                # a failed obligation may be due to a closure the verifier knows nothing about
                src.soft[id] = "it has a closure without a contract"
        new = [n for n in sh["calls"] if n not in base["calls"] and n in src.names and n not in known_ids]
        if new:
            raise Undecided(f"{id}: calls {', '.join(new)}, which has no contract")
        ren = renaming(base, sh)
    if base and mode == "assume":
        pb = [b["name"] for b in it["params"]]
        for x, y in zip(base["binds"], pb):
            if x != y:
                ren[x] = y
    R = lambda t: rename_words(t, ren)
    sig = it["sig"]
    body = it["body"]
    if body is None and mode == "verify":
        mode = "decl"
    end = body["span"][0] if body else sig["span"][1]
    ed = Edits(d, it["sig_start"], (body["span"][1] if body else sig["span"][1]))
    flatten(ed, it, src)
    for a, b in it["attrs"]:
        ed.rep(a, b, "")
    # ---- signature
    if (it["ctx"] and ("trait_def" in it["ctx"] or it["ctx"].get("trait"))) or "VsI0" in c.spec:
        # arguments of type `impl Bound` of trait functions as named type parameters
        gen = []
        for i in sig["inputs"]:
            m = not i["self"] and re.match(r"(&\s*(?:mut\s+)?)?(impl\b\s*(.*))", ed.get(*i["ty"]), re.S)
            if m:
                gen.append(f"VsI{len(gen)}: {m.group(3)}")
                ed.rep(i["ty"][0] + len((m.group(1) or "").encode()), i["ty"][1], f"VsI{len(gen) - 1}", -1)
        if gen:
            a = it["sig_start"]
            t = d[a : sig["inputs"][0]["span"][0]].decode()
            t = t[: t.rindex("(")].rstrip()
            if t.endswith(">"):
                ed.ins(a + len(t[:-1].encode()), ", " + ", ".join(gen))
            else:
                ed.ins(a + len(t.encode()), "<" + ", ".join(gen) + ">")
    for x, y in c.retype:
        a, b = sig["ret"] or (0, 0)
        was = d[a:b].decode()
        if x not in was:
            raise Undecided(f"{id}: no longer returns {x}")
        ed.rep(a, b, was.replace(x, y))
    if c.ret and sig["ret"]:
        a, b = sig["ret"]
        ed.ins(a, f"({c.ret}: ", 9)
        ed.ins(b, ")", -9)
    spec = "\n" + R(c.spec) + "\n"
    head_end = end
    if mode in ("assume", "decl"):
        head = ed.get(it["sig_start"], sig["span"][1]).rstrip().rstrip(";")
        if mode == "decl":
            return "\n".join(c.attrs) + "\n" + head + spec + ";\n"
        # patterns and `mut` in parameters do not matter without the body
        some = "std::iter::empty()" if sig["ret"] and re.match(rb"\s*impl\s+(\w+::)*(DoubleEnded|ExactSize)?Iterator\b", d[sig["ret"][0] : sig["ret"][1]]) else "unimplemented!()"
        return "#[verifier::external_body]\n" + head + spec + "{ " + some + " }\n"
    ed.ins(head_end, spec, -5)
    # ---- shims
    used = set()
    count = {}
    for call in it["calls"]:
        n = call["name"]
        k = count.get(n, 0)
        count[n] = k + 1
        for m, ordn, fn in c.shims:
            if m == n and (ordn is None or ordn == k or ordn == f"a{call['nargs']}"):
                used.add(m)
                if fn.startswith("."):
                    # a method of a trait of the preludes in place of the std one
                    if call["kind"] != "method":
                        raise Undecided(f"{id}: {n} is not called as a method")
                    ed.rep(call["ident"][0], call["ident"][1], fn[1:])
                elif call["kind"] == "method":
                    # `&FUNC`: the receiver is a value which the call borrows mutably
                    # (`@FUNC`: and this one only looks at it)
                    ed.ins(call["span"][0], fn[1:] + "(&mut " if fn[0] == "&" else fn[1:] + "(&" if fn[0] == "@" else fn + "(", -call["span"][1])
                    if call["args"]:
                        ed.rep(call["recv"][1], call["args"][0], ", ")
                    else:
                        ed.rep(call["recv"][1], call["span"][1], ")")
                else:
                    ed.rep(call["func"][0], call["func"][1], fn)
        for m, a, b in c.swapargs:
            if m == n and call["args"] and d[call["args"][0] : call["args"][1]].decode() == a:
                ed.rep(call["args"][0], call["args"][1], b)
        for m, ordn, name, text in c.recvs:
            if m == n and ordn == k and call["kind"] == "method":
                ed.ins(call["recv"][0], f"{{ let mut {name} = ", -call["span"][1])
                if any(m == n and (o is None or o == k or o == f"a{call['nargs']}") for m, o, _ in c.shims):
                    ed.ins(call["recv"][1], f";\n{R(text)}\n{name} }}", 0)
                else:
                    ed.ins(call["recv"][1], f";\n{R(text)}\n{name}", 0)
                    ed.ins(call["span"][1], " }", 1)
    for k, e in enumerate(it["eqs"]):
        for ordn, fn in c.eqs:
            if ordn is None or ordn == k:
                ed.ins(e["span"][0], ("!" if e["ne"] else "") + fn + "(&(", -e["span"][1])
                ed.rep(e["left"][1], e["right"][0], "), &(")
                ed.ins(e["span"][1], "))", 1)
    for x, y in c.swaps:
        t = d[body["span"][0] : body["span"][1]]
        i = t.find(x.encode())
        if i < 0:
            raise Undecided(f"{id}: {x} is gone")
        while i >= 0:
            a = body["span"][0] + i
            ed.rep(a, a + len(x.encode()), y)
            i = t.find(x.encode(), i + 1)
    for k in c.vecranges:
        if k >= len(it["ranges"]):
            raise Undecided(f"{id}: range index {k} is gone")
        g = it["ranges"][k]
        ed.ins(g["base"][1], ".as_mut_slice()" if g["mut"] else ".as_slice()", 0)
    for k, ref in c.rangefns:
        if k >= len(it["ranges"]) or it["ranges"][k]["incl"]:
            raise Undecided(f"{id}: range index {k} is gone")
        g = it["ranges"][k]
        fn = "vs_slice" + ("_from" if g["from"] else "") + ("_to" if g["to"] else "") + ("_mut" if g["mut"] else "")
        ed.ins(g["span"][0], f"(*{fn}(" + (("&mut " if g["mut"] else "&") if g["nested"] or ref else ""), -g["span"][1])
        at = g["base"][1]
        for q in (g["from"], g["to"]):
            if q:
                ed.rep(at, q[0], ", ")
                at = q[1]
        ed.rep(at, g["span"][1], "))")
    for m in it["macros"]:
        fn = c.macros.get(m["name"]) or GLOBAL_MACROS.get(m["name"])
        if fn:
            a, b = m["span"]
            t = d[a:b].decode()
            if fn == "KEEP":
                continue
            inner = t[t.index("!") + 1 :].strip()[1:-1]
            if fn == "vs_assert":
                # only the condition; the message has no effect
                depth, cut = 0, len(inner)
                for i, ch in enumerate(inner):
                    if ch in "([{":
                        depth += 1
                    elif ch in ")]}":
                        depth -= 1
                    elif ch == "," and depth == 0:
                        cut = i
                        break
                ed.rep(a, b, f"vs_assert({inner[:cut].strip()})")
            elif fn == "vs_format" and c.texts:
                ed.rep(a, b, format_text(id, inner))
            else:
                ed.rep(a, b, f"{fn}()")
    # ---- closures
    for k, cl in enumerate(it["closures"]):
        pre = ""
        for j, p in enumerate(cl["params"]):
            if not p["plain"]:
                nm = f"vp{k}_{j}"
                if not p["wild"]:
                    pat = d[p["span"][0] : p["span"][1]].decode()
                    # `&name` in a pattern: bound as a reference, then dereferenced
                    refs = re.findall(r"&\s*([a-z_]\w*)", pat)
                    pat = re.sub(r"&\s*([a-z_]\w*)", r"vpr_\1", pat)
                    pre += f"let {pat} = {nm}; " + "".join(f"let {x} = *vpr_{x}; " for x in refs)
                ed.rep(p["span"][0], p["span"][1], nm)
        t = c.closures.get(k)
        if t is not None:
            ed.ins(cl["head_end"], " " + R(t) + " ", -5)
        if pre or (t is not None and not cl["block"]):
            ed.ins(cl["body"][0], "{ " + pre, -cl["body"][1] - 1)
            ed.ins(cl["body"][1], " }", 5)
    # ---- loops
    for k, l in enumerate(it["loops"]):
        if k not in c.loops:
            raise Undecided(f"{id}: loop {k} has no invariant")
        m, name, text = c.loops[k]
        text = "\n" + R(text) + "\n"
        bs = l["body"][0]
        if m == "native":
            nm, _, suffix = name.partition(" ")
            ed.ins(l["expr"][0], f"{nm}: " + ("(" if suffix else ""), -10**9)
            if suffix:
                ed.ins(l["expr"][1], ")" + suffix, 10**8)
            ed.ins(bs, text, -5)
        elif m == "desugar":
            pat = d[l["pat"][0] : l["pat"][1]].decode()
            a = l["label"][1] if l["label"] else l["span"][0]
            lab = d[l["label"][0] : l["label"][1]].decode() if l["label"] else ""
            if lab:
                ed.rep(l["label"][0], l["label"][1], "")
            ed.rep(a, l["expr"][0], f"{{ let mut {name} = ", -10**8)
            init = "".join("\n" + R(t) + "\n" for ws, t in c.ats if ws == ["loop", str(k), "init"])
            ed.ins(l["expr"][1], f"; {init} {lab} loop {text} {{ match {name}.next() {{ None => {{ break; }} Some({pat}) => ", 10**8)
            done = "".join("\n" + R(t) + "\n" for ws, t in c.ats if ws == ["loop", str(k), "done"])
            ed.ins(l["body"][1], "} } " + done + "}", 10**8)
        else:
            ed.ins(bs, text, -5)
    if canary:
        ed.ins(body["span"][0] + 1, "\n/*@canary*/ proof { assert(false); }\n", -1)
    # ---- anchors
    for words, text in c.ats:
        text = "\n" + R(text) + "\n"
        if words[0] == "entry":
            ed.ins(body["span"][0] + 1, text)
        elif words[0] == "exit":
            # the end of a body without tail expression
            ed.ins(body["span"][1] - 1, text, 10**9)
            if base and base["returns"] == 0:
                for x in it["returns"]:
                    later = {b["name"] for b in it["binds"] if b["span"][0] > x["span"][0]} | {g for ws, o in c.ats if ws[0] != "entry" for g in re.findall(r"let ghost (?:mut )?(\w+)", o)}
                    if not x["expr"] and not later & set(re.findall(r"\w+", text)):
                        src.hints.add(id)
                        ed.ins(x["span"][0], "{ " + text, -10**8)
                        ed.ins(x["span"][1], " }", 10**8)
        elif words[0] in ("tail", "ret"):
            st = body["stmts"]
            if not st or not st[-1]["tail"]:
                raise Undecided(f"{id}: no tail expression")
            a, b = st[-1]["span"]
            if words[0] == "tail" and base and not base["named"] and tail_name(it, d):
                # the value is named first: what was before the tail is before its `let`
                m = re.match(r"let\s+" + tail_name(it, d) + r"\s*(:[^=]*)?=", d[st[-2]["span"][0] : st[-2]["span"][1]].decode()) if len(st) > 1 else None
                if m:
                    a = st[-2]["span"][0]
            if words[0] == "tail":
                ed.ins(a, text, -10**9)
            else:
                ed.ins(a, "let vs_ret = ", -10**9)
                ed.ins(b, ";" + text + "vs_ret", 10**9)
                if base and base["returns"] == 0:
                    for x in it["returns"]:
                        later = {b["name"] for b in it["binds"] if b["span"][0] > x["span"][0]} | {g for ws, o in c.ats if ws[0] != "entry" for g in re.findall(r"let ghost (?:mut )?(\w+)", o)}
                        if x["expr"] and not later & set(re.findall(r"\w+", text)):
                            src.hints.add(id)
                            ed.ins(x["span"][0], "{ let vs_ret = ", -10**8)
                            ed.rep(x["span"][0], x["expr"][0], "")
                            ed.ins(x["span"][1], ";" + text + "return vs_ret; }", 10**8)
        elif words[0] == "loop":
            l = it["loops"][int(words[1])]
            if words[2] == "body":
                ed.ins(l["body"][0] + 1, text)
            elif words[2] == "end":
                ed.ins(l["body"][1] - 1, text, 10**9)
            elif words[2] in ("init", "done"):
                pass
            elif words[2] == "before":
                s = innermost(it, *l["span"])
                ed.ins(s[0], text, -2 * 10**9)
            elif words[2] == "after":
                s = innermost(it, *l["span"])
                ed.ins(s[1], text, 2 * 10**9)
        elif words[0] in ("before", "after"):
            # before|after CALLNAME [k]: the innermost statement with that call
            # (`=NAME`: the assignments to NAME)
            k = int(words[2]) if len(words) > 2 else 0
            if words[1][0] == "=":
                m = re.compile(r"\*?" + re.escape(R(words[1][1:])) + r"\s*=[^=]")
                cs = [{"span": x} for x in it["allstmts"] if m.match(d[x[0] : x[1]].decode())]
            else:
                cs = [x for x in it["calls"] if x["name"] == words[1]] + [x for x in it["macros"] if x["name"] + "!" == words[1]]
            if len(cs) <= k:
                raise Undecided(f"{id}: the anchor {words[1]} is gone")
            s = innermost(it, *cs[k]["span"])
            if words[0] == "before":
                ed.ins(s[0], text, -2 * 10**9)
            else:
                if not d[s[0] : s[1]].rstrip().endswith((b";", b"}")):
                    raise Undecided(f"{id}: the statement of {words[1]} is a tail expression")
                ed.ins(s[1], text, 2 * 10**9)
        else:
            raise SystemExit(f"anchor {words}")
    if c.texts:
        # what the characters of the literals are
        ls = literals(d[body["span"][0] : body["span"][1]].decode())
        ed.ins(body["span"][0] + 1, "\nproof { " + " ".join(f"reveal_strlit({x});" for x in ls) + " }\n", 0)
    if c.fromfn:
        step, collect, var, ty, item, t = c.fromfn
        var = R(var)
        cs = [x for x in it["calls"] if x["name"] == "from_fn" and x["kind"] == "call"]
        if len(cs) != 1 or len([b for b in it["binds"] if b["name"] == var]) != 1:
            raise Undecided(f"{id}: not one from_fn with the state {var}")
        cl = [x for x in it["closures"] if x["span"] == cs[0]["args"]]
        if len(cl) != 1 or not cl[0]["block"] or cl[0]["params"] or not cl[0]["move"]:
            raise Undecided(f"{id}: not one from_fn with the state {var}")
        inner = re.sub(r"\b" + var + r"\b", f"(*{var})", ed.get(*cl[0]["body"]))
        ed.rep(cs[0]["span"][0], cs[0]["span"][1], f"{collect}({var})", -(10**10))
        helper = f"fn {step}<'a>({var}: &mut {ty}) -> (r: {item})\n{R(t)}\n{strip_comments(inner)}\n"
        return helper + "\n".join(c.attrs) + "\n" + strip_comments(ed.get()) + "\n"
    return "\n".join(c.attrs) + "\n" + strip_comments(ed.get()) + "\n"


def literals(t):
    """The string literals of a piece of text (no raw ones)."""
    t = strip_comments(t)
    out = []
    for x in re.finditer(r"b?'(?:[^'\\]|\\.)'|(?<![\w#])\"(?:[^\"\\]|\\.)*\"", t, re.S):
        if x.group(0)[0] == '"':
            out += [x.group(0)] + [p for p in format_pieces(x.group(0)) or []]
    return list(dict.fromkeys(out))


def format_pieces(lit):
    """The texts around the `{}` of a format string, as literals; None for other placeholders."""
    ps = re.split(r"\{\w*\}", lit[1:-1])
    if any("{" in p or "}" in p for p in ps):
        return None
    return [f'"{p}"' for p in ps]


def format_text(id, inner):
    """`format!` with plain placeholders, as the joining of its pieces."""
    m = re.match(r'"(?:[^"\\]|\\.)*"', inner.strip())
    ps = m and format_pieces(m.group(0))
    if not ps:
        raise Undecided(f"{id}: a format string which is not understood")
    named = re.findall(r"\{(\w*)\}", m.group(0))
    args = commas(inner.strip()[m.end() :].strip().lstrip(","))
    out = f"vs_literal({ps[0]})"
    for p, n in zip(ps[1:], named):
        if n and not re.match(r"[a-z_]\w*$", n):
            raise Undecided(f"{id}: a format string which is not understood")
        if not n and not args:
            raise Undecided(f"{id}: a format string which is not understood")
        out = f"vs_join({out}, &({n or args.pop(0)}))"
        if p != '""':
            out = f"vs_join({out}, &{p})"
    if args:
        raise Undecided(f"{id}: a format string which is not understood")
    return out


GLOBAL_MACROS = {"assert": "vs_assert", "todo": "vs_unreachable", "unreachable": "vs_unreachable", "panic": "vs_unreachable", "format": "vs_format"}


# ---------------------------------------------------------------- units
def only_laws(t):
    """Ghost items without the definitions of `parse` and `enc` and without the proofs of the laws."""
    out, i = [], 0
    for m in re.finditer(r"(?m)^(spec|proof) fn (\w+)[^{]*\{", t):
        if m.start() < i:
            continue
        n, e = 1, m.end()
        while n:
            n += {"{": 1, "}": -1}.get(t[e], 0)
            e += 1
        head = t[m.start() : m.end() - 1].rstrip()
        if m.group(1) == "proof":
            out.append("#[verifier::external_body] // proved in its own unit\n" + head + " {}")
        elif m.group(2) in ("parse", "enc"):
            out.append("uninterp " + head + ";")
        else:
            out.append(t[m.start() : e])
        i = e
    return "\n".join(out) + "\n"


def angle(t, i):
    """The end of the bracketed text which starts with `<` at i."""
    n = 0
    while True:
        if t[i] == "<":
            n += 1
        elif t[i] == ">" and t[i - 1] not in "-=":
            n -= 1
            if n == 0:
                return i + 1
        i += 1


def make_free(text, it, name, src):
    """A method of a trait, or of the implementation of one, as a free function: the verifier takes no traits
    which refer to each other, and no specifications on methods of traits of std. The parameters of the trait or
    impl come first, `Self` of a trait is a parameter of its own."""
    ctx = it["ctx"]
    if "trait_def" in ctx:
        t = src.get(ctx["trait_def"])
        head = src.text[t["file"]][t["start"] : t["head_end"]].decode()
        m = re.match(r"trait\s+\w+\s*", head)
        gens = []
        if head[m.end() : m.end() + 1] == "<":
            gens = [x.strip() for x in commas(head[m.end() + 1 : angle(head, m.end()) - 1])]
        args = [g.split(":")[0].replace("const ", "").strip() for g in gens]
        own = "VsX"
        gens.append(f"VsX: {ctx['trait_def']}" + (f"<{', '.join(args)}>" if args else ""))
        assoc = {}
    else:
        d = src.text[it["file"]].decode() if isinstance(src.text[it["file"]], bytes) else src.text[it["file"]]
        db = src.text[it["file"]]
        head = db[ctx["start"] : ctx["end"]].decode()
        m = re.match(r"impl\s*", head)
        gens = []
        at = m.end()
        if head[at : at + 1] == "<":
            e = angle(head, at)
            gens = [x.strip() for x in commas(head[at + 1 : e - 1])]
            at = e
        own = head[head.rindex(" for ", at) + 5 :].strip()
        assoc = {}
        rest = db[ctx["end"] : it["span"][0]].decode()
        for m in re.finditer(r"\btype\s+(\w+)\s*=\s*([^;]+);", rest):
            assoc[m.group(1)] = m.group(2)
    m = re.search(r"\bfn\s+" + it["name"] + r"\s*", text)
    at = m.end()
    if text[at] == "<":
        e = angle(text, at)
        g = [x.strip() for x in commas(text[at + 1 : e - 1])]
        gens = [x for x in gens + g if x.startswith("'")] + [x for x in gens + g if not x.startswith("'")]
        text = text[:at] + text[e:]
    text = text[: m.start()] + f"fn {name}" + (f"<{', '.join(gens)}>" if gens else "") + text[at:]
    i = text.index("(", text.index(f"fn {name}") + len(f"fn {name}") + (len(", ".join(gens)) if gens else 0))
    text = text[: i + 1] + re.sub(r"^(\s*)(mut\s+)?(&\s*(?:'\w+\s+)?(?:mut\s+)?)?self\b", lambda k: f"{k.group(1)}{k.group(2) or ''}vs_self: {k.group(3) or ''}Self", text[i + 1 :], count=1)
    text = re.sub(r"\bself\b", "vs_self", text)
    for k, v in assoc.items():
        text = re.sub(r"\bSelf::" + k + r"\b", lambda _: v, text)
    return re.sub(r"\bSelf\b", lambda _: own, text)


class Unit:
    def __init__(self, name):
        self.name = name
        self.lines = []
        self.seen = set()
        self.load(name + ".unit")
        self.verified = [l.split(None, 1)[1] for l in self.lines if l.startswith("verify ")]
        self.assumed = [l.split(None, 1)[1] for l in self.lines if l.startswith("assume ")]


    def load(self, f):
        """`include FILE` brings in the lines of another file once."""
        if f in self.seen:
            return
        self.seen.add(f)
        for l in contract_text(f).split("\n"):
            l = l.strip()
            if not l or l.startswith("# "):
                continue
            if l.startswith("include "):
                self.load(l.split()[1])
            elif l not in self.lines:
                self.lines.append(l)


def split_id(s):
    """The words of a line whose first word is a function id (`<A as B>::c` counts as one)."""
    if s.startswith("<"):
        k = s.index(">::")
        i = s.find(" ", k)
        return [s] if i < 0 else [s[:i]] + s[i:].split()
    return s.split()


LEMMA = re.compile(r"^((?:pub(?:\([a-z]+\))? )?(?:broadcast )?proof fn )", re.M)


def given_lemmas(t):
    """The lemmas of a text as statements, without their proofs."""
    t = LEMMA.sub(r"#[verifier::external_body]\n\1", t)
    return re.sub(r"(#\[verifier::external_body\]\n){2,}", r"#[verifier::external_body]\n", t)


def build_unit(unit, src, contracts, baseline, canary=False, demote=None, given=()):
    """Returns the Verus text. canary: every verified body gets `assert(false)` at its start.
    demote: id -> reason; functions which are not brought to the verifier (their contract is assumed);
    functions whose extraction is undecided are added to it.
    given: lines of the unit whose lemmas another unit of the same run proves; here they are used as they are."""
    if demote is None:
        demote = {}
    known = set()
    for c in contracts:
        known.add(c.split("@")[0].split("::")[-1])
    parts = ["#![allow(unused, non_camel_case_types, non_snake_case, dead_code)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\n"]
    parts.append(open(os.path.join(CONTRACTS, "uses.rs")).read())
    parts.append("verus! {\n")
    groups = {}  # impl head -> index into parts
    traits = {}

    def add_fn(id, mode):
        c = contracts.get(id)
        if c is None:
            raise SystemExit(f"{unit.name}: no contract for {id}")
        it = src.get(id)
        if id in demote:
            mode = "assume"
        try:
            text = emit_fn(src, id, c, baseline, mode, known, canary)
            if canary:  # `hide` has to come first
                text = re.sub(r"(/\*@canary\*/ proof \{ assert\(false\); \}\n)(\s*(?:hide\([\w:]+\);\s*)+)", r"\2\1", text)
        except Undecided as e:
            if mode != "verify":
                raise
            demote[id] = str(e)
            text = emit_fn(src, id, c, baseline, "assume", known)
        text = expand_result(text, src.text[it["file"]].decode())
        ctx = it["ctx"]
        if c.free:
            text = make_free(text, it, c.free, src)
            ctx = None
        text = f"/*@fn {id}*/\n{text}/*@endfn*/\n"
        if ctx is None:
            parts.append(text)
        elif "trait_def" in ctx:
            traits[ctx["trait_def"]][1].append(text)
        else:
            key = (it["file"], ctx["start"])
            if key not in groups:
                d = src.text[it["file"]]
                ed = Edits(d, ctx["start"], ctx["end"])
                flatten(ed, ctx, src)
                groups[key] = [ed.get(), [], len(parts)]
                parts.append(None)
            groups[key][1].append(text)

    for l in unit.lines:
        w = l.split(None, 1)
        if w[0] == "prelude":
            t = contract_text(w[1])
            parts.append(f"// ---- {w[1]}\n" + (given_lemmas(t) if l in given else t) + "\n")
        elif w[0] == "type":
            name, _, attrs = w[1].partition(" ")
            parts.append(f"/*@type {name}*/\n" + emit_plain(src, name, [attrs] if attrs else [], contracts[name].replace if name in contracts else ()))
            it = src.get(name)
            if "prelude clones.vrs" in unit.lines and it["kind"] in ("struct", "enum"):
                # a derived clone gives an equal value
                head = src.text[it["file"]][it["span"][0] : it["start"]].decode()
                if re.search(r"derive\([^)]*\bClone\b", head) and not re.search(r"\b" + name + r"\s*<", src.text[it["file"]][it["start"] : it["span"][1]].decode()):
                    parts.append(f"impl VsClone for {name} {{\n    #[verifier::external_body]\n    fn vs_clone(&self) -> Self {{ unimplemented!() }}\n}}\n")
        elif w[0] == "trait":
            name, _, extra = w[1].partition(" ")
            it = src.get(name)
            d = src.text[it["file"]]
            ed = Edits(d, it["start"], it["head_end"])
            flatten(ed, it, src)
            ex = contracts[name].extra if name in contracts else ""
            traits[name] = [ed.get(), [ex], len(parts)]
            parts.append(None)
        elif w[0] == "tconst":
            # an associated constant of a trait, declared without its default
            it = src.get(w[1])
            tn = w[1].split("::")[0]
            d = src.text[it["file"]]
            traits[tn][1].append(d[it["start"] : it["decl_end"]].decode() + ";\n")
        elif w[0] == "iconst":
            it = src.get(w[1])
            ctx = it["ctx"]
            key = (it["file"], ctx["start"])
            d = src.text[it["file"]]
            if key not in groups:
                ed = Edits(d, ctx["start"], ctx["end"])
                flatten(ed, ctx, src)
                groups[key] = [ed.get(), [], len(parts)]
                parts.append(None)
            groups[key][1].append(d[it["start"] : it["span"][1]].decode() + "\n")
        elif w[0] == "const" and w[1].startswith("<"):
            # an associated constant of an impl, or the default of the trait: const CONSTID FNID
            cid, fid = w[1].split(" @ ")
            it = src.get(fid)
            ctx = it["ctx"]
            key = (it["file"], ctx["start"])
            if key not in groups:
                ed = Edits(src.text[it["file"]], ctx["start"], ctx["end"])
                flatten(ed, ctx, src)
                groups[key] = [ed.get(), [], len(parts)]
                parts.append(None)
            if cid in src.items:
                ci = src.get(cid)
                text = src.text[ci["file"]][ci["start"] : ci["span"][1]].decode()
            else:
                ci = src.get(ctx["trait"].split("<")[0] + "::" + cid.split("::")[-1])
                text = src.text[ci["file"]][ci["start"] : ci["span"][1]].decode()
            text = text.rstrip().rstrip(";") + ";\n"
            m = re.match(r".*?const\s+(\w+)\s*:\s*(.*?)\s*=\s*(.*?)\s*;\s*$", text, re.S)
            if not re.fullmatch(r"[\w:]+", m.group(3)):
                # Verus evaluates no such constant of a trait: state its value, from the same text, and have
                # the text checked against the statement as a local
                ty = cid.split(" as ")[0].strip("<")
                name = m.group(1) + "_" + re.sub(r"\W+", "_", ty).strip("_")
                rhs = re.sub(r"\bSelf\b", ty, m.group(3))
                if re.match(r"&\s*\[", rhs):
                    view, spec = "@", "seq!" + rhs[1:].strip()
                else:
                    view, spec = "", re.sub(r"(std::mem::)?size_of", "vstd::layout::size_of", rhs)
                text = "#[verifier::external_body]\n" + text
                parts.append(
                    f"#[verifier::external_body] // and checked below\nproof fn const_{name}() ensures {cid.split('>::')[0]}>::{m.group(1)}{view} == {spec} {{}}\n"
                    f"fn const_check_{name}() {{ let s: {m.group(2)} = {rhs}; assert(s{view} {'=~=' if view else '=='} {spec}); }}\n"
                )
            else:
                ty = cid.split(" as ")[0].strip("<")
                name = m.group(1) + "_" + re.sub(r"\W+", "_", ty).strip("_")
                parts.append(f"proof fn const_{name}() ensures {cid.split('>::')[0]}>::{m.group(1)} == {m.group(3)} {{}}\n")
            groups[key][1].append(text)
        elif w[0] == "verify":
            add_fn(w[1], "verify")
        elif w[0] == "assume":
            add_fn(w[1], "assume")
        elif w[0] == "implextra":
            # implextra FNID FILE: ghost items for the impl block of FNID
            fid, f, *ps = split_id(w[1])
            it = src.get(fid)
            key = (it["file"], it["ctx"]["start"])
            if key not in groups:
                d = src.text[it["file"]]
                ed = Edits(d, it["ctx"]["start"], it["ctx"]["end"])
                flatten(ed, it["ctx"], src)
                groups[key] = [ed.get(), [], len(parts)]
                parts.append(None)
            t = contract_text(f)
            if "laws" in ps:
                # only its laws, which another unit proves from its definitions
                ps.remove("laws")
                t = only_laws(t)
            for p in ps:
                t = t.replace("@" + p.split("=")[0] + "@", p.split("=", 1)[1])
            groups[key][1].append(given_lemmas(t) if l in given else t)
        else:
            raise SystemExit(f"{unit.name}: {l}")
    for head, fns, at in list(groups.values()) + list(traits.values()):
        parts[at] = head + " {\n" + "\n".join(fns) + "}\n"
    parts.append("} // verus!\nfn main() {}\n")
    text = "\n".join(parts)
    # the verifier takes one module-level `broadcast use`: merge those of the preludes
    names = []
    for m in re.finditer(r"(?m)^broadcast use \{([^}]*)\};$", text):
        names += [x.strip() for x in m.group(1).split(",") if x.strip()]
    if names:
        text = re.sub(r"(?m)^broadcast use \{[^}]*\};$", "", text)
        text = text.replace("verus! {\n", "verus! {\nbroadcast use {" + ", ".join(dict.fromkeys(names)) + "};\n", 1)
    return text
