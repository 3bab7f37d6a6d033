"""Overlay files (contracts) -> one Verus source per unit, woven into the functions found in /repo now.

Overlay format (proofs/*.ov), line based:
  == fn FILE NAME[ as NEW] [features a,b]   one function (NAME or Type::NAME)
     (Trait@Type::NAME: a method of a trait's impl, taken as an inherent one with the impl header `head TEXT`)
     ret r | props P01 P02 | module M (where the file's own module holds another of the name) | requires/ensures/decreases (verbatim) | attr #[..] | trusted | solo
     loop K: (verbatim invariant/decreases lines)      closure-free: every loop gets a section, maybe empty
     before [n] `tokens`: / after [n] `tokens`: (verbatim proof lines)   subst [n] `tokens` => `tokens`
  == type FILE NAME [module=M] [features=a,b] [attr..]   a struct, enum or const
  == spec MODULE               verbatim Verus (specs, lemmas, trusted contracts)
"""
import os, re
import rx
from rx import Lost, T, G

CR = "crates/toon/src/"


def module_of(f):
    m = f[:-3]
    if m.startswith(CR):
        m = m[len(CR):]
    else:
        m = re.sub(r"^crates/([^/]+)/src/", lambda k: k.group(1).replace("-", "_") + "/", m)
    m = m.replace("/mod", "") if m.endswith("/mod") else m
    return m.replace("/", "::") if m != "lib" else "root"


class Fn:
    def __init__(self, file, name, new, feats, ov):
        self.file, self.name, self.new, self.feats, self.ov = file, name, new, feats, ov
        self.ret, self.props, self.spec, self.attrs, self.trusted = None, [], [], [], False
        self.solo = False  # verified in a run of its own
        self.loops, self.hints, self.substs, self.retype = {}, [], [], []
        self.elem = {}  # element types of collected vectors (annotations only)
        self.module = module_of(file)
        self.sigsub = []
        self.head = None  # impl head for trait methods taken as inherent ones

    @property
    def key(self):
        return self.module + "::" + (self.new or self.name)


def unfold(txt):
    """`//@ unfold` before a spec function: it is opaque, and lemma unfold_NAME states its definition."""
    names = re.findall(r"//@ unfold\npub open spec fn (\w+)", txt)
    out, pos = [], 0
    for m in re.finditer(r"//@ unfold\npub open spec fn (\w+)\(", txt):
        def match(i, o, c):
            d = 0
            while True:
                d += (txt[i] == o) - (txt[i] == c)
                i += 1
                if d == 0:
                    return i
        a = m.end() - 1
        b = match(a, "(", ")")
        args = txt[a + 1:b - 1]
        i = txt.index("\n{", b) + 1 if re.match(r"[^{\n]*\n", txt[b:]) else txt.index("{", b)
        e = match(i, "{", "}")
        call = "%s(%s)" % (m.group(1), ", ".join(re.findall(r"(\w+)\s*:(?!:)", args)))
        out.append(txt[pos:m.start()] + "#[verifier::opaque]\n" + txt[m.start() + len("//@ unfold\n"):e])
        out.append("\npub proof fn unfold_%s(%s)\n    ensures %s == (%s)\n{ %s }\n" % (m.group(1), args, call, txt[i:e], " ".join("reveal(%s);" % n for n in names)))
        pos = e
    return "".join(out) + txt[pos:]


class Overlay:
    def __init__(self):
        self.fns, self.types, self.specs = [], [], []

    def load(self, path):
        cur, sect, buf = None, None, []

        def flush():
            nonlocal sect, buf
            if cur is None or sect is None:
                sect, buf = None, []
                return
            txt = "\n".join(buf)
            if isinstance(cur, Fn):
                if sect[0] == "spec":
                    cur.spec.append(txt)
                elif sect[0] == "loop":
                    cur.loops[sect[1]] = txt
                elif sect[0] in ("before", "after", "start", "end", "loopstart", "loopend", "afterloop"):
                    cur.hints.append((sect[0], sect[1], sect[2], txt))
            else:
                cur[1].append(txt)
            sect, buf = None, []

        for ln in open(path):
            ln = ln.rstrip("\n")
            m = re.match(r"^== (\w+) (.*)$", ln)
            if m:
                flush()
                kind, rest = m.groups()
                if kind == "fn":
                    feats = None
                    mm = re.search(r"\s+features (\S*)$", rest)
                    if mm:
                        feats = set(x for x in mm.group(1).split(",") if x)
                        rest = rest[:mm.start()]
                    mm = re.match(r"(\S+) (\S+)(?: as (\S+))?$", rest)
                    f = mm.group(1)
                    f = f if f.startswith("crates/") else CR + f
                    cur = Fn(f, mm.group(2), mm.group(3), feats, path)
                    self.fns.append(cur)
                elif kind == "type":
                    mm = re.match(r"(\S+) (\S+)\s*(.*)$", rest)
                    f = mm.group(1)
                    f = f if f.startswith("crates/") else CR + f
                    self.types.append((f, mm.group(2), mm.group(3)))
                    cur = None
                elif kind == "spec":
                    cur = (rest.strip(), [], path)
                    self.specs.append(cur)
                    sect, buf = ("verb",), []
                else:
                    raise ValueError(ln)
                continue
            if cur is None:
                continue
            if not isinstance(cur, Fn):
                buf.append(ln)
                continue
            m = re.match(r"^elem (r__\d+) (.*)$", ln)
            if m:
                flush()
                cur.elem[m.group(1)] = m.group(2)
                continue
            m = re.match(r"^(ret|props|attr|head|module) (.*)$", ln)
            if m:
                flush()
                k, v = m.groups()
                if k == "ret":
                    cur.ret = v.strip()
                elif k == "head":
                    cur.head = v
                elif k == "module":
                    cur.module = v.strip()
                elif k == "props":
                    cur.props = v.split()
                else:
                    cur.attrs.append(v)
                continue
            if ln == "solo":
                cur.solo = True
                continue
            if ln == "trusted":
                flush()
                cur.trusted = True
                continue
            if ln == "spec:":
                flush()
                sect, buf = ("spec",), []
                continue
            m = re.match(r"^loop (\d+):$", ln)
            if m:
                flush()
                sect, buf = ("loop", int(m.group(1))), []
                continue
            m = re.match(r"^(before|after)(?: (\d+))? `(.*)`:$", ln)
            if m:
                flush()
                sect, buf = (m.group(1), m.group(3), int(m.group(2) or 0)), []
                continue
            m = re.match(r"^(start|end):$", ln)
            if m:
                flush()
                sect, buf = (m.group(1), "", 0), []
                continue
            m = re.match(r"^(loopstart|loopend|afterloop) (\d+):$", ln)
            if m:
                flush()
                sect, buf = (m.group(1), "", int(m.group(2))), []
                continue
            m = re.match(r"^(subst|sig)(?: (\d+|all))? `(.*)` => `(.*)`$", ln)
            if m:
                flush()
                (cur.substs if m.group(1) == "subst" else cur.sigsub).append((m.group(3), m.group(4), m.group(2)))
                continue
            if sect is None:
                if ln.strip() and not ln.startswith("#"):
                    raise ValueError("%s: stray line %r" % (path, ln))
                continue
            buf.append(ln)
        flush()
        for sp in self.specs:
            if sp[2] == path:
                sp[1][:] = [unfold("\n".join(sp[1]))]


SRC = {}


def source(repo, file, feats):
    k = (repo, file, frozenset(feats))
    if k not in SRC:
        p = os.path.join(repo, file)
        if not os.path.exists(p):
            raise Lost("no file " + file)
        SRC[k] = rx.items(rx.parse(open(p).read()), feats)
    return SRC[k]


FEATS = {"std", "serde", "json"}


def find(repo, file, name, kind, feats):
    cand = []
    for it in source(repo, file, feats):
        if kind == "fn" and it.kind != "fn" or kind != "fn" and it.kind == "fn":
            continue
        if "::" in name:
            ty, n = name.split("::")
            tr = None
            if "@" in ty:
                tr, ty = ty.split("@")
            if it.name == n and rx.impl_name(it.impl) == ty and (tr is None or rx.impl_trait(it.impl) == tr):
                cand.append(it)
        elif it.name == name and (it.impl is None or kind != "fn"):
            cand.append(it)
    if len(cand) != 1:
        raise Lost("%s %s: %d definitions in %s" % (kind, name, len(cand), file))
    return cand[0]


def tokens(s):
    return rx.flat(rx.parse(s))


def seq_find(ns, pat, cb):
    """Calls cb(list, start, end) at every place where the token sequence pat occurs within one node list."""
    for n in ns:
        if isinstance(n, G):
            seq_find(n.ch, pat, cb)
    i = 0
    while i < len(ns):
        j, k = i, 0
        while j < len(ns) and k < len(pat):
            if ns[j].k == "nl":
                j += 1
                continue
            f = rx.flat([ns[j]])
            if pat[k:k + len(f)] != f:
                break
            k += len(f)
            j += 1
        if k == len(pat) and k > 0 and ns[i].k != "nl":
            cb(ns, i, j)
        i += 1


def occurrences(ns, pat):
    """In source order."""
    out = []

    def rec(l):
        i = 0
        while i < len(l):
            j, k = i, 0
            if l[i].k != "nl":
                while j < len(l) and k < len(pat):
                    if l[j].k == "nl":
                        j += 1
                        continue
                    f = rx.flat([l[j]])
                    if pat[k:k + len(f)] != f:
                        break
                    k += len(f)
                    j += 1
                if k == len(pat):
                    out.append((l, i, j))
            if isinstance(l[i], G):
                rec(l[i].ch)
            i += 1
    rec(ns)
    return out


def verb(txt):
    return T("verb", "\n" + txt + "\n", " ")


def stmt_start(l, i):
    """Start of the statement that holds position i in list l (a block's children)."""
    while i > 0:
        p = l[i - 1]
        if p.s == ";" or p.k == "verb" or (isinstance(p, G) and p.o == "{" and not (l[i].s in (".", "?", "else", "as") or l[i].s in ("==", "&&", "||"))):
            return i
        if p.s in ("=>", ","):
            return i
        i -= 1
    return i


def render_fn(repo, f, lost, external=None):
    """Text of one function with its contract; lost: render with the contract only (body not verified)."""
    feats = f.feats if f.feats is not None else FEATS
    it = find(repo, f.file, f.name, "fn", feats)
    ns = [n for n in it.nodes]
    body = ns[-1]
    if not isinstance(body, G):
        raise Lost("no body: " + f.name)
    sig = ns[:-1]
    # signature: name the return value
    for a, b, _ in f.sigsub:
        sigt = rx.parse(" ".join(rx.flat(sig)))
        occ = occurrences(sigt, tokens(a))
        if not occ:
            raise Lost("signature of %s: no `%s`" % (f.name, a))
        for l, i, j in reversed(occ):
            l[i:j] = rx.mk(b)
        sig = sigt
    # `mut self`: a local copy under another name
    mutself = False
    if "mut" in [x for n in sig if isinstance(n, G) and n.o == "(" for x in [y.s for y in n.ch[:1]]]:
        sig = rx.parse(rx.show(sig))
    for n in sig:
        if isinstance(n, G) and n.o == "(" and [x.s for x in n.ch[:2]] == ["mut", "self"]:
            del n.ch[0]
            mutself = True
    if f.new:
        for n in sig:
            if n.k == "id" and n.s == it.name:
                n.s = f.new.split("::")[-1]
    ar, where = None, None
    for k, n in enumerate(sig):
        if n.s == "->" and ar is None:
            ar = k
        if n.s == "where":
            where = k
    wtxt = ""
    if where is not None:
        wtxt = rx.show(sig[where:])
        sig = sig[:where]
    if ar is not None:
        sigtxt = rx.show(sig[:ar]) + " -> (%s: %s)" % (f.ret or "r", rx.show(sig[ar + 1:]).strip())
    else:
        sigtxt = rx.show(sig)
    sigtxt = "pub " + sigtxt.strip() + (" " + wtxt if wtxt else "")
    spec = "\n".join(f.spec)
    if lost or f.trusted:
        btxt = "{ unimplemented!() }"
        attrs = ["#[verifier::external_body]"] + [a for a in f.attrs if "external_body" not in a]
        if lost:
            attrs = [a for a in attrs if "rlimit" not in a and "spinoff" not in a]
            spec = re.sub(r"(?ms)^\s*decreases\b.*?(?=^\s*(?:requires|ensures)\b|\Z)", "", spec)
    else:
        # fresh copy of the body
        ch = rx.cfg_strip(rx.parse(rx.show(body.ch)), feats)
        for a, b, l in reversed(rx.local_items([G("{", ch)])):
            # structs and impls inside the body are items of their own
            l[a:b] = []
        if mutself:
            def rename(l):
                for x in l:
                    if isinstance(x, G):
                        rename(x.ch)
                    elif x.s == "self":
                        x.s = "this"
            rename(ch)
            ch[:0] = rx.mk("let mut this = self;")
        for a, b, n in f.substs:
            occ = occurrences(ch, tokens(a))
            if not occ:
                raise Lost("%s: anchor `%s` lost" % (f.name, a))
            if n == "all":
                pass
            elif n is not None:
                if int(n) >= len(occ):
                    raise Lost("%s: anchor `%s` lost" % (f.name, a))
                occ = [occ[int(n)]]
            elif len(occ) != 1:
                raise Lost("%s: anchor `%s` found %d times" % (f.name, a, len(occ)))
            for l, i, j in reversed(occ):
                rep = rx.mk(b, l[i].ws)
                l[i:j] = rep
        ch = [n for n in ch]
        ch = rx.Desugar().run(ch)
        for var, ty in f.elem.items():
            for l, i, j in reversed(occurrences(ch, tokens("let mut %s = Vec::new()" % var))):
                l[i:j] = rx.mk("let mut %s: Vec<%s> = Vec::new()" % (var, ty), l[i].ws)
        loops = rx.number_loops(ch)
        if len(loops) != len(f.loops):
            raise Lost("%s: %d loops where the contract knows %d" % (f.name, len(loops), len(f.loops)))
        # hints
        for kind, pat, n, txt in f.hints:
            if kind == "start":
                ch.insert(0, verb(txt))
            elif kind == "end":
                ch.append(verb(txt))
            elif kind == "loopstart":
                if n >= len(loops):
                    raise Lost("loop lost")
                g = loops[n][2]
                at = 0
                bump = ["i__%d" % n, "=", "i__%d" % n, "+", "1", ";"]
                for q in range(len(g.ch)):
                    if [x.s for x in g.ch[q:q + 6]] == bump:
                        at = q + 6
                        break
                g.ch.insert(at, verb(txt))
            elif kind == "loopend":
                g = loops[n][2]
                g.ch.append(verb(txt))
            elif kind == "afterloop":
                kw, l, g = loops[n]
                l.insert(l.index(g) + 1, verb(txt))
        for kind, pat, n, txt in f.hints:
            if kind in ("before", "after"):
                occ = occurrences(ch, tokens(pat))
                if n >= len(occ):
                    raise Lost("%s: anchor `%s` lost" % (f.name, pat))
                l, i, j = occ[n]
                if kind == "before":
                    l.insert(stmt_start(l, i), verb(txt))
                else:
                    if j < len(l) and l[j].s == ";":
                        j += 1
                    l.insert(j, verb(txt))
        for k, (kw, l, g) in enumerate(loops):
            l.insert(next(q for q, x in enumerate(l) if x is g), verb(f.loops.get(k, "")))
        # string literals: their characters, known at the start of the body and of every loop
        def literals(l, seen):
            for x in l:
                if isinstance(x, G):
                    literals(x.ch, seen)
                elif x.k == "str" and x.s.startswith('"') and x.s not in seen and len(x.s) <= 14:
                    seen.append(x.s)
            return seen

        def reveals(l):
            pre = ""
            for s in literals(l, []):
                cs = chars_of(s)
                if cs is not None:
                    pre += " reveal_strlit(%s); assert(%s@ =~= %s);" % (s, s, "seq![%s]" % ", ".join(cs) if cs else "Seq::<char>::empty()")
            return "proof {%s }\n" % pre if pre else ""
        for kw, l, g in loops:
            r = reveals(g.ch)
            if r:
                k0 = 0
                while k0 < len(g.ch) and g.ch[k0].k == "nl":
                    k0 += 1
                g.ch.insert(k0, verb(r))
        pre = reveals(ch)
        body_src = rx.show(ch)
        body_src = re.sub(r"\buse core::fmt::Write as _;", "", body_src)
        # hide(..) has to come first in a body
        hides = re.match(r"\s*(hide\(\w+\);\s*)*", body_src).group(0)
        btxt = "{\n" + hides + pre + body_src[len(hides):] + "\n}"
        attrs = f.attrs
    out = "\n".join(attrs) + ("\n" if attrs else "") + sigtxt + "\n" + spec + "\n" + btxt + "\n"
    if it.impl is not None:
        if f.head:
            return "impl %s {\n%s}\n" % (f.head, out)
        out = "impl %s {\n%s}\n" % (re.sub(r"^\s+", "", rx.show(it.impl)) if not f.new or "::" not in f.new else f.new.split("::")[0], out)
        if "for" in [n.s for n in it.impl]:
            out = re.sub(r"^impl .*? for ", "impl ", out)
    return out


def chars_of(lit):
    body, out, i = lit[1:-1], [], 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            if body[i + 1] in "nrt0\\'\"":
                out.append("'\\%s'" % body[i + 1])
                i += 2
                continue
            if body[i + 1] == "u":
                j = body.index("}", i)
                out.append("'%s'" % body[i:j + 1])
                i = j + 1
                continue
            return None
        out.append("'\\''" if c == "'" else "'%s'" % c)
        i += 1
    return out


def type_opts(opts):
    """Options of a type: its module and features, where given, and its attributes."""
    mod, feats = None, FEATS
    m = re.match(r"module=(\S+)\s*", opts)
    if m:
        mod, opts = m.group(1), opts[m.end():]
    m = re.match(r"features=(\S+)\s*", opts)
    if m:
        feats, opts = set(m.group(1).split(",")), opts[m.end():]
    return mod, feats, opts


def render_type(repo, file, name, opts):
    _, feats, opts = type_opts(opts)
    it = find(repo, file, name, "type", feats)
    ns = rx.parse(rx.show(it.nodes))
    # drop attributes on fields and variants (cfg'd out ones with their field), make fields public

    def clean(l, fields):
        out, i = [], 0
        while i < len(l):
            if l[i].s == "#" and i + 1 < len(l) and isinstance(l[i + 1], G):
                ok = rx.cfg_ok(l[i + 1].ch, feats)
                i += 2
                if not ok:
                    while i < len(l) and l[i].s != ",":
                        i += 1
                    i += 1
                continue
            out.append(l[i])
            i += 1
        if fields:
            res, first, d = [], True, 0
            for n in out:
                if first and n.k == "id":
                    if n.s != "pub":
                        res.append(T("id", "pub", "\n    "))
                    first = False
                if n.s == "<":
                    d += 1
                elif n.s in (">", ">>"):
                    d -= len(n.s)
                elif n.s == "," and d == 0:
                    first = True
                res.append(n)
            out = res
        return out
    if isinstance(ns[-1], G):
        ns[-1].ch = clean(ns[-1].ch, it.kind == "struct")
        if it.kind == "enum":
            pass
    if it.kind == "const":
        return "pub " + rx.show(ns).strip() + "\n"
    return (opts + "\n" if opts else "") + "pub " + rx.show(ns).strip() + "\n"
