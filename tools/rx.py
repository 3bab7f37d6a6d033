"""Mechanical extraction of Rust functions for Verus: lexer, item finder, desugaring, contract weaving.

Everything emitted for a function under contract is the token sequence found in /repo on this run,
changed only by the passes below; each pass is a meaning-preserving rewriting into the subset Verus accepts.
"""
import re


class Lost(Exception):
    """The function cannot be brought before the verifier as it stands (anchor lost, construct unknown)."""


TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>(?:b|c)?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>(?:b|c)?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?[A-Za-z_]\w*|0[xob][\da-fA-F_]+\w*|\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|&&|\|\||==|!=|<=|>=|<<|>>|\.\.|\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}])
""", re.X | re.S)


class T:
    __slots__ = ("k", "s", "ws", "line")

    def __init__(self, k, s, ws=" ", line=0):
        self.k, self.s, self.ws, self.line = k, s, ws, line

    def __repr__(self):
        return self.s


class G:
    """A bracketed group."""
    __slots__ = ("o", "c", "ch", "ws", "line", "k")

    def __init__(self, o, ch, ws=" ", line=0):
        self.o, self.c, self.ch, self.ws, self.line, self.k = o, {"(": ")", "[": "]", "{": "}"}[o], ch, ws, line, "g"

    @property
    def s(self):
        return self.o

    def __repr__(self):
        return show([self])


def lex(src):
    out, i, ws, line = [], 0, "", 1
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise Lost("cannot lex at line %d: %r" % (line, src[i:i + 20]))
        k = m.lastgroup
        if k == "h":
            k = "raw"
        s = m.group()
        if k == "ws":
            ws += s
        elif k == "lc":
            ws += " "
        elif k == "bc":
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            s = src[i:j]
            ws += " "
        else:
            out.append(T(k, s, ws, line))
            ws = ""
        line += s.count("\n")
        i += len(s)
    return out


def tree(toks):
    stack, cur = [], []
    for t in toks:
        if t.k == "op" and t.s in "([{":
            g = G(t.s, [], t.ws, t.line)
            cur.append(g)
            stack.append((cur, g))
            cur = g.ch
        elif t.k == "op" and t.s in ")]}":
            if not stack:
                raise Lost("unbalanced")
            par, g = stack.pop()
            if g.c != t.s:
                raise Lost("unbalanced")
            if t.ws and "\n" in t.ws:
                g.ch.append(T("nl", "", "\n"))
            cur = par
        else:
            cur.append(t)
    if stack:
        raise Lost("unbalanced")
    return cur


def parse(src):
    return tree(lex(src))


def show(nodes):
    out = []

    def rec(ns):
        for n in ns:
            w = n.ws
            if not w and out and out[-1] and (out[-1][-1].isalnum() or out[-1][-1] == "_") and n.s and (n.s[0].isalnum() or n.s[0] == "_"):
                w = " "
            out.append(w)
            if isinstance(n, G):
                out.append(n.o)
                rec(n.ch)
                out.append(n.c)
            else:
                out.append(n.s)
    rec(nodes)
    return "".join(out)


def flat(nodes):
    out = []
    for n in nodes:
        if isinstance(n, G):
            out.append(n.o)
            out += flat(n.ch)
            out.append(n.c)
        elif n.k != "nl":
            out.append(n.s)
    return out


def norm(nodes):
    return " ".join(flat(nodes))


def real(nodes):
    return [n for n in nodes if n.k != "nl"]


# ---------------------------------------------------------------- items

def cfg_ok(attr, feats):
    """Evaluates #[cfg(..)] (attr: children of the [..] group) under the given features."""
    a = real(attr)
    if not a or a[0].s != "cfg":
        return True

    def ev(ns):
        ns = real(ns)
        if ns[0].s in ("not", "all", "any"):
            parts, cur = [], []
            for x in ns[1].ch:
                if x.s == ",":
                    parts.append(cur); cur = []
                else:
                    cur.append(x)
            if real(cur):
                parts.append(cur)
            vs = [ev(p) for p in parts if real(p)]
            return (not vs[0]) if ns[0].s == "not" else all(vs) if ns[0].s == "all" else any(vs)
        if ns[0].s == "feature":
            return ns[2].s.strip('"') in feats
        return False  # test, target_os, ..
    return ev(a[1].ch)


def cfg_strip(ns, feats):
    """A body without the statements and fields that its #[cfg(..)] attributes turn off, and without these attributes."""
    out, i = [], 0
    while i < len(ns):
        n = ns[i]
        if n.s == "#" and i + 1 < len(ns) and isinstance(ns[i + 1], G) and ns[i + 1].o == "[" and real(ns[i + 1].ch)[:1] and real(ns[i + 1].ch)[0].s == "cfg":
            ok = cfg_ok(ns[i + 1].ch, feats)
            i += 2
            if ok:
                continue
            while i < len(ns) and ns[i].s == "#" and isinstance(ns[i + 1], G):
                i += 2
            if i >= len(ns):
                break
            if isinstance(ns[i], G) and ns[i].o == "{":
                i += 1
            elif ns[i].s in ("if", "match", "while", "for", "loop"):
                while i < len(ns):
                    while not (isinstance(ns[i], G) and ns[i].o == "{"):
                        i += 1
                    i += 1
                    if not (i < len(ns) and ns[i].s == "else"):
                        break
            elif ns[i].k == "id" and i + 1 < len(ns) and ns[i + 1].s in (":", ","):
                while i < len(ns) and ns[i].s != ",":
                    i += 1
                i += 1
            else:
                while i < len(ns) and ns[i].s != ";":
                    i += 1
                i += 1
            continue
        if isinstance(n, G):
            n.ch = cfg_strip(n.ch, feats)
        out.append(n)
        i += 1
    return out


class Item:
    def __init__(self, kind, name, nodes, attrs, impl):
        self.kind, self.name, self.nodes, self.attrs, self.impl = kind, name, nodes, attrs, impl


def items(nodes, feats, impl=None):
    """fn/struct/enum/const items of a node list, impl blocks included, under the features."""
    out = []
    ns = real(nodes)
    macros = macro_rules(ns)
    i = 0
    while i < len(ns):
        attrs = []
        while i < len(ns) and ns[i].s == "#":
            j = i + 1
            if j < len(ns) and ns[j].s == "!":
                j += 1
            attrs.append(ns[j].ch)
            i = j + 1
        if i >= len(ns):
            break
        ok = all(cfg_ok(a, feats) for a in attrs)
        st = i
        while i < len(ns) and ns[i].s in ("pub", "unsafe", "async", "default") or (i < len(ns) and ns[i].s == "(" and i > st and ns[i - 1].s == "pub") or (i < len(ns) and ns[i].s == "const" and i + 1 < len(ns) and ns[i + 1].s in ("fn", "unsafe")):
            i += 1
        if i >= len(ns):
            break
        kw = ns[i].s
        j = i
        if kw in ("fn", "mod", "impl", "trait", "enum", "union", "extern", "macro_rules"):
            while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == "{") and ns[j].s != ";":
                j += 1
            end = j + 1
        elif kw == "struct":
            while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == "{") and ns[j].s != ";":
                j += 1
            end = j + 1
        else:
            while j < len(ns) and ns[j].s != ";":
                j += 1
            end = j + 1
        body = ns[i:end]
        if ok:
            if kw == "fn":
                out.append(Item("fn", body[1].s, body, attrs, impl))
                for a, b, l in local_items(body[-1:]):
                    out += items(l[a:b], feats, None)
            elif kw in ("struct", "enum", "const", "static"):
                out.append(Item(kw, body[1].s, body, attrs, impl))
            elif kw in ("impl", "trait") and isinstance(body[-1], G):
                head = body[1:-1]
                out += items(expand(body[-1].ch, macros), feats, head)
            elif kw == "mod" and isinstance(body[-1], G):
                out += items(body[-1].ch, feats, None)
        i = max(end, i + 1)
    return out


def local_items(ns):
    """Structs and impls inside a function's blocks: (start, end, list), innermost lists not descended into."""
    out = []
    for n in ns:
        if not isinstance(n, G):
            continue
        l, i, start = n.ch, 0, True
        while i < len(l):
            if n.o == "{" and start and l[i].s in ("struct", "impl"):
                j = i
                while j < len(l) and not (isinstance(l[j], G) and l[j].o == "{") and l[j].s != ";":
                    j += 1
                out.append((i, min(j + 1, len(l)), l))
                i = j + 1
                continue
            start = l[i].s == ";" or l[i].k == "nl" and start or isinstance(l[i], G) and l[i].o == "{"
            if isinstance(l[i], G):
                out += local_items([l[i]])
            i += 1
    return out


def macro_rules(ns):
    """Local macros of one rule `$($a:kind sep ..)*`: name -> (fragment names, separators, template)."""
    out = {}
    for i in range(len(ns) - 3):
        if ns[i].s == "macro_rules" and ns[i + 1].s == "!" and isinstance(ns[i + 3], G):
            r = real(ns[i + 3].ch)
            if len(r) < 3 or r[1].s != "=>" or any(x.s == "=>" for x in r[2:]) or not isinstance(r[0], G) or not isinstance(r[2], G):
                continue
            pat, tpl = real(r[0].ch), real(r[2].ch)
            if [x.s for x in pat] == ["$", "(", "*"] and [x.s for x in tpl] == ["$", "(", "*"]:
                out[ns[i + 2].s] = (real(pat[1].ch), tpl[1].ch)
    return out


def expand(nodes, macros):
    """Macro calls among a list's items, expanded: local ones of one repeated rule, serde's forwarding to deserialize_any."""
    out, i = [], 0
    ns = nodes
    while i < len(ns):
        if ns[i].k == "id" and i + 2 < len(ns) and ns[i + 1].s == "!" and isinstance(ns[i + 2], G) and ns[i].s in macros:
            pat, tpl = macros[ns[i].s]
            arg, k = real(ns[i + 2].ch), 0
            while k < len(arg):
                env, q = {}, 0
                while q < len(pat):
                    if pat[q].s == "$" and q + 3 < len(pat) and pat[q + 2].s == ":":
                        if pat[q + 3].s not in ("ident", "ty", "tt", "expr", "literal") or k >= len(arg):
                            raise Lost("macro " + ns[i].s)
                        env[pat[q + 1].s] = arg[k]
                        q += 4
                    else:
                        if k >= len(arg) or arg[k].s != pat[q].s:
                            raise Lost("macro " + ns[i].s)
                        q += 1
                    k += 1

                def sub(l):
                    r, z = [], 0
                    while z < len(l):
                        if l[z].s == "$" and z + 1 < len(l) and l[z + 1].s in env:
                            e = env[l[z + 1].s]
                            r.append(T(e.k, e.s, " "))
                            z += 2
                            continue
                        if isinstance(l[z], G):
                            g = G(l[z].o, sub(l[z].ch), l[z].ws)
                            r.append(g)
                        else:
                            r.append(l[z])
                        z += 1
                    return r
                out += sub(tpl)
            i += 3
            if i < len(ns) and ns[i].s == ";":
                i += 1
            continue
        if ns[i].s == "forward_to_deserialize_any" and i + 2 < len(ns) and isinstance(ns[i + 2], G):
            while out and out[-1].s in ("serde", "::"):
                out.pop()
            extra = {"unit_struct": "_n: &'static str, ", "tuple": "_n: usize, ", "tuple_struct": "_n: &'static str, _l: usize, ", "struct": "_n: &'static str, _f: &'static [&'static str], ",
                     "newtype_struct": "_n: &'static str, ", "enum": "_n: &'static str, _v: &'static [&'static str], "}
            for x in real(ns[i + 2].ch):
                if x.k != "id":
                    raise Lost("forward_to_deserialize_any")
                out += parse("fn deserialize_%s<V>(self, %svisitor: V) -> core::result::Result<V::Value, Self::Error> where V: de::Visitor<'de> { self.deserialize_any(visitor) }\n" % (x.s, extra.get(x.s, "")))
            i += 3
            if i < len(ns) and ns[i].s == ";":
                i += 1
            continue
        out.append(ns[i])
        i += 1
    return out


def impl_name(head):
    """Type name of an impl header (after `impl`): last path before generics/where; 'Trait for Type' gives Type."""
    if head is None:
        return None
    h = real(head)
    names = [n.s for n in h]
    if "for" in names:
        h = h[names.index("for") + 1:]
    else:
        if h and h[0].s == "<":
            d = 0
            for k, n in enumerate(h):
                if n.s == "<":
                    d += 1
                elif n.s == ">":
                    d -= 1
                    if d == 0:
                        h = h[k + 1:]
                        break
    for n in h:
        if n.k == "id" and n.s not in ("mut", "dyn"):
            return n.s
    return None


def impl_trait(head):
    """Trait name of an impl header 'Trait for Type' (without generics), else None."""
    h = real(head)
    names = [n.s for n in h]
    if "for" not in names:
        return None
    h = h[:names.index("for")]
    d, last = 0, None
    for n in h:
        if n.s == "<":
            d += 1
        elif n.s == ">":
            d -= 1
        elif d == 0 and n.k == "id":
            last = n.s
    return last


# ---------------------------------------------------------------- rewriting

def mk(src, ws=None):
    ns = parse(src)
    if ns and ws is not None:
        ns[0].ws = ws
    return ns


def walk(nodes, f):
    """Applies f to every node list, innermost first; f returns the new list."""
    for n in nodes:
        if isinstance(n, G):
            n.ch = walk(n.ch, f)
    return f(nodes)


def chain_start(ns, i):
    """Index where the postfix expression chain ending just before i begins."""
    j = i
    while j > 0:
        p = ns[j - 1]
        if isinstance(p, G) and p.o in "([":
            j -= 1
            continue
        if p.k in ("id", "num", "str", "chr", "raw") and p.s not in ("return", "in", "match", "if", "while", "let", "mut", "else", "as"):
            j -= 1
            if j > 0 and ns[j - 1].s in (".", "::"):
                j -= 1
                continue
            return j
        if p.s == "?":
            j -= 1
            continue
        if p.s in (".", "::"):
            j -= 1
            continue
        return j
    return j


def split_top(nodes, sep):
    out, cur = [], []
    for n in nodes:
        if n.s == sep and not isinstance(n, G):
            out.append(cur)
            cur = []
        else:
            cur.append(n)
    out.append(cur)
    return out


def d_slices(ns):
    """&e[a..b] -> e.rng(a, b) (likewise rng_from, rng_to)."""
    i = 0
    while i < len(ns):
        n = ns[i]
        if isinstance(n, G) and n.o == "[" and i > 0 and any(x.s == ".." for x in n.ch) and (
                ns[i - 1].k == "id" and ns[i - 1].s not in ("return", "in", "match", "if") or isinstance(ns[i - 1], G) and ns[i - 1].o in "(["):
            a, b = split_top(real(n.ch), "..")
            st = chain_start(ns, i)
            if a and b:
                rep = [T("op", ".", ""), T("id", "rng", ""), G("(", a + [T("op", ",", "")] + b, "")]
            elif a:
                rep = [T("op", ".", ""), T("id", "rng_from", ""), G("(", a, "")]
            elif b:
                rep = [T("op", ".", ""), T("id", "rng_to", ""), G("(", b, "")]
            else:
                raise Lost("full-range index")
            ns = ns[:i] + rep + ns[i + 1:]
            if st > 0 and ns[st - 1].s == "&" and ns[st - 1].k == "op" and (st < 2 or not (ns[st - 2].k in ("id", "num") and ns[st - 2].s not in ("return", "in", "match", "if") or isinstance(ns[st - 2], G) and ns[st - 2].o in "([")):
                ns = ns[:st - 1] + ns[st:]
                ns[st - 1].ws = ns[st - 1].ws or " "
                i -= 1
            i += 2
        i += 1
    return ns


def str_pieces(lit):
    """'"a {} b"' -> list of ('lit', '"a "') and ('arg', spec)."""
    body = lit[1:-1]
    out, cur, i = [], "", 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            if body[i + 1] == "u":
                j = body.index("}", i)
                cur += body[i:j + 1]
                i = j + 1
            elif body[i + 1] == "\n":
                raise Lost("line continuation in a format string")
            else:
                cur += body[i:i + 2]
                i += 2
            continue
        if c == "{":
            if body[i + 1] == "{":
                cur += "{"
                i += 2
                continue
            j = body.index("}", i)
            if cur:
                out.append(("lit", '"' + cur + '"'))
                cur = ""
            out.append(("arg", body[i + 1:j]))
            i = j + 1
            continue
        if c == "}":
            cur += "}"
            i += 2
            continue
        cur += c
        i += 1
    if cur:
        out.append(("lit", '"' + cur + '"'))
    return out


class Desugar:
    """Desugars one function body; numbers loops in source order afterwards."""

    def __init__(self):
        self.n = 0

    def fresh(self):
        self.n += 1
        return "%d" % self.n

    def fmt_into(self, target, args):
        parts = [real(p) for p in split_top(args, ",")]
        parts = [p for p in parts if p]
        lit, rest = parts[0], parts[1:]
        if len(lit) != 1 or lit[0].k != "str":
            raise Lost("format string")
        src, k = "", 0
        for kind, v in str_pieces(lit[0].s):
            if kind == "lit":
                src += "%s.push_str(%s); " % (target, v)
            else:
                name, _, spec = v.partition(":")
                if name:
                    arg = name
                else:
                    if k >= len(rest):
                        raise Lost("format arguments")
                    arg = show(rest[k]).strip()
                    k += 1
                if spec == "":
                    src += "fmt_arg(&mut %s, &(%s)); " % (target, arg)
                elif spec == "04X":
                    src += "fmt_hex4(&mut %s, %s); " % (target, arg)
                elif spec == "04x":
                    src += "fmt_hex4_lower(&mut %s, %s); " % (target, arg)
                else:
                    raise Lost("format spec " + spec)
        return src

    def macros(self, ns):
        i = 0
        out = list(ns)
        while i + 2 < len(out) + 0:
            n = out[i]
            if n.k == "id" and i + 2 < len(out) and out[i + 1].s == "!" and isinstance(out[i + 2], G):
                g = out[i + 2]
                if n.s == "format":
                    if out[max(0, i - 1)].s == "::":
                        raise Lost("path to macro")
                    f = "f__" + self.fresh()
                    rep = mk("({ let mut %s = String::new(); %s %s })" % (f, self.fmt_into(f, g.ch), f), n.ws)
                    out[i:i + 3] = rep
                elif n.s in ("write", "writeln"):
                    parts = split_top(g.ch, ",")
                    tgt = show(parts[0]).strip()
                    rest = g.ch[len(parts[0]) + 1:]
                    rep = mk("({ %s })" % self.fmt_into(tgt, rest), n.ws)
                    out[i:i + 3] = rep
                elif n.s == "matches":
                    parts = split_top(g.ch, ",")
                    e = show(parts[0]).strip()
                    pat = real(g.ch[len(parts[0]) + 1:])
                    if pat and pat[-1].s == ",":
                        pat = pat[:-1]
                    if any(x.k == "str" for x in pat):
                        alts = [show(p).strip() for p in split_top(pat, "|")]
                        rep = mk("(" + " || ".join("%s == %s" % (e, a) for a in alts) + ")", n.ws)
                    else:
                        rep = mk("(match %s { %s => true, _ => false })" % (e, show(pat).strip()), n.ws)
                    rep = self.deep(rep)
                    out[i:i + 3] = rep
                elif n.s in ("debug_assert", "assert"):
                    parts = split_top(g.ch, ",")
                    rep = mk("rt_assert(%s)" % show(parts[0]).strip(), n.ws)
                    out[i:i + 3] = rep
                elif n.s == "unreachable" or n.s == "panic":
                    out[i:i + 3] = mk("rt_unreachable()", n.ws)
                elif n.s == "vec":
                    parts = [show(p).strip() for p in split_top(g.ch, ",") if real(p)]
                    if any(x.s == ";" for x in g.ch):
                        raise Lost("vec![;]")
                    if not parts:
                        rep = mk("Vec::new()", n.ws)
                    else:
                        v = "v__" + self.fresh()
                        rep = mk("({ let mut %s = Vec::new(); %s %s })" % (v, " ".join("%s.push(%s);" % (v, p) for p in parts), v), n.ws)
                    out[i:i + 3] = rep
                elif n.s in ("seq", "set"):
                    pass
                else:
                    raise Lost("macro %s!" % n.s)
            i += 1
        return out

    def deep(self, ns):
        return ns

    def str_match(self, ns):
        """match e { "a" => A, .. _ => Z } on string literals -> if chain."""
        i = 0
        while i < len(ns):
            if ns[i].s == "match" and ns[i].k == "id":
                j = i + 1
                while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == "{"):
                    j += 1
                if j < len(ns):
                    arms = self.arms(ns[j].ch)
                    if arms and any(a[0] and a[0][0].k == "str" for a in arms):
                        e = show(ns[i + 1:j]).strip()
                        src, closed = "", False
                        for pat, body in arms:
                            b = show(body).strip()
                            if pat[0].k == "str":
                                alts = [show(p).strip() for p in split_top(pat, "|")]
                                src += "if %s { %s } else " % (" || ".join("%s == %s" % (e, a) for a in alts), b)
                            elif len(pat) == 1 and pat[0].k == "id":
                                if pat[0].s != "_":
                                    b = "let %s = %s; %s" % (pat[0].s, e, b)
                                src += "{ %s }" % b
                                closed = True
                                break
                            else:
                                raise Lost("string match arm")
                        if not closed:
                            raise Lost("string match without default")
                        rep = mk("(%s)" % src, ns[i].ws)
                        stmt = (i == 0 or ns[i - 1].s == ";" or isinstance(ns[i - 1], G) and ns[i - 1].o == "{") and j + 1 < len(real(ns))
                        if stmt:
                            rep = mk(src, ns[i].ws)
                        ns = ns[:i] + rep + ns[j + 1:]
            i += 1
        return ns

    def guard_match(self, ns):
        """match e { .., P if g => A, _ => B } -> { .., P => if g { A } else { B } _ => B }"""
        for i in range(len(ns)):
            if ns[i].s == "match" and ns[i].k == "id":
                j = i + 1
                while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == "{"):
                    j += 1
                if j == len(ns):
                    continue
                arms = self.arms(ns[j].ch)
                if len(arms) < 2 or show(arms[-1][0]).strip() != "_" or not any(x.s == "if" for x in arms[-2][0]) or not arms[-2][0][0].s[:1].isupper():
                    continue
                pat, body = arms[-2]
                k = [x.s for x in pat].index("if")
                if any(x.s == "let" for x in pat[k:]):
                    continue
                blk = lambda b: show(b).strip() if len(b) == 1 and isinstance(b[0], G) and b[0].o == "{" else "{ %s }" % show(b).strip()
                src = "".join("%s => %s\n" % (show(p).strip(), blk(b)) for p, b in arms[:-2])
                src += "%s => { if %s %s else %s }\n_ => %s" % (show(pat[:k]).strip(), show(pat[k + 1:]).strip(), blk(body), blk(arms[-1][1]), blk(arms[-1][1]))
                ns = ns[:j] + mk("{ %s }" % src, ns[j].ws) + ns[j + 1:]
        return ns

    def arms(self, ch):
        out, ns = [], real(ch)
        i = 0
        while i < len(ns):
            j = i
            while j < len(ns) and ns[j].s != "=>":
                j += 1
            if j >= len(ns):
                break
            pat = ns[i:j]
            k = j + 1
            if k < len(ns) and isinstance(ns[k], G) and ns[k].o == "{" and (k + 1 >= len(ns) or ns[k + 1].s == "," or True) and not (k + 1 < len(ns) and ns[k + 1].s == "."):
                body = [ns[k]]
                k += 1
                if k < len(ns) and ns[k].s == ",":
                    k += 1
            else:
                b0 = k
                while k < len(ns) and ns[k].s != ",":
                    k += 1
                body = ns[b0:k]
                k += 1
            out.append((pat, body))
            i = k
        return out

    def map_err(self, ns):
        """e.map_err(F)? -> match e { Ok(v) => v, Err(x) => return Err(F(x)) } (F makes the function's own error type, so `?` converts nothing)"""
        i = 0
        while i + 2 < len(ns):
            if ns[i].s == "map_err" and i > 0 and ns[i - 1].s == "." and isinstance(ns[i + 1], G) and ns[i + 2].s == "?":
                args = real(ns[i + 1].ch)
                st = chain_start(ns, i)
                recv = show(ns[st:i - 1]).strip()
                v, x = "v__" + self.fresh(), "x__" + self.fresh()
                if args[0].s == "|":
                    k = 1
                    while args[k].s != "|":
                        k += 1
                    pat, ty = split_top(args[1:k], ":") if any(y.s == ":" for y in args[1:k]) else (args[1:k], None)
                    x = show(pat).strip()
                    body = show(args[k + 1:]).strip()
                else:
                    body = "%s(%s)" % (show(args).strip(), x)
                rep = mk("(match %s { Ok(%s) => %s, Err(%s) => { return Err(%s); } })" % (recv, v, v, x, body), ns[st].ws)
                ns = ns[:st] + rep + ns[i + 3:]
                i = st
            i += 1
        return ns

    def closures(self, ns):
        """Iterator adaptors with a closure become loops."""
        i = 0
        while i < len(ns):
            n = ns[i]
            if n.k == "id" and i > 0 and ns[i - 1].s == "." and i + 1 < len(ns) and isinstance(ns[i + 1], G) and ns[i + 1].o == "(":
                args = real(ns[i + 1].ch)
                clos = bool(args) and args[0].s == "|"
                if clos and n.s in ("any", "all", "map", "position"):
                    k = 1
                    while args[k].s != "|":
                        k += 1
                    pat, body = args[1:k], args[k + 1:]
                    st = chain_start(ns, i)
                    recv = ns[st:i - 1]
                    r, bs, ps = "r__" + self.fresh(), show(body).strip(), show(pat).strip()
                    rs = show(recv).strip()
                    if n.s in ("any", "all"):
                        if not re.search(r"\.(iter|chars|bytes)\(\)$", rs):
                            raise Lost("closure receiver " + rs)
                        init, cond, hit = ("false", bs, "true") if n.s == "any" else ("true", "!(%s)" % bs, "false")
                        src = "({ let mut %s = %s; for %s in %s { if %s { %s = %s; } } %s })" % (r, init, ps, rs, cond, r, hit, r)
                        ns = ns[:st] + mk(src, ns[st].ws) + ns[i + 2:]
                        i = st
                    elif n.s == "position":
                        if not re.search(r"\.iter\(\)$", rs):
                            raise Lost("closure receiver " + rs)
                        c = "p__" + self.fresh()
                        src = "({ let mut %s: Option<usize> = None; for (%s, %s) in %s.enumerate() { if %s.is_none() && (%s) { %s = Some(%s); } } %s })" % (r, c, ps, rs, r, bs, r, c, r)
                        ns = ns[:st] + mk(src, ns[st].ws) + ns[i + 2:]
                        i = st
                    else:
                        m = re.search(r"^(.*)\.(iter|into_iter)\(\)$", rs, re.S)
                        e = i + 2
                        if m and e + 1 < len(ns) and ns[e].s == "." and ns[e + 1].s == "collect":
                            e += 2
                            if ns[e].s == "::":
                                e += 1
                                d = 0
                                while True:
                                    if ns[e].s == "<":
                                        d += 1
                                    elif ns[e].s == ">":
                                        d -= 1
                                    elif ns[e].s == ">>":
                                        d -= 2
                                    e += 1
                                    if d <= 0:
                                        break
                            e += 1
                            it = rs if m.group(2) == "iter" else m.group(1)
                            src = "({ let mut %s = Vec::new(); for %s in %s { %s.push(%s); } %s })" % (r, ps, it, r, bs, r)
                            ns = ns[:st] + mk(src, ns[st].ws) + ns[e:]
                            i = st
                        elif re.search(r"\.as_ref\(\)$", rs) and show(ns[e:e + 3]).strip() == ".unwrap_or_default()":
                            src = "(match %s { Some(%s) => %s, None => String::new() })" % (rs, ps, bs)
                            ns = ns[:st] + mk(src, ns[st].ws) + ns[e + 3:]
                            i = st
                        elif re.search(r"\.as_ref\(\)$", rs) or not m and n.s == "map" and show(ns[e:e + 2]).strip() == ".unwrap_or" and isinstance(ns[e + 2], G):
                            src = "(match %s { Some(%s) => %s, None => %s })" % (rs, ps, bs, show(ns[e + 2].ch).strip())
                            ns = ns[:st] + mk(src, ns[st].ws) + ns[e + 3:]
                            i = st
                        else:
                            raise Lost("closure chain ." + n.s + " on " + rs)
                elif clos:
                    raise Lost("closure in ." + n.s)
            i += 1
        return ns

    def for_loops(self, ns):
        i = 0
        while i < len(ns):
            if ns[i].s == "for" and ns[i].k == "id":
                j = i + 1
                while j < len(ns) and ns[j].s != "in":
                    j += 1
                if j >= len(ns):
                    break
                b = j + 1
                while not (isinstance(ns[b], G) and ns[b].o == "{"):
                    b += 1
                pat, ex, body = real(ns[i + 1:j]), real(ns[j + 1:b]), ns[b]
                es, ps = show(ex).strip(), show(pat).strip()
                enum = False
                m = re.match(r"^(.*?)\s*\.enumerate\(\)$", es, re.S)
                if m and isinstance(pat[0], G) and len(split_top(pat[0].ch, ",")) == 2:
                    a, bb = split_top(pat[0].ch, ",")
                    idx, es, pat = show(a).strip(), m.group(1), real(bb)
                    ps = show(pat).strip()
                    enum = True
                slicey = enum or re.search(r"\.iter\(\)$", es) or es.startswith("&") or pat[0].s == "&"
                if slicey and not re.search(r"\.(chars|bytes|into_iter|keys|values)\(\)$", es):
                    es2 = re.sub(r"\.iter\(\)$", "", es)
                    es2 = es2 if es2.startswith("&") or re.search(r"\.rng\w*\([^()]*\)$", es2) else "&" + es2
                    if pat[0].s == "&":
                        bind = "let %s = xs__@[i__@];" % show(pat[1:]).strip()
                    elif isinstance(pat[0], G):
                        bind = "let elem__@ = &xs__@[i__@]; "
                        for k, p in enumerate(split_top(pat[0].ch, ",")):
                            p = show(p).strip()
                            if p != "_":
                                bind += "let %s = &elem__@.%d; " % (p, k)
                    else:
                        bind = "let %s = &xs__@[i__@];" % ps
                    if enum:
                        bind = "let %s = i__@; " % idx + bind
                    src = "let xs__@ = %s; let mut i__@: usize = 0; while i__@ < xs__@.len() { %s i__@ = i__@ + 1; }" % (es2, bind)
                    # only the inserted parts are new: the body nodes stay
                    new = parse(src.replace("@", "U" + self.fresh()))
                    new[-1].ch += body.ch
                    new[0].ws = ns[i].ws
                    ns = ns[:i] + new + ns[b + 1:]
                    i += len(new) - 1
                else:
                    ex[0].ws = " "
                    new = [ns[i]] + ns[i + 1:j + 1] + [T("id", "it__U" + self.fresh(), " "), T("op", ":", "")] + ex + [body]
                    ns = ns[:i] + new + ns[b + 1:]
                    i += len(new) - 1
            i += 1
        return ns

    def while_let(self, ns):
        """while let P = e { B } -> loop { let P = e else { break }; B }"""
        i = 0
        while i + 1 < len(ns):
            if ns[i].s == "while" and ns[i].k == "id" and ns[i + 1].s == "let":
                b = i + 1
                while not (isinstance(ns[b], G) and ns[b].o == "{"):
                    b += 1
                new = mk("loop { }", ns[i].ws)
                new[-1].ch = ns[i + 1:b] + mk("else { break };", " ") + ns[b].ch
                ns = ns[:i] + new + ns[b + 1:]
            i += 1
        return ns

    def string_from(self, ns):
        """String::from(x) -> string_of(x)"""
        i = 0
        while i + 4 < len(ns) + 1 and i + 3 < len(ns):
            j = i
            if ns[i].s == "String" and ns[i + 1].s == "::" and ns[i + 2].s == "from" and isinstance(ns[i + 3], G):
                ns = ns[:i] + mk("string_of", ns[i].ws) + ns[i + 3:]
            i += 1
        return ns

    def run(self, body):
        body = walk(body, self.macros)
        body = walk(body, self.string_from)
        body = walk(body, self.while_let)
        body = walk(body, self.str_match)
        body = walk(body, self.guard_match)
        body = walk(body, self.map_err)
        body = walk(body, self.closures)
        body = walk(body, d_slices)
        body = walk(body, self.for_loops)
        return body


def number_loops(body):
    """Loops in source order as (keyword, header list, index of the body); names the tool's variables after them."""
    found, names = [], {}

    def rec(ns):
        i = 0
        while i < len(ns):
            n = ns[i]
            if isinstance(n, G):
                rec(n.ch)
            elif n.k == "id" and n.s in ("while", "for", "loop"):
                b = i + 1
                while not (isinstance(ns[b], G) and ns[b].o == "{"):
                    b += 1
                k = len(found)
                found.append((n.s, ns, ns[b]))
                for x in flat(ns[i:b]):
                    m = re.search(r"__U(\d+)$", x)
                    if m:
                        names.setdefault(m.group(1), k)
                for x in ns[i + 1:b]:
                    if isinstance(x, G):
                        rec(x.ch)
                rec(ns[b].ch)
                i = b
            i += 1

    def rename(ns):
        for n in ns:
            if isinstance(n, G):
                rename(n.ch)
            else:
                m = re.search(r"__U(\d+)$", n.s)
                if m:
                    n.s = n.s[:m.start()] + "__%d" % names[m.group(1)]

    rec(body)
    rename(body)
    return found
