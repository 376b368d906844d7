#!/usr/bin/env python3
"""Generates src/sites.rs and src/corpus.rs: the format strings the simulator drives.

Format strings are compile-time constants, so they cannot be drawn from the
tape. This script (run by hand; its output is committed) writes a fixed corpus
that covers every attribute combination and every combination of flags.
"""
import random, itertools
rnd = random.Random(20240607)
FG = [None, "default", "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
IT = [None, "normal", "bold", "faint"]

def attr_text(fg, bg, it):
    parts = []
    if FG[fg]: parts.append("fg=" + FG[fg])
    if FG[bg]: parts.append("bg=" + FG[bg])
    if IT[it]: parts.append(IT[it])
    rnd.shuffle(parts)
    s = ",".join(parts)
    if parts and rnd.random() < 0.2: s += ","
    if not parts: return rnd.choice(["", "()"])
    return "(" + s + ")"

def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace("\0", "\\0").replace("\ufeff", "\\u{feff}") + '"'

LITS = ["[", "|", "]", " - ", "{{", "}}", "{{}}", "x", "<b>", "&", "é", ": ", "\n", "a{{b}}c", "'q'", "m0;1",
        "''", "  ", "%%", "\\", "\\n", '"', "\r\n", "\t", "#;", "$0", "<!-- -->", "&amp;", "1:", "\u3000", "\r", "\n\n", "\0", "\ufeff", "e\u0301"]

def pick_lit(rnd):
    if rnd.random() < 1 / 60:
        # Longer than any plausible piece buffer.
        unit = rnd.choice(["lorem <i> & ", "0123456789", "é{{}}漢", "x"])
        return unit * (rnd.choice([70, 140, 300, 1100]) // len(unit))
    return rnd.choice(LITS)

def implicit_mix(rnd, n):
    """(argument, name) pairs where `{}` and `{2}` are mixed: explicit
    positions do not move the implicit ones."""
    out = [(r, "") for r in range(n)]
    for _ in range(rnd.randint(1, 4)):
        r = rnd.randrange(n)
        out.insert(rnd.randrange(len(out) + 1), (r, str(r)))
    # some arguments only explicitly: drop a tail of the implicit ones
    drop = rnd.randint(0, n - 1)
    for r in range(n - drop, n):
        out.remove((r, ""))
        out.insert(rnd.randrange(len(out) + 1), (r, str(r)))
    return out

def implicit_close(rnd, n):
    """`{}` with explicit references right next to the implicit one for the
    same argument, or its neighbours."""
    out = []
    for r in range(n):
        for where in (0, 1):
            if where: out.append((r, ""))
            while rnd.random() < 0.45:
                x = min(n - 1, max(0, r + rnd.choice([-1, 0, 0, 1])))
                out.append((x, str(x)))
    return out

def unesc(s): return s.replace("{{", "{").replace("}}", "}")

out = ["// @generated by gen_sites.py", "use stylish::{Display, Formatter, Result};", "use crate::{tree::Attr, val::Val};", ""]
out.append("/// `{:(attributes)s}` for every attribute combination.")
out.append("pub fn attr_s(i: usize, f: &mut Formatter<'_>, d: &dyn Display) -> Result {\n    match i {")
for i, (fg, bg, it) in enumerate(itertools.product(range(10), range(10), range(4))):
    out.append(f"        {i} => f.write_fmt(stylish::format_args!({lit('{:' + attr_text(fg,bg,it) + 's}')}, d)),")
out.append("        _ => unreachable!(),\n    }\n}\n")
out.append("pub fn attr_std(i: usize, f: &mut Formatter<'_>, d: &Val) -> Result {\n    match i {")
std = []
for i in range(120):
    fg, bg, it = rnd.randrange(10), rnd.randrange(10), rnd.randrange(4)
    spec, real = rnd.choice([("", ""), ("", ""), ("?", "?"), (">7", ">7"), ("<9", "<9"), ("^6", "^6"), ("x", "x"), ("#", "#"), (" >8.2", " >8.2"), ("08.1", "08.1"), ("+", "+"), ("#?", "#?")])
    if spec and spec[-1] in "?x":
        flags, tr = spec[:-1], spec[-1]
    else:
        flags, tr = spec, ""
    a = attr_text(fg, bg, it)
    std.append((fg, bg, it, real))
    out.append(f"        {i} => f.write_fmt(stylish::format_args!({lit('{:' + flags + a + tr + '}')}, *d)),")
out.append("        _ => unreachable!(),\n    }\n}\n")
out.append("pub fn attr_std_text(i: usize, d: &Val, o: &mut dyn core::fmt::Write) -> core::fmt::Result {\n    match i {")
for i, (fg, bg, it, real) in enumerate(std):
    out.append(f"        {i} => core::write!(o, {lit('{:' + real + '}')}, *d),")
out.append("        _ => unreachable!(),\n    }\n}\n")
out.append(f"pub const N_STD: usize = {len(std)};")
out.append("pub static STD_ATTRS: &[Attr] = &[")
for fg, bg, it, real in std:
    out.append(f"    Attr {{ fg: {fg}, bg: {bg}, it: {it} }},")
out.append("];\n")

# Templates with several children.
out.append("#[derive(Debug)]\npub enum Piece {\n    L(&'static str),\n    C(usize, Attr),\n}\nuse Piece::*;\n")
tmpl = []
fmts = []
for i in range(110):
    n = rnd.randint(1, 4) if i < 90 else rnd.randint(5, 12)
    style = rnd.choice(["seq", "seq", "pos", "named", "mixed", "implicit"]) if n <= 4 else rnd.choice(["seq", "pos", "implicit"])
    refs = list(range(n))
    if style == "implicit": refs = implicit_mix(rnd, n)
    elif style != "seq":
        extra = [rnd.randrange(n) for _ in range(rnd.randint(0, 2))]
        refs += extra
        rnd.shuffle(refs)
    s, pieces = "", []
    for r in refs:
        if rnd.random() < 0.7:
            l = pick_lit(rnd)
            s += l
            pieces.append(("L", unesc(l)))
        fg, bg, it = (rnd.randrange(10) if rnd.random() < .5 else 0), (rnd.randrange(10) if rnd.random() < .3 else 0), (rnd.randrange(4) if rnd.random() < .4 else 0)
        a = attr_text(fg, bg, it)
        if style == "seq": name = ""
        elif style == "implicit": r, name = r
        elif style == "pos": name = str(r)
        else: name = "abcd"[r]
        flags = rnd.choice(["", "", "", ">9", "+08.2", "#"])
        s += "{" + name + ":" + flags + a + "s}"
        pieces.append(("C", r, fg, bg, it))
    if rnd.random() < 0.6:
        l = pick_lit(rnd)
        s += l
        pieces.append(("L", unesc(l)))
    args = []
    for r in range(n):
        if style in ("seq", "pos", "implicit"): args.append(f"ch[{r}]")
        elif style == "named": args.append(f"{'abcd'[r]} = ch[{r}]")
        else: args.append(None)
    pre = ""
    if style == "mixed":
        # half captured, half explicit
        caps = [r for r in range(n) if rnd.random() < 0.5]
        pre = "".join(f"let {'abcd'[r]} = ch[{r}]; " for r in caps)
        args = [f"{'abcd'[r]} = ch[{r}]" for r in range(n) if r not in caps]
    fmts.append((n, s, pre, args))
    tmpl.append((n, pieces))
out.append("pub fn template(i: usize, f: &mut Formatter<'_>, ch: &[&dyn Display]) -> Result {\n    match i {")
for i, (n, s, pre, args) in enumerate(fmts):
    a = "".join(", " + x for x in args)
    out.append(f"        {i} => {{ {pre}f.write_fmt(stylish::format_args!({lit(s)}{a})) }}")
out.append("        _ => unreachable!(),\n    }\n}\n")
out.append("pub static TEMPLATES: &[(usize, &[Piece])] = &[")
for n, pieces in tmpl:
    ps = []
    for p in pieces:
        if p[0] == "L": ps.append(f"L({lit(p[1])})")
        else: ps.append(f"C({p[1]}, Attr {{ fg: {p[2]}, bg: {p[3]}, it: {p[4]} }})")
    out.append(f"    ({n}, &[{', '.join(ps)}]),")
out.append("];")
open("src/sites.rs", "w").write("\n".join(out) + "\n")

# C14: argument evaluation.
NAMES = ["a", "b", "c", "d", "e", "_f", "width", "x1", "r#type", "é", "fg", "bold", "s", "x", "p", "o", "_", "aa", "ab", "E"]
NAMES = [n if n not in ("r#type", "_") else "n" + str(i) for i, n in enumerate(NAMES)]
SHAPES = ["*ev(@)", "ev(@)", "ev(@)", "*ev(@)", "{ ev(@) }", "(ev(@))", "&*ev(@)", "match ev(@) { p => p }", "[ev(@)][0]", "(ev(@),).0", "Some(ev(@)).unwrap()",
          "(|| ev(@))()", "std::convert::identity(ev(@))", "&&ev(@)", "{ let x = ev(@); x }", "P(ev(@).0)", "P { 0: ev(@).0 }", "loop { break ev(@) }", "ev(@) as &P",
          "same!(ev(@))", "if let p = ev(@) { p } else { unreachable!() }", "&P(ev(@).0)", "ev(@).me()"]
shp = random.Random(5150)
def expr(r): return shp.choice(SHAPES).replace("@", str(r))
rnd = random.Random(77)
ev = ["// @generated by gen_sites.py", "use crate::p_macro::P;", "use stylish::Arguments;", "", "macro_rules! same {", "    ($e:expr) => {", "        $e", "    };", "}", "",
      "#[derive(Debug)]", "#[allow(dead_code)]", "pub enum E {", "    L(&'static str),", "    /// argument, through a std trait", "    A(usize, bool),", "}", "use E::*;", "",
      "pub static EVALS: &[(usize, &[E])] = &["]
sites = []
for i in range(260):
    n = rnd.randint(1, 5) if i < 230 else rnd.randint(6, 20)
    style = rnd.choice(["seq", "pos", "named", "both", "implicit", "implicit", "implicit"]) if n <= 5 else rnd.choice(["seq", "pos", "named", "both", "implicit", "implicit"])
    npos = n if style in ("seq", "pos", "implicit") else 0 if style == "named" else rnd.randint(0, n)
    refs = list(range(n))
    if style == "implicit": refs = rnd.choice([implicit_mix, implicit_close])(rnd, n)
    elif style != "seq":
        refs += [rnd.randrange(n) for _ in range(rnd.randint(0, 3))]
        rnd.shuffle(refs)
    s, ps = "", []
    for r in refs:
        if rnd.random() < 0.6:
            l = pick_lit(rnd)
            s += l
            ps.append(f"L({lit(unesc(l))})")
        std = rnd.random() < 0.5
        tr = rnd.choice(["", "?", "x", "X", "o", "b", "e", "E", "x?", "#?"]) if std else "s"
        at = rnd.choice(["", "", "(fg=red)", "(bg=default,bold)", "(faint,)"])
        fl = rnd.choice(["", "", ">3", "08.1", "+"])
        if tr == "#?": fl, tr = "#", "?"
        if style == "implicit": r, nm = r
        else: nm = "" if style == "seq" else str(r) if r < npos else NAMES[r]
        spec = fl + at + tr
        s += "{" + nm + (":" + spec if spec else rnd.choice(["", ":"])) + "}"
        ps.append(f"A({r}, {'true' if std else 'false'})")
    if rnd.random() < 0.5:
        l = pick_lit(rnd)
        s += l
        ps.append(f"L({lit(unesc(l))})")
    args = [(f"{NAMES[r]} = " if r >= npos else "") + expr(r) for r in range(n)]
    # As in std, `{:}<` would take the brace for a fill character.
    s = s.replace(":}<", "}<")
    ev.append(f"    ({n}, &[{', '.join(ps)}]),")
    sites.append((s, args, "", i))
# Captured variables, also under raw identifiers and under names the macro's
# own expansion might use, mixed with positional and named arguments.
crnd = random.Random(991)
CAP = ["type", "match", "fn", "r", "diff", "f", "arg", "inner", "export", "args", "w", "i", "formatter", "style", "loop", "self_", "Some_", "e", "x"]
for i in range(260, 310):
    n = crnd.randint(1, 5)
    k = crnd.randint(1, n)
    npos = crnd.randint(0, n - k)
    names = crnd.sample(CAP, n)
    # explicit named arguments cannot be keywords
    for r in range(k, n):
        if names[r] in ("type", "match", "fn", "loop"): names[r] = "q" + str(r)
    refs = list(range(n)) + [crnd.randrange(n) for _ in range(crnd.randint(0, 3))]
    crnd.shuffle(refs)
    s, ps = "", []
    for r in refs:
        if crnd.random() < 0.5:
            l = crnd.choice(LITS)
            s += l
            ps.append(f"L({lit(unesc(l))})")
        std = crnd.random() < 0.5
        tr = crnd.choice(["", "?", "x", "X", "o", "b", "e", "E", "x?"]) if std else "s"
        spec = crnd.choice(["", "", ">3", "#"]) + crnd.choice(["", "", "(fg=red)", "(bg=default,bold)"]) + tr
        nm = str(r - k) if k <= r < k + npos else names[r]
        s += "{" + nm + (":" + spec if spec else "") + "}"
        ps.append(f"A({r}, {'true' if std else 'false'})")
    pre = "".join(f"let {'r#' if names[r] in ('type', 'match', 'fn', 'loop') else ''}{names[r]} = ev({r}); " for r in range(k))
    args = [expr(r) for r in range(k, k + npos)] + [f"{names[r]} = {expr(r)}" for r in range(k + npos, n)]
    ev.append(f"    ({n}, &[{', '.join(ps)}]),")
    sites.append((s, args, pre, i))
ev.append("];\n")
def call(mac, first, s, args, pre, comma=""):
    if len(s) % 7 == 0 and len(s) > 3 and not pre and not mac.endswith("writeln"):
        # The format string itself made by a macro.
        a, b = len(s) // 3, len(s) // 2
        fmt = "concat!(" + ", ".join(lit(x) for x in (s[:a], s[a:b], s[b:])) + ")"
    else: fmt = lit(s)
    return f"{mac}!({', '.join(first + [fmt] + args)}{comma})", pre
ev.append("pub fn eval(i: usize, ev: &dyn Fn(usize) -> &'static P, __k: &mut dyn FnMut(Arguments<'_>)) {\n    match i {")
for s, args, pre, i in sites:
    c, pre = call("stylish::format_args", [], s, args, pre, rnd.choice(["", ","]) if args else "")
    ev.append(f"        {i} => {{ {pre}__k({c}) }}")
ev.append("        _ => unreachable!(),\n    }\n}\n")
ev.append("/// The same through the one-shot and writing macros.")
ev.append("pub fn eval_plain(i: usize, ev: &dyn Fn(usize) -> &'static P) -> String {\n    match i {")
for s, args, pre, i in sites:
    c, pre = call("stylish::plain::format", [], s, args, pre)
    ev.append(f"        {i} => {{ {pre}{c} }}")
ev.append("        _ => unreachable!(),\n    }\n}\n")
ev.append("/// The destination is an expression, too.")
ev.append("pub fn eval_write(i: usize, ev: &dyn Fn(usize) -> &'static P, ln: bool, __dst: &dyn Fn(), __w: &mut dyn stylish::Write) -> stylish::Result {\n    match (i, ln) {")
for s, args, pre, i in sites:
    for ln in (False, True):
        c, pre = call("stylish::writeln" if ln else "stylish::write", ["{ __dst(); &mut *__w }"], s, args, pre)
        ev.append(f"        ({i}, {'true' if ln else 'false'}) => {{ {pre}{c} }}")
ev.append("        _ => unreachable!(),\n    }\n}\n")
ev.append("/// The other one-shot macros, for some of the sites.")
ev.append("pub const N_ONE: usize = 60;")
ev.append("pub fn eval_one(i: usize, which: usize, ev: &dyn Fn(usize) -> &'static P) -> String {\n    match (i, which) {")
ones = crnd.sample(sites, 60)
for j, (s, args, pre, _) in enumerate(ones):
    for w, mac in enumerate(["stylish::format", "stylish::ansi::format", "stylish::html::format"]):
        c, pre = call(mac, [], s, args, pre)
        ev.append(f"        ({j}, {w}) => {{ {pre}" + (f"stylish::plain::format!(\"{{:s}}\", {c})" if w == 0 else c) + " }")
ev.append("        _ => unreachable!(),\n    }\n}\n")
ev.append("/// The site each of those is.")
ev.append(f"pub static ONE: [usize; N_ONE] = [{', '.join(str(x[3]) for x in ones)}];")
open("src/evals.rs", "w").write("\n".join(ev) + "\n")

# Corpus for std parity.
rnd = random.Random(4711)
TR = ["", "", "", "o", "x", "X", "p", "b", "e", "E"]
W = [0, 1, 2, 5, 7, 12, 20, 66, 300]; PR = [0, 0, 1, 2, 4, 9, 20, 70]
specs = []
for al, sg, alt, z, w, p in itertools.product(["", "<", "^", ">"], ["", "+", "-"], ["", "#"], ["", "0"], [0, 1], [0, 1]):
    ww = (str(rnd.choice(W)) if w else "")
    pp = ("." + str(rnd.choice(PR)) if p else "")
    base = (rnd.choice(["", " "]) + al if al else "") + sg + alt + z + ww + pp
    trs = ["", rnd.choice(TR[3:]), "?", "x?", "X?"]
    for t in trs:
        specs.append((base, t))
out = ["// @generated by gen_sites.py", "use core::fmt::Write;", "use stylish::Arguments;", "use crate::val::Val;", "",
       "pub struct Site {\n    pub spec: &'static str,\n    pub n: usize,\n    pub styl: fn(&[Val], &mut dyn FnMut(Arguments<'_>)),\n    pub std: fn(&[Val], &mut dyn Write) -> core::fmt::Result,\n}", "",
       "macro_rules! site {\n    ($n:expr, $styl:literal, $std:literal $(, $($a:tt)*)?) => {\n        Site {\n            spec: $styl,\n            n: $n,\n            styl: |_v, k| k(stylish::format_args!($styl $(, $($a)*)?)),\n            std: |_v, o| core::write!(o, $std $(, $($a)*)?),\n        }\n    };\n}", ""]
def emit(name, items):
    out.append(f"pub static {name}: &[Site] = &[")
    out.extend(items)
    out.append("];\n")
import re
items = []
for base, t in specs:
    a = rnd.choice(["", "", "", "(fg=red)", "(bg=blue,bold)"])
    items.append((1, "{:" + base + a + t + "}", "{:" + base + t + "}", ["0"]))
for _ in range(60):
    # Widths and precisions near each other and near zero.
    base = rnd.choice(["", "<", "^", ">"]) + rnd.choice(["", "+"]) + rnd.choice(["", "0"]) + str(rnd.choice([0, 1, 3, 10, 17, 128])) + "." + str(rnd.choice([0, 1, 3, 17, 128]))
    items.append((1, "{:" + base + "}", "{:" + base + "}", ["0"]))
for i in range(260):
    n = rnd.randint(1, 4) if i < 240 else rnd.randint(5, 14)
    style = rnd.choice(["seq", "pos", "named", "implicit"]) if n <= 4 else rnd.choice(["seq", "pos", "implicit"])
    refs = list(range(n)) + ([rnd.randrange(n) for _ in range(rnd.randint(0, 2))] if style != "seq" else [])
    if style != "seq": rnd.shuffle(refs)
    if style == "implicit": refs = implicit_mix(rnd, n)
    s1 = s2 = ""
    for r in refs:
        if rnd.random() < 0.6:
            l = pick_lit(rnd); s1 += l; s2 += l
        base, t = rnd.choice(specs)
        a = rnd.choice(["", "", "(fg=green)", "(faint)"])
        if style == "implicit": r, nm = r
        else: nm = "" if style == "seq" else str(r) if style == "pos" else "abcd"[r]
        if not base and not a and not t and rnd.random() < .5:
            s1 += "{" + nm + "}"; s2 += "{" + nm + "}"
        else:
            s1 += "{" + nm + ":" + base + a + t + "}"; s2 += "{" + nm + ":" + base + t + "}"
    if rnd.random() < 0.5:
        l = pick_lit(rnd); s1 += l; s2 += l
    s1, s2 = s1.replace(":}<", "}<"), s2.replace(":}<", "}<")
    names = [f"{'abcd'[r]}=" if style == "named" else "" for r in range(n)]
    items.append((n, s1, s2, names if style == "named" else [str(x) for x in range(n)]))
chunks = []
for n, s1, s2, a in items:
    args = []
    for r in range(n):
        nm = a[r] if a[r].endswith("=") else ""
        args.append(f"{nm}_v[{r}]")
    chunks.append((n, s1, s2, args))
lrnd = random.Random(31337)
lines = []
for n, s1, s2, args in chunks:
    # closures need the same parameter name in both expansions
    a = ', '.join(x.replace('_v','v') for x in args)
    how = lrnd.randrange(12)
    if how < 2:
        if lrnd.random() < 0.6:
            end = lrnd.choice(["\r", "\n", "\r\n", " ", "{{", "}}", "\t", "\0", "\\"])
            s1, s2 = s1 + end, s2 + end
        mac = ["write", "writeln"][how]
        styl, std = f"stylish::{mac}!(K(k), {lit(s1)}, {a})", f"core::{mac}!(o, {lit(s2)}, {a})"
    else:
        f = lit(s1)
        if how == 2:
            cut = lrnd.randrange(len(s1) + 1)
            f = f"concat!({lit(s1[:cut])}, {lit(s1[cut:])})"
        styl, std = f"k(stylish::format_args!({f}, {a}))", f"core::write!(o, {lit(s2)}, {a})"
    lines.append(f"    Site {{ spec: {lit(s1)}, n: {n}, styl: |v, k| {styl}, std: |v, o| {std} }},")
out = [x for x in out if not x.startswith("macro_rules!")]
out += ["/// The writing macros take anything with such a method.", "struct K<'a>(&'a mut dyn FnMut(Arguments<'_>));", "impl K<'_> {", "    fn write_fmt(&mut self, a: Arguments<'_>) {", "        (self.0)(a)", "    }", "}", ""]
emit("SITES", lines)
open("src/corpus.rs", "w").write("\n".join(out) + "\n")
print(len(items), "corpus sites,", len(tmpl), "templates")
