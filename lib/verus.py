"""Contracts discharged by Verus on function bodies extracted mechanically from /repo on every run.

A module of /verif/verus describes, per function: where it is, the signature under which its body is verified
(the generic field becomes the opaque ordered-less ring `F` of the prelude, iterators become slices), its contract,
the invariant of each loop and the proof hints. The body is copied character by character; the only changes are
  * invariants, ghost variables and proof blocks are inserted at loop heads, loop bodies and the end,
  * the rewritings listed in `rewrite` of that function (each carries its reason and is reported in the evidence).
Local names are bound from the body by pattern (`names`), so renaming a local does not matter. If a name, a loop or
a rewriting does not match, or Verus cannot read the result, the obligation is undecided and the bounded stand-in of
the property decides; if Verus reads it and cannot discharge an obligation, that obligation has failed.
"""
import importlib.util
import json
import os
import re
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from fw import REPO, SEED, VERIF, WORK, sh

KEY = re.compile(r"\b(while|for|loop)\b")


class Lost(Exception):
    pass


def mask(src):
    """src with comments, strings and char literals blanked out (same length)."""
    out = list(src)
    i, n = 0, len(src)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            blank(i + 1, j)
            i = j + 1
        elif c == "r" and re.match(r'r#*"', src[i:]) and not (i and (src[i - 1].isalnum() or src[i - 1] == "_")):
            h = re.match(r'r(#*)"', src[i:])[1]
            j = src.find('"' + h, i + 2 + len(h))
            blank(i, j + 1 + len(h))
            i = j + 1 + len(h)
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def close(m, i):
    """Index of the bracket matching the one at i in masked text."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    o, c, d = m[i], pairs[m[i]], 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise Lost("unbalanced brackets")


def body_open(m, i):
    """The `{` opening the block that follows position i (outside any bracket)."""
    d = 0
    for k in range(i, len(m)):
        if m[k] in "([":
            d += 1
        elif m[k] in ")]":
            d -= 1
        elif m[k] == "{" and d == 0:
            return k
        elif m[k] == ";" and d == 0:
            break
    raise Lost("no body")


def strip(src):
    """src with comments removed."""
    m = mask(src)
    return "".join(" " if (b == " " and a != " " and False) else a for a, b in zip(src, m))


def extract(file, name, nth=0, within=None):
    """Signature and body (without braces) of a function of /repo."""
    src = open(f"{REPO}/{file}").read()
    m = mask(src)
    lo, hi = 0, len(src)
    if within:
        w = re.search(within, m)
        if not w:
            raise Lost(f"{within} not found in {file}")
        o = body_open(m, w.end())
        lo, hi = o, close(m, o)
    hits = [h for h in re.finditer(r"\bfn\s+%s\b" % re.escape(name), m) if lo <= h.start() < hi]
    if len(hits) <= nth:
        raise Lost(f"function {name} not found in {file}")
    h = hits[nth]
    o = body_open(m, h.end())
    c = close(m, o)
    return src[h.start():o].strip(), src[o + 1:c], src.count("\n", 0, h.start()) + 1


def no_comments(src):
    out, i = [], 0
    m = mask(src)
    # comments are exactly the stretches that start with // or /* in the source and are blank in the mask
    while i < len(src):
        if src.startswith("//", i) and m[i] == " ":
            j = src.find("\n", i)
            i = len(src) if j < 0 else j
        elif src.startswith("/*", i) and m[i] == " ":
            j = i
            while j < len(src) and (m[j] == " " or m[j] == "\n") and not src.startswith("*/", j):
                j += 1
            i = j + 2
        else:
            out.append(src[i])
            i += 1
    return "".join(out)


def annotate(body, f):
    body = no_comments(body)
    env = {}
    for k, pat in f.get("names", {}).items():
        g = re.findall(pat, body)
        if len(g) != 1:
            raise Lost(f"{f['name']}: local `{k}` not recognised")
        env[k] = g[0]

    def fill(t):
        return re.sub(r"\$(\w+)", lambda x: env.get(x[1], x[0]), t)

    for tf, _why in f.get("transform", []):
        body = tf(body)
    for pat, rep, _why in f.get("rewrite", []):
        body, n = re.subn(fill(pat), rep if callable(rep) else fill(rep), body, flags=re.S)
        if n == 0:
            raise Lost(f"{f['name']}: pattern `{pat}` does not occur")
    m = mask(body)
    heads = []
    for h in KEY.finditer(m):
        if h[1] == "for" and re.match(r"\s*<", m[h.end():]):
            continue
        if h[1] != "for" and re.match(r"[^{}]*\binvariant(_except_break)?\s[^{}]*,", m[h.end():]):
            continue  # a loop that a transform made, which carries its invariant
        heads.append(h)
    loops = f.get("loops", [])
    if len(heads) != len(loops):
        raise Lost(f"{f['name']}: {len(heads)} loops where {len(loops)} were expected")
    edits = []
    for k, (h, l) in enumerate(zip(heads, loops)):
        o = body_open(m, h.end())
        c = close(m, o)
        if h[1] == "for":
            i = re.search(r"\bin\b", m[h.end():o])
            edits.append((h.end() + i.end(), f" it{k}:"))
        edits.append((o, "\n    " + fill(l["inv"]) + "\n"))
        if l.get("before"):
            edits.append((h.start(), "\n    " + fill(l["before"]) + "\n"))
        if l.get("after"):
            edits.append((c + 1, "\n    " + fill(l["after"]) + "\n"))
        if l.get("start"):
            edits.append((o + 1, "\n    " + fill(l["start"]) + "\n"))
        if l.get("end"):
            edits.append((c, "\n    " + fill(l["end"]) + "\n"))
    for pos, t in sorted(edits, key=lambda e: -e[0]):
        body = body[:pos] + t + body[pos:]
    pre = fill(f.get("pre", ""))
    post = fill(f.get("post", ""))
    if post:
        ty = re.search(r"->\s*\((\w+): (.*)\)\s*$", f["sig"].strip(), re.S)
        if ty:
            body = f"let r__: {ty[2]} = {{ {body} }};\n{post}\nr__"
        else:
            body = f"{{ {body} }};\n{post}"
    return f"{fill(f['sig'])}\n    {fill(f.get('spec', ''))}\n{{\n{pre}\n{body}\n}}\n{f.get('suffix', '')}\n"


def asserts(body):
    """Run-time assertions become calls of `refuse_unless`, which does not return unless its argument holds."""
    while True:
        m = mask(body)
        h = re.search(r"\b(assert|assert_eq)!\s*\(", m)
        if not h:
            return body
        c = close(m, h.end() - 1)
        parts, d, last = [], 0, h.end()
        for k in range(h.end(), c):
            d += (m[k] in "([{") - (m[k] in ")]}")
            if m[k] == "," and d == 0:
                parts.append(body[last:k])
                last = k + 1
        parts.append(body[last:c])
        cond = parts[0] if h[1] == "assert" else f"({parts[0]}) == ({parts[1]})"
        body = body[:h.start()] + f"refuse_unless({cond.strip()})" + body[c + 1:]


def enumerates(body):
    """`for (i, x) in e.enumerate() { .. }` becomes a loop over e with a counter."""
    k = 0
    while True:
        h = re.search(r"for \((\w+), ((?:&?\w+|\([^)]*\)))\) in ([^{}]*?)\s*\.enumerate\(\)\s*\{", body)
        if not h:
            return body
        body = body[:h.start()] + f"let mut c{k}__: usize = 0; for {h[2]} in {h[3]} {{ let {h[1]} = c{k}__; c{k}__ = c{k}__ + 1;" + body[h.end():]
        k += 1


def mutpairs(body):
    """`for (a, b) in &mut e { .. }` becomes a loop over e.iter_mut() that borrows the two members."""

    def one(h):
        lets = "".join(f" let {n} = &{'mut ' if k else ''}p__.{k};" for k, n in enumerate((h[1], h[2])) if n != "_")
        return f"for p__ in ({h[3]}).iter_mut() {{{lets}"

    return re.sub(r"for \((\w+), (\w+)\) in &mut ([\w.]+) \{", one, body)


def receiver(m, dot):
    """Start of the postfix expression (masked text m) that ends just before the `.` at dot."""
    opens = {")": "(", "]": "["}
    i = dot
    while True:
        while i > 0 and m[i - 1].isspace():
            i -= 1
        if i == 0:
            return 0
        c = m[i - 1]
        if c in opens:
            d = 0
            k = i - 1
            while k >= 0:
                d += (m[k] in ")]}") - (m[k] in "([{")
                if d == 0:
                    break
                k -= 1
            i = k
            h = re.search(r"::<[^<>]*>$", m[:i])
            if h:
                i = h.start()
            if not re.search(r"[\w)\]>]$", m[:i].rstrip()) or re.search(r"\b(return|in|=>|else|if|match)\s*$", m[:i]):
                return i
        elif c.isalnum() or c == "_":
            while i > 0 and (m[i - 1].isalnum() or m[i - 1] == "_"):
                i -= 1
            j = i
            while j > 0 and m[j - 1].isspace():
                j -= 1
            if m[j - 1:j] == "." and m[j - 2:j] != "..":
                i = j - 1
            elif m[j - 2:j] == "::":
                i = j - 2
            else:
                return i
        else:
            return i


def split_args(text, o):
    """Top-level comma separated parts of the bracket opening at o, and where it closes."""
    m = mask(text)
    c, parts, d, last = close(m, o), [], 0, o + 1
    pipe = False
    for k in range(o + 1, c):
        if m[k] == "|" and d == 0:
            pipe = not pipe
        d += (m[k] in "([{") - (m[k] in ")]}")
        if m[k] == "," and d == 0 and not pipe:
            parts.append(text[last:k])
            last = k + 1
    return [p.strip() for p in parts + [text[last:c]] if p.strip()], c


def value_of(x):
    """The value a generator (`T::default` or `|| e`) produces."""
    x = x.strip()
    return x[2:].strip() if x.startswith("||") else x + "()"


def unbrace(x):
    x = x.strip()
    return x[1:-1] if x.startswith("{") and close(mask(x), 0) == len(x) - 1 else x


def chains(body):
    """Iterator chains become loops that fill vectors: map, flat_map, filter_map and fold with closures; chain, take,
    zip, chunks, collect and the like become calls of methods that do the same on vectors."""
    body = re.sub(r"(?:core::)?iter::repeat", "repeat", body)
    # infinite padding
    while True:
        h = re.search(r"\.chain\(\s*repeat_with\(", body)
        g = re.search(r"\.chain\(\s*repeat_n\(", body)
        if h:
            x, c = split_args(body, h.end() - 1)
            rest = body[c + 1:]
            t = re.match(r"\s*\.take\(", rest)
            if t:
                k, c2 = split_args(rest, t.end() - 1)
                z = re.match(r"\s*\)", rest[c2 + 1:])
                if not z:
                    raise Lost("repeat_with(..).take(..) not recognised")
                body = body[:h.start()] + f".extended({value_of(x[0])}, {k[0]})" + rest[c2 + 1 + z.end():]
                continue
            t = re.match(r"\s*\)\s*\.take\(", rest)
            if not t:
                raise Lost("endless chain without take")
            k, c2 = split_args(rest, t.end() - 1)
            body = body[:h.start()] + f".padded({value_of(x[0])}, {k[0]})" + rest[c2 + 1:]
        elif g:
            x, c = split_args(body, g.end() - 1)
            z = re.match(r"\s*\)", body[c + 1:])
            body = body[:g.start()] + f".extended({x[0]}, {x[1]})" + body[c + 1 + z.end():]
        else:
            break
    n = 0
    while True:
        m = mask(body)
        hs = list(re.finditer(r"\.(map|flat_map|filter_map|fold)\(\s*(?=(?:move\s*)?\||[^|;]*,\s*(?:move\s*)?\|)", m))
        if not hs:
            break
        h = hs[-1]
        o = m.index("(", h.start())
        x, c = split_args(body, o)
        r = receiver(m, h.start())
        recv = body[r:h.start()].strip()
        g = re.match(r"(?:move\s*)?\|(.*?)\|(.*)$", x[-1], re.S)
        pat, b = g[1].strip(), unbrace(g[2])
        if h[1] == "fold":
            acc, item = [p.strip() for p in pat.split(",", 1)]
            acc = acc.removeprefix("mut ")
            e = re.sub(r";?\s*\b%s\s*$" % acc, ";", b) if re.search(r"\b%s\s*$" % acc, b) else f"{acc} = {b};"
            new = f"({{ let s{n}__ = {recv}; let mut {acc} = {x[0]}; for i{n}__ in s{n}__ {{ let {item} = i{n}__; {e} }} {acc} }})"
        else:
            push = {"map": f"o{n}__.push({{ {b} }});", "flat_map": f"append(&mut o{n}__, {{ {b} }});",
                    "filter_map": f"match ({{ {b} }}) {{ Some(x__) => {{ o{n}__.push(x__); }}, None => {{}} }}"}[h[1]]
            ty = "" if h[1] == "map" else ""
            new = f"({{ let s{n}__ = {recv}; let mut o{n}__ = Vec::new(); for i{n}__ in s{n}__ {{ let {pat} = i{n}__; {push} }} o{n}__ }})"
        body = body[:r] + new + body[c + 1:]
        n += 1
    return body


CHAINS = (chains, "iterator chains (map, flat_map, filter_map, fold, chain, take) become loops over vectors")
MUTPAIRS = (mutpairs, "iteration over `&mut` pairs borrows the members by name")
ASSERTS = (asserts, "run-time assertions become `refuse_unless`, which returns only if the condition holds")
ENUMERATES = (enumerates, "enumerate becomes an explicit counter")


def parse(out, err):
    """(failed functions, reason for no verdict) from Verus' output."""
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out + err)
    if not m:
        return None, err[-1500:] or out[-1500:]
    return (int(m[1]), int(m[2])), None if m[2] == "0" and "error" not in err else err[-1500:]


def copy_out(crate, items):
    """Writes the listed functions of /repo, unchanged, to /verif/kani/<crate>/src/extracted.rs; an anchor that is
    lost leaves a file that does not compile (undecided)."""
    path = f"{VERIF}/kani/{crate}/src/extracted.rs"
    try:
        text = ""
        for file, name in items:
            sig, body, line = extract(file, name)
            text += f"// {file}:{line}\npub {sig} {{{body}}}\n\n"
    except (Lost, OSError) as e:
        text = f"compile_error!({json.dumps(str(e))});\n"
    with open(path, "w") as f:
        f.write(text)


def verus(ck, module, stand_in="the bounded contracts of this property"):
    spec = importlib.util.spec_from_file_location(module, f"{VERIF}/verus/{module}.py")
    d = importlib.util.module_from_spec(spec)
    sys.path.insert(0, f"{VERIF}/verus")
    spec.loader.exec_module(d)
    os.makedirs(f"{WORK}/verus", exist_ok=True)
    ck.trusted += ["Verus 0.2026.09.13 and Z3 (verification conditions, SMT)",
                   "the extraction in /verif/lib/verus.py: bodies are copied, generics are instantiated at the opaque field of "
                   "/verif/verus/field.py (whose axioms are the field laws), listed rewritings are meaning preserving",
                   "vstd's specifications of slices, vectors and their iterators"]
    ck.assumptions += list(getattr(d, "ASSUME", []))
    ck.cmds.append(f"python3 checks/{ck.prop}.py ({module}: verus on {len(d.FUNCTIONS)} extracted functions)")
    pool = ThreadPoolExecutor(6)
    jobs = []

    def prove(path, f):
        t = time.time()
        rc, out, err, _ = sh(["verus", path, "--rlimit", str(f.get("rlimit", 60)), "--crate-type=lib"], timeout=min(240, ck.left()), cwd=f"{WORK}/verus")
        return rc, out, err, time.time() - t

    for f in d.FUNCTIONS:
        label = f"{f['name']}: {f['title']}"
        where = f"{f['file']} {f['name']}"
        try:
            _, body, line = extract(f["file"], f["fn"] if "fn" in f else f["name"], f.get("nth", 0), f.get("within"))
            text = annotate(f["cut"](body) if "cut" in f else body, f)
        except (Lost, OSError) as e:
            ck.add(label, "verus", "undecided", f"extraction lost its anchor: {e}; decided by {stand_in}", where)
            continue
        path = f"{WORK}/verus/{ck.prop}_{re.sub(r'[^a-z0-9]+', '_', f['name'].lower())}.rs"
        with open(path, "w") as h:
            h.write(f.get("prelude", d.PRELUDE).replace("//@CODE", f.get("context", "") + "\n" + text))
        jobs.append((f, label, where, text, pool.submit(prove, path, f)))
    for f, label, where, text, job in jobs:
        rc, out, err, s = job.result()
        res, why = parse(out or "", err or "")
        for pat, _r, reason in f.get("rewrite", []):
            ck.notes.append(f"verus, {f['name']}: rewritten `{pat}` ({reason})")
        for _t, reason in f.get("transform", []):
            ck.notes.append(f"verus, {f['name']}: {reason}")
        hard = re.findall(r"^error: (?!aborting)(.*)$", err or "", re.M)
        logical = [e for e in hard if re.search(r"postcondition not satisfied|invariant not satisfied|assertion failed|precondition not satisfied|"
                                                r"possible arithmetic|decreases not satisfied|recommendation not met|could not prove|unreachable|index out of|possible division|shift", e)]
        if res and res[1] == 0 and rc == 0:
            ck.add(label, "verus", "proved", f"{res[0]} verification conditions", where, s)
        elif logical and len(logical) == len(hard):
            ck.add(label, "verus", "failed", "; ".join(hard), where, s)
            ck.violation(label, dict(backend="verus", failed_obligations=hard, verifier_output=(err or "")[-6000:], source=where,
                                     extracted=text, how_to_replay=f"cd {VERIF} && python3 checks/{ck.prop}.py"), False)
        else:
            ck.add(label, "verus", "undecided", f"verus gave no verdict: {(why or '; '.join(hard) or 'time limit')[-600:]}; decided by {stand_in}", where, s)
