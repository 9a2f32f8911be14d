"""Verus: functions of /repo extracted mechanically on every run, with the
contracts, loop invariants and proof hints of verus/*.spec woven in.

What the extraction changes (and nothing else):
  R1 comments and #[inline]/#[allow]/#[must_use]/#[track_caller] attributes are dropped;
  R2 debug_assert!(e) / debug_assert_ne!(a, b) / debug_assert_eq!(a, b) become obligations
     dbg_check(e) / dbg_check(a != b) / dbg_check(a == b), so they are proved, not assumed;
  R3 core::hint::unreachable_unchecked() becomes unreachable(), which requires false;
  R4 x.high() / x.low() used as a value through a reference is dereferenced: (*x.high());
  R5 destructuring assignments `(a, b) = e;` become a let and two assignments
     (`(a, b) = (x, y);` likewise);
  R6 `e / v` with v: NonZeroU128 becomes `e / v.get()`;
  R7 `a << n`, `a >> n` with a: &U256 becomes `(*a) << n` (the reference impls are proved
     equal to these in C05);
  R9 x.wrapping_add(y), _sub, _mul become x.w_add(y) etc., the prelude's verified
     wrappers that call these very methods (their contract is opaque, for the solver);
  R10 (pow) x *= e becomes x = x * (e) (C02 proves the assigning forms equal), and the flag
     update x |= y of bools becomes x = x || y;
  R11 (parsing) assert!(c, ..) becomes if !(c) { reject() } and panic!(..) becomes reject(), which
     may be called only when the text at hand may be refused, and does not return;
  R13 (parsing) macro_rules! inside the function are expanded; `for &c in s {` becomes a while loop over the
     index; .ok_or_else(|| f(K)) becomes .ok_or(f(K)); a.or_else(|_| b) becomes the match it stands for;
     a match on literals with guards becomes a chain of ifs;
     a.strip_prefix(b) and two-byte string literals become calls of stand-ins with their contracts;
     the generic T is replaced by U256 and by I256 in turn (monomorphised), `T::MIN` by a call, and the
     inherent checked_add/sub/mul that the helper impl calls are named i_checked_*;
  R12 (parsing) &str becomes &Str, a sequence of bytes with is_empty() and as_bytes();
     variables called int or nat (types in Verus) get an underscore;
  R8 core::mem::MaybeUninit, core::num::NonZeroU128 and U256 are the prelude's stand-ins
     with the contracts stated there.
"""
import json
import os
import re

from core import VERIF, REPO, run


class Lost(Exception):
    """The text does not have the shape the weaving needs."""


def strip_comments(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def match(s, i):
    """Index just past the bracket that closes the one at i."""
    close = {"(": ")", "[": "]", "{": "}"}
    stack = []
    while i < len(s):
        c = s[i]
        if c in close:
            stack.append(close[c])
        elif stack and c == stack[-1]:
            stack.pop()
            if not stack:
                return i + 1
        i += 1
    raise Lost("unbalanced brackets")


def find_fn(src, name):
    """(start, body_start, end) of `fn name`, qualifiers included."""
    m = re.search(r"((?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?)fn\s+%s\s*(<[^>(]*>)?\s*\(" % re.escape(name), src)
    if not m:
        raise Lost(f"function {name} not found")
    i = match(src, m.end() - 1)
    b = src.index("{", i)
    return m.start(), b, match(src, b)


def extract(path, name):
    src = strip_comments(open(os.path.join(REPO, path)).read())
    src = re.sub(r"#\[(inline|allow|must_use|track_caller)[^\]]*\]\s*", "", src)
    s, b, e = find_fn(src, name)
    return src[s:e]


def extract_block(path, rx):
    src = strip_comments(open(os.path.join(REPO, path)).read())
    src = re.sub(r"#\[(inline|allow|must_use|track_caller)[^\]]*\]\s*", "", src)
    m = re.search(rx, src)
    if not m:
        raise Lost(f"{rx} not found")
    return src[m.start():match(src, src.index("{", m.start()))]


def rewrite(t, rules=()):
    # R2
    def dbg(m):
        op = {"debug_assert": None, "debug_assert_ne": "!=", "debug_assert_eq": "=="}[m.group(1)]
        i = m.end() - 1
        j = match(t_[0], i)
        args = split_args(t_[0][i + 1:j - 1])
        e = args[0] if op is None else f"({args[0]}) {op} ({args[1]})"
        return f"dbg_check({e})", j
    t_ = [t]
    while True:
        m = re.search(r"\b(debug_assert|debug_assert_ne|debug_assert_eq)!\s*\(", t_[0])
        if not m:
            break
        r, j = dbg(m)
        t_[0] = t_[0][:m.start()] + r + t_[0][j:]
    t = t_[0]
    # R3
    t = re.sub(r"(core|std)::hint::unreachable_unchecked\(\)", "unreachable()", t)
    # R5
    n = 0
    while True:
        m = re.search(r"(?<=[;{}])(\s*)\(([^()=;]*)\)\s*=(?![=>])\s*", t)
        if not m:
            break
        j = stmt_end(t, m.end())
        n += 1
        names = split_args(m.group(2))
        assigns = " ".join(f"{a} = t_{n}_.{k};" for k, a in enumerate(names) if a != "_")
        t = t[:m.start()] + f"{m.group(1)}let t_{n}_ = {t[m.end():j]}; {assigns}" + t[j + 1:]
    # R6
    for v in set(re.findall(r"\b(\w+)\s*:\s*NonZeroU128", t)) | tuple_typed(t, "NonZeroU128"):
        t = re.sub(r"/\s*%s\b(?!\s*\.)" % v, f"/ {v}.get()", t)
    # R7, in the function that declares the parameter only
    t = shifts(t)
    # R9
    if "R9" in rules:
        t = re.sub(r"\.wrapping_(add|sub|mul)\(", r".w_\1(", t)
    # R10
    if "R10" in rules:
        t = re.sub(r"(?<=[;{}])(\s*)(\w+)\s*\*=\s*([^;]+);", r"\1\2 = \2 * (\3);", t)
        t = re.sub(r"(?<=[;{}])(\s*)([\w.]+)\s*\|=\s*([\w.]+);", r"\1\2 = \2 || \3;", t)
    # R11
    if "R11" in rules:
        t = rejects(t)
    # R13
    if "R13" in rules:
        t = expand_macros(t)
        t = re.sub(r"for\s+&(\w+)\s+in\s+(\w+)\s*\{", r"let mut at_ = 0usize; while at_ < \2.len() { let \1 = \2[at_]; at_ += 1;", t)
        t = re.sub(r"\.ok_or_else\(\|\|\s*(\w+\(\w+\))\)", r".ok_or(\1)", t)
        t = re.sub(r"\b(\w+)\s*\.strip_prefix\(", r"strip_prefix(\1, ", t)
        t = re.sub(r'"(\w)(\w)"', r"lit2(b'\1', b'\2')", t)
        t = or_else(t)
        t = match_to_if(t)
    # R12
    t = re.sub(r"\b(int|nat)\b(?!\s*!)", r"\1_", t)
    if "R12" in rules:
        t = re.sub(r"&\s*str\b", "&Str", t)
    # R4
    t = re.sub(r"(?<![*\w.])(\w+)\.(high|low)\(\)", r"(*\1.\2())", t)
    return t.replace("match_", "match").replace("⟦", "{").replace("⟧", "}")


def rejects(t):
    while True:
        m = re.search(r"(?<!_)\b(assert|panic)!\s*\(", t)
        if not m:
            return t
        j = match(t, m.end() - 1)
        args = split_args(t[m.end():j - 1])
        stmt = t[j:].lstrip().startswith(";") and re.search(r"[;{}]\s*$", t[:m.start()])
        if m.group(1) == "assert":
            t = t[:m.start()] + f"if !({args[0]}) {{ reject::<()>() }}" + t[j:]
        else:
            t = t[:m.start()] + ("reject::<()>()" if stmt else "reject()") + t[j:]


def expand_macros(t):
    """macro_rules! with one arm of $x:expr / $x:ident parameters, defined and used in the same function."""
    while True:
        m = re.search(r"macro_rules!\s*(\w+)\s*\{", t)
        if not m:
            return t
        e = match(t, m.end() - 1)
        body = t[m.end():e - 1].strip()
        i = match(body, body.index("("))
        params = re.findall(r"\$(\w+)\s*:\s*(?:expr|ident)", body[:i])
        j = body.index("{", i)
        tmpl = body[j + 1:match(body, j) - 1]
        if body[match(body, j):].strip(" ;\n"):
            raise Lost("a macro with several arms")
        t = t[:m.start()] + t[e:]
        while True:
            u = re.search(r"\b%s!\s*\(" % m.group(1), t)
            if not u:
                break
            k = match(t, u.end() - 1)
            args = split_args(t[u.end():k - 1])
            if len(args) != len(params):
                raise Lost("macro arguments")
            x = tmpl
            for p, a in zip(params, args):
                x = re.sub(r"\$%s\b" % p, lambda _: a, x)
            t = t[:u.start()] + "{" + x + "}" + t[k:]


def match_arms(body):
    """[(pattern, guard, expression)] of a match body."""
    arms, i = [], 0
    while body[i:].strip():
        j = i
        while not body.startswith("=>", j):
            j = match(body, j) if body[j] in "([{" else j + 1
        head = body[i:j].strip().lstrip(",").strip()
        k = j + 2
        while body[k].isspace():
            k += 1
        if body[k] == "{":
            e = match(body, k)
        else:
            e = k
            while e < len(body) and body[e] != ",":
                e = match(body, e) if body[e] in "([{" else e + 1
        m = re.match(r"(.*?)\s+if\s+(.*)$", head, re.S)
        arms.append((m.group(1) if m else head, m.group(2) if m else None, body[k:e].strip()))
        i = e + 1 if e < len(body) and body[e] == "," else e
    return arms


def match_to_if(t):
    """A match on literals with guards becomes the chain of ifs it stands for."""
    pos = 0
    while True:
        m = re.search(r"\bmatch\s+([^{};]*?)\{", t[pos:])
        if not m:
            return t
        s, b = pos + m.start(), pos + m.end() - 1
        e = match(t, b)
        pos = b
        arms = match_arms(t[b + 1:e - 1])
        if not any(g for _, g, _ in arms) or not all(re.fullmatch(r"_|(?:b'.'|\d+)(?:\s*\|\s*(?:b'.'|\d+))*", p) for p, _, _ in arms) \
                or arms[-1][:2] != ("_", None):
            continue
        out = f"{{ let m_ = {m.group(1).strip()}; "
        for p, g, x in arms[:-1]:
            c = "(" + " || ".join(f"m_ == {q.strip()}" for q in p.split("|")) + ")" if p != "_" else "true"
            out += f"if {c}{' && ' + g if g else ''} {{ {x} }} else "
        t = t[:s] + out + f"{{ {arms[-1][2]} }} }}" + t[e:]


def or_else(t):
    """a.or_else(|_| b) as the body of a function becomes match a { Ok(v_) => Ok(v_), Err(_) => b }"""
    while True:
        m = re.search(r"\.\s*or_else\(\|_\|\s*", t)
        if not m:
            return t
        b = t.rindex("{", 0, m.start())
        e = match(t, t.index("(", m.start()))
        a = t[b + 1:m.start()].strip()
        if ";" in a:
            raise Lost("or_else in an unexpected place")
        t = t[:b + 1] + f" (match_ {a} ⟦ Ok(v_) => Ok(v_), Err(_) => {t[m.end():e - 1].strip()} ⟧)" + t[e:]


def shifts(t):
    inner = []
    start = t.index("{")
    while True:
        m = re.search(r"(?:const\s+)?(?:unsafe\s+)?\bfn\s+\w+[^({]*\(", t[start:])
        if not m:
            break
        s = start + m.start()
        e = match(t, t.index("{", match(t, start + m.end() - 1)))
        inner.append(shifts(t[s:e]))
        t = t[:s] + f"\0{len(inner) - 1}\0" + t[e:]
    names = set()
    for m in re.finditer(r"\b(\w+)\s*:\s*&U256\b", t):
        names.add(m.group(1))
    for v in names:
        t = re.sub(r"(?<![*&.\w])%s(\s*(?:<<|>>)(?!=))" % v, rf"(*{v})\1", t)
    for k, f in enumerate(inner):
        t = t.replace(f"\0{k}\0", f)
    return t


def tuple_typed(t, ty):
    out = set()
    for m in re.finditer(r"let\s+\(([^()]*)\)\s*:\s*\(([^()]*)\)", t):
        for a, b in zip(split_args(m.group(1)), split_args(m.group(2))):
            if b == ty:
                out.add(a.replace("mut ", "").strip())
    return out


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def stmt_end(t, i):
    """Index of the `;` ending the statement that starts at i."""
    while t[i] != ";":
        if t[i] in "([{":
            i = match(t, i)
        else:
            i += 1
    return i


def weave(t, spec):
    """Insert contract, invariants and hints.

    spec: list of directives
      ("sig", fn, ret, clauses)      name the result and add the contract
      ("loop", k, clauses)           invariant of the k-th loop in the text
      ("after", regex, k, text)      after the statement in which the k-th match lies
      ("before", regex, k, text)
      ("start", fn, text)            at the start of the body
      ("tail", fn, text)             before the tail expression of the body
    """
    for d in spec:
        if d[0] == "sig":
            _, fn, ret, clauses = d
            s, b, e = find_fn(t, fn)
            head = t[s:b].rstrip()
            m = re.search(r"->\s*(.*)$", head, re.S)
            if m and ret:
                head = head[:m.start()] + f"-> ({ret}: {m.group(1).strip()})"
            t = t[:s] + head + "\n" + clauses + "\n" + t[b:]
        elif d[0] == "attr":
            _, fn, text = d
            s, b, e = find_fn(t, fn)
            t = t[:s] + text + "\n" + t[s:]
        elif d[0] == "start":
            _, fn, text = d
            s, b, e = find_body(t, fn)
            t = t[:b + 1] + "\n" + text + "\n" + t[b + 1:]
        elif d[0] == "tail":
            _, fn, text = d
            s, b, e = find_body(t, fn)
            i, last = b + 1, b + 1
            while i < e - 1:
                if t[i] in "([{":
                    brace = t[i] == "{"
                    i = match(t, i)
                    if brace and t[i:e - 1].strip():
                        last = i
                else:
                    i += 1
                    if t[i - 1] == ";":
                        last = i
            t = t[:last] + "\n" + text + "\n" + t[last:]
        elif d[0] == "loop":
            _, k, clauses = d
            ms = list(re.finditer(r"\b(while\b|loop\b)", t))
            if len(ms) <= k:
                raise Lost(f"loop {k} not found")
            i = ms[k].end()
            while t[i] != "{":
                i = match(t, i) if t[i] in "([" else i + 1
            t = t[:i] + "\n" + clauses + "\n" + t[i:]
        elif d[0] in ("after", "before"):
            _, rx, k, text = d
            ms = list(re.finditer(rx, t))
            if len(ms) <= k:
                raise Lost(f"anchor {rx!r} not found")
            if d[0] == "after":
                i = stmt_end(t, ms[k].start()) + 1
            else:
                i = ms[k].start()
            t = t[:i] + "\n" + text + "\n" + t[i:]
        elif d[0] == "afterloop":
            _, k, text = d
            ms = list(re.finditer(r"\b(while\b|loop\b)", t))
            if len(ms) <= k:
                raise Lost(f"loop {k} not found")
            i = ms[k].end()
            while t[i] != "{":
                i = match(t, i) if t[i] in "([" else i + 1
            i = match(t, i)
            t = t[:i] + "\n" + text + "\n" + t[i:]
        elif d[0] == "loopbody":
            _, k, text = d
            ms = list(re.finditer(r"\b(while\b|loop\b)", t))
            if len(ms) <= k:
                raise Lost(f"loop {k} not found")
            i = ms[k].end()
            while t[i] != "{":
                i = match(t, i) if t[i] in "([" else i + 1
            t = t[:i + 1] + "\n" + text + "\n" + t[i + 1:]
        else:
            raise AssertionError(d[0])
    return t


def find_body(t, fn):
    m = re.search(r"\bfn\s+%s\b[^(]*\(" % re.escape(fn), t)
    if not m:
        raise Lost(f"function {fn} not found")
    i = match(t, m.end() - 1)
    # the body opens at the first brace outside the contract's own braces; the
    # contract clauses used here contain none
    b = t.index("{", i)
    return m.start(), b, match(t, b)


# ---- running the verifier

def generate(task):
    """(text, {line -> origin}) of one task."""
    import verus_specs
    t = verus_specs.TASKS[task]
    out = "".join(open(os.path.join(VERIF, "verus", f)).read() for f in t["lemmas"])
    marks = []
    for item in t["functions"]:
        path, fn, spec = item[:3]
        opts = item[3] if len(item) > 3 else {}
        text = extract(path, fn) if fn else extract_block(path, opts["block"])
        for g in opts.get("pre", []):
            text = g(text)
        text = weave(rewrite(text, t.get("rules", ())), spec) if fn else rewrite(text, t.get("rules", ()))
        for g in opts.get("post", []):
            text = g(text)
        first = out.count("\n") + 2
        impl = opts.get("impl", t.get("impl"))
        if impl:
            text = f"impl {impl} {{ {text} }}"
        if opts.get("mod"):
            text = re.sub(r"^(\s*(?:#\[[^\]]*\]\s*)*)(?:pub(?:\(\w+\))?\s+)?", r"\1pub ", text)
            uses = "".join(f" use crate::{u};" for u in opts.get("use", []))
            text = f"pub mod {opts['mod']} {{ use super::*;{uses} {text} }}"
        out += "verus! {\n" + text + "\n}\n"
        marks.append((first, out.count("\n"), path, fn or opts["what"]))
    return out + "fn main() {}\n", marks


def fn_at(text, line):
    """The innermost-looking `fn` at or above a line."""
    lines = text.split("\n")
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return m.group(1)
    return "?"


SEEDS = [0, 7, 23]


def run_task(ctx, task, timeout):
    """dict: status proved|failed|undecided, verified, errors, solver_s, failed=[...]"""
    r = {"task": task, "status": "undecided", "verified": 0, "errors": 0, "solver_s": 0.0,
         "failed": [], "why": "", "functions": [], "trusted": [], "seeds": 0}
    try:
        text, marks = generate(task)
    except (Lost, OSError, ValueError, IndexError) as e:
        r["why"] = f"the extraction does not recognise the code: {e}"
        return r
    r["functions"] = [f"{p}: {f}" for _, _, p, f in marks]
    r["trusted"] = re.findall(r"assume_specification\s*\[([^\]]*)\]", text) + \
        [m.group(1) for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:proof )?fn\s+(\w+)", text)]
    path = os.path.join(ctx.scratch, f"verus_{task}.rs")
    with open(path, "w") as f:
        f.write(text)
    fails = None
    for k, seed in enumerate(SEEDS):
        left = min(timeout, ctx.left() - 30)
        if left < 20:
            break
        cmd = ["verus", path, "--rlimit", "60", "--multiple-errors", "3", "--output-json", "--time",
               "--num-threads", "4", "--error-format=json"]
        if seed:
            cmd += ["--smt-option", f"smt.random_seed={seed}"]
        outp = os.path.join(ctx.scratch, f"verus_{task}_{seed}.out")
        rc, log = run(cmd, cwd=ctx.scratch, timeout=left, out=outp)
        if rc is None:
            r["why"] = "no answer within the time limit"
            return r
        d, diags = parse(log)
        r["seeds"] = k + 1
        if not d or "verification-results" not in d:
            r["why"] = "the verifier does not accept the extracted text: " + "; ".join(
                x["message"] for x in diags if x.get("level") == "error")[:400] + ("" if diags else log[-300:])
            return r
        v = d["verification-results"]
        if v.get("encountered-vir-error") or (not v.get("success") and not v.get("errors")):
            r["why"] = "the verifier does not accept the extracted text: " + "; ".join(
                x["message"] for x in diags if x.get("level") == "error")[:400]
            return r
        t = d.get("times-ms", {}).get("smt", {})
        r["solver_s"] = round(r["solver_s"] + t.get("total", 0) / 1000, 2)
        r["verified"], r["errors"] = v["verified"], v["errors"]
        if v["success"]:
            r["status"] = "proved"
            r["failed"] = []
            return r
        cur = {}
        limit = False
        for x in diags:
            if x.get("level") != "error" or not x.get("spans"):
                continue
            line = max(s["line_start"] for s in x["spans"] if s.get("is_primary", True)) if any(
                s.get("is_primary") for s in x["spans"]) else x["spans"][0]["line_start"]
            lines = sorted({s["line_start"] for s in x["spans"]})
            own = [l for l in lines if any(a <= l <= b for a, b, _, _ in marks)]
            if "rlimit" in x["message"].lower() or "resource limit" in x["message"].lower():
                limit = True
                continue
            at = own[-1] if own else line
            fn = fn_at(text, at)
            cur.setdefault(fn, []).append({
                "obligation": x["message"], "function": fn,
                "text": [s["text"][0]["text"].strip() for s in x["spans"] if s.get("text")][:3],
                "in": next((f"{p}: {f}" for a, b, p, f in marks if a <= at <= b), "lemmas")})
        if limit and not cur:
            r["why"] = "resource limit"
            return r
        # what fails under every seed
        fails = cur if fails is None else {k: w for k, w in fails.items() if k in cur}
        if not fails:
            r["why"] = "the proof is unstable (no obligation failed under every seed)"
            return r
    if fails:
        r["status"] = "failed"
        r["failed"] = [w for l in fails.values() for w in l]
    return r


def parse(log):
    d, diags = None, []
    rest = []
    for l in log.splitlines():
        if l.startswith("{") and '"$message_type"' in l:
            try:
                diags.append(json.loads(l))
                continue
            except ValueError:
                pass
        rest.append(l)
    body = "\n".join(rest)
    i = body.find("{")
    while i >= 0:
        try:
            d, _ = json.JSONDecoder().raw_decode(body[i:])
            if "verification-results" in d:
                break
        except ValueError:
            pass
        i = body.find("\n{", i + 1)
    return d, diags


def phase(ctx, cfg, rep):
    for task in cfg["verus"]:
        r = run_task(ctx, task, 400)
        ctx.log(f"verus {task}: {r['status']} verified={r['verified']} errors={r['errors']} {r['why']}")
        n = r["verified"] + r["errors"]
        rep.obligations += max(n, 1)
        rep.solver_s += r["solver_s"]
        rep.discharged += r["verified"]
        rep.groups.append({"back_end": "Verus/Z3", "task": task, "functions": r["functions"],
                           "functions_and_lemmas_verified": r["verified"], "errors": r["errors"],
                           "solver_s": r["solver_s"], "trusted_contracts": r["trusted"],
                           "status": r["status"], "why": r["why"], "seeds": r["seeds"]})
        rep.functions += [f.split(": ")[1] for f in r["functions"]]
        if r["status"] == "failed":
            rep.proof_failures.append((task, r["failed"]))
        elif r["status"] == "undecided":
            rep.undecided.append((f"verus {task}", r["why"]))
