#!/usr/bin/env python3
"""mutate.py [-n COUNT] [-s SEED] [-f FILE-PATTERN] [-o OUT]: random small changes to a scratch copy of /repo/src.
Those that compile and pass the tests are analysed; the ones no property reports are written to OUT for reading
(they are either equivalent, outside what is claimed, or missed)."""
import argparse, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-n", type=int, default=100)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-f", default=".")
ap.add_argument("-o", default="/tmp/mutants.txt")
ap.add_argument("-j", type=int, default=6)
A = ap.parse_args()

SUBS = [(r" \+ 1\b", ""), (r" - 1\b", ""), (r" - 1\b", " + 0"), (r"\+= ", "-= "), (r"-= 1", "-= 2"), (r" == ", " != "), (r" != ", " == "),
        (r" >= 1\b", " >= 2"), (r" > 1\b", " > 0"), (r" > 1\b", " > 2"), (r" == 1\b", " == 0"), (r"== 0\b", "== 1"), (r"!= 0\b", "!= 1"), (r"&& ", "|| "), (r"\|\| ", "&& "),
        (r"if !", "if "), (r"\bif (?!let)", "if !"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.first_mut\(\)", ".last_mut()"), (r"\.last_mut\(\)", ".first_mut()"),
        (r"is_whitespace", "is_ascii_whitespace"), (r"is_ascii_alphabetic", "is_alphabetic"), (r"is_ascii_alphabetic", "is_ascii_alphanumeric"),
        (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"Inline", "Outline"), (r"Outline", "Inline"), (r"Brackets", "Dollars"), (r"Dollars", "Brackets"),
        (r"SingleDollar", "DoubleDollar"), (r"DoubleDollar", "SingleDollar"), (r"Curly", "Square"), (r"Square", "Bracket"), (r'"\("', '"["'), (r'"\)"', '"]"'), (r'"\["', '"("'),
        (r"'\\n'", "'\\\\t'"), (r"'\$'", "'&'"), (r"'%'", "'#'"), (r'"begin"', '"end"'), (r'"end"', '"begin"'), (r"UnclosedScope", "UnclosedArgument"),
        (r"is_opening", "is_closing"), (r"is_closing", "is_opening"), (r"\.open\(\)", ".close()"), (r"\.close\(\)", ".open()"), (r"is_empty\(\)", "is_empty() == false"),
        (r"char_line_no", "line_no"), (r"\bline_no\b", "buffer_line_no"), (r"buffer_line_no", "line_no"), (r"text_buffer_line", "buffer_line"), (r"buffer_line\b", "text_buffer_line"),
        (r"text_buffer\b", "buffer"), (r"cursor_line_no", "line_no"), (r"line_offset", "buffer_line"), (r"env_line_no", "buffer_start"), (r"buffer_start", "env_line_no"),
        (r"prec_begin", "prec_end"), (r"prec_end", "prec_begin"), (r"begin_prec", "end_prec"), (r"end_prec", "begin_prec"), (r"preamable", "body"), (r"\bbody\b", "trailing"), (r"trailing", "preamable"),
        (r"\.unwrap_or\(1\)", ".unwrap_or(0)"), (r"\.skip\(1\)", ".skip(0)"), (r"\.skip\(1\)", ".skip(2)"), (r"\.take\(", ".skip("), (r"remove\(0\)", "pop().unwrap()"), (r"\.rev\(\)", ""),
        (r"validate\(\)\?", "validate().ok()"), (r"Ok\(\(\)\)", "Ok(Default::default())"), (r"\* 2\b", ""), (r"\?;", ".ok();"), (r"continue", "{}"), (r"return;", ""),
        (r"\.to_string\(\)", ".to_string().trim().to_string()"), (r"\{open\}", "{close}"), (r"\{close\}", "{open}"), (r"\{s\}\{sc\}", "{sc}{s}"), (r"\{scope\}\{trailing\}", "{trailing}{scope}")]


def mutants():
    files = []
    for d, _, fs in os.walk("/repo/src"):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), "/repo")
            if f.endswith(".rs") and "ast4" not in p and "tests" not in p and re.search(A.f, p):
                files.append(p)
    out = []
    for p in sorted(files):
        lines = open("/repo/" + p).read().split("\n")
        for i, ln in enumerate(lines):
            if ln.strip().startswith(("//", "use ", "#")):
                continue
            for a, b in SUBS:
                for m in re.finditer(a, ln):
                    new = ln[:m.start()] + m.expand(b) + ln[m.end():]
                    if new != ln:
                        out.append((p, i, i + 1, [new]))
            if re.fullmatch(r"\s+[^{}]*;", ln) and not ln.strip().startswith(("let ", "return")):
                out.append((p, i, i + 1, []))                                # statement removed
            if i + 1 < len(lines) and re.fullmatch(r"\s+[^{}]*;", ln) and re.fullmatch(r"\s+[^{}]*;", lines[i + 1]):
                out.append((p, i, i + 2, [lines[i + 1], ln]))                # neighbours swapped
            if re.match(r"\s+.*=> .*,$", ln) and i + 1 < len(lines) and "=>" in lines[i + 1]:
                out.append((p, i, i + 1, []))                                # arm removed
    return out


def one(job):
    k, (p, i, j, new) = job
    t = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run("cp -a /repo/src /repo/Cargo.toml %s/" % t, shell=True, check=True)
        lines = open("/repo/" + p).read().split("\n")
        old = lines[i:j]
        lines[i:j] = new
        open(t + "/" + p, "w").write("\n".join(lines))
        r = subprocess.run("rustc --test --edition 2021 --cap-lints allow --crate-name latex_ast --cfg 'feature=\"debug\"' --cfg 'feature=\"eq\"' -o %s/tt %s/src/lib.rs" % (t, t),
                           shell=True, capture_output=True)
        if r.returncode:
            return k, "nocompile", None
        try:
            r = subprocess.run(["timeout", "10", t + "/tt", "-q"], capture_output=True, cwd=t)
        except Exception:
            return k, "tests", None
        if r.returncode:
            return k, "tests", None
        r = subprocess.run([sys.executable, V + "/tools/allroots.py", "--first"], env=dict(os.environ, LATEX_AST_REPO=t), capture_output=True, text=True)
        head = "%s:%d\n%s%s" % (p, i + 1, "".join("  - %s\n" % x.strip() for x in old), "".join("  + %s\n" % x.strip() for x in new))
        return k, "caught" if r.returncode == 1 else "missed" if r.returncode == 0 else "error", head + r.stdout + r.stderr[-500:]
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    ms = mutants()
    random.Random(A.s).shuffle(ms)
    print(len(ms), "possible")
    cnt = {}
    with multiprocessing.Pool(A.j) as pool, open(A.o, "w") as f:
        for k, r, text in pool.imap_unordered(one, list(enumerate(ms[:A.n]))):
            cnt[r] = cnt.get(r, 0) + 1
            if text:
                f.write("== %s %s\n%s\n" % (r, k, text))
                f.flush()
    print(cnt)
