#!/usr/bin/env python3
"""Mutation sweep: how sensitive is a check? Not part of any check.

usage: mutate.py OUT SECONDS COUNT PROP [FILE...]   (FILE relative to mpact/sim)

Makes COUNT small random changes to the files of the property in scratch copies
of the sources and runs the check against each. Survivors are to be looked at by
hand: most are equivalent or outside the property.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SET2 = os.environ.get("MUTATE_SET") == "2"
REPO = os.environ.get("VERIF_REPO", "/repo")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+\+", "--"), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"if \(!", "if ("), (r"if \(", "if (!"), (r" \+ ", " - "), (r" - ", " + "), (r" \| ", " & "),
       (r" & ~", " & "), (r" & ", " | "), (r" << ", " >> "), (r" >> ", " << "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r" \+= ", " -= "),
       (r" -= ", " += "), (r" \* ", " + "), (r" % ", " / "), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\bsize\(\)", "size() - 1"),
       (r"\bbegin\(\)", "end()"), (r" \|= ", " &= "), (r" &= ", " |= "), (r" \? ", " ? !!")]

# The second set (MUTATE_SET=2): narrower types, dropped operands, the other end
# or bound, neighbouring statements swapped.
OPS2 = [(r"\buint64_t\b", "uint32_t"), (r"\buint64_t\b", "int32_t"), (r"\bint64_t\b", "int32_t"), (r"\bsize_t\b", "uint8_t"), (r"\bunsigned\b", "uint8_t"), (r"\bint (?=\w+( =|;))", "int8_t "),
        (r"\buint32_t\b", "uint16_t"), (r"\bdouble\b", "float"), (r" && [^&|]*?(?=\) \{|;| &&| \|\|)", ""), (r" \|\| [^&|]*?(?=\) \{|;| &&| \|\|)", ""), (r"std::min", "std::max"),
        (r"std::max", "std::min"), (r"front\(\)", "back()"), (r"back\(\)", "front()"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"(?<=for )\(auto&", "(auto"),
        (r"\bstd::multimap\b", "std::map"), (r"\breturn;", ";"), (r"\bempty\(\)", "size() == 1"), (r"\bIncRef\(\)", "ref_count()"), (r"!= nullptr", "== nullptr"), (r"\bnullptr == ", "nullptr != "),
        (r"\bemplace\b", "insert_or_assign"), (r"\belse \{", "{"), (r"\bwhile \(", "if ("), (r" = (?=\w+_?;)", " = 1 + "), (r"\boffset\b", "0"), (r"(?<!int )(?<!unsigned )\bi\b(?=[\])])", "0")]

DECL = re.compile(r"(override|const|delete|default|= 0|^ +[\w:<>,*& ]+ \w+_( = [^;]*)?);$")


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    res = []
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("LOG") or "template" in s or s.startswith("using") or s.startswith("static_assert"):
            continue
        code = l.split("//")[0]
        if "LOG(" in code or "StrCat" in code or "InternalError" in code:
            continue
        for a, b in (OPS2 if SET2 else OPS):
            for m in re.finditer(a, code):
                if code.count('"', 0, m.start()) % 2:
                    continue
                if a in (r" << ", r" >> ") and ("os" in code or "\"" in code):
                    continue
                res.append((i, l[:m.start()] + b + l[m.end():]))
        if SET2:
            n = lines[i + 1] if i + 1 < len(lines) else ""
            ind = len(l) - len(l.lstrip())
            if s.endswith(";") and n.strip().endswith(";") and ind >= 2 and len(n) - len(n.lstrip()) == ind and lines[i - 1].strip().endswith((";", "{", "}", ":")) and l.count("(") == l.count(")") and n.count("(") == n.count(")") and not re.match(r"(return|break|continue|using|//)", n.strip()) and not DECL.search(l) and not DECL.search(n):
                res.append(((i, i + 1), n + "\n" + l))
            continue
        # Statement removal.
        if s.endswith(";") and l.startswith("  ") and not re.match(r"(return\b.*\w|const |auto |int |bool |uint|size_t|std::\w+(<.*>)? \w+ ?[;=({]|absl::\w+ \w+ |virtual|explicit|\}|default|case|[\w:<>*&]+ \w+_?(\(.*\))?( const)?( = [^;]*)?;$|[\w:<>*&]+ \w+( =|;))", s) and code.count("(") == code.count(")"):
            prev = lines[i - 1].strip()
            if prev.endswith((";", "{", "}", ":")) or prev.startswith("//") or prev == "":
                res.append((i, l[:len(l) - len(l.lstrip())] + ";"))
    return lines, res


def main():
    out, seconds, count, prop = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:]
    if not files:
        for l in open(os.path.join(VERIF, "properties.jsonl")):
            p = json.loads(l)
            if p["id"] == prop:
                files = sorted(set(re.sub(r".*mpact/sim/", "", a.split(":")[0]) for a in re.findall(r"mpact/sim/[\w/]+\.(?:cc|h)", json.dumps(p))))
    rnd = random.Random(prop + ("2" if SET2 else ""))
    cand = []
    for f in files:
        lines, ms = mutants(os.path.join(REPO, "mpact/sim", f))
        cand += [(f, i, new, lines[i if isinstance(i, int) else i[0]]) for i, new in ms]
    rnd.shuffle(cand)
    cand = cand[:count]
    nw = int(os.environ.get("MUTATE_WORKERS", "4"))
    root = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    q = Queue()
    for w in range(nw):
        d = os.path.join(root, str(w))
        shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", ".build", "seeded", "replays", "evidence"))
        shutil.copytree(os.path.join(REPO, "mpact"), d + "/repo/mpact")
        q.put(d)

    def one(c):
        f, i, new, old = c
        d = q.get()
        try:
            p = os.path.join(d, "repo/mpact/sim", f)
            orig = open(p).read()
            lines = orig.split("\n")
            if isinstance(i, tuple):
                lines[i[0]:i[1] + 1] = [new]
                i = i[0]
            else:
                lines[i] = new
            open(p, "w").write("\n".join(lines))
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_SEARCH_S=seconds, VERIF_WORKERS="2")
            try:
                r = subprocess.run([sys.executable, "run_check.py", prop], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=600)
                m = re.search(r"class=(\S+)", r.stdout)
                res = {0: "SURVIVED", 1: "caught"}.get(r.returncode, "build" if "build of" in r.stdout else "ERROR " + r.stdout[-200:])
                cls = m.group(1) if m else ""
            except subprocess.TimeoutExpired:
                res, cls = "TIMEOUT", ""
            open(p, "w").write(orig)
            return "%-9s %-28s %s:%d  %s  ==>  %s" % (res, cls, f, i + 1, old.strip(), new.strip().replace("\n", " // "))
        finally:
            q.put(d)

    with ThreadPoolExecutor(nw) as ex, open(out, "a") as o:
        tot = {}
        for line in ex.map(one, cand):
            k = line.split()[0]
            tot[k] = tot.get(k, 0) + 1
            o.write(prop + " " + line + "\n")
            o.flush()
        o.write("%s TOTAL %s\n" % (prop, tot))
    shutil.rmtree(root, ignore_errors=True)


main()
