"""Authoring aid: rewrites the shorthand  tab / lmap / sumI / alll  in a Quint file, in place,
into the built-in folds.  (The simulator's operators are not re-entrant: a user-defined
higher-order operator that is entered again while it runs gives wrong results, so the
specification uses only built-in higher-order operators.)"""
import re
import sys

NAMES = {"tab", "lmap", "sumI", "alll"}
CNT = 0


def split_args(s, i):
    """s[i] is just after '('; returns (args, index after ')')."""
    depth, start, args = 0, i, []
    while True:
        ch = s[i]
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            if depth == 0:
                args.append(s[start:i])
                return args, i + 1
            depth -= 1
        elif ch == "," and depth == 0:
            args.append(s[start:i])
            start = i + 1
        i += 1


def expand(s):
    global CNT
    out, i = "", 0
    pat = re.compile(r"(?<![\w.])(" + "|".join(NAMES) + r")\(")
    while True:
        m = pat.search(s, i)
        if not m:
            return out + s[i:]
        line_start = s.rfind("\n", 0, m.start()) + 1
        if "pure def " + m.group(1) in s[line_start:m.end()] or "//" in s[line_start:m.start()]:
            out += s[i:m.end()]
            i = m.end()
            continue
        args, j = split_args(s, m.end())
        if len(args) > 2:
            args = [args[0], ",".join(args[1:])]
        lam = re.match(r"\s*\(?(\w+)\)?\s*=>\s*(.*)$", args[1], re.S)
        if not lam:
            raise SystemExit("cannot expand: " + s[m.start():j])
        var, body = lam.group(1), expand(lam.group(2)).strip()
        coll = expand(args[0]).strip()
        CNT += 1
        rng = f"range(0, {coll})" if m.group(1) in ("tab", "sumI") else (coll if re.fullmatch(r"[\w.\[\]\(\)\"]+", coll) else f"({coll})")
        if m.group(1) in ("tab", "lmap"):
            e = f"{rng}.foldl([], (acc{CNT}, {var}) => acc{CNT}.append({body}))"
        elif m.group(1) == "sumI":
            e = f"{rng}.foldl(0, (acc{CNT}, {var}) => acc{CNT} + ({body}))"
        else:
            e = f"{rng}.foldl(true, (acc{CNT}, {var}) => acc{CNT} and ({body}))"
        out += s[i:m.start()] + e
        i = j


for f in sys.argv[1:]:
    t = open(f).read()
    CNT = 0
    t2 = expand(t)
    # keep numbering unique when a file is expanded again
    if t2 != t:
        used = {int(x) for x in re.findall(r"\bacc(\d+)\b", t)}
        if used:
            base = max(used)
            CNT = base
            t2 = expand(t)
        open(f, "w").write(t2)
        print("expanded", f)
