"""The string, character and integer literals of the sources, outside tests and comments."""
import glob, json, os, re

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "literals.json")
TOKEN = re.compile(r'''
    (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<raw>b?r(?P<h>\#*)"(?P<rawtext>.*?)"(?P=h))
  | (?P<str>[bc]?"(?P<text>(?:[^"\\]|\\.)*)")
  | (?P<char>b?'(?P<ctext>\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\\n])')
  | (?P<num>(?<![\w.])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.]|\.[0-9]))
''', re.X | re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(t):
    t = re.sub(r"\\x([0-9a-fA-F]{2})|\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int((m.group(1) or m.group(2)).replace("_", ""), 16) % 0x110000), t)
    return re.sub(r"\\(.)", lambda m: ESC.get(m.group(1), ""), t)


def literals(repo):
    words, nums = {}, {}
    for p in sorted(glob.glob(os.path.join(repo, "core/src/**/*.rs"), recursive=True) + glob.glob(os.path.join(repo, "macros/src/**/*.rs"), recursive=True)):
        t = open(p, errors="replace").read()
        i = t.find("#[cfg(test)]")
        t = t[:i] if i >= 0 else t
        for a, op, b in re.findall(r"\b([0-9][0-9_]*)\s*(<<|\*)\s*([0-9][0-9_]*)\b", t):
            a, b = int(a.replace("_", "")), int(b.replace("_", ""))
            nums[a * b if op == "*" else a << b if b < 64 else 0] = 1
        for m in TOKEN.finditer(t):
            if m.group("comment"):
                continue
            if m.group("raw") is not None:
                words[m.group("rawtext")] = 1
            elif m.group("str") is not None:
                words[unescape(m.group("text"))] = 1
            elif m.group("char") is not None:
                words[unescape(m.group("ctext"))] = 1
            elif m.group("num") is not None:
                n = re.sub(r"[iu](8|16|32|64|128|size)$", "", m.group("num")).replace("_", "")
                try:
                    nums[int(n, 0) if n[:2] in ("0x", "0b", "0o") else int(n)] = 1
                except ValueError:
                    pass
    return list(words), list(nums)


def new_literals(repo):
    """Text for the harness: the literals that the original tree does not have."""
    try:
        base = json.load(open(BASE))
        words, nums = literals(repo)
    except (OSError, ValueError):
        return ""
    out = []
    for w in words:
        if w in base["words"]:
            continue
        # the text itself, if it is short; of a longer one (a message) nothing
        if 0 < len(w) <= 40 and not re.search(r"[\n\r{}]", w) and w.count(" ") < 3:
            out.append("s " + w)
    have = set(base["nums"])
    out += [f"n {n}" for n in nums if n not in have and n < 1 << 64]
    return "\n".join(out) + "\n"
