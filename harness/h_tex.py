"""Splitting LaTeX into tokens; all reading is done by the specification (Typeset.tla)."""
import re
P = 46337
LEX = re.compile(r"\\(?:left|right)\b|\\(?:,|;|!|quad\b|\s)|\\[A-Za-z]+|\d+(?:\.\d+)?(?:e[-+]?\d+)?|[A-Za-z]+|[-+{}()^_,|]|\s+|.")


def number(t):
    m = re.fullmatch(r"(\d+)(?:\.(\d+))?(?:e([-+]?\d+))?", t)
    a, b, e = m.group(1), m.group(2) or "", int(m.group(3) or 0)
    n, k = int(a + b), e - len(b)
    while k < 0 and n % 10 == 0:
        n, k = n // 10, k + 1
    d = 1
    if k >= 0:
        n *= 10 ** k
    else:
        d = 10 ** -k
    big = 1 << 30
    return dict(k="num", n=n if n < big else n % P, d=d if d < big else d % P, t=t)


def lex(s, known=()):
    s = re.sub(r"\\(?:operatorname|mathrm|text)\s*\{\s*([A-Za-z]+)\s*\}", r" \1 ", s.strip().strip("$"))
    out = []
    for m in LEX.finditer(s):
        t = m.group(0)
        if not t.strip() or t in ("\\left", "\\right", "\\,", "\\;", "\\!", "\\quad") or t[0] == "\\" and t[1:].isspace():
            continue
        if t[0].isdigit():
            out.append(number(t))
        elif t in ("\\frac", "\\cdot", "\\partial"):
            out.append(dict(k="sym", s=t))
        elif t[0] == "\\":
            out.append(dict(k="id", s=t[1:], ls=["?"]))
        elif t.isalpha():
            out.append(dict(k="id", s=t, ls=list(t)))
        else:
            out.append(dict(k="sym", s=t))
    return out


def sides(latex):
    a, b = latex.strip().strip("$").split("=", 1)
    return lex(a), lex(b)


def units(x, scale):
    return int(round(float(x) * scale))
