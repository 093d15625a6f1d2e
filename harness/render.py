"""From the specification's tokens to query text, and back from formatted text to tokens."""
import re


def decode(text):
    return text.replace("~", "\n").replace("#", "\u00e9").replace("\f", "#")


def tokens(fact):
    """[(class, text)]: k keyword-like, n name or literal, o punctuation."""
    return [(t[0], decode(t[1:])) for t in fact["t"]]


def layout(fact):
    out = []
    for line in fact["l"]:
        text = " " * int(line[0])
        for i, word in enumerate(line[1:]):
            if i and word[0] == "0":
                text += " "
            text += decode(word[2:])
        out.append(text)
    return "\n".join(out)


def keyword(text, rng):
    if rng is None:
        return text.lower()
    mode = rng.random()
    if mode < 0.3:
        return text.lower()
    if mode < 0.5:
        return text.upper()
    if mode < 0.7:
        return text.capitalize()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in text)


def plain(toks):
    return " ".join(t.lower() if c == "k" else t for c, t in toks)


def upper_lines(toks):
    return "\n".join(t.upper() if c == "k" else t for c, t in toks)


SPACES = [" ", " ", " ", "  ", "\n", "\n", "\t", "\n\n", " \n ", "    ", "\r\n", "\n\t  "]


def spaced(toks, rng):
    """random white space between all tokens, random case of keywords"""
    out = []
    for i, (c, t) in enumerate(toks):
        if i:
            out.append(rng.choice(SPACES))
        out.append(keyword(t, rng) if c == "k" else t)
    return "".join(out)


WORDISH = re.compile(r"[\w$]", re.UNICODE)
QUOTES = "'\"`"


def needs_space(left, right):
    """could the two tokens be read differently if they touched?"""
    a, b = left[-1], right[0]
    if WORDISH.match(a) and WORDISH.match(b):
        return True
    if a in QUOTES or b in QUOTES:
        # strings keep their prefix letters, doubled quotes and neighbours apart
        return (a in QUOTES and b in QUOTES) or bool(WORDISH.match(a)) or bool(WORDISH.match(b))
    if right == "%":
        return a in "{%}"
    if left == "%":
        return b.lower() in "sdifr({%}"
    if b in "%{:@$?" or a in "%{:@$?}" or left[0] in "%{:@$?":
        return True
    if left in ("-", "+"):
        return b in "-+"
    if a in "-+" or (b in "-+" and len(right) > 1):
        return True
    if a == "." or b == ".":
        return left.replace(".", "").isdigit() or right.replace(".", "").isdigit()
    if b in "+-" and left[0].isdigit():
        return True
    if a in "<>=!|&/*^" and b in "<>=!|&/*^":
        return True
    return False


def tight(toks, rng=None):
    """as little white space as possible"""
    out = ""
    last = None
    for c, t in toks:
        if last is not None and needs_space(last, t):
            out += " "
        out += keyword(t, rng) if c == "k" else t
        last = t
    return out


class Walk:
    """Reads a formatted text as the expected token sequence."""

    def __init__(self, toks, text):
        self.error = None      # (kind, expected token, what is there)
        self.wrong_case = []
        pos = 0
        n = len(text)
        touching = True
        for index, (c, t) in enumerate(toks):
            start = pos
            while pos < n and text[pos] in " \n\t\r":
                pos += 1
            if index and pos == start and WORDISH.match(toks[index - 1][1][-1]) and WORDISH.match(t[0]):
                self.error = (c, t, "no space before it: " + text[max(0, pos - 20):pos + 20])
                return
            piece = text[pos:pos + len(t)]
            if piece != t:
                if c == "k" and piece.upper() == t.upper():
                    self.wrong_case.append((t, piece))
                else:
                    self.error = (c, t, text[pos:pos + 40])
                    return
            pos += len(t)
            after = text[pos:pos + 1]
            if after and WORDISH.match(t[-1]) and WORDISH.match(after):
                self.error = (c, t, "not ended: " + text[max(0, pos - len(t)):pos + 20])
                return
        rest = text[pos:].strip()
        if rest:
            self.error = ("end", "", rest[:60])
