"""Independent lexer for the MySQL statement syntax used by the checks."""
import re

_ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}
_NUM = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
_WORD = re.compile(r"[A-Za-z0-9_$\x80-\U0010ffff]+")


class LexError(Exception):
    pass


def string(sql, i):
    """Lex the quoted string starting at i -> (value, end)"""
    q = sql[i]
    out = []
    i += 1
    while True:
        if i >= len(sql):
            raise LexError("unterminated string")
        c = sql[i]
        if c == "\\" and i + 1 < len(sql):
            n = sql[i + 1]
            out.append("\\" + n if n in "%_" else _ESC.get(n, n))
            i += 2
        elif c == q:
            if sql[i + 1:i + 2] == q:
                out.append(q)
                i += 2
            else:
                return "".join(out), i + 1
        else:
            out.append(c)
            i += 1


def lex(sql, start=0, dashdash=False):
    """-> list of (kind, value, start, end); comments and blanks are dropped.
    dashdash: every -- starts a comment (as for sqlglot), not only one followed by a blank."""
    out = []
    i, n = start, len(sql)
    while i < n:
        c = sql[i]
        if c.isspace() or c < " ":
            i += 1
        elif c in "'\"":
            v, e = string(sql, i)
            out.append(("str", v, i, e))
            i = e
        elif c == "`":
            e = i + 1
            v = []
            while True:
                j = sql.find("`", e)
                if j < 0:
                    raise LexError("unterminated identifier")
                v.append(sql[e:j])
                e = j + 1
                if sql[e:e + 1] == "`":
                    v.append("`")
                    e += 1
                else:
                    break
            out.append(("id", "".join(v), i, e))
            i = e
        elif c == "#" or (sql.startswith("--", i) and (dashdash or i + 2 >= n or sql[i + 2] <= " ")):
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
        elif sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            i = n if j < 0 else j + 2
        elif c == "?":
            out.append(("param", "?", i, i + 1))
            i += 1
        else:
            m = _NUM.match(sql, i)
            w = _WORD.match(sql, i)
            if w and (not m or (w.end() > m.end())) and not (c == "."):
                out.append(("word", w.group(), i, w.end()))
                i = w.end()
            elif m:
                e = m.end()
                w2 = _WORD.match(sql, e)
                if w2:       # 1.5e, 5abc: joins with what follows
                    e = w2.end()
                    out.append(("word", sql[i:e], i, e))
                else:
                    out.append(("num", m.group(), i, e))
                i = e
            else:
                out.append(("op", c, i, i + 1))
                i += 1
    return out


def same_literal(tok, v):
    """Does the token denote exactly the (non-negative) value v?"""
    if v is None:
        return tok[0] == "word" and tok[1].upper() == "NULL"
    if isinstance(v, str):
        return tok[0] == "str" and tok[1] == v
    if tok[0] != "num":
        return False
    if isinstance(v, int):
        return tok[1].isdigit() and int(tok[1]) == v
    return float(tok[1]) == v


def negative(v):
    return isinstance(v, (int, float)) and (v < 0 or (isinstance(v, float) and str(v)[0] == "-"))


def bound_as(template, values, sql, dashdash=False):
    """None if sql is template with the values bound as literals, else an explanation."""
    tt = lex(template, dashdash=dashdash)
    try:
        st = lex(sql, dashdash=dashdash)
    except LexError as e:
        return f"does not lex: {e}"
    values = list(values)
    k = 0
    pos = 0        # position up to which sql has been matched verbatim
    tpos = 0
    vi = 0
    for t in tt:
        if t[0] != "param":
            if k >= len(st) or st[k][:2] != t[:2]:
                return f"token {t[:2]} of the template became {st[k][:2] if k < len(st) else 'nothing'}"
            k += 1
            continue
        v = values[vi]
        vi += 1
        # text before the placeholder is unchanged
        piece = template[tpos:t[2]]
        if not sql.startswith(piece, pos):
            ws = len(sql) - len(sql[pos:].lstrip(" ")) - pos if vi > 1 else 0
            if not (ws == 1 and sql.startswith(piece, pos + 1)):
                return f"text before placeholder {vi} changed"
            pos += 1
        pos += len(piece)
        tpos = t[3]
        lit = v
        if negative(v):
            if k >= len(st) or st[k][:2] != ("op", "-"):
                return f"parameter {vi} ({v!r}) became {st[k][:2] if k < len(st) else 'nothing'}"
            first = st[k][2]
            k += 1
            lit = -v
        else:
            first = st[k][2] if k < len(st) else None
        if k >= len(st) or not same_literal(st[k], lit):
            return f"parameter {vi} ({v!r}) became {st[k][:2] if k < len(st) else 'nothing'}"
        if first is None or sql[pos:first] not in ("", " "):
            return f"text added before parameter {vi}: {sql[pos:first]!r}"
        pos = st[k][3]
        k += 1
    if k != len(st):
        return f"extra tokens {[x[:2] for x in st[k:k + 5]]}"
    rest = template[tpos:]
    if sql[pos:] != rest and not (vi and sql[pos:] == " " + rest):
        return f"text after the last placeholder changed: {sql[pos:][:60]!r}"
    return None
