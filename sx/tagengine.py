"""The mxTextTools tagging engine, in Python, over symbolic text.

simpleparse compiles the grammar of /repo/vrml/vrml97/parser.py into tag
tables; its C engine interprets them.  This is the same interpreter for the
commands those tables use.  It is checked against the C engine by
selftest.py; it stands in for a library, not for code of the repository.
"""
from .syms import is_sym, mkstr, ch_in, ranges_of, unsupported

ALLIN, ALLNOTIN, IS, ISIN, ISNOTIN, WORD = 11, 12, 13, 14, 15, 21
EOF, MOVE, SWORDSTART, CALL, TABLE, TABLEINLIST, SUBTABLE, SUBTABLEINLIST = 101, 103, 211, 201, 203, 204, 207, 208
FAIL, LOOKAHEAD = 100, 4096
_ranges = {}


def rng(s):
    r = _ranges.get(s)
    if r is None:
        r = _ranges[s] = ranges_of([ord(c) for c in s])
    return r


def cin(c, s):
    return chr(c) in s if isinstance(c, int) else ch_in(c, rng(s))


def run(chars, text, table, pos, end, tags):
    """(ok, position) after matching table at pos."""
    start, ntags = pos, len(tags)
    i, n = 0, len(table)
    while 0 <= i < n:
        e = table[i]
        tagobj, cmd, match = e[0], e[1] & 0xff, e[2]
        ahead = e[1] & LOOKAHEAD
        if e[1] & ~0xff & ~LOOKAHEAD or ahead and tagobj is not None:
            unsupported('tag table flags')
        outer = len(tags)
        jne = e[3] if len(e) > 3 else None
        je = e[4] if len(e) > 4 else 1
        p, ok, sub = pos, False, None
        if cmd == ALLIN:
            while p < end and cin(chars[p], match):
                p += 1
            ok = p > pos
        elif cmd == ALLNOTIN:
            while p < end and not cin(chars[p], match):
                p += 1
            ok = p > pos
        elif cmd in (IS, ISIN):
            ok = p < end and cin(chars[p], match)
            p += 1 if ok else 0
        elif cmd == ISNOTIN:
            # at the end of the buffer the C engine accepts and steps past it
            ok = p >= end or not cin(chars[p], match)
            p += 1 if ok else 0
        elif cmd == WORD:
            ok = p + len(match) <= end and all(cin(chars[p + k], m) for k, m in enumerate(match))
            p += len(match) if ok else 0
        elif cmd == SWORDSTART:
            w = match.match
            while p + len(w) <= end:
                if all(cin(chars[p + k], m) for k, m in enumerate(w)):
                    ok = True
                    break
                p += 1
            if not ok:
                p = pos
        elif cmd == EOF:
            ok = p >= end
            p = min(p, end)
        elif cmd == FAIL:
            ok = False
        elif cmd == MOVE:
            p = match if match >= 0 else end + 1 + match
            ok = True
        elif cmd == CALL:
            p = match(text, pos, end)
            ok = p > pos
        elif cmd in (TABLE, TABLEINLIST):
            t = match[0][match[1]] if cmd == TABLEINLIST else match
            sub = []
            ok, p = run(chars, text, t, pos, end, sub)
        elif cmd in (SUBTABLE, SUBTABLEINLIST):
            t = match[0][match[1]] if cmd == SUBTABLEINLIST else match
            ok, p = run(chars, text, t, pos, end, tags)
        else:
            unsupported('tag command %r' % cmd)
        if ok:
            if ahead:
                p = pos
                del tags[outer:]
            if tagobj is not None:
                tags.append((tagobj, pos, p, sub))
            pos = p
            i += je
        else:
            if jne is None:
                del tags[ntags:]
                return False, start
            i += jne
    return True, pos


def tag(data, table, start=0, stop=None, encoding=None, taglist=None, **k):
    """Stand-in for simpleparse.stt.TextTools.tag."""
    if not is_sym(data):
        chars = [ord(c) for c in data]
    else:
        chars = data.chars
    if hasattr(table, 'definition'):
        table = table.definition
    if stop is None:
        stop = len(chars)
    tags = []
    ok, p = run(chars, data, table, start, stop, tags)
    return (1, tags, p) if ok else (0, [], p)


def install():
    import simpleparse.baseparser as bp
    import simpleparse.dispatchprocessor as dp
    from .syms import SymStr
    real = bp.tag

    def tag_(data, table, start=0, stop=None, encoding=None, **k):
        if '\ufffe' in data if not is_sym(data) else 0xfffe in [c for c in data.chars if isinstance(c, int)]:
            unsupported('text of a symbolic array')
        if is_sym(data):
            return tag(data, table, start, stop)
        return real(data, table, start, stop, encoding=encoding, **k)
    bp.tag = tag_
    rl = dp.lines

    def lines(start=None, end=None, buffer=None):
        if is_sym(buffer):
            b = buffer[start or 0:end or len(buffer)]
            return b.count('\n') if len(b) else 0
        return rl(start, end, buffer)
    dp.lines = lines
