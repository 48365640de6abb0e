"""C11: saved model files are read back field by field as they were written.

R1  writing: every writer is interpreted over an arbitrary model; the texts it writes are kept as sequences of constants, converted
    values and repetitions.  Sizes, the source/action/target/probability of every transition with positive probability, and every label
    of every labelled state must be written, and texts of probabilities keep all digits.
R2  reading: the reader is interpreted over an arbitrary file, and the places of a line that it takes apart are replaced by what the
    writer puts there.  Each value that reaches the model's constructor must be the one that was written for it.
R3  patterns: the regular expressions, which are constants of the reader, must take apart the written words, over all character classes
    that they distinguish, exactly at the borders of the written values."""
import itertools
import re
from .common import *
from .c08 import Rec
from ..terms import truth

R1, R2, R3 = "C11.R1", "C11.R2", "C11.R3"
ME = sym("self", "model")
PATH = sym("filepath", "str")


class Piece:
    """c: constant text; f: a value with its conversion; j: a repetition; u: not understood"""

    def __init__(self, kind, *a):
        self.kind, self.a, self.text = kind, a, False

    def __repr__(self):
        return "%s%s" % (self.kind, [tm.show(x) if hasattr(x, "op") else x for x in self.a])


def c(s):
    return Piece("c", s)


def flatten(I, st, t):
    """[(conditions, [Piece])]"""
    if t.op == "c":
        return [((), [c(str(t.a[0]))] if t.a[0] != "" else [])]
    if t.op == "cat":
        out = [((), [])]
        for x in t.a:
            out = [(g + g2, p + p2) for g, p in out for g2, p2 in flatten(I, st, x)]
        return out
    if t.op == "ite":
        return [((l,) + g, p) for l, x in ((t.a[0], t.a[1]), (bnot(t.a[0]), t.a[2])) for g, p in flatten(I, st, x)]
    if t.op == "str":
        return [((), [Piece("f", "s", t.a[0])])]
    if t.op == "fmt":
        return [((), [Piece("f", t.a[0], t.a[1])])]
    if t.op == "join" and t.a[0].op == "c":
        return join(I, st, t.a[0].a[0], t.a[1])
    if t.op in ("sym", "attr", "get", "item", "it", "nth", "inv"):
        return [((), [Piece("f", "s", t)])]
    return [((), [Piece("u", t)])]


def unsorted(l):
    """the order of what a line lists does not matter"""
    if l.op == "sortedlist":
        return unsorted(l.a[0])
    return mk("map", l.a[0], unsorted(l.a[1])) if l.op == "map" else l


def join(I, st, sep, l):
    if l.op == "ite":
        return [((x,) + g, p) for x, y in ((l.a[0], l.a[1]), (bnot(l.a[0]), l.a[2])) for g, p in join(I, st, sep, y)]
    l = unsorted(l)
    if l.op == "map" and l.a[1].op == "ref":
        fz = I.freeze(st, l.a[1])
        l = mk("map", l.a[0], fz) if fz is not None else l
    cs = I.concrete(st, l)
    if cs is not None:
        out = [((), [])]
        for i, x in enumerate(cs):
            out = [(g + g2, p + ([c(sep)] if i and sep else []) + p2) for g, p in out for g2, p2 in flatten(I, st, x)]
        return out
    alts = I.alternatives(st, l, None)
    if len(alts) != 1 or len(alts[0][0]) != 1:
        return [((), [Piece("u", l)])]
    ats, dom, el, gs = alts[0]
    own = [g for g in gs if g.op != "in" and not (dom.op == "range" and set(tm.subterms(g)) & {ats[0]} and is_bound(g, ats[0]))]
    fl = flatten(I, st, el)
    if len(fl) != 1 or own:
        return [((), [Piece("u", l)])]
    return [((), [Piece("j", sep, ats[0], dom, fl[0][1])])]


def is_bound(g, n):
    return g.op in ("le", "lt", "le0", "lt0") or (g.op not in ("not", "and", "or", "eq") and n in tm.atoms(g))


class Line:
    def __init__(self, binders, guard, pieces, e):
        self.binders, self.guard, self.pieces, self.e = binders, guard, pieces, e


class File:
    def __init__(self, handle, path):
        self.handle, self.path, self.lines, self.unclear = handle, path, [], []


def written(I):
    """handle -> File, from the events of a writer"""
    out = {}
    for e in I.events:
        if e.kind == "ext" and e.name in ("builtins.open", "io.open"):
            mode = e.kw.get("mode", e.args[1] if len(e.args) > 1 else C("r"))
            if mode.op == "c" and str(mode.a[0])[:1] in ("w", "x"):
                out[e.result] = File(e.result, e.args[0])
    for e in I.events:
        texts = None
        if e.kind == "mcall" and e.name == "write" and e.args[0] in out and len(e.args) == 2:
            f, texts = out[e.args[0]], [e.args[1]]
        elif e.kind == "print" and e.kw.get("file") in out:
            f = out[e.kw["file"]]
            end, sp = e.kw.get("end", C("\n")), e.kw.get("sep", C(" "))
            parts = []
            for i, x in enumerate(e.args):
                parts += ([sp] if i else []) + [I.tostr(x)]
            texts = [tm.concat(parts + [end])]
        elif e.kind == "mcall" and e.name == "writelines" and e.args[0] in out:
            f, texts = out[e.args[0]], [mk("join", C(""), e.args[1])]
        if texts is None:
            continue
        st = I.new_state()
        st.heap = dict(e.heap)
        for t in texts:
            for g, ps in flatten(I, st, t):
                f.lines.append(Line(e.binders, tuple(e.path) + g, ps, e))
    for f in out.values():
        f.lines = [y for x in f.lines for y in spread(I, x, f)]
        merged = []
        for l in f.lines:
            if merged and not ended(merged[-1].pieces) and merged[-1].binders == l.binders and merged[-1].guard == l.guard:
                merged[-1] = Line(l.binders, l.guard, merged[-1].pieces + l.pieces, l.e)
            else:
                merged.append(l)
        f.lines = []
        for l in merged:
            for ps in cut(l.pieces):
                f.lines.append(Line(l.binders, l.guard, ps, l.e))
    return out


class Bd:
    """a repetition of a text that is a loop over lines"""

    def __init__(self, atom, dom):
        self.atoms, self.dom, self.has_break = (atom,), dom, False


def spread(I, l, f):
    """a repetition of whole lines becomes lines of their own"""
    ps = l.pieces
    js = [i for i, p in enumerate(ps) if p.kind == "j"]
    for i in js:
        p = ps[i]
        sep, atom, dom, el = p.a
        nl = any(x.kind == "c" and "\n" in x.a[0] for x in el)
        if sep.endswith("\n") and not nl and i + 1 < len(ps) and ps[i + 1].kind == "c" and ps[i + 1].a[0].startswith("\n"):
            head, tail = ps[:i], ps[i + 1:]
            rest = c(tail[0].a[0][1:])
            return [x for x in ([Line(l.binders, l.guard, head, l.e)] if head else []) + [Line(l.binders + (Bd(atom, dom),), l.guard, el + [c("\n")], l.e)]
                    + ([Line(l.binders, l.guard, ([rest] if rest.a[0] else []) + tail[1:], l.e)] if rest.a[0] or tail[1:] else [])]
        if sep == "" and nl and ended(el):
            out = ([Line(l.binders, l.guard, ps[:i], l.e)] if ps[:i] else []) + [Line(l.binders + (Bd(atom, dom),), l.guard, el, l.e)]
            if ps[i + 1:]:
                out += spread(I, Line(l.binders, l.guard, ps[i + 1:], l.e), f)
            return out
    return [l]


def ended(ps):
    return bool(ps) and ps[-1].kind == "c" and ps[-1].a[0].endswith("\n")


def cut(ps):
    """pieces of several lines, line by line"""
    out, cur = [], []
    for p in ps:
        if p.kind == "c" and "\n" in p.a[0]:
            parts = p.a[0].split("\n")
            for x in parts[:-1]:
                out.append(cur + [c(x + "\n")])
                cur = []
            if parts[-1]:
                cur.append(c(parts[-1]))
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


# ---------------------------------------------------------------- words and what is taken out of them
class Word:
    def __init__(self, pieces):
        self.p = pieces


class Split:
    def __init__(self, fixed, rep):
        self.fixed, self.rep = fixed, rep


class Match:
    def __init__(self, groups):
        self.groups = groups


class Matches:
    def __init__(self, groups, atom, dom):
        self.groups, self.atom, self.dom = groups, atom, dom


class Lines:
    """the lines of the file from number lo on"""

    def __init__(self, src, lo):
        self.src, self.lo = src, lo


class Source:
    def __init__(self, header, rows, name):
        self.header, self.rows, self.name = header, rows, name


def field(ps):
    """the value of a field as a term"""
    ps = [p for p in ps if not (p.kind == "c" and p.a[0] == "")]
    if len(ps) == 1 and ps[0].kind == "f":
        return mk("field", ps[0].a[0], ps[0].a[1])
    if all(p.kind == "c" for p in ps):
        return C("".join(p.a[0] for p in ps))
    if any(p.kind == "u" for p in ps):
        return None
    return mk("glued", *[C(p.a[0]) if p.kind == "c" else (mk("field", p.a[0], p.a[1]) if p.kind == "f" else mk("several", p.a[2])) for p in ps])


def split(w):
    """fields between blanks, or None"""
    fields, cur, rep = [], [], None

    def close():
        nonlocal cur
        if cur:
            fields.append(cur)
            cur = []
    for p in w.p:
        if rep is not None and not (p.kind == "c" and not p.a[0].strip()):
            return None
        if p.kind == "c":
            for x in re.findall(r"\s+|\S+", p.a[0]):
                if x.isspace():
                    close()
                else:
                    cur.append(c(x))
        elif p.kind == "f":
            cur.append(p)
        elif p.kind == "j":
            sep, atom, dom, el = p.a
            s = split(Word(el))
            if s is None or s.rep is not None or len(s.fixed) != 1:
                return None
            if cur and not (el[0].kind == "c" and el[0].a[0][:1].isspace()):
                cur.append(p)
                continue
            own = el[0].kind == "c" and el[0].a[0][:1].isspace() or el[-1].kind == "c" and el[-1].a[0][-1:].isspace()
            if not own and not sep.isspace():
                cur.append(p)
                continue
            close()
            rep = (atom, dom, s.fixed[0])
        else:
            return None
    close()
    fs = [field(x) for x in fields]
    if any(x is None for x in fs):
        return None
    return Split(fs, rep)


DIGITS = ("0", "7", "40", "308")
TEXTS = ("", "a", "B9", "_x0", "7", "a b", "l-1", "a=b", "a:b", "(1,2)", "\u00e4", "a.b|c", " ", "0=1")


def words(w, counts=(0, 1, 2, 3)):
    """(text, [(start, end, tag)]) for representative contents; tag: index of the piece, (index, element, index) inside of repetitions"""
    nj = [i for i, p in enumerate(w.p) if p.kind == "j"]
    if any(p.kind == "u" for p in w.p):
        return
    for ns in itertools.product(counts, repeat=len(nj)):
        slots = []

        def add(ps, tag):
            for i, p in enumerate(ps):
                t = tag + (i,)
                if p.kind == "c":
                    slots.append((t, [p.a[0]]))
                elif p.kind == "f":
                    slots.append((t, None if p.text else DIGITS))
                elif p.kind == "j":
                    n = ns[nj.index(i)] if tag == () else 2
                    for k in range(n):
                        if k and p.a[0]:
                            slots.append((t + ("sep",), [p.a[0]]))
                        add(p.a[3], t + (k,))
        add(w.p, ())
        free = [i for i, (t, v) in enumerate(slots) if v is None or len(v) > 1]
        # each value takes each of its texts, the others vary along with it
        rounds = max([1] + [len(TEXTS) if slots[i][1] is None else len(slots[i][1]) for i in free])
        for r in range(rounds):
            out, spans, pos = [], [], 0
            for i, (t, v) in enumerate(slots):
                v = TEXTS if v is None else v
                s = v[(r + (free.index(i) if i in free else 0)) % len(v)]
                spans.append((pos, pos + len(s), t))
                out.append(s)
                pos += len(s)
            yield "".join(out), spans, ns


def mark(I, st, ps, within=None):
    """notes which values are texts: the names of labels; everything else that is written is a number"""
    for p in ps:
        if p.kind == "f":
            p.text = is_label(I, st, p.a[1], within)
        elif p.kind == "j":
            mark(I, st, p.a[3], (p.a[1], p.a[2]))


def label_sets(t):
    return t.op in ("attr", "keys", "inv", "get") and any(y.op == "attr" and y.a[1] in ("states_by_label", "actions_by_label") for y in tm.subterms(t)) and (
        t.op == "get" and t.a[0].op == "inv" or t.op == "keys" and t.a[0].op == "attr" or t.op == "attr")


def is_label(I, st, t, within):
    if within is not None and t is within[0]:
        return label_sets(enumerated(I, st, within[1]))
    if t.op in ("get", "nth"):
        return label_sets(enumerated(I, st, base_of(t.a[0])))
    return False


def pattern(t):
    """the regular expression that a term denotes, or None"""
    if t.op == "ext" and t.a[0] == "re.compile" and t.a[1].op == "c":
        t = t.a[1]
    elif t.op == "ext" and t.a[0] == "re.compile":
        return None
    if t.op == "c" and isinstance(t.a[0], str):
        try:
            return re.compile(t.a[0])
        except re.error:
            return None
    return None


class Cut(Exception):
    """a pattern does not take a written word apart at the borders of its values"""


def pieces_of(w, spans, a, b, word):
    """the pieces of w between two positions of a representative word; None: in the middle of a value"""
    out = []
    for s, e, t in spans:
        if e <= a and not (s == e == a == b) or s >= b and not (s == e == a):
            continue
        lo, hi = max(a, s), min(b, e)
        full = lo == s and hi == e
        const = t[-1] == "sep" or const_at(w, t)
        if not full and not const:
            return None
        out.append((t, word[lo:hi] if const else None))
    return out


def at(w, t):
    ps, x, i = w.p, None, 0
    while i < len(t):
        x = ps[t[i]]
        i += 1
        if x.kind == "j" and i < len(t):
            if t[i] == "sep":
                return c(x.a[0])
            i += 1
            ps = x.a[3]
    return x


def const_at(w, t):
    return at(w, t).kind == "c"


def match_groups(w, rx, how):
    """groups of search/match/fullmatch as Words; raises Cut"""
    shape = None
    some = False
    for text, spans, ns in words(w, (1, 2, 3)):
        some = True
        m = getattr(rx, how)(text)
        if m is None:
            raise Cut("the pattern %s does not match the line %r" % (rx.pattern, text))
        cur = []
        for g in range(rx.groups + 1):
            a, b = m.span(g)
            if a < 0:
                cur.append(None)
                continue
            ps = pieces_of(w, spans, a, b, text)
            if ps is None:
                raise Cut("in the line %r group %d of the pattern %s is %r, which ends within a written value" % (text, g, rx.pattern, m.group(g)))
            cur.append(ps)
        # the repetition must be taken as a whole
        gs = []
        for g, ps in enumerate(cur):
            if ps is None:
                gs.append(None)
                continue
            o = []
            top = {}
            for t, k in ps:
                if len(t) == 1:
                    o.append((t[0], k))
                else:
                    top.setdefault(t[0], set()).add(t)
                    if not o or o[-1] != (t[0], "j"):
                        o.append((t[0], "j"))
            for i, ts in top.items():
                full = {t for s, e, t in spans if t[0] == i}
                if ts != full:
                    raise Cut("in the line %r group %d of the pattern %s is %r, which leaves out a part of the written values" % (text, g, rx.pattern, m.group(g)))
            gs.append(tuple(o))
        if shape is None:
            shape = gs
        elif shape != gs:
            raise Cut("group borders of the pattern %s depend on the written values, e.g. in the line %r" % (rx.pattern, text))
    if not some or shape is None:
        return None
    out = []
    for g in shape:
        out.append(None if g is None else Word([c(k) if isinstance(k, str) and k != "j" and w.p[i].kind == "c" else w.p[i] for i, k in g]))
    return out


def all_matches(w, rx):
    """(groups as Words over the single repetition of w, its piece); raises Cut"""
    js = [i for i, p in enumerate(w.p) if p.kind == "j"]
    if len(js) != 1:
        return None
    shape = None
    el = w.p[js[0]].a[3]
    for text, spans, ns in words(w):
        ms = list(rx.finditer(text))
        if len(ms) != ns[0]:
            raise Cut("the pattern %s finds %d of the %d entries of the line %r" % (rx.pattern, len(ms), ns[0], text))
        for k, m in enumerate(ms):
            gs = []
            for g in range(rx.groups + 1):
                a, b = m.span(g)
                ps = pieces_of(w, spans, a, b, text) if a >= 0 else []
                if ps is None:
                    raise Cut("in the line %r group %d of the pattern %s is %r, which ends within a written value" % (text, g, rx.pattern, m.group(g)))
                if g == 0:
                    gs.append(())
                    continue
                if any(t[:2] != (js[0], k) for t, _ in ps):
                    raise Cut("in the line %r group %d of the pattern %s is %r, which does not belong to entry %d" % (text, g, rx.pattern, m.group(g), k + 1))
                gs.append(tuple((t[2], x) for t, x in ps))
            # an empty value has no extent: take what the other words give
            norm = [tuple(x for x in g if el[x[0]].kind != "c" or x[1]) for g in gs]
            if shape is None:
                shape = norm
            elif shape != norm:
                raise Cut("group borders of the pattern %s depend on the written values, e.g. in the line %r" % (rx.pattern, text))
    if shape is None:
        return None
    return [Word([el[i] if el[i].kind != "c" else c(k) for i, k in g]) for g in shape], w.p[js[0]]


# ---------------------------------------------------------------- evaluation of the reader's terms
class Reader:
    def __init__(self, ctx, sources, J, st):
        self.ctx, self.sources, self.J, self.st = ctx, sources, J, st        # handle -> Source
        self.reg, self.ids = [], {}
        self.words = {}
        self.cuts = []

    def txt(self, o):
        self.reg.append(o)
        return mk("txt", len(self.reg) - 1)

    def o(self, t, *types):
        if t.op == "txt" and (not types or isinstance(self.reg[t.a[0]], types)):
            return self.reg[t.a[0]]
        return None

    def ev(self, t, m, cache=None):
        cache = {} if cache is None else cache
        r = cache.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif t in self.sources:
            r = self.ids.setdefault(t, None) or self.txt(Lines(self.sources[t], self.sources[t].consumed))
            self.ids[t] = r
        elif t.op in ("c", "sym", "unk", "it", "it2", "ref", "bv", "txt"):
            r = t
        else:
            r = self.step(tm.rebuild(t, lambda x: self.ev(x, m, cache)))
            if r in m:
                r = m[r]
        cache[t] = r
        return r

    def step(self, t):
        k = (t.op,) + t.a
        if k in self.ids:
            return self.ids[k]
        r = self.step1(t)
        if r is None:
            return t
        if r.op == "txt":
            self.ids[k] = r
        return r

    def step1(self, t):
        op = t.op
        if op == "m":
            name, b, args = t.a[0], t.a[1], t.a[2:]
            l = self.o(b, Lines)
            if l is not None and name in ("readlines", "__iter__") and not args:
                return b
            if l is not None and name == "read" and not args:
                return self.txt(("content", l))
            if l is not None and name in ("readline", "__next__") and not args:
                return l.src.header if l.src.consumed == 1 else None
            x = self.o(b, tuple)
            if x is not None and (name == "splitlines" and not args or name == "split" and args == (C("\n"),)):
                return self.txt(x[1])
            w = self.o(b, Word)
            if w is not None and name == "split" and (not args or args == (NONE,)):
                s = split(w)
                return self.txt(s) if s is not None else None
            if w is not None and name in ("strip", "rstrip") and (not args or args[0] is C("\n")):
                ps = list(w.p)
                if ended(ps):
                    ps[-1] = c(ps[-1].a[0][:-1])
                return self.txt(Word(ps))
            if name in ("search", "match", "fullmatch") and len(args) == 1:
                return self.match(pattern(b), name, args[0])
            if name in ("finditer", "findall") and len(args) == 1:
                return self.matches(pattern(b), args[0], name == "findall")
            mt = self.o(b, Match)
            if mt is not None and name == "group":
                xs = [self.group(mt, a) for a in args or (C(0),)]
                return None if None in xs else (xs[0] if len(xs) == 1 else tup(*xs))
            if mt is not None and name == "groups" and not args:
                xs = [self.group(mt, C(i)) for i in range(1, len(mt.groups))]
                return None if None in xs else tup(*xs)
            return None
        if op == "ext":
            n, args = t.a[0], t.a[1:]
            if n in ("re.search", "re.match", "re.fullmatch") and len(args) == 2:
                return self.match(pattern(args[0]), n[3:], args[1])
            if n in ("re.finditer", "re.findall") and len(args) == 2:
                return self.matches(pattern(args[0]), args[1], n == "re.findall")
            if n == "builtins.next" and len(args) == 1 and self.o(args[0], Lines):
                return self.o(args[0]).src.header if self.o(args[0]).src.consumed == 1 else None
            if n in ("builtins.round", "numpy.round", "numpy.around", "numpy.float32", "numpy.float16") and args and args[0].op not in ("txt", "field"):
                return mk("rounded", C(n), args[0])
            if n in ("builtins.list", "builtins.iter") and len(args) == 1 and self.o(args[0]):
                return args[0]
            return None
        if op in ("get", "item", "nth", "sub"):
            b, i = t.a[0], t.a[1] if hasattr(t.a[1], "op") else C(t.a[1])
            o = self.o(b)
            if b.op == "ref" and i.op == "c" and isinstance(i.a[0], int):
                return self.element(b, i.a[0])
            if isinstance(o, Split) and o.rep is None and i.op == "slice" and all(x is NONE or x.op == "c" for x in i.a):
                lo, hi = [None if x is NONE else x.a[0] for x in i.a[:2]]
                return self.txt(Split(o.fixed[lo:hi], None))
            if isinstance(o, Split) and o.rep is not None and i.op == "slice" and i.a[1].op == "c" and i.a[1] is not NONE and isinstance(i.a[1].a[0], int) and i.a[1].a[0] >= 0:
                self.cuts.append("only the first %d fields of a line are read, a line has any number of them" % i.a[1].a[0])
                return b
            if isinstance(o, Split) and i.op == "c" and isinstance(i.a[0], int):
                n = len(o.fixed)
                if -n <= i.a[0] < n and (o.rep is None or i.a[0] >= 0):
                    return o.fixed[i.a[0]]
            if isinstance(o, Lines):
                if i.op == "slice" and i.a[0].op == "c" and i.a[1] is NONE and (len(i.a) < 3 or i.a[2] is NONE) and isinstance(i.a[0].a[0], int) and i.a[0].a[0] >= 0:
                    return self.txt(Lines(o.src, o.lo + i.a[0].a[0]))
                if i.op == "c" and isinstance(i.a[0], int) and i.a[0] >= 0 and o.lo + i.a[0] == 0:
                    return o.src.header
            if isinstance(o, Match):
                return self.group(o, i)
            if isinstance(o, Split) and i.op == "slice" and o.rep is not None and i.a[0].op == "c" and i.a[1] is NONE and i.a[0].a[0] == len(o.fixed):
                return self.txt(Split([], o.rep))
            if isinstance(o, Matches) and i.op not in ("slice",):
                m = {o.atom: i}
                return self.txt(Match([sub_word(g, m) for g in o.groups]))
            return None
        if op == "list" and len(t.a) == 1 and t.a[0].op == "for" and len(t.a[0].a[0]) == 1 and t.a[0].a[1] is TRUE:
            o = self.o(t.a[0].a[0][0], Split)
            bvs = tm.own_bvs(t.a[0], True)
            if o is not None and len(bvs) == 1:
                one = lambda x: self.ev(tm.subst(t.a[0].a[2], {bvs[0]: x}), {})
                return self.txt(Split([one(x) for x in o.fixed], None if o.rep is None else (o.rep[0], o.rep[1], one(o.rep[2]))))
            return None
        if op == "map" and t.a[0].op == "extf" and t.a[0].a[0] in ("builtins.int", "builtins.float"):
            o = self.o(t.a[1], Split)
            if o is not None:
                one = lambda x: self.step(mk("conv", t.a[0].a[0][9:], x))
                return self.txt(Split([one(x) for x in o.fixed], None if o.rep is None else (o.rep[0], o.rep[1], one(o.rep[2]))))
            return None
        if op == "len":
            o = self.o(t.a[0])
            if isinstance(o, Split) and o.rep is None:
                return C(len(o.fixed))
            if isinstance(o, Matches):
                return mk("len", o.dom) if o.dom.op != "range" else tm.sub(o.dom.a[1], o.dom.a[0])
            return None
        if op == "truth" and isinstance(self.o(t.a[0]), Match):
            return TRUE
        if op == "eq" and any(x is NONE for x in t.a) and any(isinstance(self.o(x), (Match, Word)) for x in t.a if x.op == "txt"):
            return FALSE
        if op == "conv":
            x = t.a[1]
            w = self.o(x, Word)
            if w is not None:
                s = split(w)
                if s is not None and len(s.fixed) == 1 and s.rep is None:
                    x = s.fixed[0]
            if x.op == "glued":
                return x
            if x.op != "field":
                return None
            spec, v = x.a
            if t.a[0] == "int":
                return mk("intof", v)
            if spec == "d":
                return mk("intof", v)
            d = digits(spec)
            return v if d is True else (mk("rounded", C(spec), v) if d is False else None)
        return None

    def element(self, ref, i):
        """element i of a list that is filled from the fields of a line"""
        o = self.J.obj(self.st, ref)
        if o is None or o.kind not in ("list", "gen") or o.base is not None or len(o.log) != 1 or o.log[0].op != "append":
            return None
        e = o.log[0]
        b = e.binders[-1] if e.binders else None
        if b is None or len(b.atoms) != 1 or i < 0:
            return None
        dom = self.ev(b.dom, {})
        d = self.o(dom, Split)
        if d is not None and d.rep is None and i < len(d.fixed):
            return self.ev(e.val, {b.atoms[0]: d.fixed[i]})
        if dom.op == "range" and dom.a[0] is C(0) and dom.a[1].op == "c" and i < dom.a[1].a[0]:
            return self.ev(e.val, {b.atoms[0]: C(i)})
        return None

    def group(self, mt, i):
        if i.op == "c" and isinstance(i.a[0], int) and 0 <= i.a[0] < len(mt.groups) and mt.groups[i.a[0]] is not None:
            w = mt.groups[i.a[0]]
            f = field(w.p) if len(w.p) == 1 and w.p[0].kind == "f" else None
            return f if f is not None else self.txt(w)
        return None

    def match(self, rx, how, x):
        w = self.o(x, Word)
        if w is None or rx is None:
            return None
        try:
            gs = match_groups(w, rx, how)
        except Cut as e:
            self.cuts.append(str(e))
            return None
        return None if gs is None else self.txt(Match(gs))

    def matches(self, rx, x, plain):
        w = self.o(x, Word)
        if w is None or rx is None:
            return None
        try:
            r = all_matches(w, rx)
        except Cut as e:
            self.cuts.append(str(e))
            return None
        if r is None:
            return None
        gs, j = r
        return self.txt(Matches(gs[1:] if plain else gs, j.a[1], j.a[2]))

    # ------------------------------------------------------------ entries of a container for each kind of line
    def instances(self, e):
        """[(kind, key, val, guards, [(atom, dom)])] of a log entry; kind: None, "header" or the number of a row case"""
        out = [(None, {}, [])]
        for b in e.binders:
            nxt = []
            for kind, m, bs in out:
                dom = self.ev(b.dom, m)
                o = self.o(dom)
                n = b.atoms[0] if len(b.atoms) == 1 else None
                if n is None:
                    return None
                if isinstance(o, Lines):
                    for k, w in self.kinds(o):
                        m2 = dict(m)
                        m2[n] = w
                        m2[mk("in", n, b.dom)] = TRUE
                        m2[mk("in", w, dom)] = TRUE
                        nxt.append((k, m2, bs))
                elif dom.op == "range" and dom.a[0] is C(0) and dom.a[1].op == "len" and isinstance(self.o(dom.a[1].a[0]), Lines):
                    lt_ = dom.a[1].a[0]
                    for k, w in self.kinds(self.o(lt_)):
                        m2 = dict(m)
                        # the line number itself: 0 for the header, positive otherwise
                        num = C(0) if k == "header" else (n if self.o(lt_).lo else tm.add(sym("number of a row", "nat"), C(1)))
                        for f in (get, lambda x, y: mk("nth", x, y), lambda x, y: mk("item", x, y)):
                            m2[f(lt_, n)] = w
                            m2[f(lt_, num)] = w
                        m2[n] = num
                        m2["lines"] = lt_
                        nxt.append((k, m2, bs))
                elif isinstance(o, Split) and not o.fixed and o.rep is not None:
                    m2 = dict(m)
                    f = o.rep[2]
                    m2[n] = f
                    m2[mk("in", n, b.dom)] = TRUE
                    m2[mk("in", f, dom)] = TRUE
                    nxt.append((kind, m2, bs + [(o.rep[0], o.rep[1])]))
                elif dom.op == "range" and dom.a[0] is C(0) and dom.a[1].op == "len" and isinstance(self.o(dom.a[1].a[0]), Split) and \
                        not self.o(dom.a[1].a[0]).fixed and self.o(dom.a[1].a[0]).rep is not None:
                    r = self.o(dom.a[1].a[0]).rep
                    m2 = dict(m)
                    for f in (get, lambda x, y: mk("nth", x, y)):
                        m2[f(dom.a[1].a[0], n)] = r[2]
                    nxt.append((kind, m2, bs + [(r[0], r[1])]))
                elif isinstance(o, Split) and o.rep is None:
                    for f in o.fixed:
                        m2 = dict(m)
                        m2[n] = f
                        m2[mk("in", n, b.dom)] = TRUE
                        m2[mk("in", f, dom)] = TRUE
                        nxt.append((kind, m2, bs))
                elif isinstance(o, Matches):
                    m2 = dict(m)
                    m2[n] = self.txt(Match(o.groups))
                    nxt.append((kind, m2, bs + [(o.atom, o.dom)]))
                elif dom.op == "range" and dom.a[0] is C(0) and b.dom.a[1].op == "len" and isinstance(self.o(self.ev(b.dom.a[1].a[0], m)), Matches):
                    o = self.o(self.ev(b.dom.a[1].a[0], m))
                    nm = tm.add(n, o.dom.a[0]) if o.dom.op == "range" else mk("nth", o.dom, n)
                    m2 = dict(m)
                    m2[n] = o.atom if o.dom.op == "range" and o.dom.a[0] is C(0) else nm
                    if o.dom.op != "range":
                        src = self.ev(b.dom.a[1].a[0], m)
                        for f in (get, lambda x, y: mk("nth", x, y)):
                            m2[f(src, n)] = self.txt(Match(o.groups))
                    nxt.append((kind, m2, bs + [(o.atom, o.dom)]))
                elif dom.op == "range" and isinstance(dom.a[0].a[0], int) and dom.a[0].op == "c" and dom.a[1].op == "c":
                    for i in range(dom.a[0].a[0], dom.a[1].a[0]):
                        m2 = dict(m)
                        m2[n] = C(i)
                        nxt.append((kind, m2, bs))
                else:
                    return None
            out = nxt
        res = []
        for kind, m, bs in out:
            m = {k: v for k, v in m.items() if k != "lines"}
            cache = {}
            gs = []
            own = {f for b in e.binders if b.dom.op == "range" and len(b.atoms) == 1 for f in (le(b.dom.a[0], b.atoms[0]), lt(b.atoms[0], b.dom.a[1]))}
            for g in e.guard:
                if g in own:
                    continue
                x = self.ev(g, m, cache)
                num = sym("number of a row", "nat")
                if num in tm.atoms(x):
                    x = tm.subst(tm.assume(x, le(C(0), num), lt(C(0), tm.add(num, C(1)))), {eq(tm.add(num, C(1)), C(0)): FALSE, eq(num, C(-1)): FALSE})
                if x is TRUE:
                    continue
                if any(y.op == "len" and isinstance(self.o(y.a[0]), (Lines, Matches, Split)) for y in tm.subterms(x)) or range_of(x, bs):
                    continue
                if x.op == "in" and x.a[1].op == "txt":
                    continue
                gs.append(x)
            res.append((kind, self.ev(e.key, m, cache) if e.key is not None else None, self.ev(e.val, m, cache) if e.val is not None else None, band(*gs), bs))
        return res

    def kinds(self, l):
        return ([("header", l.src.header)] if l.lo == 0 else []) + ([(i, w) for i, w in enumerate(l.src.row_words)] if l.lo <= 1 else [])


def range_of(x, bs):
    """x only bounds a position in a repetition of the written text"""
    if x.op in ("le", "lt", "le0", "lt0") or x.op not in ("eq", "not", "and", "or", "in", "truth", "c"):
        ats = {a for a in tm.atoms(x) if a.op == "it"}
        return bool(ats) and ats <= {a for a, d in bs}
    return False


def sub_word(w, m):
    if w is None:
        return None
    return Word([sub_piece(p, m) if p.kind == "f" else p for p in w.p])


def digits(spec):
    """True: a double is read back exactly; False: not"""
    if spec in ("s", ""):
        return True
    m = re.fullmatch(r"[-+ #0]*\d*(?:\.(\d+))?([a-zA-Z])", spec)
    if not m:
        return None
    n = int(m.group(1)) if m.group(1) else 6
    k = m.group(2)
    if k in "gG":
        return n >= 17
    if k in "eE":
        return n >= 16
    if k in "fFd%":
        return False
    return None


# ---------------------------------------------------------------- the model's entries
def norm(t, cname):
    """the identities of a model that the files rely on"""
    def f(x):
        x = tm.rebuild(x, f) if x.op not in ("c", "sym", "unk", "it", "it2", "ref", "bv", "txt") else x
        if x.op == "intof" and not is_prob(x.a[0]):
            return x.a[0]
        if cname == "DTMC":
            # row i of a chain belongs to the only action of state i
            if x.op == "item" and x.a[0].op == "get" and is_inv(x.a[0].a[0]):
                return x.a[0].a[1] if x.a[1] == 0 else C(0)
        return x
    return f(t)


def is_inv(x):
    return x.op == "inv" and x.a[0].op == "attr" and x.a[0].a[0] is ME and x.a[0].a[1] == "index_by_state_action"


def is_prob(x):
    return x.op == "get" and x.a[0].op == "attr" and x.a[0].a[1] == "P"


def strip_list(t):
    """the collection that a list enumerates"""
    while True:
        if t.op == "list" and len(t.a) == 1 and t.a[0].op == "for" and len(t.a[0].a[0]) == 1 and t.a[0].a[1] is TRUE and t.a[0].a[2].op == "bv":
            t = t.a[0].a[0][0]
        elif t.op == "ext" and t.a[0] in ("builtins.sorted", "builtins.list", "builtins.tuple") and len(t.a) >= 2:
            t = t.a[1]
        elif t.op in ("sortedlist", "elements") and t.a:
            t = t.a[0]
        else:
            return t


def P_():
    return mk("attr", ME, "P")


def write_side(ctx, cname):
    """interprets save; (tra File, lab File, I, st) or None"""
    repo = ctx.repo
    f = repo.func(cname + ".save")
    I = interp(repo, module=f.module.name)
    I.keep_d = True
    I.intercept["builtins.sorted"] = lambda I, st, a, k, node, fn: mk("sortedlist", I.freeze(st, a[0])) if len(a) == 1 and not k else NotImplemented
    st = I.new_state()
    v = I.call_func(st, f, [ME, PATH], {}, None)
    ctx.used(I)
    fs = written(I)
    file, line = where(repo, f)
    con = cname + ".save"
    if v.op != "tuple" or len(v.a) != 2:
        ctx.undecided(R1, con + " returns the two paths", tm.show(v)[:200])
        return None
    v = tm.subst(v, {mk("str", PATH): PATH})
    by = {}
    for h, x in fs.items():
        x.path = tm.subst(x.path, {mk("str", PATH): PATH})
        by.setdefault(x.path, []).append(x)
    for i, suffix in enumerate((".tra", ".lab")):
        want = tm.concat([PATH, C(suffix)])
        ctx.decide(R1, "%s: %s file" % (con, suffix[1:]), (v.a[i] is want and len(by.get(want, [])) == 1) or (None if not resolved(v.a[i], refs=()) else False),
                   "returned is %s, written are %s" % (tm.show(v.a[i]), [tm.show(p) for p in by]), file, line)
    tra, lab = by.get(v.a[0]), by.get(v.a[1])
    if not tra or not lab:
        return None
    return tra[0], lab[0], I, st, f


def header_row(ctx, con, x, f, I):
    """(header Line, [row Lines]) of a file"""
    file, line = where(ctx.repo, f)
    ls = x.lines
    if any(p.kind == "u" for l in ls for p in l.pieces) or not ls:
        ctx.undecided(R1, con, "text not understood: %s" % [l.pieces for l in ls][:3])
        return None
    for l in ls:
        if not ended(l.pieces):
            ctx.decide(R1, con + " lines end", False if len(ls) > 1 else None, "a line is written without its end: %s" % l.pieces, l.e.file, l.e.line)
            return None
    head, rows = ls[0], ls[1:]
    if head.binders or [g for g in head.guard]:
        ctx.decide(R1, con + " header", None if not head.binders else False, "the first line is written under conditions or in a loop", head.e.file, head.e.line)
        return None
    ctx.ok(R1, con + " header", "one first line")
    for l in ls:
        st = I.new_state()
        st.heap = dict(l.e.heap)
        mark(I, st, l.pieces)
    return head, rows


def size_of(dom):
    """an upper bound of the number of elements, or None"""
    d = dom
    if d.op == "range" and d.a[0] is C(0) and d.a[1].op == "len":
        d = d.a[1].a[0]
    d = strip_list(d) if d.op != "sub" else d
    if d.op == "sub" and d.a[1].op == "slice" and d.a[1].a[0] in (NONE, C(0)) and d.a[1].a[1].op == "c" and isinstance(d.a[1].a[1].a[0], int) and d.a[1].a[1].a[0] >= 0:
        return d.a[1].a[1].a[0]
    return None


def base_of(dom):
    """the collection whose elements (or the first of them) a repetition runs over; with the position map"""
    d = dom
    if d.op == "range" and d.a[0] is C(0) and d.a[1].op == "len":
        d = d.a[1].a[0]
    while True:
        e = strip_list(d)
        if e.op == "sub" and e.a[1].op == "slice" and e.a[1].a[0] in (NONE, C(0)):
            e = e.a[0]
        if e is d:
            return d
        d = e


def condition(gs, binders):
    """what a line's conditions require beyond being reached"""
    own = {a for b in binders for a in b.atoms}
    rest = []
    for g in gs:
        if g.op == "in" and g.a[0] in own:
            continue
        rest.append(g)
    return band(*rest)


def rows_tra(ctx, con, cname, rows, f):
    """checks the lines of transitions; [(label element or None, Word, facts)]"""
    out = []
    if not rows:
        ctx.violation(R1, con + " transitions", "no transition is written", *where(ctx.repo, f))
        return None
    covered = []
    key = None
    for l in rows:
        if len(l.binders) != 1 or len(l.binders[0].atoms) != 1:
            ctx.undecided(R1, con + " transitions", "a line of %d loops" % len(l.binders))
            return None
        b = l.binders[0]
        if b.has_break:
            ctx.violation(R1, con + " transitions", "the loop over the transitions is left early", l.e.file, l.e.line)
            return None
        if b.dom is not mk("keys", P_()):
            ctx.undecided(R1, con + " transitions", "the loop runs over %s" % tm.show(b.dom))
            return None
        k = b.atoms[0]
        key = sym("transition", "any")
        m = {k: key}
        g = tm.subst(condition(l.guard, l.binders), m)
        pos = lt(C(0), get(P_(), key))
        g = tm.assume(g, pos)
        covered.append(g)
        ps = [sub_piece(p, m) for p in l.pieces]
        js = [p for p in ps if p.kind == "j"]
        if len(js) > 1:
            ctx.undecided(R1, con + " transitions", "several repetitions in a line")
            return None
        if js:
            n = size_of(js[0].a[2])
            for cnt in (0, 1) + ((2,) if n is None or n > 1 else ()):
                q = []
                for p in ps:
                    if p is js[0]:
                        for i in range(cnt):
                            if i and p.a[0]:
                                q.append(c(p.a[0]))
                            e = sym("label %d" % (i + 1), "str")
                            q += [relabel(x, p.a[1], p.a[2], e) for x in p.a[3]]
                    else:
                        q.append(p)
                out.append((cnt, Word(q), g, js[0], l))
        else:
            out.append((None, Word(ps), g, None, l))
    total = bor(*covered)
    file, line = rows[0].e.file, rows[0].e.line
    if total is TRUE or tm.bool_equiv(total, TRUE):
        ctx.ok(R1, con + " transitions", "every transition with positive probability is written")
    elif resolved(total):
        ctx.violation(R1, con + " transitions", "a transition with positive probability is written only if %s" % tm.show(total)[:300], file, line)
    else:
        ctx.undecided(R1, con + " transitions", tm.show(total)[:200])
    return out, key


def sub_piece(p, m):
    if p.kind == "f":
        q = Piece("f", p.a[0], tm.subst(p.a[1], m))
        q.text = p.text
        return q
    if p.kind == "j":
        return Piece("j", p.a[0], p.a[1], tm.subst(p.a[2], m), [sub_piece(x, m) for x in p.a[3]])
    return p


def relabel(p, atom, dom, e):
    """the element of a repetition as the symbol e"""
    if p.kind != "f":
        return p
    t = p.a[1]
    if t is atom or t.op in ("get", "nth") and t.a[1] is atom:
        return Piece("f", p.a[0], e)
    return Piece("f", p.a[0], tm.subst(t, {atom: e}))


def actions_of(key):
    sa = get(mk("inv", mk("attr", ME, "index_by_state_action")), item(key, 0))
    return sa


def check(ctx, cname):
    repo = ctx.repo
    w = write_side(ctx, cname)
    if w is None:
        return
    tra, lab, I, st, f = w
    con = cname + ".save"
    hr, hl = header_row(ctx, con + " (transitions)", tra, f, I), header_row(ctx, con + " (labels)", lab, f, I)
    if hr is None or hl is None:
        return
    rt = rows_tra(ctx, con, cname, hr[1], f)
    lt_ = rows_lab(ctx, con, hl[1], f, I)
    if rt is None or lt_ is None:
        return
    cases, key = rt
    # reading
    ff = repo.func("AbstractMDP.from_file")
    ci = repo.cls(cname)
    rec = Rec(repo).on(repo.find_method(ci, "__init__"), lambda I, st, env, fn: NONE)
    J = interp(repo, module=ff.module.name, intercept=rec.ics)
    for n in ("int", "float"):
        J.intercept["builtins." + n] = (lambda n: lambda I, st, a, k, node, fn: mk("conv", n, a[0]) if len(a) == 1 and a[0].op != "c" else NotImplemented)(n)
    J.model_ctor_opaque = False
    J.ids = itertools.count(1000000)        # apart from the writer's objects
    s2 = J.new_state()
    LAB, TRA = sym("label_file_path", "str"), sym("tra_file_path", "str")
    J.call_func(s2, ff, [mk("class", ci.qual), LAB, TRA], {}, None)
    ctx.used(J)
    calls = [x for x in rec.seen]
    rcon = cname + ".from_file"
    file, line = where(repo, ff)
    if len(calls) != 1:
        ctx.undecided(R2, rcon, "%d models are constructed" % len(calls))
        return
    env = calls[0][1]
    src = {}
    for e in J.events:
        if e.kind == "ext" and e.name in ("builtins.open", "io.open"):
            src.setdefault(e.args[0], set()).add(e.result)
    other = {LAB: "labels", TRA: "transitions"}
    sources = {}
    consumed = {}
    for e in J.events:
        if (e.kind == "mcall" and e.name in ("readline", "__next__")) and not e.binders:
            consumed[e.args[0]] = consumed.get(e.args[0], 0) + 1
        if e.kind == "ext" and e.name == "builtins.next" and e.args and not e.binders:
            consumed[e.args[0]] = consumed.get(e.args[0], 0) + 1
    Rd = Reader(ctx, sources, J, s2)
    for p, hs in src.items():
        for h in hs:
            if p is TRA:
                s = Source(None, None, "transitions")
                s.header = Rd.txt(Word(hr[0].pieces))
                s.row_words = [Rd.txt(x[1]) for x in cases]
            elif p is LAB:
                s = Source(None, None, "labels")
                s.header = Rd.txt(Word(hl[0].pieces))
                s.row_words = [Rd.txt(Word(lt_[0]))]
            else:
                ctx.undecided(R2, rcon, "reads %s" % tm.show(p))
                continue
            s.consumed = consumed.get(h, 0)
            s.path = p
            sources[h] = s
    for s in sources.values():
        if s.consumed > 1:
            ctx.violation(R2, "%s (%s)" % (rcon, s.name), "%d lines are skipped, one was written before the entries" % s.consumed, file, line)
            return
    if {s.name for s in sources.values()} != {"labels", "transitions"}:
        ctx.undecided(R2, rcon, "files opened: %s" % [tm.show(p) for p in src])
        return
    ctx.part(rcon + " transitions", read_tra, ctx, cname, J, s2, env, Rd, cases, key, ff)
    ctx.part(rcon + " labels", read_lab, ctx, cname, J, s2, env, Rd, lt_, hl[0], ff, I, st)
    for x in sorted(set(Rd.cuts)):
        pf = repo.maybe("switss.prism.prism.parse_label_file") or ff
        fl, ln = where(repo, pf)
        ctx.violation(R3, rcon + " patterns", x, fl, ln)
    if not Rd.cuts:
        ctx.ok(R3, rcon + " patterns", "the written words are taken apart at the borders of the values")


def rows_lab(ctx, con, rows, f, I):
    """(pieces over the state symbol, state, fact)"""
    if len(rows) != 1:
        ctx.decide(R1, con + " labelled states", False if not rows else None, "%d kinds of lines are written" % len(rows), *where(ctx.repo, f))
        return None
    l = rows[0]
    ats = [a for b in l.binders for a in b.atoms]
    if len(l.binders) != 1 or len(ats) != 1:
        ctx.undecided(R1, con + " labelled states", "a line of %d loops" % len(l.binders))
        return None
    if l.binders[0].has_break:
        ctx.violation(R1, con + " labelled states", "the loop over the states is left early", l.e.file, l.e.line)
        return None
    dom = l.binders[0].dom
    lbs = mk("inv", mk("attr", ME, "states_by_label"))
    lb2 = mk("attr", ME, "labels_by_state")
    s = sym("state", "int")
    m = {ats[0]: s}
    ok = dom in (mk("keys", lbs), mk("keys", lb2)) or dom is mk("range", C(0), mk("attr", ME, "N"))
    if not ok and dom.op == "range" and resolved(dom) and any(y is mk("attr", ME, "N") for y in tm.subterms(dom)):
        ctx.violation(R1, con + " labelled states", "the lines run over %s" % tm.show(dom), l.e.file, l.e.line)
        return None
    if not ok and dom.op == "keys" and dom.a[0].op == "attr" and dom.a[0].a[1] == "states_by_label":
        ctx.violation(R1, con + " labelled states", "the lines run over %s" % tm.show(dom), l.e.file, l.e.line)
        return None
    if not ok:
        ctx.undecided(R1, con + " labelled states", "the lines run over %s" % tm.show(dom))
        return None
    g = condition([x for x in l.guard if not (dom.op == "range" and is_bound(x, ats[0]) and ats[0] in tm.atoms(x))], l.binders)
    g = tm.subst(g, m)
    own = get(lbs, s)
    some = (lt(C(0), mk("len", own)), bnot(eq(mk("len", own), C(0))), truth(own), mk("nonempty", own))
    g = tm.subst(tm.assume(g, *some), {mk("len", own): tm.add(sym("more", "nat"), C(1)), eq(mk("len", own), C(0)): FALSE})
    if g is TRUE:
        ctx.ok(R1, con + " labelled states", "every state with labels is written")
    elif resolved(g):
        ctx.violation(R1, con + " labelled states", "a labelled state is written only if %s" % tm.show(g)[:300], l.e.file, l.e.line)
    else:
        ctx.undecided(R1, con + " labelled states", tm.show(g)[:200])
    return [sub_piece(p, m) for p in l.pieces], s, l


def show(t):
    return tm.show(t)[:250]


def entry(ctx, rule, con, got, want, cname, file, line, extra=()):
    g, w = norm(got, cname), norm(want, cname)
    if g is w:
        ctx.ok(rule, con, show(w))
        return True
    if any(x.op == "glued" for x in tm.subterms(g)):
        x = next(x for x in tm.subterms(g) if x.op == "glued")
        ctx.violation(rule, con, "the fields %s of a line are not separated" % [show(y) for y in x.a], file, line)
        return False
    if any(x.op == "field" for x in tm.subterms(g)) and resolved(g, extra=("field", "txt", "ref", "sub") + extra):
        x = next(x for x in tm.subterms(g) if x.op == "field")
        ctx.violation(rule, con, "the text of %s is stored instead of %s" % (show(x.a[1]), show(w)), file, line)
        return False
    if resolved(g, extra=extra) and not any(x.op in ("txt", "field") for x in tm.subterms(g)):
        ctx.violation(rule, con, "%s is stored, written was %s" % (show(g), show(w)), file, line)
        return False
    ctx.undecided(rule, con, show(g))
    return None


def read_tra(ctx, cname, J, st, env, Rd, cases, key, ff):
    rcon = cname + ".from_file"
    sa = actions_of(key)
    S, A, D, PR = item(sa, 0), item(sa, 1), item(key, 1), get(P_(), key)
    ld = ctx.repo.find_method(ctx.repo.cls(cname), "_load_transition_matrix") or ff
    file, line = where(ctx.repo, ld)
    P = env.get("P")
    o = J.obj(st, P) if P is not None else None
    if o is None or o.kind != "arr" or o.base is None:
        ctx.undecided(R2, rcon + " transitions", "matrix not followed")
        return
    # size
    base = o.base
    m = {}
    for h, s in Rd.sources.items():
        if s.name == "transitions":
            m.update({x: s.header for x in tm.subterms(base) if x.op in ("get", "nth") and Rd.o(Rd.ev(x.a[0], {}), Lines) is not None and x.a[1].op not in ("c", "slice")})
            m.update({x: s.header for x in tm.subterms(base) if x.op == "it"})
    shp = base.a[1] if base.op == "resize" else (base.a[0] if base.op == "zeros" else None)
    if shp is None:
        ctx.undecided(R2, rcon + " size", tm.show(base)[:200])
    else:
        N = mk("attr", ME, "N")
        want = tup(N, N) if cname == "DTMC" else tup(mk("attr", ME, "C"), N)
        got = Rd.ev(shp, m)
        if cname == "DTMC":
            got = tm.subst(got, {mk("attr", ME, "C"): N})
        entry(ctx, R2, rcon + " size", got, want, cname, file, line)
    idx = env.get("index_by_state_action")
    lta = env.get("label_to_actions")
    if cname == "MDP":
        io = J.obj(st, idx) if idx is not None else None
        if io is None or io.base is not None:
            ctx.undecided(R2, rcon + " rows", "index map not followed")
            io = None
    stored = []
    for e in o.log:
        r = Rd.instances(e)
        if r is None or e.op not in ("set",):
            ctx.decide(R2, rcon + " transitions", None, "operation %s on the matrix" % e.op)
            return
        stored += [(x, e) for x in r]
    heads = [(x, e) for x, e in stored if x[0] == "header" and x[3] is not FALSE]
    for x, e in heads:
        ctx.decide(R2, rcon + " header", False if x[3] is TRUE else None, "the first line is stored as a transition", e.where[0], e.where[1])
    if not heads:
        ctx.ok(R2, rcon + " header", "not stored as a transition")
    for i, (cnt, w, g, j, l) in enumerate(cases):
        con = "%s transition%s" % (rcon, "" if cnt is None else " with %d labels in its line" % cnt)
        xs = [(x, e) for x, e in stored if x[0] == i and x[3] is not FALSE]
        if not xs:
            ctx.violation(R2, con, "it is not stored", file, line)
            continue
        if len(xs) > 1 or xs[0][0][3] is not TRUE:
            q = xs[0][0][3]
            ctx.decide(R2, con, False if len(xs) == 1 and resolved(q, extra=("txt",)) and not any(y.op == "txt" for y in tm.subterms(q)) and
                       not any(y.op == "ref" for y in tm.subterms(q)) else None, "it is stored only if %s" % show(q), xs[0][1].where[0], xs[0][1].where[1])
            continue
        (k, kt, vt, q, bs), e = xs[0]
        fl, ln = e.where
        entry(ctx, R2, con + ": probability", vt, PR, cname, fl, ln)
        entry(ctx, R2, con + ": target", item(kt, 1), D, cname, fl, ln)
        if cname == "DTMC":
            entry(ctx, R2, con + ": source", item(kt, 0), S, cname, fl, ln)
        elif io is not None:
            ctx.part(con + ": row", row_of, ctx, con, J, io, idx, Rd, i, item(kt, 0), tup(S, A), cname, fl, ln)
    if cname == "MDP":
        ctx.part(rcon + " action labels", action_labels, ctx, rcon, J, st, lta, Rd, cases, tup(S, A), actions_of(key), cname, file, line)


def row_of(ctx, con, J, io, idx, Rd, i, got, SA, cname, fl, ln):
    ms = []
    for e in io.log:
        r = Rd.instances(e)
        if r is None or e.op != "set":
            ctx.undecided(R2, con + ": row", "operation %s on the index map" % e.op)
            return
        ms += [(x, e) for x in r if x[0] == i and x[3] is not FALSE]
    if not ms:
        ctx.violation(R2, con + ": row", "its state and action get no row", fl, ln)
        return
    (k, kt, vt, g, bs), e = ms[0]
    if len(ms) > 1:
        ctx.undecided(R2, con + ": row", "%d assignments" % len(ms))
        return
    ok = entry(ctx, R2, con + ": state and action", kt, SA, cname, e.where[0], e.where[1])
    if ok is not True:
        return
    new = bnot(mk("in", kt, mk("keys", idx)))
    cond = norm(g, cname)
    fresh = norm(new, cname)
    if cond is TRUE and vt.op == "get" and vt.a[0].op == "num":
        use = norm(got, cname)
        ctx.decide(R2, con + ": row", True if use in (norm(get(idx, kt), cname), norm(vt, cname)) else None, "states and actions are numbered as they come", fl, ln)
        return
    if cond is not fresh:
        ctx.decide(R2, con + ": row", False if cond is TRUE or cond is bnot(fresh) else None, "a row is assigned if %s" % show(cond), e.where[0], e.where[1])
        return
    use = norm(got, cname)
    val = norm(vt, cname)
    at_ = norm(get(idx, kt), cname)
    if use not in (at_, ite(bnot(fresh), at_, val), ite(fresh, val, at_)):
        ctx.decide(R2, con + ": row", False if resolved(use, extra=("ref",)) and not any(y.op in ("txt", "field") for y in tm.subterms(use)) else None,
                   "the probability is stored in row %s" % show(use), fl, ln)
        return
    # numbers are given in order
    if val is mk("len", idx) or val is mk("len", mk("keys", idx)):
        ctx.ok(R2, con + ": row", "the number of rows so far")
        return
    rms = [x for x in tm.subterms(e.val) if x.op == "rankmap"]
    if len(rms) == 1 and e.val.op == "get" and e.val.a[0] is rms[0]:
        init, g0, d, b = J.ranks[rms[0]]
        raw = bnot(mk("in", e.key, mk("keys", idx)))
        parts = [x for x in (g0.a if g0.op == "and" else (g0,) if not isinstance(g0, tuple) else g0)]
        parts = [x for x in parts if x is not TRUE and not (x.op == "in" and x.a[0] in b.atoms)]
        same = band(*parts) is raw
        ctx.decide(R2, con + ": row", True if same and init is C(0) and d is C(1) else (False if init.op == "c" and d.op == "c" else None),
                   "row numbers start at %s and advance by %s if %s" % (show(init), show(d), show(band(*parts))), e.where[0], e.where[1])
        return
    if e.val.op == "poly" and len(rms) == 1:
        init, g0, d, b = J.ranks[rms[0]]
        ctx.decide(R2, con + ": row", False if init.op == "c" and d.op == "c" else None, "row numbers start at %s and advance by %s" % (show(init), show(d)), e.where[0], e.where[1])
        return
    ctx.decide(R2, con + ": row", False if val.op == "c" else None, "row number %s" % show(val), e.where[0], e.where[1])


def action_labels(ctx, rcon, J, st, lta, Rd, cases, SA, sa, cname, file, line):
    lo = J.obj(st, lta) if lta is not None else None
    if lo is None or lo.base is not None:
        ctx.undecided(R2, rcon + " action labels", "not followed")
        return
    labels = get(mk("inv", mk("attr", ME, "actions_by_label")), sa)
    labelled = [x for x in cases if x[0] is not None]
    if not labelled:
        # both alternatives of a conditional text
        withl = [x for x in cases if any(p.kind == "f" and p.text for p in x[1].p)]
        if not withl:
            ctx.violation(R1, cname + ".save action labels", "no action label is written", file, line)
        else:
            ctx.undecided(R1, cname + ".save action labels", "conditional text")
        return
    j = labelled[0][3]
    l = labelled[0][4]
    b = base_of(j.a[2])
    ok = b in (labels, get(mk("attr", ME, "labels_by_action"), sa)) or norm(b, cname) is norm(labels, cname)
    n = size_of(j.a[2])
    ctx.decide(R1, cname + ".save action labels", (True if n is None or n >= 1 else False) if ok else (False if resolved(b) else None),
               "the line of a transition names %s of %s" % ("all" if n is None else "at most %d" % n, show(b)), l.e.file, l.e.line)
    ent = []
    for e in lo.log:
        r = Rd.instances(e)
        if r is None or e.op not in ("add2", "set"):
            ctx.undecided(R2, rcon + " action labels", "operation %s" % e.op)
            return
        ent += [(x, e) for x in r if x[3] is not FALSE]
    for i, (cnt, w, g, jj, ln) in enumerate(cases):
        if cnt is None:
            continue
        xs = [(x, e) for x, e in ent if x[0] == i]
        con = "%s action labels, %d in a line" % (rcon, cnt)
        if cnt == 0:
            bad = [(x, e) for x, e in xs if x[3] is TRUE]
            ctx.decide(R2, con, False if bad else (None if xs else True), "a label is stored for a transition without labels" if bad else "", *(bad[0][1].where if bad else (file, line)))
            continue
        got = {}
        for x, e in xs:
            if x[3] is TRUE and e.op == "add2":
                kx = x[1]
                if kx.op == "field" and kx.a[0] == "s":
                    kx = kx.a[1]
                got[kx] = (x, e)
        for c_ in range(cnt):
            lab = sym("label %d" % (c_ + 1), "str")
            if lab in got:
                x, e = got[lab]
                entry(ctx, R2, con + (": label %d" % (c_ + 1)), x[2], SA, cname, e.where[0], e.where[1])
            else:
                unclear = [x for x, e in xs if x[3] is not TRUE] or any(e.op != "add2" for x, e in xs)
                ctx.decide(R2, con + (": label %d" % (c_ + 1)), None if unclear else False, "the label is not stored (stored are %s)" % [show(k) for k in got], file, line)
    hs = [x for x, e in ent if x[0] == "header" and x[3] is TRUE]
    ctx.decide(R2, rcon + " action labels, header", not hs, "a field of the first line is stored as a label", file, line)


# ---------------------------------------------------------------- labels of states
def id_of(I, st, t, n_of, lab):
    """the number that a term gives to label lab, which stands at position n of the header"""
    def f(x):
        if x.op in ("c", "sym", "unk", "it", "it2", "bv", "txt"):
            return x
        if x.op == "ref":
            return x
        y = tm.rebuild(x, f)
        if y.op == "m" and y.a[0] == "index" and len(y.a) == 3 or y.op == "indexof":
            u, l = y.a[-2], y.a[-1]
            if l.op in ("get", "nth") and same_list(I, st, l.a[0], u):
                return l.a[1]
        if y.op == "get" and y.a[0].op == "ref":
            o = I.obj(st, y.a[0])
            if o is not None and o.kind in ("dict", "bidict") and o.base is None and len(o.log) == 1 and o.log[0].op == "set":
                e = o.log[0]
                if len(e.binders) == 1 and len(e.binders[0].atoms) == 1:
                    a = e.binders[0].atoms[0]
                    l = y.a[1]
                    if e.key.op in ("get", "nth") and e.key.a[1] is a and l.op in ("get", "nth") and same_list(I, st, l.a[0], e.key.a[0]):
                        return f(tm.subst(e.val, {a: l.a[1]}))
                    if e.key is a:
                        return f(tm.subst(e.val, {a: l}))
        return y
    return f(t)


def enumerated(I, st, u):
    if u.op == "ref":
        try:
            u = I.freeze(st, u)
        except Exception:
            pass
    return strip_list(u)


def same_list(I, st, a, b):
    if a is b:
        return True
    x, y = [I.freeze(st, t) if t.op == "ref" else t for t in (a, b)]
    if x is y:
        return True
    # an enumeration of the keys of one mapping is always in the same order, sorted or not
    sx, sy = [any(t.op == "sortedlist" for t in tm.subterms(z)) for z in (x, y)]
    return sx == sy and strip_list(x) is strip_list(y)


def read_lab(ctx, cname, J, st, env, Rd, lt_, head, ff, I, ist):
    rcon = cname + ".from_file"
    pieces, S, l = lt_
    pf = ctx.repo.maybe("switss.prism.prism.parse_label_file") or ff
    file, line = where(ctx.repo, pf)
    lts = env.get("label_to_states")
    o = J.obj(st, lts) if lts is not None else None
    if lts is not None and (lts.op == "empty" or lts is NONE):
        ctx.violation(R2, rcon + " labels", "the labels are not handed to the model", *where(ctx.repo, ff))
        return
    if o is None or o.base is not None:
        ctx.undecided(R2, rcon + " labels", "label map not followed: %s" % (tm.show(lts)[:100] if lts is not None else None))
        return
    # the writer: number and label of an entry of the header
    hj = [p for p in head.pieces if p.kind == "j"]
    if len(hj) != 1:
        ctx.undecided(R1, cname + ".save label header", "%d repetitions" % len(hj))
        return
    sep, atom, dom, el = hj[0].a
    fs = [p for p in el if p.kind == "f"]
    names = [p for p in fs if p.text]
    nums = [p for p in fs if p not in names]
    if len(names) != 1 or len(nums) != 1:
        ctx.undecided(R1, cname + ".save label header", "values %s" % [show(p.a[1]) for p in fs])
        return
    lab, num = names[0].a[1], nums[0].a[1]
    base = enumerated(I, ist, lab.a[0]) if lab.op in ("get", "nth") and lab.a[1] is atom else (dom if lab is atom else None)
    sbl = mk("attr", ME, "states_by_label")
    full = base is mk("keys", sbl) or base is sbl
    if dom.op == "range" and full:
        want = mk("len", mk("keys", sbl))
        lo, hi = dom.a
        full = lo is C(0) and (hi in (want, mk("len", sbl)) or hi.op == "len" and enumerated(I, ist, hi.a[0]) in (mk("keys", sbl), sbl))
        if not full and not resolved(dom, extra=("ref", "len")):
            full = None
    elif base is None:
        full = None
    ctx.decide(R1, cname + ".save label header", full if full is not False or base is None or resolved(base) else None, "the header lists %s" % show(base if base is not None else lab), head.e.file, head.e.line)
    # the writer: numbers of a line
    js = [p for p in pieces if p.kind == "j"]
    if len(js) != 1 or len([p for p in js[0].a[3] if p.kind == "f"]) != 1:
        ctx.undecided(R1, cname + ".save labels of a state", "%d repetitions" % len(js))
        return
    j = js[0]
    fp = [p for p in j.a[3] if p.kind == "f"][0]
    own = get(mk("inv", sbl), S)
    b = base_of(j.a[2])
    n = size_of(j.a[2])
    ok = b is own or b is get(mk("attr", ME, "labels_by_state"), S)
    ctx.decide(R1, cname + ".save labels of a state", (n is None) if ok else (False if resolved(b) and not tm.has_op(b, "map", "sortedlist", "range") else None), "its line numbers %s of %s" % ("all" if n is None else "at most %d" % n, show(b)), l.e.file, l.e.line)
    if not ok:
        if b.op == "list" and len(b.a) == 1 and b.a[0].op == "for" and b.a[0].a[0] == (own,) and n is not None:
            ctx.violation(R1, cname + ".save labels of a state", "its line numbers at most %d of them" % n, l.e.file, l.e.line)
        return
    # which label a number of a line stands for
    elem = fp.a[1]
    at_ = j.a[1]
    if j.a[2].op == "range":
        labterm = next((x for x in tm.subterms(elem) if x.op in ("get", "nth") and x.a[1] is at_), None)
    else:
        labterm = at_
    if labterm is None:
        ctx.undecided(R1, cname + ".save numbers of labels", show(elem))
        return
    L = sym("a label", "str")
    idterm = tm.subst(elem, {labterm: L})
    declared = id_of(I, ist, tm.subst(idterm, {L: lab}), atom, lab)
    if declared is num:
        ctx.ok(R1, cname + ".save numbers of labels", "the header declares the number used in the lines")
    else:
        bad = resolved(declared, methods=(), extra=("ref",)) and resolved(num, extra=("ref",))
        ctx.decide(R1, cname + ".save numbers of labels", False if bad else None, "the header gives label %s the number %s, lines use %s" % (show(lab), show(num), show(declared)), l.e.file, l.e.line)
    # reader: table of numbers, states of labels
    keys_ok, sets = [], []
    for e in o.log:
        r = Rd.instances(e)
        if r is None:
            ctx.undecided(R2, rcon + " labels", "operation %s" % e.op)
            continue
        for x in r:
            if x[3] is FALSE:
                continue
            if e.op == "set":
                keys_ok.append((x, e))
            else:
                sets.append((x, e))
    IDL = mk("intof", idterm)

    def table(t):
        """replaces lookups of declared numbers by the label"""
        def f(x):
            if x.op in ("c", "sym", "unk", "it", "it2", "ref", "bv", "txt"):
                return x
            y = tm.rebuild(x, f)
            if y.op == "get" and y.a[0].op == "ref":
                d = J.obj(st, y.a[0])
                if d is not None and d.kind in ("dict", "ddict", "bidict") and d.base is None:
                    es = []
                    for e in d.log:
                        r = Rd.instances(e)
                        if r is None or e.op != "set":
                            return y
                        es += [z for z in r if z[3] is not FALSE]
                    if len(es) == 1 and es[0][3] is TRUE:
                        k, v = es[0][1], es[0][2]
                        v = v.a[1] if v.op == "field" and v.a[0] == "s" else v
                        lk = y.a[1]
                        if k.op == "glued":
                            return k
                        if v is lab and "field" not in {z.op for q in (k, lk) for z in tm.subterms(q)}:
                            # the number of a line, looked up in the table of declared numbers
                            k1, back = norm(k, cname), id_of(I, ist, tm.subst(norm(lk, cname), {labterm: lab}), atom, lab)
                            back = norm(back, cname)
                            if k1 is back:
                                return L
                            if resolved(k1, extra=("ref",)) and resolved(back, extra=("ref",)):
                                return mk("wrongkey", k1, back)
                        if resolved(k, extra=("ref",)) and (k.op == "field" or lk.op == "field") and k.op != lk.op:
                            return mk("wrongkey", k, lk)
                        if v is not lab and resolved(v, extra=("ref", "field")):
                            return mk("wrongvalue", v)
            return y
        return f(t)
    # additions to the sets of states: the label whose set it is shows in the read that yields the set
    adds = []
    for r, ob in st.heap.items():
        ref = mk("ref", r)
        holders = [(x, e) for x, e in keys_ok if x[2] is ref]
        if not holders:
            continue
        for e in ob.log:
            if e.op != "add":
                ctx.undecided(R2, rcon + " states of a label", "operation %s" % e.op)
                continue
            reads = [ev for ev in J.events if ev.kind == "read" and ev.result is ref and ev.args[0] is lts and len(ev.binders) == len(e.binders)]
            ks = {ev.args[1] for ev in reads}
            inst = Rd.instances(e)
            if len(ks) != 1 or inst is None:
                ctx.undecided(R2, rcon + " states of a label", "%d sets" % len(ks))
                continue
            kk = Entry2(e, next(iter(ks)))
            i2 = Rd.instances(kk)
            for x, y in zip(inst, i2):
                if x[3] is not FALSE:
                    adds.append((y[1], x[1], x[3], e, x[4]))
    for x, e in sets:
        if e.op in ("add2",):
            adds.append((x[1], x[2], x[3], e, x[4]))
        else:
            ctx.undecided(R2, rcon + " labels", "operation %s" % e.op)
    if not adds:
        ctx.decide(R2, rcon + " states of a label", None if ctx.undec or Rd.cuts else False, "no state is stored", file, line)
        return
    for k, v, g, e, bs in adds:
        con = rcon + " states of a label"
        if g is not TRUE:
            ctx.decide(R2, con, None, "stored if %s" % show(g))
            continue
        v = v.a[1] if v.op == "field" else v
        entry(ctx, R2, con + ": state", v, S, cname, *e.where, extra=("ref",) if any(y.op == "indexof" for y in tm.subterms(v)) else ())
        k2 = table(k)
        k2 = k2.a[1] if k2.op == "field" else k2
        fl, ln = e.where
        if k2.op in ("get", "nth") and k2.a[0].op == "ref" and not any(y.op in ("txt", "field") for y in tm.subterms(k2)):
            # a position in the writer's list
            k3 = norm(id_of(I, ist, tm.subst(norm(k2, cname), {labterm: lab}), atom, lab), cname)
            if k3 is lab:
                k2 = L
            elif k3.op in ("get", "nth") and k3.a[0] is lab.a[0] and resolved(k3.a[1]):
                k2 = mk("wrongkey", lab.a[1], k3.a[1])
        if k2 is L:
            ctx.ok(R2, con + ": label", "the one whose number is written")
        elif k2.op == "wrongkey":
            ctx.violation(R2, con + ": label", "the number declared as %s is looked up as %s" % (show(k2.a[0]), show(k2.a[1])), fl, ln)
        elif k2.op == "glued":
            ctx.violation(R2, con + ": label", "the numbers of a line are not separated", fl, ln)
        elif k2.op == "wrongvalue":
            ctx.violation(R2, con + ": label", "numbers stand for %s" % show(k2.a[0]), fl, ln)
        elif resolved(k2, extra=("ref",), methods=("index",)) and not any(y.op in ("txt", "field", "get") and (y.op != "get" or y.a[0].op == "ref") for y in tm.subterms(k2)):
            ctx.violation(R2, con + ": label", "the state is stored for %s" % show(k2), fl, ln)
        else:
            ctx.undecided(R2, con + ": label", show(k2))
    for x, e in keys_ok:
        k = x[1].a[1] if x[1].op == "field" else x[1]
        if k is lab and x[3] is TRUE:
            ctx.ok(R2, rcon + " declared labels", show(k))
        else:
            ctx.decide(R2, rcon + " declared labels", False if k is num or k is mk("intof", num) else None, "%s is stored as label" % show(k), e.where[0], e.where[1])


class Entry2:
    def __init__(self, e, key):
        self.binders, self.guard, self.key, self.val = e.binders, e.guard, key, NONE


def run(ctx):
    ctx.rule(R1, "writers put every field of every entry into the files")
    ctx.rule(R2, "readers store every field where it was written for")
    ctx.rule(R3, "patterns take the written words apart at the borders of the values")
    for cname in ("MDP", "DTMC"):
        ctx.part(cname, check, ctx, cname)
    ctx.notes.append("label texts contain no quotes or line ends, and action labels no blanks; the file format has room for one action label per line")
