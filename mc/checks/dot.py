"""A parser of the DOT language, enough for whole graphs: returns (nodes {id: attrs}, edges [(a, b, attrs)], ranks [[ids]])."""
import re

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:[^"\\]|\\.)*")|(?P<arrow>->)|(?P<num>-?(?:\.\d+|\d+(?:\.\d*)?))|(?P<id>[A-Za-z_\x80-\uffff][\w\x80-\uffff]*)|(?P<p>[\[\]{}=;,:])', re.S)


def lex(text):
    out, i = [], 0
    while i < len(text):
        if text[i] == "<":
            d, j = 0, i
            while j < len(text):
                d += (text[j] == "<") - (text[j] == ">")
                j += 1
                if d == 0:
                    break
            if d:
                raise ValueError("unbalanced HTML string")
            out.append(("html", text[i + 1:j - 1]))
            i = j
            continue
        m = TOK.match(text, i)
        if not m:
            raise ValueError("bad character %r" % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k == "str":
            out.append(("val", m.group()[1:-1]))
        elif k in ("num", "id"):
            out.append(("val", m.group()))
        elif k:
            out.append((k, m.group()))
    return out


def parse(text):
    t, i = lex(text), 0
    nodes, edges, ranks = {}, [], []

    def peek():
        return t[i] if i < len(t) else ("end", "")

    def take(kind=None, val=None):
        nonlocal i
        k = peek()
        if kind and k[0] != kind or val and k[1] != val:
            raise ValueError("expected %s, found %r" % (val or kind, k))
        i += 1
        return k[1]

    def attrs():
        a = {}
        while peek() == ("p", "["):
            take()
            while peek() != ("p", "]"):
                k = take("val")
                take("p", "=")
                if peek()[0] not in ("val", "html"):
                    raise ValueError("attribute %s has no value" % k)
                a[k] = take()
                if peek() in (("p", ","), ("p", ";")):
                    take()
            take()
        return a

    def stmts(sub):
        names, rank = [], None
        while peek() != ("p", "}"):
            if peek() == ("p", ";"):
                take()
            elif peek() == ("p", "{"):
                take()
                stmts(True)
            else:
                a = take("val")
                if peek() == ("p", "="):
                    take()
                    v = take("val")
                    rank = v if a == "rank" else rank
                elif a in ("node", "edge", "graph") and peek() == ("p", "["):
                    attrs()
                elif peek()[0] == "arrow":
                    take()
                    b = take("val")
                    edges.append((a, b, attrs()))
                elif sub and peek() != ("p", "["):
                    names.append(a)
                else:
                    if a in nodes:
                        raise ValueError("node %s is defined twice" % a)
                    nodes[a] = attrs()
        take()
        if sub and rank:
            ranks.append(names)

    if take("val") != "digraph":
        raise ValueError("not a digraph")
    if peek()[0] == "val":
        take()
    take("p", "{")
    stmts(False)
    if peek()[0] != "end":
        raise ValueError("text after the graph")
    return nodes, edges, ranks
