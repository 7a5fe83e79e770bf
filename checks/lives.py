"""Lives of objects: earlier uses and copies, shared by the message checks."""
from sx.report import Unconfirmed
from sx.terms import uf

from .msg import c64

ANY = ("any",)
COPIES = ("cons_copy", "copy", "orig")


def content(history):
    """initial content of an object: arbitrary bytes stand for every earlier use"""
    return (lambda t: uf("garbage", 8, t)) if tuple(history) == ANY else None


def anyuse(real, stream, *args, **kw):
    """for every content of the object, or else after the real earlier uses"""
    try:
        return stream(*args, history=ANY, **kw)
    except Unconfirmed as e:
        why = str(e)
    for h in real:
        stream(*args, history=h, **kw)
    return "after %s only (arbitrary content: %s)" % ("; ".join(map(", ".join, real)), why)


def wreck(eng, st, p, size, name):
    o, off = eng.access(st, p, c64(size), True)
    eng.bulk_write(st, o, off, c64(size), lambda rel: uf("wreck_" + name, 8, rel))


class Copy:
    """how: cons_copy, copy (assignment), cons_move, or orig (the copy is dropped); at: after that many operations"""

    def __init__(self, eng, st, size, how, at):
        self.eng, self.size, self.how, self.at = eng, size, how, at
        self.spare = eng.alloc(st, c64(size), "copy", lambda t: uf("spare", 8, t)) if how else None

    def __call__(self, i, states, call, h):
        """after operation i: the states and the object to go on with"""
        if not self.how or i != self.at:
            return states, h
        if self.how == "copy":
            states = call(states, "construct", [self.spare])
        states = call(states, "cons_copy" if self.how == "orig" else self.how, [self.spare, h])
        go, drop = (h, self.spare) if self.how == "orig" else (self.spare, h)
        for s in states:
            wreck(self.eng, s, drop, self.size, self.how)
        return states, go


def native(how, at, i, word="C"):
    return ["%s %s" % (word, how)] if how and i == at else []
