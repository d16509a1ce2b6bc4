"""A small tokenizer shared by the parsers of generated text."""
import re


class Toks:
    def __init__(self, text, pattern):
        self.t, self.i = [], 0
        rx = re.compile(pattern, re.S)
        p = 0
        while p < len(text):
            m = rx.match(text, p)
            if not m: raise ValueError("unexpected text: " + text[p:p + 60])
            p = m.end()
            if m.lastgroup != "ws": self.t.append((m.lastgroup, m.group()))

    def peek(self, k=0): return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def end(self): return self.i >= len(self.t)

    def next(self):
        if self.end(): raise ValueError("unexpected end of text")
        self.i += 1
        return self.t[self.i - 1][1]

    def opt(self, x):
        if self.peek() == x: self.i += 1; return True
        return False

    def want(self, *xs):
        for x in xs:
            y = self.next()
            if y != x: raise ValueError("expected %r, found %r near %s" % (x, y, " ".join(t[1] for t in self.t[max(0, self.i - 8):self.i + 3])))

    def of(self, kind):
        if self.kind() != kind: raise ValueError("expected %s, found %r near %s" % (kind, self.peek(), " ".join(t[1] for t in self.t[max(0, self.i - 8):self.i + 3])))
        return self.next()
