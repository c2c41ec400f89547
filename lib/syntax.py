"""An independent recogniser of the specification language: tokens with positions, and the first
token that cannot continue any specification."""
import re

KEYWORDS = set("args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass passes phase phases actions prefix subphases synthesized this to traversal travdata values info func root start double float int uint int8 int16 int32 int64 uint8 uint16 uint32 uint64 string bool lifetime disallowed optional allowed false true gate user uid".split())
C_KEYWORDS = set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while".split())
TYPES = set("bool string int float double uint8 uint16 uint32 uint64 int8 int16 int32 int64".split())
TOKEN = re.compile(rb'(?P<ws>[ \t\r]+|\n)|(?P<lc>//[^\n]*)|(?P<bc>/\*)|(?P<num>-?[0-9]+\.[0-9]+|-[0-9]+|[0-9]+)|(?P<arrow>->)|(?P<p>[()\[\]{},=;!|&.-])|(?P<id>[A-Za-z][A-Za-z0-9_]*)|(?P<str>"(?:\\[^\n]|[^\\"])*")', re.S)


class Bad(Exception):
    """args: (kind, position): kind syntax, char, comment, ckeyword; position (line, column) or None at the end."""


class Tokens:
    """The tokens of a text, read one at a time: inside the values of an enum every word is a name."""
    def __init__(self, data):
        self.data, self.at, self.line, self.bol = data, 0, 1, 0
        self.values = False
        self.ckw = None
        self.tok = None
        self.next()

    def pos(self, at):
        return (self.line, at - self.bol + 1)

    def next(self):
        d = self.data
        while True:
            if self.at >= len(d):
                self.tok, self.where = "EOF", None
                return
            m = TOKEN.match(d, self.at)
            start = self.at
            if not m:
                raise Bad("char", self.pos(start))
            k = m.lastgroup
            if k == "bc":
                e = d.find(b"*/", m.end())
                if e < 0:
                    raise Bad("comment", None)
                self.advance(e + 2)
                continue
            if k in ("ws", "lc"):
                self.advance(m.end())
                continue
            self.where = self.pos(start)
            t = m.group().decode("latin1")
            self.advance(m.end())
            if k == "id":
                if t == "NULL":
                    self.tok = "NULL"
                elif self.values:
                    self.tok = "ID"
                elif t in KEYWORDS:
                    self.tok = t
                elif t in C_KEYWORDS:
                    raise Bad("ckeyword", self.where)
                else:
                    self.tok = "ID"
            elif k == "num":
                self.tok = "NUM"
            elif k == "str":
                self.tok = "STR"
            elif k == "arrow":
                self.tok = "->"
            else:
                self.tok = t
            self.text = t
            return

    def advance(self, to):
        seg = self.data[self.at:to]
        n = seg.count(b"\n")
        if n:
            self.line += n
            self.bol = self.at + seg.rfind(b"\n") + 1
        self.at = to


class Parser:
    def __init__(self, data):
        self.t = Tokens(data)

    def fail(self):
        raise Bad("syntax", self.t.where)

    def at(self, *toks):
        return self.t.tok in toks

    def eat(self, *toks):
        if self.t.tok not in toks:
            self.fail()
        r = self.t.tok
        self.t.next()
        return r

    def opt(self, tok):
        if self.t.tok == tok:
            self.t.next()
            return True
        return False

    def spec(self):
        while True:
            if self.at("EOF"):
                return
            self.entry()
            if self.at("EOF"):
                return
            self.eat(";")

    def entry(self):
        t = self.t.tok
        if t in ("start", "phase", "cycle"):
            self.opt("start")
            self.phase()
        elif t == "pass":
            self.pass_()
        elif t == "traversal":
            self.traversal()
        elif t in ("root", "node"):
            self.opt("root")
            self.node()
        elif t == "nodeset":
            self.nodeset()
        elif t == "enum":
            self.enum()
        else:
            self.fail()

    def assign(self, what):
        self.eat(what)
        self.eat("=")
        self.eat("STR" if what == "info" else "ID")

    def phase(self):
        self.eat("phase", "cycle")
        self.eat("ID")
        self.eat("{")
        for part in ("info", "uid"):
            if self.at(part):
                self.assign(part)
                self.eat(",")
        if self.at("gate"):
            self.assign("gate")
            self.eat(",")
        elif self.at(","):                  # an empty gate
            self.eat(",")
        self.eat("actions")
        self.eat("{")
        while True:
            self.action()
            self.eat(";")
            if self.opt("}"):
                break
        self.eat("}")

    def action(self):
        t = self.t.tok
        if t == "ID":
            self.eat("ID")
        elif t == "pass":
            self.pass_()
        elif t == "traversal":
            self.traversal()
        elif t in ("start", "phase", "cycle"):
            self.opt("start")
            self.phase()
        else:
            self.fail()

    def pass_(self):
        self.eat("pass")
        self.eat("ID")
        if self.opt("="):
            self.eat("ID")
        elif self.opt("{"):
            if self.at("info"):
                self.assign("info")
                self.eat(",")
            if self.at("uid"):
                self.assign("uid")
                if self.opt("}"):
                    return
                self.eat(",")
            self.assign("func")
            self.eat("}")

    def traversal(self):
        self.eat("traversal")
        self.eat("ID")
        self.eat("{")
        if self.at("info"):
            self.assign("info")
            self.eat(",")
        self.assign("uid")
        if self.opt("}"):
            return
        self.eat(",")
        if self.at("nodes"):
            self.eat("nodes")
            self.eat("=")
            self.setexpr()
            if self.opt("}"):
                return
            self.eat(",")
        self.eat("travdata")
        self.eat("{")
        while True:
            if self.at("user"):
                self.eat("user")
                self.eat("ID")
            else:
                self.eat("ID", *TYPES)
            self.eat("ID")
            if self.eat(",", "}") == "}":
                break
        self.eat("}")

    def setexpr(self):
        self.setatom()
        while self.at("|", "&", "-"):
            self.t.next()
            self.setatom()

    def setatom(self):
        if self.opt("("):
            self.setatom()
            self.eat("|", "&", "-")
            self.setexpr()
            self.eat(")")
        elif self.opt("{"):
            self.eat("ID")
            while self.eat(",", "}") == ",":
                self.eat("ID")
        else:
            self.eat("ID")

    def node(self):
        self.eat("node")
        self.eat("ID")
        self.eat("{")
        parts = ["children", "attributes", "equations", "lifetime"]
        if self.opt("}"):
            return
        while True:
            if not self.at(*parts):
                self.fail()
            p = self.t.tok
            parts = parts[parts.index(p) + 1:]
            self.t.next()
            self.eat("{")
            getattr(self, p)()
            self.eat("}")
            if p == "lifetime":
                self.eat("}")
                return
            if self.eat(",", "}") == "}":
                return
            if self.opt("}"):               # no lifetimes after the comma
                return

    def children(self):
        while True:
            self.eat("ID")
            self.eat("ID")
            if self.opt("{"):
                if not self.opt("}"):
                    if self.opt("constructor"):
                        if self.opt("}"):
                            pass
                        else:
                            self.eat(",")
                            self.lifetimes("}")
                    else:
                        self.lifetimes("}")
            if not self.opt(","):
                return

    def lifetimes(self, close):
        while True:
            self.one_lifetime(close)
            if self.eat(",", close) == close:
                return

    def one_lifetime(self, close):
        k = self.eat("disallowed", "mandatory", "allowed", "optional")
        if k in ("disallowed", "mandatory") and self.at(",", close):
            return
        self.range()
        self.eat("->")
        self.range()

    def range(self):
        if self.opt("("):
            if self.at("ID"):
                self.target()
        elif self.opt(")"):
            pass
        elif self.opt("["):
            self.target()
        elif self.at("ID"):
            self.target()
            self.eat(")", "]")

    def target(self):
        self.eat("ID")
        while self.opt("."):
            self.eat("ID")

    def attributes(self):
        while True:
            if self.opt("user"):
                self.eat("ID")
            else:
                self.eat("ID", *TYPES)
            self.eat("ID")
            if self.opt("{"):
                while not self.opt("}"):
                    if self.at("constructor", "inherited", "synthesized"):
                        self.t.next()
                    else:
                        self.one_lifetime("}")
                    if self.eat(",", "}") == "}":
                        break
            if not self.opt(","):
                return

    def reference(self):
        self.eat("ID", "this")
        self.eat(".")
        self.eat("ID")

    def equations(self):
        while True:
            self.reference()
            self.eat("=")
            self.eat("{")
            if not self.opt("}"):
                self.eat("args")
                self.eat("=")
                self.eat("{")
                if not self.opt("}"):
                    while True:
                        self.reference()
                        if self.eat(",", "}") == "}":
                            break
                self.eat("}")
            if not self.opt(","):
                return

    def lifetime(self):
        while True:
            self.one_lifetime("}")
            if not self.opt(","):
                return

    def nodeset(self):
        self.eat("nodeset")
        self.eat("ID")
        if self.opt("="):
            self.setexpr()
            return
        self.eat("{")
        if self.at("info"):
            self.assign("info")
            self.eat(",")
        self.eat("nodes")
        self.eat("=")
        self.setexpr()
        if self.opt("}"):
            return
        self.eat(",")
        self.eat("attributes")
        self.eat("{")
        self.attributes()
        self.eat("}")
        self.eat("}")

    def enum(self):
        self.eat("enum")
        self.eat("ID")
        self.eat("{")
        if self.at("info"):
            self.assign("info")
            self.eat(",")
        self.assign("prefix")
        self.eat(",")
        self.eat("values")
        if not self.at("{"):
            self.fail()
        self.t.values = True
        self.t.next()
        while True:
            self.eat("ID")
            if self.at("}"):
                self.t.values = False
            if self.eat(",", "}") == "}":
                break
        self.eat("}")


def check(data):
    """None if data is a specification by its syntax, else (kind, position)."""
    try:
        Parser(data).spec()
    except Bad as b:
        return b.args
