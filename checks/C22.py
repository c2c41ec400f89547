"""C22: input that is not a specification is rejected in an orderly way, at the right place."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from wf import *
import syntax, threading

EXTRA = ['phase I1 { info = "text // no comment", uid = IQ, gate = gq, actions { pass I2 { info = "a /* b", uid = IX, func = fx }; cycle I3 { gate = gz, actions { pass I4 = fi; } }; } }',
         "node Alone { }", "nodeset Grouped = ((Both | {Alone}) & {Prog, Alone, Leaf}) - {Prog}", "enum Word { info = \"x\", prefix = WD, values { node, values, int, w1 } }",
         "node Deep { children { Alone a { constructor }, Alone b { constructor, mandatory }, Alone c { mandatory, optional (-> MA.IT) } }, attributes { user T u { constructor, disallowed [MA -> }, int8 i { constructor } } }"]
SAMPLES = ["(", ")", "[", "]", "{", "}", ",", "=", ";", "|", "&", ".", "-", "->", "Leaf", "5", '"x"', "this", "node", "values", "NULL", "int"]
MORE = ["info", "uid", "user", "mandatory", "constructor", "-7", "1.5", "start", "root", "phase", "pass", "traversal", "enum", "nodes", "nodeset", "children", "attributes", "equations", "lifetime", "args", "actions", "gate", "func", "prefix", "travdata", "optional", "while", "!"]


def main():
    c = Check("C22")
    c.build("asan")
    c.build()
    text = Base(rich=True).render({}) + ";\n".join(EXTRA) + ";\n"
    spans = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"|->|[A-Za-z][A-Za-z0-9_]*|[^\sA-Za-z0-9]', text)]
    assert syntax.check(text.encode()) is None
    work = [("the base", text)]
    samples = SAMPLES + (MORE if THOROUGH else [])
    for i, (a, b) in enumerate(spans):
        t = text[a:b]
        where = "%r at %d" % (t, i)
        work.append(("without " + where, text[:a] + text[b:]))
        work.append(("twice " + where, text[:b] + " " + text[a:]))
        if i + 1 < len(spans):
            x, y = spans[i + 1]
            work.append(("%s and the next exchanged" % where, text[:a] + text[x:y] + text[b:x] + t + text[y:]))
        for s in samples:
            if s != t:
                work.append(("%s replaced by %r" % (where, s), text[:a] + " " + s + " " + text[b:]))
        for s in (samples if THOROUGH else SAMPLES[:6] + SAMPLES[14:16] + SAMPLES[18:19]):
            work.append(("%r before %s" % (s, where), text[:a] + s + " " + text[a:]))
    for k in (range(len(text) + 1) if THOROUGH else sorted({x for s in spans for x in (s[0], s[1], (s[0] + s[1]) // 2)})):
        work.append(("the first %d bytes" % k, text[:k]))
    places = {"in a name": text.index("Second") + 3, "between tokens": text.index("nodeset Both"), "in a string": text.index("no comment"), "in values": text.index("w1"), "in a line comment": None, "in a comment": None, "at the end": len(text), "in a number": None}
    for byte in range(256):
        for p, at in places.items():
            ch = bytes([byte])
            raw = text.encode()
            if at is None:
                at = text.index("nodeset Both")
                pre, post = {"in a line comment": (b"// a", b"b\n"), "in a comment": (b"/* a", b"b */"), "in a number": (b"1", b"2")}[p]
                ch = pre + ch + post
            work.append(("byte %d %s" % (byte, p), raw[:at] + ch + raw[at:]))
    for seq in itertools.chain.from_iterable(itertools.product(SAMPLES + MORE, repeat=n) for n in ((0, 1, 2) if not THOROUGH else (0, 1, 2))):
        work.append(("only " + " ".join(seq), " ".join(seq)))
    for i in range(0, len(spans), 3 if not THOROUGH else 1):     # the location after a string of several lines
        a, b = spans[i]
        work.append(('"a\\nb" before token %d' % i, text[:a] + '"a\nb\n c" ' + text[a:]))
        if '"' in text[:a]:
            m = text.replace("a /* b", "a /*\n\n b").replace('"x"', '"\nx"')
            k = m.index(text[a:a + 40]) if text[a:a + 40] in m else None
            if k:
                work.append(('" of several lines, 5 before token %d' % i, m[:k] + "5 " + m[k:]))
    for n in ((8191, 8192, 16383, 16384, 16385, 70000) if True else ()):
        work.append(("a name of %d characters" % n, text.replace("inPass", "n" * n)))
        work.append(("a string of %d characters" % n, text.replace("no comment", "n" * n)))
        work.append(("an unfinished string of %d characters" % n, text + '"' + "n" * n))
        work.append(("an unfinished comment of %d characters" % n, text + '/*' + "n" * n))
        work.append(("%d opening brackets" % n, text + "nodeset Xx = " + "(" * n))
    seen, uniq = set(), []
    for l, t in work:
        t = t if isinstance(t, bytes) else t.encode()
        if t not in seen:
            seen.add(t)
            uniq.append((l, t))
    tally, lock = {}, threading.Lock()
    def one(w):
        label, t = w
        want = None if label.endswith("brackets") else syntax.check(t)
        # the sanitized build decides crashes of the parser; the verdict is the same in both builds
        g = generate(c, t, variant="asan", timeout=60)
        files = [f for _, _, fs in os.walk(os.path.join(g.dir, "gen")) for f in fs if f.endswith((".c", ".h"))]
        err = g.r.err
        key = None
        if g.crashed:
            key = "cocogen ends abnormally: rc=%s timeout=%s %s" % (g.rc, g.r.timeout, g.r.text[-700:])
        elif want is not None and g.ok:
            key = "accepted, although the token at %s cannot be there (%s)" % (want[1], want[0])
        elif not g.ok and "error" not in err.lower():
            key = "rejected without a diagnostic: %r" % g.r.text[-300:]
        elif want is not None and files:
            key = "rejected, but files are generated: %s" % files[:5]
        elif want is not None and want[1] is not None:
            m = re.search(r"--> (.*):(\d+)[:.](\d+)", err)
            if not m or (int(m.group(2)), int(m.group(3))) != want[1]:
                key = "the diagnostic is for %s, but the first token that cannot be there is at %s: %s" % (m and m.group(2, 3), want[1], err[:400])
            else:
                line = t.split(b"\n")[want[1][0] - 1].decode("latin1")
                if b"\0" not in t and len(line) < 500 and all(32 <= ord(x) < 127 for x in line) and '"' not in label and "byte 34" not in label and line.strip() not in err:
                    key = "the diagnostic does not display line %d: %s" % (want[1][0], err[:400])
        with lock:
            k = (want[0] if want else "well-formed", "accepted" if g.ok else "rejected")
            tally[k] = tally.get(k, 0) + 1
            if tally[k] <= 2:
                c.sample({"case": label, "syntax": want or "well-formed", "cocogen": "accepts" if g.ok else "rejects: " + " ".join(err.split())[:120]}, 12)
        if key:
            c.violation(label, key, t.decode("latin1"))
        c.add(1, 1, 1)
        shutil.rmtree(g.dir, ignore_errors=True)
    pmap(one, uniq)
    c.assumptions = ["a specification of %d tokens with every construct of the language: every token removed, doubled, exchanged with the next, replaced by and preceded by each of %d tokens; cut after every %s; every byte value at %d kinds of places; all sequences of up to two of %d tokens; very long tokens. Outcomes: %s" % (
        len(spans), len(samples), "byte" if THOROUGH else "token", len(places), len(SAMPLES + MORE), ", ".join("%s/%s %d" % (k + (v,)) for k, v in sorted(tally.items()))),
        "the recogniser follows the grammar as implemented where it is laxer than the documentation (an empty gate, a comma at the end of a node)"]
    c.finish()


if __name__ == "__main__":
    main()
