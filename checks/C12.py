"""C12: the consistency check finds exactly the children of a type that is not allowed."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ast_specs import *

NEVER = ["disallowed (pass2 -> )", "mandatory (pass2 -> )"]       # pass2 is the last action


def decorated(sp):
    """the same children in nodes with lifetimes that never apply, on nodes, children and attributes, and with attributes"""
    for how in range(4):
        s = copy.deepcopy(sp)
        for k, n in enumerate(s.nodes):
            if how != 2:
                n.extra.append("lifetime { %s }" % ["disallowed (pass2 -> )", "allowed ( -> )", None, "disallowed (pass2 -> ), allowed ( -> )"][how]) if how != 1 or k else None
            if how in (1, 2):
                for j, x in enumerate(n.children):
                    x.opts.append(NEVER[(j + k) % 2] if how == 2 else "optional ( -> )")
            if how >= 2:
                n.attrs = [Attr("A", "l", opts=[NEVER[k % 2]]), Attr("string", "s", opts=[NEVER[1 - k % 2]] if how == 2 else [])]
        yield ["lifetimes of nodes", "allowed and optional parts", "lifetimes of children and attributes", "several lifetimes and attributes"][how], s


def main():
    c = Check("C12")
    c.build()
    specs = list(shapes3(2 if THOROUGH else 1)) + list(shapes4(None if THOROUGH else 1))
    plain = len(specs)
    for i, (label, sp) in enumerate(shapes3(1)):
        if THOROUGH or all(len(n.children) == 0 or n.children[0].type in "AB" for n in sp.nodes[1:]):
            specs += [(label + " with " + how, s) for how, s in decorated(sp)]
    def one(x):
        label, sp = x
        sp.travs = []
        sp.actions = "pass pass1; pass pass2; "
        glue = sp.glue() + "static const char *CHNAME[][4] = {%s};\n" % ", ".join("{%s}" % (", ".join('"%s"' % k.name for k in n.children) or "0") for n in sp.nodes)
        return run_harness(c, sp, "check.c", (5 if THOROUGH else 4, 3), label, glue=glue)
    pmap(one, specs)
    c.assumptions = ["%d specifications of three and four node types (child lists over nodes and nodesets); all trees of up to %d nodes with nodes of every type in every child position; trees of up to 3 nodes also in complete compiler runs with the check on and off; %d of them again with lifetimes that never apply and attributes" % (plain, 5 if THOROUGH else 4, len(specs) - plain)]
    c.finish()
main()
