"""Shared by C10 and C11."""
from ast_specs import *

def explore(c, mode):
    c.build()
    inc = c.tmp("ut")
    open(os.path.join(inc, "user_types.h"), "w").write(USER_H)
    specs = [(l, s, 4 if THOROUGH else 3) for l, s in attr_specs()] + [(l, s, 4 if THOROUGH else 3) for l, s in evaluated_specs()] + [(l, s, 4 if THOROUGH else 3) for l, s in shape_attr_specs(THOROUGH)]
    def one(x):
        label, sp, n = x
        names = [k.name for k in sp.nodes]
        sp.actions = "pass passfn; "
        glue = "#include <stdint.h>\n#define OUTSIDE %d\n" % names.index("B") + attr_glue(sp) + sp.glue()
        return run_harness(c, sp, "copyfree.c", (mode, n), label, glue=glue, extra=["-I" + inc])
    pmap(one, specs)
    c.assumptions = ["%d specifications: every attribute type (primitive, enum, node and nodeset links, user types) in and out of the constructor, and defined by equations (evaluated or not), and all child list shapes over three node types; all trees of up to %d nodes starting at any type, every subtree of each, strings NULL/empty/text, links to nothing/root/self/elsewhere" % (len(specs), 4 if THOROUGH else 3)]
    c.finish()
