"""Specifications of complete runs, shared by C21 and C24."""
SPEC = """start phase Main { uid = MA, actions { Two; pass Load { uid = LD }; } };
cycle Two { gate = go, actions { traversal Walk { uid = WA, nodes = {Leaf}, travdata { int n } }; } };
root node Prog { children { Any body { constructor, mandatory [LD ->) }, Leaf tail }, attributes { Kind k { constructor }, int t { synthesized } }, equations { this.t = { args = { body.s } } } };
node Leaf { attributes { string name }, equations { this.s = { args = { } } } };
nodeset Any { nodes = {Leaf}, attributes { int s { synthesized } } };
nodeset Some { nodes = {Leaf} | Any, attributes { int a } };
enum Kind { prefix = KD, values { big, small } };
"""
RUN = SPEC.replace("{ Two; pass Load { uid = LD }; }", "{ pass Load { uid = LD }; Two; }")
MINI = "start phase A { actions { pass B; } }; root node R { };"
BAD = {"a syntax error": MINI + " node {",
       "an unknown child": SPEC.replace("Leaf tail", "Lef tail"),
       "a name declared twice": SPEC + "node Prog { };",
       "a C keyword": MINI + " node while { };",
       "a cyclic set": MINI + " nodeset P = Q; nodeset Q = P;",
       "an equation missing": SPEC.replace("equations { this.t", "equations { this.u"),
       "an attribute loop": SPEC.replace("args = { body.s }", "args = { this.t }"),
       "a lifetime of no action": SPEC.replace("[LD ->)", "[XX ->)")}
