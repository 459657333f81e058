"""Every syntactic position an expression or a statement can stand in.

EXPR: name -> (source, kind); `P` marks the position, lower-case names are
other (non-torch) user parts.  kind says how often / when the position is
evaluated relative to its statement:
  once   - exactly once, unconditionally, as part of evaluating the statement
           (before its blocks)
  cond   - only under a condition of the same statement, or repeatedly, or
           later (lambda, comprehension, short circuit, while test, ...)
  type   - annotation position
BLOCK: name -> source whose block consists of the line `S`."""

EXPR = {
    "Expr": ("P", "once"),
    "Assign.value": ("v1 = P", "once"),
    "Assign.value, two targets": ("v1 = v2 = P", "once"),
    "Assign.value, tuple": ("v1, v2 = P", "once"),
    "Assign.target.Subscript.slice": ("v1[P] = v2", "once"),
    "Assign.target.Subscript.value": ("P[v1] = v2", "once"),
    "Assign.target.Attribute.value": ("P.pcvx = v2", "once"),
    "AugAssign.value": ("v1 += P", "once"),
    "AnnAssign.value": ("v1: v2 = P", "once"),
    "AnnAssign.annotation": ("v1: P = v2", "type"),
    "Return.value": ("def g1():\n    return P", "once"),
    "Delete.targets": ("del P[v1]", "once"),
    "Raise.exc": ("raise P", "once"),
    "Raise.cause": ("raise v1 from P", "once"),
    "Assert.test": ("assert P, v1", "once"),
    "Assert.msg": ("assert v1, P", "cond"),
    "If.test": ("if P:\n    v1", "once"),
    "If.elif.test": ("if v1:\n    v2\nelif P:\n    v3\nelse:\n    v4", "once"),
    "While.test": ("while P:\n    v1", "cond"),
    "For.iter": ("for i1 in P:\n    v1", "once"),
    "For.target": ("for P[v1] in v2:\n    v3", "cond"),
    "AsyncFor.iter": ("async def g1():\n    async for i1 in P:\n        v1", "once"),
    "With.context_expr": ("with P as w1:\n    v1", "once"),
    "With.second item": ("with v1 as w1, P as w2:\n    v2", "once"),
    "With.optional_vars": ("with v1 as P[v2]:\n    v3", "cond"),
    "AsyncWith.context_expr": ("async def g1():\n    async with P as w1:\n        v1", "once"),
    "ExceptHandler.type": ("try:\n    v1\nexcept P as e1:\n    v2", "cond"),
    "Match.subject": ("match P:\n    case 1:\n        v1", "once"),
    "Match.guard": ("match v1:\n    case i1 if P:\n        v2", "cond"),
    "FunctionDef.default": ("def g1(a1, a2=P):\n    v1", "once"),
    "FunctionDef.kw_default": ("def g1(*, a2=P):\n    v1", "once"),
    "FunctionDef.annotation": ("def g1(a1: P):\n    v1", "type"),
    "FunctionDef.vararg annotation": ("def g1(*a1: P, **a2: v2):\n    v1", "type"),
    "FunctionDef.kwarg annotation": ("def g1(*a1: v2, **a2: P):\n    v1", "type"),
    "FunctionDef.posonly annotation": ("def g1(a1: P, /, a2=v2):\n    v1", "type"),
    "FunctionDef.returns": ("def g1() -> P:\n    v1", "type"),
    "FunctionDef.decorator": ("@P\ndef g1():\n    v1", "deco"),
    "FunctionDef.decorator argument": ("@v1(P)\ndef g1():\n    v2", "deco"),
    "FunctionDef.second decorator": ("@v1\n@v2(P)\ndef g1():\n    v3", "deco"),
    "AsyncFunctionDef.decorator": ("@P\nasync def g1():\n    v1", "deco"),
    "AsyncFunctionDef.default": ("async def g1(a1=P):\n    v1", "once"),
    "AsyncFunctionDef.returns": ("async def g1() -> P:\n    v1", "type"),
    "ClassDef.base": ("class G1(v1, P):\n    v2", "once"),
    "ClassDef.keyword": ("class G1(v1, metaclass=P):\n    v2", "once"),
    "ClassDef.decorator": ("@P\nclass G1:\n    v1", "deco"),
    "ClassDef.body": ("class G1(v1):\n    k1 = P", "once"),
    "Call.arg": ("v1 = v2(P)", "once"),
    "Call.second arg": ("v1 = v2(v3, P, v4)", "once"),
    "Call.keyword": ("v1 = v2(v3, k1=P)", "once"),
    "Call.starred": ("v1 = v2(v3, *P)", "once"),
    "Call.double starred": ("v1 = v2(v3, **P)", "once"),
    "Call.method arg": ("v1 = v2.pcvm(P)", "once"),
    "Call.func": ("v1 = P(v2)", "once"),
    "Call.func.Attribute.value": ("v1 = P.pcvm(v2)", "once"),
    "Call.func.Attribute chain": ("v1 = P.pcvx.pcvm(v2)", "once"),
    "Call.func.Subscript": ("v1 = v2[P](v3)", "once"),
    "Call.func.Call": ("v1 = v2(P)(v3)", "once"),
    "Call.func.Lambda": ("v1 = (lambda: P)()", "cond"),
    "Call.arg of a torch call": ("v1 = torch.pcv_one(P)", "once"),
    "Call.keyword of a torch call": ("v1 = torch.pcv_one(x=P)", "once"),
    "Attribute.value": ("v1 = P.pcvx", "once"),
    "Attribute chain": ("v1 = P.pcvx.pcvy", "once"),
    "Attribute chain 3": ("v1 = P.pcvx.pcvy.pcvz", "once"),
    "Attribute of List": ("v1 = [v2, P].pcvx", "once"),
    "Attribute of Tuple": ("v1 = (v2, P).pcvx", "once"),
    "Attribute of BoolOp": ("v1 = (P or v2).pcvx", "once"),
    "Attribute of IfExp": ("v1 = (P if v2 else v3).pcvx", "cond"),
    "Attribute of BinOp": ("v1 = (P + v2).pcvx", "once"),
    "Attribute of UnaryOp": ("v1 = (-P).pcvx", "once"),
    "Attribute of Compare": ("v1 = (P < v2).pcvx", "once"),
    "Attribute of Subscript": ("v1 = P[v2].pcvx", "once"),
    "Attribute of Subscript.slice": ("v1 = v2[P].pcvx", "once"),
    "Attribute of Call": ("v1 = v2(P).pcvx", "once"),
    "Attribute of Dict": ("v1 = {v2: P}.pcvx", "once"),
    "Attribute of ListComp": ("v1 = [i1 for i1 in P].pcvx", "once"),
    "Attribute of Await": ("async def g1():\n    v1 = (await P).pcvx", "once"),
    "Attribute of NamedExpr": ("v1 = (n1 := P).pcvx", "once"),
    "Attribute of JoinedStr": ("v1 = f'{P}'.pcvx", "once"),
    "Attribute of Lambda": ("v1 = (lambda: P).pcvx", "cond"),
    "Method of List": ("v1 = [v2, P].pcvm(v3)", "once"),
    "Method of JoinedStr": ("v1 = f'{P}'.pcvm(v3)", "once"),
    "Method of BoolOp": ("v1 = (P or v2).pcvm(v3)", "once"),
    "Method of IfExp": ("v1 = (v1 if P else v2).pcvm(v3)", "once"),
    "Method of Dict": ("v1 = {v2: P}.pcvm(v3)", "once"),
    "Method of chained call": ("v1 = P.pcvm(v2).pcvn(v3)", "once"),
    "weight chain": ("v1 = P.weight.pcvx", "once"),
    "bias chain": ("v1 = P.bias.pcvm(v2)", "once"),
    "Subscript.value": ("v1 = P[v2]", "once"),
    "Subscript.slice": ("v1 = v2[P]", "once"),
    "Subscript.slice.Slice": ("v1 = v2[P:v3, v4:P2:v5]".replace("P2", "v6"), "once"),
    "Subscript.slice.Slice.upper": ("v1 = v2[v3:P]", "once"),
    "Subscript.slice.Slice.step": ("v1 = v2[v3:v4:P]", "once"),
    "Subscript.slice.Tuple": ("v1 = v2[v3, P]", "once"),
    "BinOp.left": ("v1 = P + v2", "once"),
    "BinOp.right": ("v1 = v2 @ P", "once"),
    "UnaryOp": ("v1 = not P", "once"),
    "BoolOp.first": ("v1 = P and v2", "once"),
    "BoolOp.second": ("v1 = v2 and P", "cond"),
    "Compare.left": ("v1 = P < v2", "once"),
    "Compare.right": ("v1 = v2 < P", "once"),
    "Compare.third": ("v1 = v2 < v3 < P", "cond"),
    "IfExp.test": ("v1 = v2 if P else v3", "once"),
    "IfExp.body": ("v1 = P if v2 else v3", "cond"),
    "IfExp.orelse": ("v1 = v2 if v3 else P", "cond"),
    "Lambda.body": ("v1 = lambda a1: P", "cond"),
    "Lambda.default": ("v1 = lambda a1=P: v2", "once"),
    "Tuple": ("v1 = (v2, P)", "once"),
    "List": ("v1 = [P, v2]", "once"),
    "Set": ("v1 = {v2, P}", "once"),
    "Dict.key": ("v1 = {P: v2}", "once"),
    "Dict.value": ("v1 = {v2: P, v3: v4}", "once"),
    "Dict.unpack": ("v1 = {v2: v3, **P}", "once"),
    "Starred in List": ("v1 = [v2, *P]", "once"),
    "ListComp.elt": ("v1 = [P for i1 in v2]", "cond"),
    "ListComp.iter": ("v1 = [i1 for i1 in P]", "once"),
    "ListComp.if": ("v1 = [i1 for i1 in v2 if P]", "cond"),
    "ListComp.second iter": ("v1 = [i2 for i1 in v2 for i2 in P]", "cond"),
    "ListComp.elt nested": ("v1 = [v3(v4 + P) for i1 in v2]", "cond"),
    "SetComp.elt": ("v1 = {P for i1 in v2}", "cond"),
    "DictComp.key": ("v1 = {P: i1 for i1 in v2}", "cond"),
    "DictComp.value": ("v1 = {i1: P for i1 in v2}", "cond"),
    "GeneratorExp.elt": ("v1 = v3(P for i1 in v2)", "cond"),
    "GeneratorExp.elt nested": ("v1 = v3(v4(P) for i1 in v2)", "cond"),
    "Await": ("async def g1():\n    v1 = await P", "once"),
    "Yield": ("def g1():\n    v1 = yield P", "once"),
    "YieldFrom": ("def g1():\n    v1 = yield from P", "once"),
    "NamedExpr": ("v1 = (n1 := P)", "once"),
    "JoinedStr": ("v1 = f'a{P}b{v2}'", "once"),
    "JoinedStr format_spec": ("v1 = f'{v2:{P}}'", "once"),
}

BLOCK = {
    "Module": "S",
    "FunctionDef.body": "def g1(a1):\n    S",
    "AsyncFunctionDef.body": "async def g1(a1):\n    S",
    "ClassDef.body": "class G1(v1):\n    S",
    "method": "class G1(v1):\n    def g1(self):\n        S",
    "async method": "class G1(v1):\n    async def g1(self):\n        S",
    "If.body": "if v1:\n    S\nelse:\n    v2",
    "If.orelse": "if v1:\n    v2\nelse:\n    S",
    "elif body": "if v1:\n    v2\nelif v3:\n    S\nelse:\n    v4",
    "elif orelse": "if v1:\n    v2\nelif v3:\n    v4\nelse:\n    S",
    "nested if in else": "if v1:\n    v2\nelse:\n    v3\n    if v4:\n        S",
    "While.body": "while v1:\n    S\nelse:\n    v2",
    "While.orelse": "while v1:\n    v2\nelse:\n    S",
    "For.body": "for i1 in v1:\n    S\nelse:\n    v2",
    "For.orelse": "for i1 in v1:\n    v2\nelse:\n    S",
    "AsyncFor.body": "async def g1():\n    async for i1 in v1:\n        S\n    else:\n        v2",
    "AsyncFor.orelse": "async def g1():\n    async for i1 in v1:\n        v2\n    else:\n        S",
    "With.body": "with v1 as w1:\n    S",
    "AsyncWith.body": "async def g1():\n    async with v1 as w1:\n        S",
    "Try.body": "try:\n    S\nexcept v1:\n    v2\nelse:\n    v3\nfinally:\n    v4",
    "Try.handler": "try:\n    v1\nexcept v2:\n    S\nelse:\n    v3\nfinally:\n    v4",
    "Try.second handler": "try:\n    v1\nexcept v2:\n    v3\nexcept v4:\n    S",
    "Try.orelse": "try:\n    v1\nexcept v2:\n    v3\nelse:\n    S\nfinally:\n    v4",
    "Try.finalbody": "try:\n    v1\nfinally:\n    S",
    "Try.finalbody with handlers": "try:\n    v1\nexcept v2:\n    v3\nfinally:\n    S",
    "TryStar.body": "try:\n    S\nexcept* v1:\n    v2",
    "TryStar.handler": "try:\n    v1\nexcept* v2:\n    S",
    "match case": "match v1:\n    case 1:\n        v2\n    case _:\n        S",
    "function in if": "if v1:\n    def g1():\n        S",
    "loop in async function": "async def g1():\n    for i1 in v1:\n        S",
    "if in class": "class G1:\n    if v1:\n        S",
    "with in try in function": "def g1():\n    try:\n        with v1:\n            S\n    except v2:\n        v3",
}


def put(template, name, text):
    """replace the placeholder line/name by text (multi-line text is indented)"""
    import re

    out = []
    for line in template.split("\n"):
        if line.strip() == name and "\n" in text or line.strip() == name:
            ind = line[: len(line) - len(line.lstrip())]
            out += [ind + t if t else t for t in text.split("\n")]
        else:
            out.append(re.sub(r"\b%s\b" % name, lambda m: text, line))
    return "\n".join(out)
