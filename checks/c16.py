"""C16: the parse tree holds every token once, in order, and nests right."""
from vlib import canon, fmt, gen as vgen, reflex
from vlib.run import Skip

RULE = """A case is a listfile, with or without user specified commands whose
names and keywords occur in it. The monitor reads the leaves of the parse tree
from left to right: they must be the tokens of the file, each once; compares
the statements (name, arguments between its parentheses, nested parentheses)
and the nesting of blocks with an independent reading of the file; and checks
the links from child to parent. Non-trivial: a block or a nested group;
distinct by shape of the tree."""
COUNT = {"quick": 6000, "thorough": 250000}

BLOCKS = {"if": "endif", "foreach": "endforeach", "while": "endwhile",
          "function": "endfunction", "macro": "endmacro"}


HAND = [
    "foo()\n", "if(a)\nelseif(b)\nelse()\nendif()\n",
    "if(a)\nif(b)\nelse()\nendif()\nelse()\nfoo()\nendif()\n",
    "foreach(a b)\nwhile(x)\nfoo()\nendwhile()\nendforeach()\n",
    "FUNCTION(a)\nMacro(b)\nEndMacro()\nENDFUNCTION()\n",
    "function(a)\n# c\n\nendfunction() # d\n", "block()\nif(a)\nendif()\n"
    "endblock()\n", "@x@\nif(a)\n@y@ # c\nendif()\n",
    "if((a AND b) OR (NOT (c OR d)))\nendif()\n", "foo(a (b) c)\n",
    "install(TARGETS a RUNTIME DESTINATION b COMPONENT c)\n",
    "install(RUNTIME COMPONENT runtime)\n", "set(a # c\n b)\n",
    "foo(# c\n)\n", "foo(\n# a\n\n# b\nx #[[c]] y\n# d\n)\n",
    "install(TARGETS a DESTINATION#c\n b)\n",
    "set(x y CACHE#c\n STRING z)\n", "set(x y PARENT_SCOPE#c\n)\n",
    "if(a AND#c\n b)\nendif()\n", "if(a OR\n#c\n(b))\nendif()\n",
    "set_target_properties(a PROPERTIES VERSION 1 # c\n\n X \n 2)\n",
    "# a\n # b\n\n# c\nfoo()\n", "add_library(x)\n", "set()\n",
]


def fixed():
  for text in HAND:
    yield {"text": text, "config": {}}
  for key in ("mykey", "-X", "-x", "12", "a::b", "@x@", "SS", "KEY"):
    for text in ("foo(a mykey b MYKEY c -x d -X e 12 f)\n",
                 "foo(a::b A::B @x@ c @X@ d \u00df e SS)\n",
                 "foo(\"KEY\" [[KEY]] ${KEY} key#c\n KEY#d\n)\n"):
      for spec in ({"kwargs": {key: "*"}}, {"flags": [key]},
                   {"pargs": 1, "kwargs": {key: 1}}):
        yield {"text": text, "config": {"additional_commands": {"foo": spec}}}


def gen(rng, idx, tier):
  text = fmt.make_text(rng, idx)
  cfg = {}
  if rng.random() < 0.3:
    try:
      cmds = reflex.commands(reflex.lex(text))
    except reflex.RefError:
      return None
    extra = {}
    for cmd in cmds:
      if cmd.args is None or cmd.name.lower() in BLOCKS:
        continue
      words = [a[1] for a in cmd.args if a[0] == "uq" and a[1].isalpha()]
      if words and rng.random() < 0.5 and len(extra) < 3:
        case = rng.choice([str.upper, str.lower, str])
        kwargs = {case(w): rng.choice(["*", "+", "?", 1, 2, 0])
                  for w in rng.sample(words, min(len(words), 3))}
        extra[cmd.name] = {"pargs": rng.choice(["*", "+", "?", 0, 1, 2]),
                           "kwargs": kwargs,
                           "flags": rng.sample(words, 1)
                                    if rng.random() < 0.3 else []}
    if extra:
      cfg["additional_commands"] = extra
  return {"text": text, "config": cfg}


def expected(toks):
  """The nesting of blocks: [name, args] and ["flow", [...]]."""
  cmds = reflex.commands(toks)

  def body(idx, stop):
    out = []
    while idx < len(cmds):
      low = cmds[idx].name.lower()
      if low in stop:
        return out, idx
      if cmds[idx].args is not None and low in BLOCKS:
        flow = []
        inner = (BLOCKS[low],) + (("else", "elseif") if low == "if" else ())
        flow.append(stmt(cmds[idx]))
        idx += 1
        while True:
          sub, idx = body(idx, inner)
          flow.append(sub)
          flow.append(stmt(cmds[idx]))
          idx += 1
          if flow[-1][0].lower() == BLOCKS[low]:
            break
        out.append(["flow", flow])
      else:
        out.append(stmt(cmds[idx]))
        idx += 1
    return out, idx

  return body(0, ())[0]


def stmt(cmd):
  return [cmd.name, None if cmd.args is None else [a[1] for a in cmd.args]]


def unglue(args, source):
  """The tool reads arguments that touch as one; compare them joined."""
  return "".join(args)


def shape(node, depth=0):
  return (node.node_type.name, tuple(
      shape(c, depth + 1) for c in node.children
      if hasattr(c, "node_type") and depth < 5))


def judge(payload, obs):
  text = payload["text"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  from cmakelang import lex, parse
  cfg = fmt.make_config(payload["config"])
  tokens = lex.tokenize(text)
  want = [t for t in tokens if t.type.name != "BYTEORDER_MARK"]
  parse_db = parse.funs.get_parse_db()
  parse_db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
  tree = parse.parse(list(tokens), parse.ParseContext(parse_db, config=cfg))
  tree.build_ancestry()

  leaves = []
  trouble = []

  def walk(node):
    for child in node.children:
      if hasattr(child, "node_type"):
        if child.parent is not node:
          trouble.append("parent of %r is %r instead of %r"
                         % (child, child.parent, node))
        walk(child)
      else:
        leaves.append(child)

  walk(tree)
  if trouble:
    return trouble[0]
  if len(leaves) != len(want) or any(
      a is not b for a, b in zip(leaves, want)):
    return "leaves are not the tokens: %r instead of %r" % (
        [t.spelling for t in leaves if t not in want][:5]
        or "".join(t.spelling for t in leaves), "".join(
            t.spelling for t in want))

  def statement(node):
    flat = node.get_tokens(kind="semantic")
    words = [t.spelling for t in flat]
    if node.node_type.name == "ATWORDSTATEMENT":
      return [words[0], None]
    if words[1:2] != ["("] or words[-1:] != [")"]:
      trouble.append("statement is %r" % (words,))
    kinds = [c.node_type.name for c in node.children
             if hasattr(c, "node_type")]
    main = [k for k in kinds if k not in ("COMMENT", "ONOFFSWITCH")]
    if main != ["FUNNAME", "LPAREN", "ARGGROUP", "RPAREN"]:
      trouble.append("children of a statement are %r" % (kinds,))
    parens(node, 1)
    return [words[0], words[2:-1]]

  def parens(node, level):
    """Every nested pair of parentheses is a group of its own."""
    for child in node.children:
      if not hasattr(child, "node_type"):
        continue
      if child.node_type.name == "PARENGROUP":
        words = [t.spelling for t in child.get_tokens(kind="semantic")]
        depth = 0
        for num, word in enumerate(words):
          depth += (word == "(") - (word == ")")
          if depth == 0 and num + 1 < len(words):
            trouble.append("unbalanced group %r" % (words,))
            break
        if depth or words[0] != "(":
          trouble.append("unbalanced group %r" % (words,))
        obs.hit("groups in parentheses")
        parens(child, level + 1)
      else:
        parens(child, level)

  def body(node):
    out = []
    for child in node.children:
      kind = child.node_type.name
      if kind == "FLOW_CONTROL":
        flow = []
        for part in child.children:
          if part.node_type.name == "BODY":
            flow.append(body(part))
          elif part.node_type.name == "STATEMENT":
            flow.append(statement(part))
          elif part.node_type.name not in ("COMMENT", "WHITESPACE"):
            trouble.append("%s in a block" % part.node_type.name)
        out.append(["flow", flow])
      elif kind in ("STATEMENT", "ATWORDSTATEMENT"):
        out.append(statement(child))
      elif kind not in ("COMMENT", "WHITESPACE", "ONOFFSWITCH"):
        trouble.append("%s in a body" % kind)
    return out

  got = body(tree)
  if trouble:
    return trouble[0]

  def joined(item):
    if item[0] == "flow" and isinstance(item[1], list) and item[1] \
        and isinstance(item[1][0], list):
      return ["flow"] + [joined_part(p) for p in item[1]]
    return [item[0], None if item[1] is None else "".join(item[1])]

  def joined_part(part):
    if part and isinstance(part[0], str):
      return joined(part)
    return [joined(p) for p in part]

  ref = [joined(i) for i in expected(toks)]
  got = [joined(i) for i in got]
  if ref != got:
    for one, two in zip(ref, got):
      if one != two:
        return "read as %r instead of %r" % (two, one)
    return "%d items at the top instead of %d" % (len(got), len(ref))
  obs.hit("leaves", len(leaves))
  obs.hit("statements", len(reflex.commands(toks)))
  obs.see(shape(tree))
  return None
