"""C04: sections between off and on comments are kept byte for byte."""
from vlib import canon, fmt, gen as vgen, reflex
from vlib.run import Skip

RULE = """A case is a listfile with one or more off/on sections (between
statements, inside of blocks, inside of argument lists, empty, unterminated,
repeated; content with tabs, trailing blanks, odd indentation, mixed line
endings, multi-byte characters) and a random configuration. The monitor
extracts the sections of input and output with an independent lexer and
compares their bytes, and formats the text a second time with different
content in the sections to observe that the text outside of them does not
depend on it. Non-trivial: at least one section with content; distinct by
(sections, options)."""
COUNT = {"quick": 4000, "thorough": 150000}

OFF = ["# cmake-format: off", "#cmake-format: off", "# cmf: off",
       "#  cmf: off", "# cmake-format: off because of reasons"]
ON = ["# cmake-format: on", "#cmake-format: on", "# cmf: on", "# cmf: on  "]

FIXED = [
    "foo(  a)\n# cmake-format: off\nbar(  x)   \n\t baz( y )\n"
    "# cmake-format: on\nfoo(  b)\n",
    "\ufefffoo(  a)\n# cmake-format: off\nbar(  x)\n# cmake-format: on\nq( b)\n",
    "é(\n# cmf: off\n# cmf: on\n".replace("é(", "# é é é"),
    "# cmf: offset\nfoo(  a)\n# cmf: off \nfoo(  b)\n# cmf: on-line\n"
    "foo(  c)\n# cmf: on.\nfoo(  d)\n",
    "# é é é\n# cmf: off\nfoo(  é)  \n# cmf: on\nfoo(  é)\n",
    "foo( a)\n# cmake-format: off\nbar(  x)",
    "foo( a)\n# cmake-format: off\nbar(  x)\n\n\n  ",
    "foo( a)\n# cmf: off\nb( x)\n# cmf: off\nc(  y)\n# cmf: on\nd(  z)\n",
    "# cmf: on\nfoo(  a)\n# cmf: off\n# cmf: on\nb(  c)\n",
    "if(A)\n    # cmf: off\n\tfoo(  a)\n  # cmf: on\n  b(  c)\nendif()\n",
    "# cmf: off\r\nfoo(  a)\r\n# cmf: on\r\nb(  c)\r\n",
    "foo(a   b\n# cmf: off\n  c   d # x\n# cmf: on\n e  f)\n",
    "foo(a   b\n# cmf: off\n  c   d)\nbar(  e)\n# cmf: on\nbaz(  f)\n",
    "add_library(x z  b\n# cmf: off\n  c   a # x\n# cmf: on\n e)\n",
    "add_executable(x z  b\n# cmf: off\n  c   a # x\n# cmf: on\n e)\n",
    "set_target_properties(x PROPERTIES a   b\n# cmf: off\n  c   d\n# cmf: on\n"
    " e  f)\n",
    "if(a\n# cmf: off\n  AND   (b  OR\n c)\n# cmf: on\n AND  d)\nendif()\n",
    "set(x \"a   \n  b\"\n# cmf: off\n\"a   \n  b\"   [[ x  \n ]]\n# cmf: on\n)\n",
]
CONFIGS = [{}, {"line_width": 20}, {"use_tabchars": True, "tab_size": 4},
           {"line_ending": "windows"}, {"line_ending": "auto"},
           {"autosort": True}, {"emit_byteorder_mark": True}]


def fixed():
  for text in FIXED:
    for cfg in CONFIGS:
      yield {"text": text, "config": cfg}


def messy(rng):
  """A section's content: statements, badly laid out."""
  gen = vgen.Gen(rng, trailws=True, onoff=0, onoff_args=0)
  lines = []
  for _ in range(rng.choice([0, 1, 1, 2, 4])):
    roll = rng.random()
    if roll < 0.15:
      lines.append(rng.choice(["", "   ", "\t", " \t ", "", ""]))
    elif roll < 0.3:
      lines.append(rng.choice(["", "\t", "   "]) + rng.choice(
          ["#  x   y ", "#x", "#", "#[[ a  \n   b ]]", "# * a", "## z  "]))
    elif roll < 0.4:
      lines.append("  IF  ( A  )")
      lines.append("foo( b )")
      lines.append("     endif(  A )  ")
    else:
      lines.append(rng.choice(["", "\t", " ", "      "])
                   + gen.command(*gen.simple()) + rng.choice(["", "  ", "\t"]))
  nl = "\r\n" if rng.random() < 0.2 else "\n"
  return "\n" + "".join(line + nl for line in lines)


def gen(rng, idx, tier):
  cfg = fmt.make_cfg(rng)
  if rng.random() < 0.15:
    cfg["autosort"] = True
  if rng.random() < 0.2:
    return {"text": vgen.Gen(rng, onoff_args=0.5, onoff=0.2,
                             trailws=True).listfile(rng.choice([1, 2, 4])),
            "config": cfg}
  base = fmt.make_text(rng, idx, onoff=0, onoff_args=0)
  toks = reflex.lex(base)
  # insertion points: starts of lines outside of argument lists
  points = [0 if not base.startswith("\ufeff") else 1]
  depth = 0
  for tok in toks:
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    elif tok.kind == "nl" and depth == 0:
      points.append(tok.pos + len(tok.text))
  if not base.endswith("\n"):
    base += "\n"
    points.append(len(base))
  count = min(len(points), rng.choice([1, 1, 2, 3]))
  chosen = sorted(rng.sample(points, count))
  parts = []
  prev = 0
  for num, point in enumerate(chosen):
    parts.append(base[prev:point])
    prev = point
    pad = rng.choice(["", "", "  ", "\t"])
    text = pad + rng.choice(OFF) + messy(rng)
    if rng.random() < 0.05:
      text += rng.choice(OFF) + messy(rng)
    if num == count - 1 and rng.random() < 0.08:
      parts.append(text)        # unterminated
      continue
    parts.append(text + rng.choice(["", "", "   ", "\t"]) + rng.choice(ON)
                 + "\n")
  parts.append(base[prev:])
  return {"text": "".join(parts), "config": cfg}


def sections(text):
  """-> list of (start, end or None for unterminated, paren depth at start)"""
  out = []
  start = None
  depth = depth0 = 0
  for tok in reflex.lex(text):
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    elif tok.kind == "lc":
      match = canon.ONOFF.match(tok.text.rstrip())
      if not match:
        continue
      if match.group(1) == "off" and start is None:
        start, depth0 = tok.pos + len(tok.text), depth
      elif match.group(1) == "on" and start is not None:
        out.append((start, tok.pos, depth0))
        start = None
  if start is not None:
    out.append((start, None, depth0))
  return out


def content(text, section):
  start, end, _depth = section
  if end is None:
    return text[start:].rstrip("\r\n")
  return text[start:end]


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  secs = sections(text)
  if not secs:
    raise Skip("no section")
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  try:
    outsecs = sections(out)
  except reflex.RefError as ex:
    return "CMake rejects the output: %s\n%s" % (ex, out)
  want = [content(text, sec) for sec in secs]
  got = [content(out, sec) for sec in outsecs]
  if want != got:
    return "sections changed: %r became %r\n%s" % (want, got, out)
  obs.hit("sections_compared", len(want))
  obs.hit("section_bytes", sum(len(w) for w in want))
  if any(w.strip() for w in want):
    obs.see(tuple(want), repr(cfg))

  # the outside must not depend on the inside
  if all(sec[2] == 0 for sec in secs) and cfg.get("line_ending") != "auto":
    for sec in secs:
      if not balanced(text[sec[0]:sec[1]]):
        return None
    parts, prev = [], 0
    for start, end, _depth in secs:
      parts.append(text[prev:start])
      old = text[start:end]
      tail = old[len(old.rstrip(" \t")):] if end is not None else ""
      parts.append("\nzz(  zz  )\n" + tail)
      prev = end if end is not None else len(text)
    parts.append(text[prev:])
    other = "".join(parts)
    out2, _valid, err = fmt.try_fmt(other, cfg)
    if err:
      return "with other section content: %s" % err
    hole1 = outside(out, outsecs)
    hole2 = outside(out2, sections(out2))
    obs.hit("outside_compared")
    if hole1 != hole2:
      return ("the text outside of the sections depends on their content:\n"
              "%s\n---- vs\n%s" % (hole1, hole2))
  return None


def balanced(text):
  try:
    return reflex.blocks_balanced(reflex.commands(reflex.lex(text)))
  except reflex.RefError:
    return False


def outside(out, secs):
  parts, prev = [], 0
  for start, end, _depth in secs:
    parts.append(out[prev:start])
    prev = end if end is not None else len(out)
  parts.append(out[prev:])
  return "<section>".join(parts)
