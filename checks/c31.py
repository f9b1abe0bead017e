"""C31: blocks are indented by their depth, statements formatted on their own."""
from vlib import canon, fmt, reflex
from vlib.run import Skip

RULE = """A case is a listfile and a configuration. The monitor splits the text
with the reference lexer into logical lines (statements with their trailing
comments, groups of comment lines, openers and closers of blocks), formats each
of them alone with the real formatter, in a line width reduced by the width of
the indentation, puts the results together with the indentation of their depth
and one empty line where the text has some, and compares with the result for
the whole text, byte for byte, as well as the validity of the layout.
Non-trivial: two units or more; distinct by (depths, kinds of units, shape of
the output, options)."""
COUNT = {"quick": 1200, "thorough": 80000}

OPEN = ("if", "foreach", "while", "function", "macro")
CLOSE = tuple("end" + name for name in OPEN)
MID = ("else", "elseif")

HAND = [
    "if(A)\nfoo(a)\nelseif(B)\nbar(b)\nelse()\nbaz(c)\nendif()\n",
    "function(f x)\nif(A)\nforeach(x a b)\nwhile(c)\nfoo(a b)\nendwhile()\n"
    "endforeach()\nendif()\nendfunction()\n",
    "macro(m)\nset(x \"a\n  b\")\n#[[ c\n d ]]\nmessage([[a\n b]])\nendmacro()\n",
    "foo(a)\n# one\n# two\n\n\n# three\nbar(b)\n\n\n\nbaz(c)\n",
    "if(A) # c\n  # d\n  foo(a) # e\nelse() # f\nendif() # g\n",
    "if(A)\nelse()\nendif()\nwhile(1)\nendwhile()\n",
    "if(A)\n\n\nfoo()\n\n\nendif()\n\n\n",
    "if(A AND B AND C OR (D AND E) OR NOT F AND G STREQUAL H AND J EQUAL K)\n"
    "set(x aaaaaaaaaaaaa bbbbbbbbbbbbbbbb cccccccccccccc dddddddddddd eeeeee)\n"
    "endif(A)\n",
    "foreach(x RANGE 3)\nadd_custom_command(OUTPUT aaaaaaaaaaaaaa bbbbbbbbbbb "
    "COMMAND ccccccccccccc dddddddddddddddd eeeeeeee DEPENDS fffff)\n"
    "endforeach()\nadd_custom_command(OUTPUT aaaaaaaaaaaaaa bbbbbbbbbbb "
    "COMMAND ccccccccccccc dddddddddddddddd eeeeeeee DEPENDS fffff)\n",
    "if(A)\n# - one\n#   two\n# - three\n\n# ~~~\n#   x\n# ~~~\nfoo()\nendif()\n",
    "function(f)\n\n# a\nendfunction()\n\n# b\n",
    "IF(A)\n@X@\nENDIF(A)\n",
    "block()\nfoo()\nendblock()\n",
    "if(A)\nwhile(b)\n@PACKAGE_INIT@ # one two three four five six seven eight\n"
    "endwhile()\n@FOO@ # a %s b\nfoo() # a %s b\nendif()\n@X@\nfoo()\n" % (
        "b" * 32, "c" * 33),
]


def fixed():
  for text in HAND:
    for cfg in ({}, {"tab_size": 4}, {"tab_size": 8, "line_width": 60},
                {"line_width": 40, "dangle_parens": True},
                {"line_width": 28},
                {"separate_ctrl_name_with_space": True, "tab_size": 3},
                {"max_pargs_hwrap": 1, "tab_size": 1}):
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  cfg = fmt.make_cfg(rng)
  for key in ("use_tabchars", "fractional_tab_policy", "line_ending",
              "emit_byteorder_mark", "first_comment_is_literal"):
    cfg.pop(key, None)
  if rng.random() < 0.5:
    cfg["tab_size"] = rng.choice([1, 2, 3, 4, 8])
  text = fmt.make_text(rng, idx, onoff=0, onoff_args=0)
  if rng.random() < 0.5:
    text = wrap(rng, text)
  return {"text": text, "config": cfg}


def wrap(rng, text):
  """Put all of it into blocks."""
  head, tail = [], []
  for _ in range(rng.randint(1, 4)):
    name = rng.choice(OPEN)
    head.append("%s(%s)" % (name, rng.choice(["a", "a b", "x"])))
    if name == "if" and rng.random() < 0.4:
      head.append("foo(a)")
      head.append(rng.choice(["else()", "elseif(b)"]))
    tail.insert(0, "end%s()" % name)
  return "\n".join(head) + "\n" + text + (
      "" if text.endswith("\n") else "\n") + "\n".join(tail) + "\n"


def units(toks):
  """-> list of (kind, text), kind: blank, open, mid, close, plain"""
  lines = []
  cur = []
  depth = 0
  for tok in toks:
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    if tok.kind == "nl" and depth == 0:
      lines.append(cur)
      cur = []
    else:
      cur.append(tok)
  if cur:
    lines.append(cur)
  out = []
  joinable = False
  for cur in lines:
    kinds = [t.kind for t in cur if t.kind != "sp"]
    if not kinds:
      if not out or out[-1][0] != "blank":
        out.append(["blank", ""])
      joinable = False
      continue
    text = "".join(t.text for t in cur)
    ident = [t.text.lower() for t in cur if t.kind == "id"]
    if kinds == ["lc"] and joinable:
      out[-1][1] += "\n" + text
      continue
    kind = "plain"
    if ident:
      if ident[0] in OPEN:
        kind = "open"
      elif ident[0] in CLOSE:
        kind = "close"
      elif ident[0] in MID:
        kind = "mid"
    out.append([kind, text])
    joinable = "lc" in kinds and kinds[-1] == "lc"
  return out


def multiline(text):
  return any("\n" in t.text for t in reflex.lex(text) if t.kind != "nl")


def indent(text, width):
  """Indent the lines that do not begin within a token."""
  inside = set()
  for tok in reflex.lex(text):
    for num in range(1, tok.text.count("\n") + 1):
      if tok.kind != "nl":
        inside.add(tok.line + num)
  return [line if num in inside or not line else " " * width + line
          for num, line in enumerate(text.split("\n"), 1)]


MARK = "zzz_mark"


def alone(kind, text, cfg, nest=0):
  """-> lines of the unit formatted on its own, in `nest` blocks"""
  name = [t.text for t in reflex.lex(text) if t.kind == "id"]
  name = name[0].lower() if name else None
  mark = "\n%s()\n" % MARK
  if kind == "open":
    whole = text + mark + "end%s()\n" % name
  elif kind == "close":
    whole = "%s()" % name[3:] + mark + text + "\n"
  elif kind == "mid":
    whole = "if()" + mark + text + mark + "endif()\n"
  elif nest:
    whole = "if()\n" * nest + mark + text + mark + "endif()\n" * nest
  else:
    whole = text + "\n"
  out, valid, err = fmt.try_fmt(whole, cfg)
  if err:
    raise Skip("refused")
  if not out.endswith("\n"):
    raise Skip("C07")
  lines = out[:-1].split("\n")
  marks = [c for c in reflex.commands(reflex.lex(out))
           if c.name.lower() == MARK]
  # keep what is in front of, behind, or between the marks
  if kind in ("open", "mid") or nest:
    del lines[marks[-1].line - 1:]
  if kind in ("close", "mid") or nest:
    del lines[:marks[0].endline]
  return "\n".join(lines), valid


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  text = text.replace("\r\n", "\n").lstrip("\ufeff")
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  if any(t.kind == "lc" and canon.ONOFF.match(t.text.rstrip()) for t in toks):
    raise Skip("switches (C04)")
  if any(t.kind == "lc" and t.text.startswith("#<") for t in toks):
    raise Skip("explicit trailing comments belong to the statement above")
  if "#!" in text:
    raise Skip("shebang, special in the first line only")
  if "\r" in text:
    raise Skip("lone carriage return")
  parts = units(toks)
  width = cfg.get("line_width", 80)
  tab = cfg.get("tab_size", 2)
  expect = []
  depth = 0
  valid = True
  depths = []
  last = None
  for idx, (kind, part) in enumerate(parts):
    if kind == "blank":
      if expect and idx + 1 < len(parts):
        expect.append("")
      continue
    if kind in ("close", "mid"):
      depth -= 1
    room = width - depth * tab
    if room < 12:
      raise Skip("no room")
    if kind == "plain" and depth and multiline(part):
      # the lines of a string are not indented, the room is not the same
      result, good = alone(kind, part, cfg, depth)
      lines = result.split("\n")
    elif depth and multiline(part):
      raise Skip("multi-line condition")
    else:
      result, good = alone(kind, part, dict(cfg, line_width=room))
      lines = indent(result, depth * tab)
    if kind in ("close", "mid"):
      if last in ("open", "mid") and expect[-1].lstrip().startswith("#"):
        raise Skip("is the comment the block's or the statement's")
      if last in ("open", "mid") and expect[-1]:
        expect.append("")   # an empty block has an empty line
    last = kind
    expect.extend(lines)
    valid = valid and good
    depths.append((kind, depth))
    if kind in ("open", "mid"):
      depth += 1
  out, got_valid, err = fmt.try_fmt(text, cfg)
  if err:
    raise Skip("refused")
  want = "\n".join(expect) + "\n"
  if not expect:
    raise Skip("nothing")
  if out != want:
    got = out.split("\n")
    exp = want.split("\n")
    for num, (one, two) in enumerate(zip(got + [None], exp + [None])):
      if one != two:
        return "line %d is %r, but formatted on its own it is %r" % (
            num + 1, one, two)
  if got_valid != valid:
    return ("the layout of the whole is reported as %s, of the parts as %s"
            % (got_valid, valid))
  if len(depths) > 1:
    obs.hit("statements and comments formatted alone", len(depths))
    obs.hit("of them inside of blocks", sum(1 for _, d in depths if d))
    obs.see(tuple(depths), len(expect), sorted(cfg.items(), key=repr))
  return None
