"""C32: blank lines and line structure."""
from vlib import canon, fmt, reflex
from vlib.run import Skip

RULE = """A case is a listfile and a configuration. The monitor lexes input and
output with the reference lexer and compares where the empty lines are: between
the same statements or words of comments as in the input, one each, none at the
begin or end of the file (an empty block has one). In the output there are no
empty lines in argument lists, every statement begins a line, and there is one
newline at the end. Lines inside of strings, brackets, comments and off/on
sections do not count. Non-trivial: the input has an empty line between two
items, or the output one; distinct by (places, lines, configuration)."""
COUNT = {"quick": 5000, "thorough": 200000}

HAND = [
    "foo()\nbar()\n", "foo()\n\nbar()\n", "foo()\n\n\n\nbar()\n", "\n\nfoo()",
    "foo()\n\n\n", "\n", "", "# a\n# b\n\n# c\n\n\n# d\nfoo()\n",
    "# a\n#\n# b\n#\n\n#\n# c\nfoo()\n\n#\n\nbar()\n",
    "if(a)\n\nfoo()\n\n\n# b\n\nendif()\n", "if(a)\nendif()\n",
    "if(a)\n\n\nendif()\n", "if(a)\n# c\n\nelse()\n\n\n# d\nendif()\n",
    "if(a)\nelse()\nelseif(b)\n\nendif()\nfoo()\n",
    "foo()   # c\n\n# d\n\n#[[ x\n\n y ]]\n\nbar()\n",
    "foo(a\n\n\nb)\n", "foo(\n\n)\n", "foo(a # b\n\n  # c\n\n d)\n",
    "foo(\"a\n\nb\" [[\n\n]])\n\nbar()\n", "foo(a\n\n  KW b\n\n KV c)\n",
    "#[[ x ]]\n\n#[[ y ]]\nfoo()\n", "@A@\n\n@B@\nfoo()\n",
    " \n\t\nfoo()\n \n  \n\t\nbar()\n \n", "foo()\r\n\r\n\r\nbar()\r\n",
    "# ~~~\n# a\n#\n# b\n# ~~~\n\nfoo()\n", "# - a\n#\n# - b\n\n# 1. c\nfoo()\n",
    "####\n# a\n####\n\nfoo()\n", "#[[c]]foo()\n\n#[[d]] bar()\n",
    "while(a)\n\n# c\n\n\n\n# d\nendwhile()\n\n\nmacro(m)\n\n\nendmacro()\n",
    "#!/usr/bin/cmake -P\n\n\nfoo()\n", "\ufefffoo()\n\nbar()\n",
    "foo() # a\n      # b\n\n      # c\nbar()\n",
    "# cmake-format: off\nfoo()\n\n\nbar()\n# cmake-format: on\n\nbaz()\n",
]


def fixed():
  for text in HAND:
    for cfg in ({}, {"line_width": 20}, {"enable_markup": False},
                {"line_ending": "windows"}, {"first_comment_is_literal": True},
                {"max_pargs_hwrap": 0, "dangle_parens": True}):
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  cfg = fmt.make_cfg(rng)
  text = fmt.make_text(rng, idx)
  if rng.random() < 0.3:
    text = more_blanks(rng, text)
  return {"text": text, "config": cfg}


def more_blanks(rng, text):
  out = []
  try:
    toks = reflex.lex(text)
  except reflex.RefError:
    return text
  for tok in toks:
    out.append(tok.text)
    if tok.kind == "nl" and rng.random() < 0.2:
      out.append(rng.choice(["", "  ", "\t"]) + tok.text)
      if rng.random() < 0.3:
        out.append(tok.text)
  return "".join(out)


def places(toks):
  """
  -> (positions of empty lines, total): a position is the number of commands
  and words of comments in front of it; of the blocks without content, the
  positions are in the third set
  """
  out = []
  count = 0
  depth = 0
  run = 0
  sig = None
  empty = set()
  off = False
  fresh = True
  for tok in toks:
    if tok.kind == "sp":
      continue
    if tok.kind == "nl":
      if depth == 0:
        run += 1
        fresh = True
      continue
    if depth == 0 and not off:
      if run >= 2 and sig is not None:
        out.append(count)
      if tok.kind == "id":
        name = tok.text.lower()
        if sig in OPENERS and (name in CLOSERS):
          empty.add(count)
        sig = name
        count += 1
        fresh = False
      elif tok.kind not in ("(", ")", "lc", "bc"):
        sig = tok.kind
        fresh = False
    run = 0
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      if not depth and not off:
        count += 1
    elif tok.kind in ("lc", "bc"):
      switch = canon.ONOFF.match(tok.text.rstrip()) if tok.kind == "lc" else 0
      if switch and not depth:
        if not off:
          count += 1
        off = switch.group(1) == "off"
        if not off:
          sig = "on"
        if switch.group(1) == "on":
          run = 0
      elif not off:
        count += len(canon.comment_words(tok.text))
        if depth == 0 and fresh:
          sig = tok.kind
    elif tok.kind == "at" and not off:
      count += 1
  return sorted(set(out)), count, empty, off


OPENERS = ("if", "else", "elseif", "foreach", "while", "function", "macro")
CLOSERS = ("endif", "else", "elseif", "endforeach", "endwhile", "endfunction",
           "endmacro")


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  if fmt.onoff_in_args(toks):
    raise Skip("switch in an argument list (C04)")
  if any(t.kind == "lc" and t.text.startswith("#<") for t in toks):
    raise Skip("explicit trailing comments belong to the statement above")
  out, _, err = fmt.try_fmt(text, cfg)
  if err:
    raise Skip("refused")
  try:
    otoks = reflex.lex(out)
  except reflex.RefError:
    raise Skip("C01")
  before, count, empty, off = places(toks)
  after, ocount, _, _ = places(otoks)
  if count != ocount:
    raise Skip("C01/C02")
  want = sorted(set(before) | empty)
  if after != want:
    return ("empty lines are at %r (commands and words of comments in front "
            "of them), in the input %r" % (
                [x for x in after if x not in want] or after,
                [x for x in want if x not in after] or want))
  msg = shape(otoks, out, off)
  if msg:
    return msg
  if before or after:
    obs.hit("empty lines between items of the input", len(before))
    obs.hit("runs of more than one", text.count("\n\n\n"))
    obs.hit("blocks without content", len(empty))
    obs.see(tuple(want)[:20], len(want), len(out.split("\n")),
            sorted(cfg.items(), key=repr))
  return None


def shape(otoks, out, off):
  depth = 0
  fresh = True
  blanks = 0
  inactive = False
  for tok in otoks:
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    if tok.kind == "lc":
      switch = canon.ONOFF.match(tok.text.rstrip())
      if switch:
        inactive = switch.group(1) == "off"
    if tok.kind == "id" and not fresh and not inactive:
      return "%s() in line %d does not begin a line" % (tok.text, tok.line)
    if tok.kind == "nl":
      blanks += 1
      fresh = True
      if not inactive and blanks > (1 if depth else 2):
        return "empty line in an argument list, or two in line %d" % tok.line
    elif tok.kind != "sp":
      fresh = False
      blanks = 0
  text = out.replace("\r\n", "\n")
  if not off and (not text.endswith("\n") or text.endswith("\n\n")):
    return "the output ends with %r" % out[-10:]
  return None
