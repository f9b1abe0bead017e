"""C06: the result does not depend on how the input was laid out."""
import random

from vlib import canon, fmt, reflex
from vlib.run import Skip

RULE = """A case is a listfile, a random configuration and a seed from which
the monitor derives two variants of the text with the same tokens but other
white space: blanks, tabs and newlines inside of argument lists, indentation,
blanks before parentheses, trailing blanks, the number (from two up) of
consecutive empty lines. All are formatted and the results are compared byte
for byte. Non-trivial: the variants differ; distinct by (commands, shape of
the output, options)."""
COUNT = {"quick": 3000, "thorough": 120000}

FIXED = [
    "foo(a b c)\n", "foo()\n", "foo(a;b c)\n\nbar()\n\n\n# x\nbaz(a)\n",
    "if(A AND (B OR C))\n  foo(a)\n\n  bar(b)\nelse()\n\n# c\nendif()\n",
    "set(X a b c PARENT_SCOPE)\n",
    "install(TARGETS a b RUNTIME DESTINATION c LIBRARY DESTINATION d)\n",
    "add_custom_command(OUTPUT a COMMAND b c d DEPENDS e f COMMENT \"g h\")\n",
    "add_library(foo STATIC b.cc a.cc d.cc c.cc)\nadd_executable(x y z)\n",
    "set_target_properties(a b PROPERTIES C d E f)\n",
    "file(COPY a b DESTINATION c FILES_MATCHING PATTERN \"*.h\" EXCLUDE)\n",
    "foo(\"a\nb\" [[c\n  d]])\n", "# a\n# b\n\n# c\nfoo(a)\n",
    "#[[ a\n b ]]\nfoo(a)\n", "@PACKAGE_INIT@\n\nfoo(a)\n",
    "foreach(x IN LISTS a b)\nendforeach(x)\nwhile(a)\nendwhile()\n",
    "function(f a b)\n# x\nendfunction(f)\nmacro(m)\n\nendmacro()\n",
]


def fixed():
  for text in FIXED:
    for seed in range(6):
      for cfg in ({}, {"line_width": 20}, {"use_tabchars": True}):
        yield {"text": text, "config": cfg, "seed": seed}


def gen(rng, idx, tier):
  text = fmt.make_text(rng, idx, argcomments=False, onoff=0, onoff_args=0,
                       trailws=False)
  return {"text": fmt.align_comments(simplify(text)), "config": fmt.make_cfg(rng),
          "seed": rng.randrange(1 << 30)}


def simplify(text):
  """Drop comments in argument lists and behind statements."""
  out = []
  depth = 0
  behind = False
  for tok in reflex.lex(text):
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      behind = True
    elif tok.kind == "nl":
      behind = False
    elif tok.kind in ("lc", "bc") and (depth or behind):
      continue
    elif tok.kind not in ("sp", "lc", "bc"):
      behind = True
    out.append(tok.text)
  return "".join(out)


def vary(text, rng):
  """The same tokens with other white space."""
  toks = reflex.lex(text)
  out = []
  depth = 0
  idx = 0
  pad = ""
  block = False
  nl = "\r\n" if "\r\n" in text else "\n"

  def blanks(low):
    return "".join(rng.choice("   \t") for _ in range(
        rng.choice([low, low, low + 1, 4, 9])))

  def any_ws(low):
    roll = rng.random()
    if roll < 0.3:
      return blanks(0) + nl * rng.choice([1, 1, 1, 2, 3]) + blanks(0)
    return blanks(low)

  prev = None
  while idx < len(toks):
    tok = toks[idx]
    run = []
    while idx < len(toks) and toks[idx].kind in ("sp", "nl"):
      run.append(toks[idx])
      idx += 1
    tok = toks[idx] if idx < len(toks) else None
    kind = tok.kind if tok else None
    lines = sum(t.kind == "nl" for t in run)
    if depth:
      if run:
        out.append(any_ws(1))
      elif kind == ")" and prev not in ("(", ")") and prev != "uq":
        out.append(any_ws(0))
      elif prev == "(" or (kind == ")" and prev is not None):
        out.append(any_ws(0))
    elif kind == "(":
      out.append(blanks(0))
    elif lines:
      count = lines
      if tok is not None and count >= 3:
        count = rng.choice([3, 4, 6])
      for _ in range(count):
        if prev == "lc":
          # blanks behind a line comment are part of it
          out.append(nl)
        else:
          out.append((blanks(0) if rng.random() < 0.3 else "") + nl)
        prev = "nl"
      if kind in ("lc", "bc") and lines == 1 and block:
        pass                    # the same column as the comment in front
      else:
        pad = rng.choice(["", "", " ", "  ", "    ", " " * 11])
        if kind not in ("lc", "bc") and rng.random() < 0.2:
          pad = "\t"
      if tok is not None:
        out.append(pad)
    elif run:
      out.append(blanks(1) if prev is not None else "")
    if tok is None:
      break
    block = kind in ("lc", "bc") and not depth
    if kind == "(":
      depth += 1
    elif kind == ")":
      depth -= 1
    out.append(tok.text)
    prev = kind
    idx += 1
  return "".join(out)


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  if any(t.kind == "lc" and canon.ONOFF.match(t.text.rstrip())
         for t in toks):
    raise Skip("off/on section")
  want = [(t.kind, t.text) for t in toks if t.kind not in ("sp", "nl")]
  rng = random.Random(payload["seed"])
  out, valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  for _ in range(2):
    other = vary(text, rng)
    got = [(t.kind, t.text) for t in reflex.lex(other)
           if t.kind not in ("sp", "nl")]
    assert got == want, (text, other)
    out2, valid2, err = fmt.try_fmt(other, cfg)
    if err:
      return "%s on %r" % (err, other)
    if cfg.get("line_ending") == "auto":
      out, out2 = out.replace("\r\n", "\n"), out2.replace("\r\n", "\n")
    obs.hit("variants_compared")
    if out2 != out:
      return "variant\n%s\nis formatted as\n%s\nbut the text as\n%s" % (
          other, out2, out)
    if valid != valid2:
      return "variant %r: layout valid %s vs %s" % (other, valid2, valid)
    if other != text:
      obs.see(fmt.features(toks, out, cfg))
  return None
