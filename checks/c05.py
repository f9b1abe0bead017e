"""C05: the line width is honoured, and breaches are reported."""
import bisect
import re

from vlib import canon, fmt, gen as vgen, reflex

RULE = """A case is a listfile and a random configuration (widths 20 to 200,
all wrapping thresholds). The monitor measures every line of the output (tabs
expanded, off/on sections excluded) and classifies the tokens on the lines
which are too wide: if the formatter called the layout valid there must be
none; otherwise each of them must be unavoidable (at most one argument besides
a keyword, or one word of a comment). Non-trivial: the output has a line of
more than half of the width; distinct by (options, widths seen, commands)."""
COUNT = {"quick": 6000, "thorough": 250000}

FIXED = [
    "foo(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa b c)\n",
    "foo(aaaaaaaaaa bbbbbbbbbb cccccccccc dddddddddd eeeeeeeeee ffffffffff "
    "gggggggggg)\n",
    "add_custom_command(OUTPUT aaaaaaaaaaaaaaaaaaaa COMMAND bbbbbbbbbbbbbbbbb "
    "cccccccccccccccc dddddddddddddddd eeeeeeeeeeee DEPENDS ffffffffffffff)\n",
    "if(AAAAAAAAAAAAAAAAAAAAAAAAAAA AND BBBBBBBBBBBBBBBBBBBBBBBBBBB OR "
    "(CCCCCCCCCCCCC AND DDDDDDDDDDDDDDDDDDDD))\nendif()\n",
    "foo(a) # this is a comment which is longer than the line and is wrapped\n",
    "# this is a comment which is much longer than the line and gets wrapped "
    "by the tool over some lines\nfoo(a)\n",
    "set(xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"
    " zzzzzz)\n",
]
# statements whose last line comes to within a character or two of the width
for _pad in range(60, 84):
  FIXED.append("foo(%s)\n" % ("a" * _pad))
  FIXED.append("foo(%s b)\n" % ("a" * _pad))
  FIXED.append("foo(%s) # c\n" % ("a" * (_pad - 4)))
  FIXED.append("foo(KEY %s # c\n b)\n" % ("a" * (_pad - 8)))
  FIXED.append("# %s b\n" % ("a" * _pad))
  FIXED.append("install(TARGETS %s DESTINATION bin)\n" % ("a" * (_pad - 32)))


def fixed():
  for text in FIXED:
    for cfg in ({}, {"line_width": 20}, {"dangle_parens": True},
                {"use_tabchars": True, "tab_size": 4}):
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  cfg = fmt.make_cfg(rng)
  cfg.pop("layout_passes", None)      # may forbid to break a line
  text = fmt.make_text(rng, idx, comments=rng.random() < 0.6)
  if rng.random() < 0.3:
    # aim the width at the length of a statement
    out, _valid, err = fmt.try_fmt(text, dict(cfg, line_width=rng.choice(
        [40, 60, 80, 120])))
    if not err:
      longest = max(len(line) for line in out.split("\n"))
      cfg["line_width"] = max(12, longest + rng.choice([-2, -1, -1, 0, 1]))
  return {"text": text, "config": cfg}


def classify(width, col, items, line, cfg, fenced):
  """Why the line may be too wide; None if there is no excuse."""
  kinds = [tok.kind for tok, _a, _b in items]
  if set(kinds) <= {")"} and len(line) - len(line.lstrip()) >= width:
    return "indentation"
  args = [item for item in items if item[0].kind in ("uq", "q", "b")]
  comments = [item for item in items if item[0].kind in ("lc", "bc")]
  # an argument glued to the one in front of it cannot be moved away from it
  args = [item for idx, item in enumerate(args)
          if not idx or item[0].pos > (args[idx - 1][0].pos
                                       + len(args[idx - 1][0].text))]
  if len(args) > 2:
    return None
  if len(args) == 2:
    if kinds[:1] == ["id"]:
      first = args[0][0]
    else:
      first = args[0][0]
    if first.kind != "uq":
      return None
    return "keyword and value"
  if args:
    return "one argument"
  if kinds == ["lc"]:
    text = items[0][0].text
    words = text.lstrip("#<").split()
    if text.startswith("#!"):
      return "shebang"
    literal = (not cfg.get("enable_markup", True) or fenced
               or cfg.get("first_comment_is_literal"))
    if literal:
      return "literal comment"
    if len(words) <= 2 or not canon.comment_words(text):
      return "one word"
    if len(text) <= 14:
      return "narrow comment"     # at least ten columns are given to comments
    return None
  if comments:
    return "comment"
  if kinds == ["at"]:
    return "@word@"
  if kinds and set(kinds) <= {"id", "("}:
    return "command name"
  return None


def enum_overshoot(items, line, over):
  """
  Known finding: the items of a numbered list are wrapped as if the number
  took two columns.
  """
  if [tok.kind for tok, _a, _b in items] != ["lc"]:
    return False
  match = re.match(r"#(?:  )* ( *\d+[.:)] |   +)", items[0][0].text)
  return bool(match) and over <= max(1, len(match.group(1)) - 2)


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  out, valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  width = cfg.get("line_width", 80)
  tab = cfg.get("tab_size", 2)
  flat = out.lstrip("\ufeff").replace("\r\n", "\n")
  try:
    otoks = reflex.lex(flat)
  except reflex.RefError as ex:
    return "CMake rejects the output: %s\n%s" % (ex, out)
  lines = flat.split("\n")
  starts = [0]
  for line in lines:
    starts.append(starts[-1] + len(line) + 1)
  by_line = {}
  exempt = set()
  off = False
  fence = False
  fenced = set()
  # a first comment with a shebang line is kept as it is, all of it
  shebang = flat.startswith("#!")
  for tok in otoks:
    first = bisect.bisect_right(starts, tok.pos) - 1
    last = bisect.bisect_right(starts, tok.pos + len(tok.text) - 1) - 1
    match = (canon.ONOFF.match(tok.text.rstrip()) if tok.kind == "lc"
             else None)
    if match and match.group(1) == "on":
      off = False
    if off or match:
      exempt.update(range(first, last + 1))
    if match and match.group(1) == "off":
      off = True
    if tok.kind == "lc":
      if tok.text.lstrip("#").strip()[:3] in ("~~~", "```"):
        fence = not fence
      if fence or shebang:
        fenced.add(first)
    elif tok.kind not in ("sp", "nl"):
      fence = False
      shebang = False
    if tok.kind not in ("sp", "nl"):
      for row in range(first, last + 1):
        by_line.setdefault(row, []).append((tok, first, last))
  wide = []
  enum_items = []
  longest = 0
  reasons = set()
  for row, line in enumerate(lines):
    if row in exempt:
      continue
    items = by_line.get(row, [])
    cols = len(line)
    if cfg.get("use_tabchars"):
      lead = len(line) - len(line.lstrip("\t"))
      if not items or items[0][1] == row:
        cols += lead * (tab - 1)
        if cfg.get("fractional_tab_policy") == "round-up" and lead:
          cols -= tab - 1       # the indentation may have been rounded up
    longest = max(longest, cols)
    obs.hit("lines_measured")
    if cols <= width:
      continue
    reason = classify(width, cols, items, line, cfg, row in fenced)
    if reason is None and enum_overshoot(items, line, cols - width):
      enum_items.append(line)
      continue
    if reason is None:
      return ("line of %d columns could have been wrapped at %d:\n%s\n----\n%s"
              % (cols, width, line, out))
    obs.hit("wide: " + reason)
    reasons.add(reason)
    wide.append(line)
  if valid and wide:
    return ("the layout is reported as valid but a line exceeds %d columns:"
            "\n%s\n----\n%s" % (width, wide[0], out))
  if enum_items:
    return "numbered list item is too wide: %s\n----\n%s" % (enum_items[0], out)
  obs.hit("layout_%s" % ("valid" if valid else "invalid"))
  if longest * 2 > width:
    obs.see(width, longest, valid, sorted(reasons), fmt.features(toks, out, cfg))
  return None


def known(payload, message):
  if message.startswith("numbered list item is too wide"):
    return "C05-numbered-list-item"
  return None
