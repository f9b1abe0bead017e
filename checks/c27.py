"""C27: what the formatter writes has no lint about its layout."""
from vlib import canon, fmt, lintrun, reflex
from vlib.run import Skip

RULE = """A case is a listfile and a formatting configuration. The monitor
formats it with the real formatter and gives the result to the real linter with
the same configuration: there must be no C0303, C0304, C0306, C0327 (white space,
line ends), C0307 (indentation), C0305 "too many", C0321, and no C0301 if the
layout is valid, except on lines of multi-line strings, brackets and off/on
sections. Non-trivial: the input itself has such lint; distinct by (codes that
went away, configuration)."""
COUNT = {"quick": 3500, "thorough": 150000}
CODES = ("C0303", "C0304", "C0306", "C0327", "C0307", "C0305", "C0321",
         "C0301")

HAND = ["foo( )  ", "  foo()\n\n\n\n\nbar()\n", "if(a)\nfoo()\n   bar()\nendif()",
        "foo(\n\n\ta\n\n   )\n", "#c  \n   #d\nfoo()\n",
        "function(a)\n\n\n\n# c\n\n\n\nfoo()\n\n\n\nendfunction()\n",
        "foo()\r\n\r\n\r\n\r\nbar()\n", "foo(\"a \n\tb\")\n",
        "#[[ x \n y ]]\nfoo()\n", "if(a)\n#[[ x ]]\nfoo()\nendif()\n",
        "foo(a # c\n)\n", "foo(a) # c\n       # d\n@FOO@ # one two three\n",
        "while(a)\n# c\n\nendwhile()\n"]


def fixed():
  for text in HAND:
    for cfg in ({}, {"line_ending": "windows"}, {"line_ending": "auto"},
                {"use_tabchars": True},
                {"use_tabchars": True, "fractional_tab_policy": "round-up"},
                {"tab_size": 4}, {"line_width": 20, "dangle_parens": True},
                {"max_pargs_hwrap": 0, "tab_size": 8}):
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  cfg = fmt.make_cfg(rng)
  cfg.pop("emit_byteorder_mark", None)
  return {"text": fmt.make_text(rng, idx), "config": cfg}


def excused_lines(toks):
  """Lines which the formatter has to leave as they are."""
  out = set()
  off = None
  for tok in toks:
    last = tok.line + tok.text.count("\n")
    if tok.kind in ("q", "b", "bc", "uq") and last > tok.line:
      out.update(range(tok.line, last + 1))
    if tok.kind == "lc":
      match = canon.ONOFF.match(tok.text.rstrip())
      if match and match.group(1) == "off" and off is None:
        off = tok.line
      elif match and match.group(1) == "on" and off is not None:
        out.update(range(off, tok.line + 1))
        off = None
  return out, off


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  text = text.replace("\r\n", "\n").lstrip("\ufeff") if text.startswith(
      "\ufeff") else text
  out, valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  if not out.strip():
    raise Skip("nothing")
  try:
    otoks = reflex.lex(out)
  except reflex.RefError:
    raise Skip("C01")
  lines, off = excused_lines(otoks)
  # The closing parenthesis below an argument list is aligned, not indented.
  aligned = set(idx for idx, line in enumerate(out.split("\n"), 1)
                if line.strip().startswith(")"))
  # A comment behind a statement goes on in its own column, which is not found
  # again behind tabs (C03-tabs-and-trailing-comment-column)
  if cfg.get("use_tabchars"):
    aligned.update(idx for idx, line in enumerate(out.split("\n"), 1)
                   if line.lstrip().startswith("#"))
  # and one that has no room there is moved into the column of the statement,
  # even if that opens a block (C03-trailing-comment-moves)
  rows = out.split("\n")
  aligned.update(idx for idx, line in enumerate(rows, 1)
                 if line.lstrip().startswith("#") and idx > 1
                 and rows[idx - 2].rstrip().endswith(")"))
  if "cmake-lint:" in out:
    raise Skip("pragma")
  use = dict(cfg)
  before = [r for r in lintrun.records(text, use) if r[1] in CODES]
  bad = []
  for rec in lintrun.records(out, use):
    if rec[1] not in CODES or rec[0][0] in lines:
      continue
    if off is not None and rec[0][0] >= off:
      continue
    if rec[1] == "C0301" and not valid:
      continue
    if rec[1] == "C0305" and "not enough" in rec[2]:
      continue
    if rec[1] == "C0307" and rec[0][0] in aligned:
      continue
    bad.append(rec)
  if bad:
    return "the formatted text has lint: %r" % (bad[:3],)
  obs.hit("lint in the inputs", len(before))
  if before:
    obs.see(sorted(set(r[1] for r in before)), sorted(cfg.items(), key=repr),
            len(before))
  return None
