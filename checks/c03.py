"""C03: formatting formatted text changes nothing."""
import re

from vlib import fmt, gen as vgen, reflex

RULE = """A case is a listfile and a random configuration. The monitor formats
the text, formats the result again with the same configuration, and compares
the two results byte for byte. Non-trivial: the first pass changed the text;
distinct by (token kinds, commands, shape of the output, options)."""
COUNT = {"quick": 3000, "thorough": 150000}

FIXED = [
    "\n\n\nfoo(a)\n",
    "# 1. a\n" + "".join("# %d. item %d of the list which is long enough to "
                         "be wrapped over more than one line\n" % (i, i)
                         for i in range(2, 14)) + "foo(a)\n",
    "foo(a #[[b]] # c\n d)\n",
    "foo(\"x  \n  y\t\n\" [[  \n z \n]])\n",
    "# cmake-format: off\nfoo(  a)\n# cmake-format: on\nbar(  b)\n",
    "# cmake-format: off\nfoo(  a)\n# cmake-format: off\nbar(  b)\n",
    "foo(a)\n\n\n\n\n# x\n\n\n\nbar(a)\n\n\n",
    "# * a\n#   b\n# * c\n#   - d\nfoo(a)\n",
    "#----- foo -----\nfoo(a)\n######\n# x\n######\n",
    "set_target_properties(foo bar PROPERTIES A b C d # c\n E f)\n",
    "if(A)\n\n\n  foo(a)\n\n\n\nelse()\n\nendif()\n",
    "\ufefffoo(a)\n", "", "\n", "# x", "@PACKAGE_INIT@\n\nfoo(a)\n",
    "if(A # c1\n AND B # c2\n OR (C # c3\n))\nendif()\n",
    "foo(a   b\n# cmake-format: off\n  c   d # x\n# cmake-format: on\n e  f)\n",
]
CONFIGS = [{}, {"line_width": 20}, {"use_tabchars": True, "tab_size": 4},
           {"line_ending": "windows"}, {"dangle_parens": True, "tab_size": 3},
           {"max_pargs_hwrap": 0, "max_subgroups_hwrap": 0},
           {"emit_byteorder_mark": True}, {"autosort": True}]


def fixed():
  for text in FIXED:
    for cfg in CONFIGS:
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  cfg = fmt.make_cfg(rng)
  if rng.random() < 0.1:
    cfg["autosort"] = True
  # most of the comments are kept short: long ones in argument lists are the
  # subject of a known finding
  text = fmt.make_text(rng, idx, argcomments=rng.random() < 0.5,
                       onoff_args=0)
  try:
    text = fmt.align_comments(text)
    if rng.random() < 0.7:
      text = fmt.shorten_comments(text)
  except reflex.RefError:
    pass
  return fmt.explicit(rng, {"text": text, "config": cfg})


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  again, _valid, err = fmt.try_fmt(out, cfg)
  if err:
    return "second pass: %s" % err
  obs.hit("bytes_compared", len(out))
  if again != out:
    return "not idempotent:\n%s\n---- second pass:\n%s" % (out, again)
  if out != text:
    obs.see(fmt.features(toks, out, cfg))
  return None


def known(payload, message):
  """Known findings, by mechanism, confirmed by the counterfactual."""
  if not message.startswith("not idempotent"):
    return None
  text, cfg = payload["text"], payload["config"]
  try:
    if cfg.get("use_tabchars"):
      # a comment that continues a trailing comment is recognised by its
      # column, and a tab counts as one column
      spaces = dict(payload, config=dict(cfg, use_tabchars=False))
      if fmt.holds(judge, spaces) or known(spaces, message):
        first, _, err = fmt.try_fmt(text, cfg)
        if not err and re.search(r"(?m)^.*[^\s].*#.*\n\t+ *#|\n\t+ *#", first):
          return "C03-tabs-and-trailing-comment-column"
        return known(spaces, message)
    first, _, err = fmt.try_fmt(text, cfg)
    if err:
      return None
    second, _, err = fmt.try_fmt(first, cfg)
    if err:
      return None
    third, _, err = fmt.try_fmt(second, cfg)
    if err or third != second:
      return None               # the known ones all settle down

    aligned = fmt.align_comments(text)
    if aligned != text and fmt.holds(judge, dict(payload, text=aligned)):
      return "C03-adjacent-comments-in-different-columns"
    plain = fmt.without_arg_comments(aligned)
    if plain != aligned and fmt.holds(judge, dict(payload, text=plain)):
      return "C03-comment-inside-argument-list"
    short = fmt.align_comments(fmt.shorten_comments(plain))
    if (fmt.trailing_comments(first) < fmt.trailing_comments(text)
        or fmt.trailing_comments(second) != fmt.trailing_comments(first)):
      if fmt.holds(judge, dict(payload, text=short)):
        return "C03-trailing-comment-moves"
    cut = fmt.without_embedded_rulers(short)
    if cut != short and fmt.holds(judge, dict(payload, text=cut)):
      return "C03-ruler-after-words"
  except reflex.RefError:
    pass
  return None
