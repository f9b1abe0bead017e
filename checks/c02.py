"""C02: comments survive formatting, word for word and in place."""
from vlib import canon, fmt, reflex

RULE = """A case is a listfile with comments (prose, bullets, enumerations,
rulers, fences, trailing, explicit-trailing, bracket comments, comments inside
argument lists, sort tags) and a random configuration. The monitor computes,
with an independent lexer, the interleaved stream of commands, arguments and
comment words of input and output and compares them: a word that is lost,
duplicated, reordered, turned into code, or swapped across an argument is a
difference. Non-trivial: at least one comment word and output != input;
distinct by (comment kinds and positions, options)."""
COUNT = {"quick": 6000, "thorough": 250000}

FIXED = [
    "foo(a #[[b]] # c\n d)\n",
    "foo(a #[[b]]\n # c\n d)\n",
    "foo([[x y]]#c\n [[a b]])\n",
    "# c1\n\n# c2\nfoo(a) # c3\n# c4\n",
    "foo(a # c1\n  # c2\n  b # c3\n)# c4\n",
    "foo(# c1\n a)\n", "foo(\n# c1\n)\n", "foo(\n# c1\n\n# c2\n)\n",
    "foo(a #< c1\n b #< c2\n)\n",
    "#[[ x\n  y ]]\nfoo(#[[z]] a)#[[ w ]]\n",
    "set(x\n  # c0\n  a # c1 is a long comment which does not fit in a line\n"
    "    # c2\n  b)\n",
    "# 1. a\n# 2. b\n" + "".join("# %d. item %d\n" % (i, i)
                                 for i in range(3, 14)) + "foo(a)\n",
    "# * a\n#   b\n# * c\n#   - d\nfoo(a)\n",
    "########\n# x\n########\nfoo(a)\n",
    "if(A) # c1\n# c2\nelse() # c3\n# c4\nendif() # c5\n",
    "add_library(foo # c\n a.cc # c1\n # c2\n b.cc)\n",
    "add_custom_command(OUTPUT a # c1\n  COMMAND b c # c2\n # c3\n DEPENDS d)\n",
    "install(TARGETS a # c1\n RUNTIME DESTINATION bin # c2\n"
    "  LIBRARY DESTINATION lib # c3\n)\n",
    "if(A # c1\n AND B # c2\n OR (C # c3\n))\nendif()\n",
    "# cmake-format: off\n# a   b\nfoo(a   # c   d\n)\n# cmake-format: on\n",
    "# cmake-format: off because of a\nfoo(  a)\n# cmf: on again\nfoo(  a)\n",
    "# cmake-format: offline mode\nfoo(  a)\n# cmf: only b\nfoo(  a)\n",
    "foo(# a\n  # b\n c)\nset(X\n # a\n  # b\n  # c\n d)\n",
    "\ufeff# c1\nfoo(a)\n",
    "set_target_properties(foo bar PROPERTIES\n A # c1\n # c2\n b C # c3\n\n"
    " d\n# c4\n)\n",
    "foo(a   b\n# cmake-format: off\n  c   d # x\n# cmake-format: on\n e  f)\n",
    "add_library(x a\n# cmake-format: off\n  c   d # x\n# cmake-format: on\n e)\n",
    "set_target_properties(x PROPERTIES a   b\n# cmake-format: off\n  c   d\n"
    "# cmake-format: on\n e  f)\n",
]
CONFIGS = [{}, {"line_width": 20}, {"use_tabchars": True, "tab_size": 4},
           {"line_ending": "windows"}, {"dangle_parens": True, "tab_size": 3},
           {"max_pargs_hwrap": 0, "max_subgroups_hwrap": 0},
           {"enable_markup": False}, {"first_comment_is_literal": True}]


def fixed():
  for text in FIXED:
    for cfg in CONFIGS:
      yield {"text": text, "config": cfg}
  for pattern, spellings in fmt.EXPLICIT:
    for tag in spellings:
      for word in ("\\\\build", "-c", "(x)", "=", "w"):
        yield {"text": "foo(a\n %s %s\n b %s %s end\n )\n" % (
            tag, word, tag, word),
               "config": {"explicit_trailing_pattern": pattern}}


def gen(rng, idx, tier):
  for _ in range(20):
    text = fmt.make_text(rng, idx)
    if "#" in text:
      break
  return fmt.explicit(rng, {"text": text, "config": fmt.make_cfg(rng)})


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  try:
    got = canon.stream(out, comments="words")
  except reflex.RefError as ex:
    return "CMake rejects the output: %s\n%s" % (ex, out)
  want = canon.stream(text, comments="words")
  words = sum(item[0] in ("cw", "bc") for item in want)
  obs.hit("comment_words", words)
  diff = canon.first_diff(want, got)
  if diff:
    return "comments changed %s\n%s" % (diff, out)
  if words and out != text:
    obs.see(fmt.features(toks, out, cfg),
            tuple(i for i, item in enumerate(want) if item[0] == "cw")[:8])
  return None

