"""C01: formatting never changes what CMake reads."""
from vlib import canon, fmt, reflex

RULE = """A case is a listfile (random grammar-driven, real corpus chunk, or
corpus chunk re-spaced) and a random configuration. The monitor lexes input and
output with an independent implementation of CMake's lexer and compares the
complete streams of command names, parentheses and arguments. Non-trivial: the
file has at least one argument and the formatter changed at least one byte of
it; distinct by (token kinds, commands, shape of the output, options)."""
COUNT = {"quick": 7000, "thorough": 300000}

FIXED = [
    # defects that were repaired (see known_findings.jsonl)
    "foo(\\ a)\nfoo(\\\"a)\nfoo(\\;a \\#b)\n",
    "foo(a #[[b]] # c\n d)\n",
    "foo(a #[[b]]\n # c\n d)\n",
    "foo([[x y]]#c\n [[a b]])\n",
    "foo(\"x  \n  y\t\n\" [[  \n z \n]])\n",
    "set(x\n \"a\\\n  b\" c)\n",
    "add_library(foo)",
    "cmake_policy()\nlist(FIND a)\nexport(TARGETS a NAMESPACE)\n",
    "\ufefffoo(a)\n# cmake-format: off\nbar(  x)\n# cmake-format: on\nbaz( b)\n",
    "foo( a)\n# cmake-format: off\nbar(  x)\n",
    "foo( a)\n# cmake-format: off\nb( x)\n# cmake-format: off\nc( y)\n"
    "# cmake-format: on\nd( z)\n",
    "# cmake-format: off\n# cmake-format: on\nfoo(  a)\n",
    "@PACKAGE_INIT@\nfoo(a)\n",
    "message(STATUS \"a;b\" a;b \"\" [[]] [==[]]]==] $(FOO)x a\"b c\"d -D\"x\")\n",
    "if((A AND B) OR (NOT C AND (D)))\nendif((A AND B) OR C)\n",
    "foo(a(b)c)\n", "foo((()))\n", "foo()\n\n\n\n", "", "\n", " ", "# c",
    "foo\t(\ta\t)\t# c\t\n", "foo(\n)\n", "foo (a)\n bar (b) # c",
]
CONFIGS = [{}, {"line_width": 20}, {"use_tabchars": True, "tab_size": 4},
           {"line_ending": "windows"}, {"dangle_parens": True, "tab_size": 3},
           {"max_pargs_hwrap": 0, "max_subgroups_hwrap": 0}]


def fixed():
  for text in FIXED:
    for cfg in CONFIGS:
      yield {"text": text, "config": cfg}
      if "\n" in text:
        yield {"text": text.replace("\n", "\r\n"), "config": cfg}


def gen(rng, idx, tier):
  return fmt.explicit(rng, {
      "text": fmt.make_text(rng, idx), "config": fmt.make_cfg(rng)})


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  if not payload.get("allow_squote"):
    fmt.exclude(toks)
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  try:
    got = canon.stream(out, comments="none")
  except reflex.RefError as ex:
    return "CMake rejects the output: %s\n%s" % (ex, out)
  want = canon.stream(text, comments="none")
  obs.hit("tokens_compared", len(want))
  diff = canon.first_diff(want, got)
  if diff:
    return "commands or arguments changed %s\n%s" % (diff, out)
  if len(want) > 3 and out != text:
    obs.see(fmt.features(toks, out, cfg))
  return None


def known(payload, message):
  if payload.get("allow_squote") and fmt.squote_hazard(
      reflex.lex(payload["text"])):
    return "C01-single-quoted-text"
  return None
