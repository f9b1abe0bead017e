"""What the real code makes of the arguments of a builtin command."""
import gzip
import json
import os

from vlib import fmt, lintrun

PATH = os.path.join(os.path.dirname(__file__), "..", "data",
                    "builtin_calls.jsonl.gz")
CODES = ("E1120", "E1121", "E1122", "E1125", "E1126", "C0113", "C0114", "W0104")
_DB = None
_CONFIG = None


def groups(node):
  """The groups of the arguments below a node of the parse tree."""
  out = []
  for child in node.children:
    kind = getattr(getattr(child, "node_type", None), "name", None)
    if kind in ("KWARGGROUP", "PARGGROUP", "ARGGROUP", "PARENGROUP",
                "FLAGGROUP"):
      sub = groups(child)
      if kind == "ARGGROUP":
        out += sub
      elif kind == "PARGGROUP":
        # where one positional group ends and the next begins shows only in
        # the number of arguments that lint demands
        out += sub
      elif sub or kind == "PARENGROUP":
        out.append([kind[:2], sub])
    elif kind in ("FLAG", "ARGUMENT", "KEYWORD"):
      out.append([kind[0], " ".join(
          t.spelling for t in child.get_tokens(kind="semantic"))])
  return out


def parse_tree(text):
  global _DB, _CONFIG
  from cmakelang import lex, parse
  import cmakelang.parse.funs  # noqa
  if _DB is None:
    _DB = parse.funs.get_parse_db()
    _CONFIG = fmt.make_config({})
  return parse.parse(lex.tokenize(text), parse.ParseContext(
      _DB, config=_CONFIG))


def argtree(tree):
  for child in tree.children:
    if hasattr(child, "argtree"):
      return child.argtree
    if hasattr(child, "children"):
      found = argtree(child)
      if found is not None:
        return found
  return None


def observe_groups(text):
  try:
    return groups(argtree(parse_tree(text)))
  except Exception as ex:  # pylint: disable=broad-except
    return "%s: %s" % (type(ex).__name__, ex)


def observe_lint(text):
  try:
    return [[list(r[0]), r[1]] for r in lintrun.records(text, {})
            if r[1] in CODES]
  except Exception as ex:  # pylint: disable=broad-except
    return "%s: %s" % (type(ex).__name__, ex)


def observe(text):
  """-> [groups, lint about the arguments] or the name of the exception"""
  return [observe_groups(text), observe_lint(text)]


def judge(payload, obs, part):
  """Compare the calls of a chunk with the table."""
  if part:
    # all of them in one file, and one by one only if that differs
    line = 0
    want = []
    for text, lint in payload["builtin"]:
      want += [[[r[0][0] + line] + r[0][1:] if r[0] else [], r[1]]
               for r in lint]
      line += text.count("\n")
    got = observe_lint("".join(r[0] for r in payload["builtin"]))
    if not isinstance(got, str) and sorted(got) == sorted(want):
      obs.hit("builtin calls compared", len(payload["builtin"]))
      for text, lint in payload["builtin"]:
        if lint:
          obs.see(text)
      return None
  for text, want in payload["builtin"]:
    got = (observe_groups, observe_lint)[part](text)
    if part:
      got, want = sorted(got), sorted(want)
    if got != want:
      return "%s of %s %r instead of %r" % (
          ("groups", "lint")[part], text.strip(), got, want)
    obs.hit("builtin calls compared")
    if want:
      obs.see(text)
  if part:
    return "lint of the calls differs if they are in one file"
  return None


def load(part):
  """Chunks of [text, groups] (part 0) or [text, lint] (part 1)."""
  with gzip.open(PATH, "rt", encoding="utf-8") as infile:
    rows = [json.loads(line) for line in infile]
  for num in range(0, len(rows), 40):
    yield {"builtin": [[r[0], r[1][part]] for r in rows[num:num + 40]]}


def shrink(payload):
  rows = payload["builtin"]
  if len(rows) > 1:
    half = len(rows) // 2
    yield {"builtin": rows[:half]}
    yield {"builtin": rows[half:]}
