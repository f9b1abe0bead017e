#!/opt/venv/bin/python
"""
Write data/builtin_calls.jsonl.gz: the signatures of the builtin commands as
calls. For each command (and each form of it, where the first argument selects
one) every word that the command knows as a keyword or flag, in calls with too
few, enough and too many arguments, repeated, and next to other such words; each
with the groups and the lint of the command's arguments.

It is run by hand when the signatures change; the table is reviewed against the
CMake documentation (see DESIGN.md), and checks only read it.
"""
import gzip
import inspect
import json
import os
import random
import re
import sys
from multiprocessing import Pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.environ.get("VERIF_REPO", "/repo")]

from vlib import builtin  # noqa


def vocabulary(parser):
  """The words that the parser of a command may know."""
  if inspect.isfunction(parser):
    text = inspect.getsource(inspect.getmodule(parser))
  else:
    text = everything(parser, set())
  return sorted(set(re.findall(r"\b[A-Z][A-Z0-9_]+\b", text)))


def everything(item, seen):
  """The words in an object and all that belongs to it."""
  if isinstance(item, str):
    return " " + item
  if id(item) in seen or isinstance(item, (int, type(None))):
    return ""
  seen.add(id(item))
  out = ""
  if isinstance(item, dict):
    for key, value in item.items():
      out += everything(key, seen) + everything(value, seen)
  elif isinstance(item, (list, tuple, set, frozenset)):
    for value in item:
      out += everything(value, seen)
  if hasattr(item, "__dict__"):
    out += everything(vars(item), seen)
  return out


WORDS = None


def shape(text):
  return builtin.observe(text)


def call(name, args):
  text = "%s(%s)\n" % (name, " ".join(args))
  if name in ("foreach", "while", "if", "function", "macro"):
    text += "end%s()\n" % name
  return text


def generic(name, args):
  text = call(name, args)
  try:
    return json.dumps(builtin.groups(builtin.argtree(builtin.parse_tree(text))))
  except Exception as ex:  # pylint: disable=broad-except
    return type(ex).__name__


def known(name, prefix):
  """The words that make a difference behind the prefix."""
  out = []
  leads = ([], ["a"], ["a", "b"])
  bases = [generic(name, prefix + lead + ["QQ", "c", "d"]) for lead in leads]
  for word in WORDS:
    for base, lead in zip(bases, leads):
      args = prefix + lead + [word, "c", "d"]
      try:
        if generic(name, args) != base.replace("QQ", word):
          out.append(word)
          break
      except Exception:  # pylint: disable=broad-except
        pass
  return out


def calls_of(name):
  global WORDS
  from cmakelang import parse
  import cmakelang.parse.funs  # noqa
  import logging
  logging.disable(logging.CRITICAL)
  WORDS = vocabulary(parse.funs.get_parse_db()[name])
  rng = random.Random("pin:" + name)
  prefixes = [[]]
  first = known(name, [])
  # a word is a form if the words known behind it differ
  base = set(first)
  forms = []
  for word in first:
    behind = set(known(name, [word]))
    if behind != base and len(behind - base) + len(base - behind) > 1:
      forms.append((word, sorted(behind)))
  if len(forms) < 2:
    forms = forms[:0] if not forms else forms
  jobs = [([], first)] + [([w], b) for w, b in forms]
  out = []
  for prefix, words in jobs:
    for count in range(6):
      out.append(prefix + ["a%d" % i for i in range(count)])
    for word in words:
      others = [w for w in words if w != word] or [word]
      low = word.lower()
      out += [prefix + ["a", word, "b", "c", "d"],
              prefix + [word, "b", "c", "d"],
              prefix + ["a", "b", word],
              prefix + ["a", word, "b"],
              prefix + ["a", low, "b", "c", low, "d"],
              prefix + ["a", word, "b", "c", rng.choice(others), "d", "e"],
              prefix + ["a", word, rng.choice(others), "d", "e"]]
    for _ in range(min(40, 3 * len(words))):
      args = prefix + ["x%d" % i for i in range(rng.choice([0, 1, 1, 2]))]
      for _ in range(rng.choice([2, 3, 4])):
        args.append(rng.choice(words))
        args += ["y%d" % i for i in range(rng.choice([0, 1, 1, 2, 3]))]
      out.append(args)
  rows = []
  seen = set()
  for args in out:
    text = call(name, args)
    if text in seen:
      continue
    seen.add(text)
    rows.append([text, shape(text)])
  return name, rows


def main():
  from cmakelang import parse
  import cmakelang.parse.funs  # noqa
  names = sorted(n for n in parse.funs.get_parse_db()
                 if n not in ("endif", "else", "elseif", "endwhile",
                              "endfunction", "endmacro", "endforeach"))
  total = 0
  lines = []
  with Pool(int(sys.argv[1]) if len(sys.argv) > 1 else 4) as pool:
    for name, rows in pool.imap(calls_of, names, 1):
      total += len(rows)
      print(name, len(rows), file=sys.stderr)
      lines += [json.dumps(r, separators=(",", ":")) for r in rows]
  path = os.path.join(VERIF, "data", "builtin_calls.jsonl.gz")
  with open(path, "wb") as raw:
    with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as out:
      out.write(("\n".join(lines) + "\n").encode())
  print(len(names), "commands", total, "calls")


if __name__ == "__main__":
  main()
