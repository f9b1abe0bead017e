"""C36: lint about the arguments of builtin commands."""
import os
import random
import re

from checks import c17
from vlib import builtin, lintrun

RULE = """A case is a sequence of calls of builtin commands with arguments
drawn from their signatures, with some missing, some too many, some repeated, in
any case, with comments and line breaks, one or more on a line. The monitor
compares the records E1120, E1121, E1122, E1125, E1126, C0113, C0114, W0104,
W0106 and C0321 of the real linter (code, message, position) with those that
follow from the documented signatures. A table of some 16000 calls has each
keyword and flag of each builtin command with too few, enough and too many
arguments, with the lint they deserve. Where the description leaves the result
open the case is not generated. Non-trivial: at least one record; distinct by
the records and the commands."""
COUNT = {"quick": 12000, "thorough": 400000}
JUDGED = ("E1120", "E1121", "E1122", "E1125", "E1126", "C0113", "C0114",
          "W0104", "W0106", "C0321")

BUILTIN = ["UNIX", "CMAKE_CXX_STANDARD", "PROJECT_NAME", "BUILD_SHARED_LIBS",
           "CMAKE_BUILD_TYPE"]
OTHER = ["zzz", "qx", "Foo_Bar", "a1"]
PLAIN = ["a", "b.cc", "lib/x", "1", "2.5", "\"a b\"", "\"\"", "${v}", "\"${v}\"",
         "[[t]]", "x;y", "$<C:D>", "key1", "$ENV{HOME}", "\"$ENV{HOME}/x\""]

LIST = {"LENGTH": 3, "GET": "4+", "JOIN": 4, "SUBLIST": 5, "FIND": 4,
        "APPEND": "2+", "INSERT": "4+", "POP_BACK": "2+", "POP_FRONT": "2+",
        "PREPEND": "2+", "REMOVE_ITEM": "3+", "REMOVE_AT": "3+",
        "REMOVE_DUPLICATES": 2, "REVERSE": 2}
FILE = {"RENAME": 3, "REMOVE": "+", "REMOVE_RECURSE": "+",
        "MAKE_DIRECTORY": "+", "SIZE": 3, "READ_SYMLINK": 3,
        "RELATIVE_PATH": 4, "TO_CMAKE_PATH": 3, "TO_NATIVE_PATH": 3,
        "TOUCH": "+", "TOUCH_NOCREATE": "+"}
POLICY = {"VERSION": "2+", "SET": 3, "GET": 3, "PUSH": 1, "POP": 1}
FORMS = {"list": LIST, "file": FILE, "cmake_policy": POLICY}
SHELL = {"pargs": "*"}
EVENTS = {"pargs": "*", "flags": [
    "APPEND", "VERBATIM", "USES_TERMINAL", "COMMAND_EXPAND_LISTS",
    "PRE_BUILD", "PRE_LINK", "POST_BUILD"], "kwargs": {
        "BYPRODUCTS": "*", "COMMAND": SHELL, "COMMENT": "*", "TARGET": 1,
        "WORKING_DIRECTORY": 1}}
OUTPUT = {"pargs": "*", "flags": [
    "APPEND", "VERBATIM", "USES_TERMINAL", "COMMAND_EXPAND_LISTS"], "kwargs": {
        "BYPRODUCTS": "*", "COMMAND": SHELL, "COMMENT": "*", "DEPENDS": "*",
        "DEPFILE": 1, "JOB_POOL": 1, "MAIN_DEPENDENCY": 1, "OUTPUT": "+",
        "WORKING_DIRECTORY": 1}}
TARGET = {"kwargs": {
    "BYPRODUCTS": "+", "COMMAND": SHELL, "COMMENT": 1, "DEPENDS": "+",
    "JOB_POOL": 1, "SOURCES": "+", "WORKING_DIRECTORY": 1},
          "flags": ["VERBATIM", "USES_TERMINAL", "COMMAND_EXPAND_LISTS"]}
EMPTY = ["break", "continue", "return", "enable_testing"]


VALID = [line.strip() for line in open(os.path.join(
    os.path.dirname(__file__), "..", "data", "valid_calls.cmake"),
                                       encoding="utf-8") if line.strip()]
WRONG = ("E1120", "E1121", "E1122", "E1125", "E1126", "W0104", "C0321")


# -- what the signatures say ---------------------------------------------------

class Arg(str):
  """An argument that knows its position."""
  pos = None


def lower_bound(nargs):
  return c17.least(nargs)


def groups(ref, out):
  """Records of the groups of c17.group: too few and repeated."""
  seen = set()
  for item in ref:
    if item[0] == "pos":
      if len(item[2]) < lower_bound(item[1]):
        out.append(("E1120", None))
    else:
      word = item[1].upper()
      if word not in c17.REPEATS:
        if word in seen:
          out.append(("E1122", item[1].pos, word))
        seen.add(word)
      groups(item[2], out)
      if not item[2]:
        # an argument group that is not even opened
        out.append(("E1120?", None))


def keywords_of(ref):
  return {item[1].upper() for item in ref if item[0] == "kw"}


def is_ref(arg):
  return re.match(r"\$\{\w+\}\Z", arg) is not None


def target_call(args, out):
  """add_custom_target(name [ALL] [command...] keywords...)"""
  words = set(TARGET["kwargs"]) | set(TARGET["flags"])
  first = args[0].pos if args else None
  args = list(args)
  if args:
    args.pop(0)
  if args and args[0].upper() == "ALL":
    args.pop(0)
  while args and c17.key_of(args[0]) not in words:
    args.pop(0)
  seen = set()
  while args:
    key = c17.key_of(args[0])
    if key in TARGET["flags"]:
      args.pop(0)
      continue
    if key not in words:
      out.append(("E1121", args[0].pos))
      while args and c17.key_of(args[0]) not in words:
        args.pop(0)
      continue
    word = args.pop(0)
    if key not in c17.REPEATS and key in seen:
      out.append(("E1122", word.pos, key))
    seen.add(key)
    nargs = TARGET["kwargs"][key]
    have = 0
    if nargs == 1:
      # takes its argument, whatever it is
      if args:
        args.pop(0)
        have = 1
    else:
      while args and c17.key_of(args[0]) not in words:
        args.pop(0)
        have += 1
    if not isinstance(nargs, dict) and have < lower_bound(nargs):
      out.append(("E1120?", None))
  if "COMMENT" not in seen:
    out.append(("C0113", first, "COMMENT"))


def reference(name, args, out):
  name = name.lower()
  if name in EMPTY:
    if args:
      out.append(("E1121", args[0].pos))
  elif name in FORMS:
    if not args:
      out.append(("E1120", None))
    elif is_ref(args[0]):
      out.append(("C0114", args[0].pos))
    elif args[0].upper() not in FORMS[name]:
      out.append(("E1126", args[0].pos))
    elif len(args) < lower_bound(FORMS[name][args[0].upper()]):
      out.append(("E1120", None))
  elif name == "add_custom_command":
    if not args:
      out.append(("E1120", None))
      return
    spec = OUTPUT
    if is_ref(args[0]):
      out.append(("C0114", args[0].pos))
    elif args[0].upper() == "TARGET":
      spec = EVENTS
    elif args[0].upper() != "OUTPUT":
      out.append(("E1126", args[0].pos))
    ref = c17.group(c17.digest(spec), list(args), frozenset())
    groups(ref, out)
    for word, code in (("COMMENT", "C0113"), ("COMMAND", "E1125")):
      if word not in keywords_of(ref):
        out.append((code, args[0].pos, word))
  elif name == "add_custom_target":
    target_call(args, out)
  elif name == "set":
    words = [c17.key_of(a) for a in args]
    if "CACHE" in words[1:]:
      cache = args[words.index("CACHE", 1) + 1:]
      if len(cache) < 2:
        out.append(("E1120", None))
      extra = cache[3:] if len(cache) > 2 and cache[2] == "FORCE" else cache[2:]
      if extra:
        out.append(("E1121", extra[0].pos))
  elif name == "build_command":
    if len(args) > 1 and c17.key_of(args[1]) not in (
        "CONFIGURATION", "TARGET", "PROJECT_NAME"):
      out.append(("W0104", None))
  for arg in args:
    kind = broken(arg)
    if kind:
      out.append(("W0106", arg.pos, kind))


def broken(arg):
  """The name of the brace that is missing in a quoted argument, or None."""
  if not arg.startswith('"'):
    return None
  plain = arg
  while re.search(r"\$\{\w+\}", plain):
    plain = re.sub(r"\$\{\w+\}", "x", plain)
  plain = re.sub(r"\$(ENV|CACHE)\{\w+\}", "x", plain)
  for name in BUILTIN:
    if re.search(r"\$\{%s(?!\w)" % name, plain):
      return "closing"
    if re.search(r"(\$|\{)%s(?!\w)" % name, plain):
      return "open"
  return None


# -- rendering ----------------------------------------------------------------

def render(payload):
  """-> (text, [(name, pos of the name, [Arg], line of the end)])"""
  text = ""
  calls = []

  def here():
    return (text.count("\n") + 1, len(text) - text.rfind("\n") - 1)
  for name, words, seed, glue in payload["calls"]:
    rng = random.Random(seed)
    start = here()
    text += name + "("
    args = []
    for idx, word in enumerate(words):
      if idx or seed % 5 == 0:
        text += " " if seed % 3 else rng.choice(
            [" ", "\n", "\n  ", " # c\n", " #[[d]] ", "\n# COMMENT x\n",
             "  "])
      arg = Arg(word)
      arg.pos = here()
      args.append(arg)
      text += word
    text += rng.choice(["", "", "", "\n", " "]) if seed % 4 == 0 else ""
    text += ")"
    calls.append((name, start, args, here()[0]))
    text += glue
  return text, calls


# -- workload -------------------------------------------------------------------

def spell(rng, word):
  return rng.choice([word, word, word, word.lower(), word.capitalize()])


def plain(rng, low=0, high=2):
  return [rng.choice(PLAIN) for _ in range(rng.randrange(low, high + 1))]


def quoted(rng):
  """A string with at most one suspicious part."""
  pieces = [rng.choice(["text ", "", "a-b ", "${UNIX} ", "${zzz}/", "$ ",
                        "$ENV{HOME}/", "$ENV{UNIX} ", "$CACHE{UNIX}:",
                        "{zzz} ", "$zzz ", "${CMAKE_${a}_FLAGS} ",
                        "${UNIX${a_${b}}} "])]
  name = rng.choice(BUILTIN)
  pieces.append(rng.choice(["$" + name, "{" + name + "}", "${" + name,
                            "${" + name + "}", name, "\\${" + name + "}",
                            "$<BOOL:" + name + ">", "$" + rng.choice(OTHER),
                            "{" + rng.choice(OTHER) + "}",
                            "${CMAKE_${a_${b}}_FLAGS}",
                            "${CMAKE_${CMAKE_${CMAKE_${v}_X}_Y}_Z}",
                            "$ENV{" + name + "}", "$ENV{${" + name + "}}",
                            "${" + rng.choice(OTHER)]))
  pieces.append(rng.choice(["", " end", "/", " ${UNIX}", ";"]))
  return '"' + "".join(pieces) + '"'


def keyword_args(rng, spec, words):
  out = []
  for word in words:
    out.append(spell(rng, word))
    nargs = spec["kwargs"].get(word)
    if nargs == 1:
      out += plain(rng, 1, 1) if rng.random() < 0.85 else (
          plain(rng, 2, 2) if rng.random() < .5 else [])
    elif nargs is not None:
      out += plain(rng, 1, 3) if rng.random() < 0.85 else []
  return out


def random_call(rng):
  kind = rng.choice(["empty", "form", "form", "command", "command", "target",
                     "target", "set", "build", "string"])
  if kind == "empty":
    return rng.choice(EMPTY), plain(rng, 0, 2)
  if kind == "form":
    name = rng.choice(sorted(FORMS))
    table = FORMS[name]
    roll = rng.random()
    if roll < 0.06 and name != "cmake_policy":
      return name, []
    if roll < 0.12:
      return name, ["${x}"] + plain(rng)
    if roll < 0.22:
      return name, [rng.choice(["FOO", "bar", "LENGTHS", "key1", "1"])] + plain(
          rng)
    word = rng.choice(sorted(table))
    low = lower_bound(table[word])
    count = max(0, low - 1 + rng.choice([-2, -1, -1, 0, 0, 0, 0, 1]))
    args = plain(rng, count, count)
    if word == "SET" and args and rng.random() < 0.5:
      args[-1] = rng.choice(["NEW", "OLD"])
    return name, [spell(rng, word)] + args
  if kind in ("command", "target"):
    if kind == "target":
      spec, args = TARGET, ["tgt"]
      if rng.random() < 0.05:
        return "add_custom_target", []
      if rng.random() < 0.3:
        args.append(spell(rng, "ALL"))
      if rng.random() < 0.4:
        args += plain(rng, 1, 3)
    else:
      roll = rng.random()
      if roll < 0.04:
        return "add_custom_command", []
      if roll < 0.12:
        spec, args = OUTPUT, ["${x}"] + plain(rng)
      elif roll < 0.2:
        spec, args = OUTPUT, [rng.choice(["foo", "1", "key1"])] + plain(rng)
      elif roll < 0.6:
        spec, args = EVENTS, [spell(rng, "TARGET"), "tgt"]
      else:
        spec, args = OUTPUT, [spell(rng, "OUTPUT"), "out"]
    words = rng.sample(sorted(spec["kwargs"]),
                       rng.randrange(0, min(4, len(spec["kwargs"]))))
    words += rng.sample(spec["flags"], rng.choice([0, 0, 1, 2]))
    for word in ("COMMAND", "COMMENT"):
      if rng.random() < 0.6:
        words.append(word)
    if words and rng.random() < 0.3:
      words.append(rng.choice(words))
    rng.shuffle(words)
    return "add_custom_" + kind, args + keyword_args(rng, spec, words)
  if kind == "set":
    args = ["VAR"] + plain(rng, 0, 2)
    if rng.random() < 0.8:
      args.append("CACHE")
      args += rng.choice([
          [], ["STRING"], ["STRING", "\"doc\""], ["BOOL", "doc", "FORCE"],
          ["BOOL", "doc", "b"], ["BOOL", "doc", "FORCE", "x"],
          ["BOOL", "doc", "x", "y"], ["BOOL", "doc", "x", "y", "z"],
          ["PATH", "${d}", "FORCE"], ["BOOL", "doc", "FORCE", "x", "y"]])
    return "set", args
  if kind == "build":
    return "build_command", ["VAR"] + rng.choice(
        [[], ["make"], ["CONFIGURATION", "Debug"], ["TARGET", "all"],
         ["target", "all"], ["PROJECT_NAME", "p", "TARGET", "t"], ["\"x y\""],
         ["make", "x"]])
  return rng.choice(["message", "foo", "set", "string"]), [
      "a" if rng.random() < .8 else quoted(rng)] + [
          quoted(rng) for _ in range(rng.choice([1, 1, 2]))]


GLUE = ["\n", "\n", "\n", "\n\n", "\n# c\n", " # c\n", " #[[c]]\n",
        "\n#[[c]] ", " ", " #[[c]] ", "  ", " #[[c\nc]] "]


def fixed():
  for payload in builtin.load(1):
    yield payload
  for num, line in enumerate(VALID):
    name = line.split("(")[0]
    tail = "\n"
    if name in ("foreach", "while", "if", "function", "macro"):
      tail = "\nend%s()\n" % name
    yield {"valid": line + tail}
    yield {"valid": line + tail + VALID[num * 7 % 300] + "\nwin32(program)\n"}
  for name in EMPTY:
    for args in ([], ["a"], ["a", "b"]):
      yield {"calls": [[name, args, 1, "\n"]]}
  for name, table in sorted(FORMS.items()):
    for word in sorted(table) + ["${x}", "foo"]:
      for count in range(6):
        yield {"calls": [[name, [word] + ["a%d" % i for i in range(count)], 1,
                          "\n"]]}
    if name != "cmake_policy":
      yield {"calls": [[name, [], 1, "\n"]]}
  for spec, first in ((EVENTS, ["TARGET", "t"]), (OUTPUT, ["OUTPUT", "o"]),
                      (OUTPUT, ["${x}"]), (OUTPUT, ["foo"]), (OUTPUT, [])):
    for words in ([], ["COMMAND"], ["COMMENT"], ["COMMAND", "COMMENT"],
                  ["command", "comment"], ["COMMAND", "COMMENT", "COMMAND"],
                  ["COMMENT", "COMMAND", "COMMENT"],
                  ["COMMAND", "BYPRODUCTS", "COMMENT", "byproducts"]):
      for bare in (True, False):
        args = list(first)
        for word in words:
          args += [word] if bare else [word, "a"]
        yield {"calls": [["add_custom_command", args, 1, "\n"]]}
  for args in (["t"], ["t", "ALL"], ["t", "a", "b"], ["t", "COMMENT", "c"],
               ["t", "COMMENT", "c", "d"], ["t", "VERBATIM", "d", "e"],
               ["t", "ALL", "a", "VERBATIM", "COMMENT", "c", "d", "DEPENDS",
                "e"], ["t", "comment", "c", "Comment", "d"]):
    yield {"calls": [["add_custom_target", args, 1, "\n"]]}
  for glue in GLUE:
    for name in ("foo", "set"):
      yield {"calls": [[name, ["a"], 1, glue], ["bar", ["b"], 1, glue],
                       ["foo", ["c"], 1, "\n"]]}


def spread(line, rng):
  """A documented call, laid out at random."""
  name, rest = line.split("(", 1)
  words = re.findall(r'"[^"]*"|[^ "]+', rest[:-1])
  text = rng.choice([name, name, name.upper(), name.title()]) + "("
  for num, word in enumerate(words):
    if num or rng.random() < 0.1:
      text += rng.choice([" ", " ", " ", "\n", "\n  ", " # c\n", " #[[d]] ",
                          "\n# COMMAND\n"])
    text += word
  text += rng.choice(["", "", "", " ", "\n"]) + ")"
  if name in ("foreach", "while", "if", "function", "macro"):
    text += "\nend" + name + "()"
  return text


def gen(rng, idx, tier):
  if rng.random() < 0.25:
    text = "".join(spread(rng.choice(VALID), rng) + rng.choice(GLUE[:8])
                   for _ in range(rng.choice([1, 2, 3, 5])))
    return {"valid": text}
  calls = []
  for _ in range(rng.choice([1, 1, 2, 3, 4])):
    name, args = random_call(rng)
    name = rng.choice([name, name, name, name.upper(), name.title()])
    calls.append([name, args, rng.randrange(1000), rng.choice(GLUE)])
  calls[-1][3] = rng.choice(["\n", " # c\n"])
  return {"calls": calls}


def shrink(payload):
  if "builtin" in payload:
    for less in builtin.shrink(payload):
      yield less
    return
  if "valid" in payload:
    return
  calls = payload["calls"]
  for idx in range(len(calls)):
    if len(calls) > 1:
      yield {"calls": calls[:idx] + calls[idx + 1:]}
    name, args, seed, glue = calls[idx]
    if seed != 1:
      yield {"calls": calls[:idx] + [[name, args, 1, glue]] + calls[idx + 1:]}
    for num in range(len(args)):
      yield {"calls": calls[:idx] + [[name, args[:num] + args[num + 1:], seed,
                                      glue]] + calls[idx + 1:]}


def judge(payload, obs):
  if "builtin" in payload:
    return builtin.judge(payload, obs, 1)
  if "valid" in payload:
    bad = [r for r in lintrun.records(payload["valid"], {}) if r[1] in WRONG]
    if bad:
      return "documented form reported: %r" % bad[:3]
    obs.hit("documented forms")
    return None
  text, calls = render(payload)
  want = []
  loose = set()
  end = None
  for name, pos, args, last in calls:
    out = []
    reference(name, args, out)
    if end == pos[0]:
      out.append(("C0321", pos))
    end = last
    for rec in out:
      if rec[0] == "E1120?":
        loose.add("E1120")
      else:
        want.append(rec)
    if name.lower() == "set" and any(r[0] == "E1120" for r in out):
      loose.add("E1120")
  got = []
  for loc, code, msg in lintrun.records(text, {}):
    if code not in JUDGED:
      continue
    if code in ("E1120", "W0104"):
      got.append((code, None))
    elif code in ("E1122", "E1125", "C0113"):
      word = re.search(r"[A-Z_]{4,}", msg)
      got.append((code, loc or None, word.group(0) if word else msg))
    elif code == "W0106":
      got.append((code, loc, "open" if " open " in msg else "closing"))
    else:
      got.append((code, loc))
  if loose:
    for code in loose:
      if (code, None) in want and (code, None) not in got:
        return "missing %s" % code
      want = [r for r in want if r[0] != code]
      got = [r for r in got if r[0] != code]
  bad = lintrun.diff(want, got)
  if bad:
    return bad
  for rec in want:
    obs.hit(rec[0])
  obs.hit("calls", len(calls))
  if want:
    obs.see(sorted((r[0], r[2:]) for r in want),
            sorted(c[0].lower() for c in calls))
  return None
