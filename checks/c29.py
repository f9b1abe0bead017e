"""C29: genparsers reports the signature of every function and macro."""
import ast
import json

from vlib import cli, fmt, reflex
from vlib.run import Skip

RULE = """A case is one to three listfiles with functions and macros of known
signatures: positional arguments, flags, one-value and multi-value keywords,
given to cmake_parse_arguments() literally, through variables (set in the body
before, possibly in blocks or from other variables) or in the PARSE_ARGV form,
among comments, other statements, blocks, nested and private definitions. The
monitor runs the real main() of genparsers and compares its JSON, YAML and
Python output with the signatures which were written down (also among inputs
that are missing or cannot be decoded, which the exit status reports); then it gives the
result to the formatter as configuration and formats a call of each command:
exactly its keywords must be treated as such. Non-trivial: a definition with
keywords; distinct by (kinds of definitions, formats, signatures)."""
COUNT = {"quick": 2000, "thorough": 60000}

WORDS = ["QUIET", "EXACT", "DEST", "Name", "sources", "LINK_LIBS", "X", "Y",
         "DEPS", "HEADERS", "NO_INSTALL", "OUTPUT", "Input_Dir", "FLAG1",
         "Ver", "TARGETS", "PUBLIC", "ALL", "ARGS2", "Z_9"]
NAMES = ["add_thing", "Add_Thing", "MAKE_IT", "my_fn", "MyFn", "fox", "x",
         "generate", "Do_2", "_private", "_Hidden_", "write_all", "FooBar_"]
PARGS = ["target", "Name", "out_var", "SRC", "a1", "_b"]
NOISE = ["message(STATUS \"%s\")\n", "# %s\n", "\n", "foo(a b # %s\n)\n",
         "#[[ %s ]]\n", "include(%s)\n", "if(%s)\n  foo()\nendif()\n",
         "math(EXPR %s \"1 + 2\")\n", "return()\n"]


def worker_setup():
  cli.preload()


def fixed():
  for text, want in HAND:
    yield {"files": [text], "want": want, "fmt": "json", "way": "file"}
    yield {"files": [text], "want": want, "fmt": "python", "way": "stdin"}


def entry(nargs, flags=None, one=(), multi=(), spelling=None):
  out = {"pargs": {"nargs": nargs}}
  if flags is not None:
    out["pargs"]["flags"] = list(flags)
    out["kwargs"] = dict([(k, 1) for k in one] + [(k, "+") for k in multi])
  if spelling:
    out["spelling"] = spelling
  return out


HAND = [
    ("", {}), ("foo()\n", {}), ("function()\nendfunction()\n", {}),
    ("function(f)\nendfunction()\n", {"f": entry(0)}),
    ("function(_f a)\nendfunction()\n", {}),
    ("FUNCTION(Fox a b)\nENDFUNCTION(Fox)\n",
     {"fox": entry(2, spelling="Fox")}),
    ("macro(m a)\ncmake_parse_arguments(A \"F\" \"O\" \"M\" ${ARGN})\n"
     "endmacro()\n", {"m": entry("1+", ["F"], ["O"], ["M"])}),
    ("macro(m)\ncmake_parse_arguments(A \"\" \"\" \"\" ${ARGN})\nendmacro()\n",
     {"m": entry("*", [])}),
    ("macro(m)\ncmake_parse_arguments(A)\nendmacro()\n", {"m": entry(0)}),
    ("function(o a)\nfunction(i)\ncmake_parse_arguments(A \"F\" \"\" \"\" x)\n"
     "endfunction()\nendfunction()\n", {"o": entry(1), "i": entry("*", ["F"])}),
    ("function(p a)\ncmake_parse_arguments(PARSE_ARGV 1 A \"F;G\" \"O\" \"\")\n"
     "endfunction()\n", {"p": entry("1+", ["F", "G"], ["O"])}),
    ("function(v)\nif(1)\nset(x A B)\nendif()\nset(y \"${x};C\")\n"
     "cmake_parse_arguments(A \"${y}\" \"\" \"${z}\" x)\nendfunction()\n",
     {"v": entry("*", ["A", "B", "C"])}),
    ("function(f a)\nendfunction()\nif(1)\nfunction(f a b)\nendfunction()\n"
     "endif()\nfunction(g)\nendfunction()\n", {"f": entry(2), "g": entry(0)}),
    ("function(f # c\n a #[[d]] b)\nendfunction()\n", {"f": entry(2)}),
    ("function(f)\r\n  set(o A\r\n    B)\r\n  cmake_parse_arguments(A \"${o}\""
     " \"\" \"\" x)\r\nendfunction()\r\n", {"f": entry("*", ["A", "B"])}),
    ("function(f)\nset(o A)\nset(o)\ncmake_parse_arguments(A \"${o}\" \"\" "
     "\"P\" x)\nendfunction()\n", {"f": entry("*", [], [], ["P"])}),
    ("function(f)\ncmake_parse_arguments(A \"F\" \"\" \"\" x)\n"
     "cmake_parse_arguments(B \"G\" \"\" \"\" x)\nendfunction()\n",
     {"f": entry("*", ["F"])}),
]


def case(rng, word):
  return rng.choice([word, word, word, word.upper(), word.title()])


def noise(rng, indent):
  if rng.random() < 0.5:
    return ""
  text = rng.choice(NOISE)
  if "%s" in text:
    text = text % rng.choice(WORDS)
  return "".join(indent + line + "\n" if line else "\n"
                 for line in text.rstrip("\n").split("\n"))


def list_value(rng, words, variables, lines, indent):
  """A spelling of the list, perhaps with set() statements for it"""
  roll = rng.random()
  if roll < 0.35 or (not words and roll < 0.8):
    if len(words) == 1 and rng.random() < 0.3:
      return words[0]
    return rng.choice(['"%s"', '"%s"', '"%s"', '";%s"', '"%s;;"']) % (
        rng.choice([";", ";", ";;"]).join(words))
  name = rng.choice(["options", "_opts", "oneValueArgs", "M9", "x_y", "kw"])
  name = "%s%d" % (name, len(variables))
  variables.append(name)

  def values(part):
    if rng.random() < 0.4:
      # empty items of a list are ignored
      return '"' + ";".join(part) + rng.choice(["", "", "", ";"]) + '"'
    if len(part) > 2 and rng.random() < 0.3:
      return "\n      ".join(part)
    return " ".join(part) if part else '""'

  wrap = rng.random() < 0.2
  body = []
  cut = rng.randrange(len(words) + 1)
  if 0 < cut < len(words) and rng.random() < 0.7:
    body.append("%s(%s %s)" % (case(rng, "set"), name, values(words[:cut])))
    rest = values(words[cut:])
    body.append("%s(%s ${%s} %s)" % (case(rng, "set"), name, name, rest))
  else:
    body.append("%s(%s %s)" % (case(rng, "set"), name, values(words)))
  if rng.random() < 0.15:
    body.insert(0, "set(%s STALE)" % name)
  if wrap:
    body = ["if(A)"] + ["  " + b for b in body] + ["endif()"]
  for item in body:
    lines.append(indent + item + rng.choice(["", "", " # c"]) + "\n")
  roll = rng.random()
  if roll < 0.2 and words:
    return "${%s}" % name if ";" not in "x" and len(words) == 1 else \
        '"${%s}"' % name
  if roll < 0.3:
    lines.append(indent + "set(sel%d %s)\n" % (len(variables), name))
    variables.append("sel")
    return '"${${sel%d}}"' % (len(variables) - 1)
  return '"${%s}"' % name


def definition(rng, depth, defs, taken):
  indent = "  " * depth
  name = rng.choice(NAMES) + rng.choice(["", "", str(rng.randrange(10))])
  kind = rng.choice(["function", "macro"])
  nargs = rng.choice([0, 0, 1, 2, 3])
  pargs = rng.sample(PARGS, nargs)
  head = [name] + pargs
  sep = rng.choice([" ", " ", " ", "  ", "\n" + indent + "    "])
  lines = ["%s%s(%s)\n" % (indent, case(rng, kind), sep.join(head))]
  inner = indent + "  "
  variables = []
  sign = None
  if rng.random() < 0.65:
    words = rng.sample(WORDS, rng.choice([0, 1, 2, 4, 7]))
    lists = [[], [], []]
    for word in words:
      rng.choice(lists).append(word)
    sign = lists
  slot = defs.setdefault("order", [])
  lines.append(noise(rng, inner))
  position = len(slot)
  slot.append((name, nargs, sign))
  if rng.random() < 0.12 and depth < 2:
    lines.append(definition(rng, depth + 1, defs, taken))
  if sign is not None:
    spelled = [list_value(rng, part, variables, lines, inner)
               for part in sign]
    lines.append(noise(rng, inner))
    func = case(rng, "cmake_parse_arguments")
    if rng.random() < 0.25 and kind == "function":
      args = ["PARSE_ARGV", str(nargs), "ARG"] + spelled
    else:
      args = [rng.choice(["ARG", "\"_a\"", "${name}"])] + spelled + \
          [rng.choice(["${ARGN}", "\"${ARGN}\""])]
    sep = rng.choice([" ", " ", "\n" + inner + "  "])
    lines.append(inner + func + "(" + sep.join(args) + ")\n")
    if rng.random() < 0.1:
      lines.append(inner + "set(options LATER)\n")
  lines.append(noise(rng, inner))
  if rng.random() < 0.12 and depth < 2:
    lines.append(definition(rng, depth + 1, defs, taken))
  lines.append("%s%s(%s)\n" % (indent, case(rng, "end" + kind),
                               rng.choice(["", "", name])))
  assert slot[position][0] == name
  return "".join(lines)


def gen(rng, idx, tier):
  files, want = [], {}
  for _ in range(rng.choice([1, 1, 1, 2, 3])):
    text = ""
    defs = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
      text += noise(rng, "")
      if rng.random() < 0.15:
        block = rng.choice([("if(A)", "endif()"), ("foreach(i 1 2)",
                                                   "endforeach()"),
                            ("if(NOT x)\nelse()", "endif()")])
        text += block[0] + "\n" + definition(rng, 1, defs, want) + \
            block[1] + "\n"
      else:
        text += definition(rng, 0, defs, want)
      text += rng.choice(["", "\n"])
    if rng.random() < 0.1:
      text = text.replace("\n", "\r\n")
    for name, nargs, sign in defs.get("order", []):
      if name.startswith("_"):
        continue
      spelling = name if name not in (name.lower(), name.upper()) else None
      if sign is None:
        spec = entry(nargs, spelling=spelling)
      else:
        up = [[w.upper() for w in part] for part in sign]
        spec = entry("%d+" % nargs if nargs else "*", up[0], up[1], up[2],
                     spelling)
      want[name.lower()] = spec
    files.append(text)
  return {"files": files, "want": want,
          "fmt": rng.choice(["json", "json", "yaml", "python"]),
          "way": rng.choice(["file", "file", "out", "stdin"]),
          "bad": [[rng.choice(["missing", "undecodable"]), rng.randrange(4)]
                  for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2]))]}


def calls(want):
  """[(call, call with the keywords in lower case)] for the formatter"""
  for name, spec in sorted(want.items()):
    nargs = spec["pargs"]["nargs"]
    count = nargs if isinstance(nargs, int) else int(nargs.rstrip("*+") or 0)
    args = ["Pos_%d" % i for i in range(count)]
    low = list(args)
    for flag in spec["pargs"].get("flags", []):
      args.append(flag)
      low.append(flag.lower())
    for key, num in sorted(spec.get("kwargs", {}).items()):
      vals = ["Val_1"] if num == 1 else ["Val_1", "VAL_2", "vAL_3"]
      args += [key] + vals
      low += [key.lower()] + vals
    if not spec["pargs"].get("flags") and not spec.get("kwargs"):
      args.append("QUIET")
      low.append("QUIET")
    yield name, args, low


def judge(payload, obs):
  want = payload["want"]
  for text in payload["files"]:
    fmt.need_valid(text, max_depth=20)
  with cli.Scratch() as tmp:
    bad = []
    args = [] if payload["fmt"] == "python" else ["-f", payload["fmt"]]
    stdin = b""
    if payload["way"] == "stdin" and len(payload["files"]) == 1:
      stdin = payload["files"][0].encode("utf-8")
      args.append("-")
    else:
      args += [tmp.write("f%d.cmake" % num, text)
               for num, text in enumerate(payload["files"])]
      if payload["way"] == "file":
        # inputs that cannot be read are reported, and do not hide the others
        bad = payload.get("bad", [])
      for num, (what, where) in enumerate(bad):
        at = len(args) - min(where, len(payload["files"]))
        args.insert(at, tmp.write("bad%d.cmake" % num, b"# \xff\xfe(\n")
                    if what == "undecodable" else tmp / ("bad%d.cmake" % num))
    if payload["way"] == "out":
      args = ["-o", tmp / "out"] + args
    res = cli.run("genparsers", args, stdin=stdin, cwd=tmp.path)
    if (res.code != 0) != bool(bad) or isinstance(res.code, str):
      return "exit status %r with the bad inputs %r: %s" % (
          res.code, bad, res.err.decode("utf-8", "replace")[-500:])
    text = (cli.read(tmp / "out") if payload["way"] == "out"
            else res.out).decode("utf-8")
  try:
    if payload["fmt"] == "json":
      got = json.loads(text)
    elif payload["fmt"] == "yaml":
      import yaml
      got = yaml.safe_load(text)
    else:
      got = ast.literal_eval(text)
  except ImportError:
    raise Skip("no yaml")
  except Exception as ex:  # pylint: disable=broad-except
    return "the %s output cannot be read: %s: %r" % (
        payload["fmt"], ex, text[:200])
  got = json.loads(json.dumps(got or {}))
  if got != want:
    for name in sorted(set(got) | set(want)):
      if got.get(name) != want.get(name):
        return "%s: reported %r, defined %r" % (
            name, got.get(name), want.get(name))
  obs.hit("definitions", len(want))
  # the result as configuration
  for name, args, low in list(calls(want))[:4]:
    config = {"additional_commands": got, "keyword_case": "lower"}
    line = "%s(%s)\n" % (name, " ".join(args))
    out, _, err = fmt.try_fmt(line, config)
    if err:
      return "formatting %r with the result: %s" % (line, err)
    cmds = reflex.commands(reflex.lex(out))
    if len(cmds) != 1 or [a[1] for a in cmds[0].args] != low:
      return "%r is formatted as %r with the result" % (line, out)
    obs.hit("calls formatted")
  if any(spec.get("kwargs") for spec in want.values()):
    obs.see(payload["fmt"], payload["way"], sorted(want.items(), key=repr))
  return None
