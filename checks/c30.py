"""C30: ctest-to reports exactly the tests of a build directory."""
import json
import os
import shutil
import subprocess
from xml.etree import ElementTree

from vlib import cli
from vlib.run import Skip

RULE = """A case is a build directory tree with CTestTestfile.cmake files which
define known tests (names, argument vectors, properties), written as cmake
writes them or by hand (quoted, unquoted, bracket arguments, escape sequences,
comments, odd white space). The monitor runs the real main() of ctest-to and
compares its JSON and XML with the tests which were written down; for a sample,
the real ctest reads the same directory and must see the same tests (which
checks the monitor). Non-trivial: a test with arguments or properties; distinct
by (styles, directories, tests)."""
COUNT = {"quick": 2500, "thorough": 80000}
CTEST = shutil.which("ctest")

WORDS = ["a", "b c", "d;e", 'q"uote', "back\\slash", "do${x}llar", "nl\nx",
         "tab\tx", "#c", "(", ")", "x]]y", "]=]", "", "é☃", "--flag=v", "-E",
         "$<x>", "\\(a\"\\)", "x\\", "@a@", "a,b", "'", "PROPERTIES", "NOT",
         " lead", "trail ", "[[", "[=[x", "<&>", "#[[", "\\\\n", "${"]
NAMES = ["t1", "t2 [x]", "s.1", "a/b", "é", "x y", "t-3", "q\"", "(z)", "u#v",
         "Suite.Case/0", "w\\w", "m;n"]
PROPS = [("TIMEOUT", ["5", "0", "5.5", "1500", "0.25"]),
         ("LABELS", ["a", "a;b", "x y;z", "é"]),
         ("WILL_FAIL", ["TRUE", "FALSE"]),
         ("ENVIRONMENT", ["A=1;B=2", "P=\"x y\"", "D=a\\b"]),
         ("PASS_REGULAR_EXPRESSION", ["\\(a\"\\)", "[a-z]+$", "a|b;c"]),
         ("WORKING_DIRECTORY", ["/tmp/x y", "."]),
         ("COST", ["3"]), ("DEPENDS", ["t1", "t1;t2"]),
         ("_BACKTRACE_TRIPLES", ["/p/CMakeLists.txt;1;add_test;/p/C.txt;0;"]),
         ("FIXTURES_SETUP", ["f"]), ("custom_Prop", ["v", ""])]
HEAD = """# CMake generated Testfile for 
# Source directory: /s
# Build directory: /b
# 
# This file includes the relevant testing commands required for 
# testing this directory and lists subdirectories to be tested as well.
"""


def worker_setup():
  cli.preload()


def quoted(text, rng):
  out = []
  for char in text:
    if char in '"\\':
      out.append("\\" + char)
    elif char == "$":
      out.append("\\$")
    elif char == "\n" and rng and rng.random() < 0.5:
      out.append("\\n")
    elif char == "\t" and rng and rng.random() < 0.5:
      out.append("\\t")
    elif rng and char in "()#@ " and rng.random() < 0.2:
      out.append("\\" + char)
    else:
      out.append(char)
  return '"' + "".join(out) + '"'


def bracket(text, least=0):
  size = least
  while "]" + "=" * size + "]" in text + "]":
    size += 1
  eqs = "=" * size
  first = "\n" if text.startswith("\n") else ""
  return "[" + eqs + "[" + first + text + "]" + eqs + "]"


def bare(text):
  return bool(text) and not set(text) & set(" \t\n()#\"\\;$'@[]<>{}`") and \
      text not in ("NOT",)


def spell(text, rng):
  roll = rng.random()
  if roll < 0.25 and bare(text):
    return text
  if roll < 0.45:
    return bracket(text, rng.choice([0, 1, 1, 3]))
  return quoted(text, rng)


def gap(rng, style):
  if style == "cmake":
    return " "
  return rng.choice([" ", " ", "  ", "\n", "\n   ", "\t", " # note\n ",
                     " #[[ c ]] ", "\n# \"x\n"])


def statement(name, args, rng, style):
  if style != "cmake":
    name = rng.choice([name, name, name.upper(), name.title()])
  out = name + rng.choice(["", "", " "] if style != "cmake" else [""]) + "("
  if style != "cmake":
    out += rng.choice(["", "", " ", "\n  "])
  for num, arg in enumerate(args):
    out += (gap(rng, style) if num else "") + arg
  if style != "cmake":
    out += rng.choice(["", "", " ", "\n", " # end\n"])
  return out + ")" + ("\n" if style == "cmake"
                      else rng.choice(["\n", " # x\n", "\n\n", "\n#[[y]]\n"]))


def fixed():
  for style in ("cmake", "hand"):
    yield {"seed": 1, "style": style, "dirs": {
        "": {"subs": ["sub", "sub2"], "tests": [
            ["t1", ["/bin/true"] + WORDS[:13],
             [["ENVIRONMENT", "A=1;B=2"], ["LABELS", "a;b"],
              ["PASS_REGULAR_EXPRESSION", "\\(a\"\\)"], ["TIMEOUT", "5.5"]]],
            ["t2 [x]", ["/bin/true"], []]]},
        "sub": {"subs": [], "tests": [["s1", ["/bin/true", "y"],
                                       [["WILL_FAIL", "TRUE"]]]]},
        "sub2": {"subs": [], "tests": [["s1", ["/bin/true"], []]]}}}
    yield {"seed": 2, "style": style, "dirs": {"": {"subs": [], "tests": []}}}
    yield {"seed": 3, "style": style, "dirs": {
        "": {"subs": ["gone"], "tests": [["t", ["/bin/true"], []]]}}}


def gen(rng, idx, tier):
  dirs = {}
  todo = [""]
  while todo:
    path = todo.pop(0)
    subs = []
    for _ in range(rng.choice([0, 0, 1, 2]) if len(dirs) < 6 else 0):
      sub = rng.choice(["sub", "d d", "é", "x#y", "a/b", "p(q", "s%d"])
      if "%d" in sub:
        sub = sub % rng.randrange(99)
      if sub not in subs:
        subs.append(sub)
        todo.append(os.path.join(path, sub))
    tests = []
    for name in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 5])):
      argv = ["/bin/true"] + [rng.choice(WORDS)
                              for _ in range(rng.choice([0, 1, 2, 5]))]
      props = [[key, rng.choice(vals)] for key, vals in
               rng.sample(PROPS, rng.choice([0, 0, 1, 2, 4]))]
      tests.append([name, argv, props])
    dirs[path] = {"subs": subs, "tests": tests}
  if rng.random() < 0.1:
    dirs[""]["subs"].append("gone")
  return {"seed": rng.randrange(1 << 30), "dirs": dirs,
          "style": rng.choice(["cmake", "cmake", "hand"])}


def write(tmp, payload):
  import random
  rng = random.Random(payload["seed"])
  style = payload["style"]
  for path, spec in payload["dirs"].items():
    text = HEAD if style == "cmake" else rng.choice(["", HEAD, "# c\n\n"])
    pending = []
    for name, argv, props in spec["tests"]:
      shown = bracket(name, 1) if style == "cmake" else spell(name, rng)
      vals = [quoted(v, None) if style == "cmake" else spell(v, rng)
              for v in argv]
      text += statement("add_test", [shown] + vals, rng, style)
      if props:
        vals = []
        for key, value in props:
          vals += [key, quoted(value, None) if style == "cmake"
                   else spell(value, rng)]
        line = ("set_tests_properties", [shown, "PROPERTIES"] + vals)
        if style != "cmake" and rng.random() < 0.3:
          pending.append(line)
        else:
          text += statement(*line, rng=rng, style=style)
    for line in pending:
      text += statement(*line, rng=rng, style=style)
    subs = spec["subs"]
    if style != "cmake" and rng.random() < 0.3 and subs:
      text += statement("subdirs", [quoted(s, None) for s in subs], rng, style)
    else:
      for sub in subs:
        text += statement("subdirs", [quoted(sub, None)], rng, style)
    if style != "cmake" and rng.random() < 0.2:
      text = text.replace("\n", "\r\n") if "nl" not in text else text
    tmp.write(os.path.join("b", path, "CTestTestfile.cmake"), text)


def number(value):
  value = float(value)
  return int(value) if value == int(value) else value


def expected(payload, base):
  out = []
  for path, spec in payload["dirs"].items():
    for name, argv, props in spec["tests"]:
      want = {}
      for key, value in props:
        if key.startswith("_"):
          continue
        if key == "TIMEOUT":
          value = number(value)
        if key == "LABELS":
          value = value.split(";")
        want[key.lower()] = value
      cwd = os.path.join(base, path) if path else base
      out.append({"name": name, "argv": argv, "cwd": cwd, "props": want})
  return sorted(out, key=lambda t: (t["cwd"], t["name"]))


def from_xml(text):
  out = []
  for elem in ElementTree.fromstring(text):
    attr = dict(elem.attrib)
    props = dict((k, v) for k, v in attr.items() if k not in ("name", "cwd"))
    if "timeout" in props:
      props["timeout"] = number(props["timeout"])
    labels = elem.find("labels")
    if labels is not None:
      props["labels"] = [i.get("value") for i in labels]
    out.append({"name": attr["name"], "cwd": attr["cwd"], "props": props,
                "argv": [i.get("value") for i in elem.find("argv")]})
  return out


def ctest_view(base):
  proc = subprocess.run([CTEST, "--show-only=json-v1"], cwd=base,
                        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                        check=False, timeout=60)
  if proc.returncode != 0:
    return None
  out = []
  for test in json.loads(proc.stdout)["tests"]:
    out.append((test["name"], test.get("command")))
  return sorted(out)


def judge(payload, obs):
  with cli.Scratch() as tmp:
    write(tmp, payload)
    base = os.path.realpath(tmp / "b")
    want = expected(payload, base)
    mode = payload["seed"] % 4
    if CTEST and payload["seed"] % 40 < 2 and not any(
        ";" in w for t in want for w in [t["name"]]):
      seen = ctest_view(base)
      mine = sorted((t["name"], t["argv"] if t["argv"][0] == "/bin/true"
                     else None) for t in want)
      if seen is not None and "gone" not in payload["dirs"][""]["subs"]:
        obs.hit("directories also read by ctest")
        if seen != mine:
          obs.hit("directories which ctest sees otherwise")
          raise Skip("ctest sees other tests")
    for fmtname in ("json", "xml"):
      args = ["--" + fmtname] if fmtname != "json" or mode % 2 else []
      if mode >= 2:
        res = cli.run("ctest-to", args + [base], cwd=tmp.path)
      else:
        res = cli.run("ctest-to", args, cwd=base)
      err = res.err.decode("utf-8", "replace")
      if res.code != 0:
        return "ctest-to %s: exit status %r: %s" % (args, res.code, err[-600:])
      text = res.out.decode("utf-8")
      got = json.loads(text) if fmtname == "json" else from_xml(text)
      got = sorted(got, key=lambda t: (t["cwd"], t["name"]))
      if got != want:
        for one, two in zip(got + [None] * len(want),
                            want + [None] * len(got)):
          if one != two:
            return "%s: reported %r, defined %r" % (fmtname, one, two)
      obs.hit("tests reported", len(got))
      obs.hit("arguments", sum(len(t["argv"]) for t in got))
      obs.hit("properties", sum(len(t["props"]) for t in got))
    if any(len(t["argv"]) > 1 or t["props"] for t in want):
      obs.see(payload["style"], sorted(payload["dirs"]),
              [(t["name"], t["argv"], sorted(t["props"])) for t in want])
  return None
