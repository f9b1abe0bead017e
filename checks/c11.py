"""C11: what the tools cannot make sense of is refused, and nothing is lost."""
import json
import re

from vlib import cli, fmt, gen as vgen, lintgen, reflex
from vlib.run import Skip

RULE = """Two kinds of cases. (1) A text that need not be a listfile: valid
listfiles with characters, lines, quotes, brackets, parentheses and block
commands removed, added, doubled or swapped, cut off anywhere, or random
characters of the syntax. The library either raises, or the formatted text has
every character of the input that is not white space, in order (apart from case
and the '#' of comments); a text with a block command whose own end command is
missing or another one is refused; the parser, linter, annotator end likewise. Every
12th case goes through the command line: a refused text gives an exit status
that is not 0 from cmake-format (all modes), cmake-lint and cmake-annotate, a
message on standard error, an empty standard output of cmake-format, and leaves
every file alone. (2) A configuration that cannot be used (missing file,
missing include, unparsable, not a mapping, an enumeration with a wrong value,
unknown or wrong command line options): the same. Non-trivial: a text that
CMake rejects, or such a configuration; distinct by (outcome, kind of the
damage, shape)."""
COUNT = {"quick": 9000, "thorough": 400000}
CASE_LIMIT = 20.0

HAND = [
    "foo(a", "foo a)", "foo)", "(", ")", "foo(a))", "foo(\n(a)\n", "\"a",
    "foo(\"a", "foo(\"a)\n\"b\"", "foo([[a)", "foo([[a]=])", "[[a]]", "\"a\"",
    "foo", "foo\nbar()", "foo()bar()", "foo() bar()", "if(a)\n", "endif()",
    "else()", "if(a)\nendwhile()", "foo(a\\", "foo([[a]]b)", "foo(a)b",
    "foo(a) \"b\"", "foo(${a}}", "$(x)", "1()", "foo(){}", "foo[]", "foo()()",
    "a\0b", "foo(\0)", "\u00e9()", "# cmake-format: off\nbar(",
    "foo() # cmake-format: off\nbar(", ";", "foo();", "set(a",
    "function(a)\nif(b)\nendfunction()\nendif()", "macro()",
    "foreach()\nendforeach()endforeach()", "@foo@(a)", "${foo}(a)", "'a'",
    "elseif(x)\nendif()", "if(())", "if(AND", "set(", "\ufefffoo(",
    "foo(a\r\rb", "if(a)\n(endif)", "#[[ a", "foo(#[[ a)\nb", "foo(a #[==[ b)",
    "if(a)\nelse()\n", "while(a)\nforeach(b)\nendwhile()\nendforeach()\n",
    "foo(a)\n\n\nbar(b\n\n\nbaz(c)\n", "foo(a)\n)\nbar(b)\n", "[", "foo([=[)",
    "foo(\")\n)\nbar(\")\n", "install(", "install(TARGETS a RUNTIME",
    "if(a AND (b OR c)\n  foo()\nendif()\n", "endfunction()\nfunction(a)\n",
    "if(a)\nforeach(x)\nfoo( )\nendif()\nendif()\n",
    "foreach(x)\nif(a)\nfoo( )\nendforeach()\nendforeach()\n",
    "function(f)\nwhile(a)\nendfunction()\n", "macro(m)\nendfunction()\n",
    "while(a)\nfunction(f)\nendwhile()\nendwhile()\n",
    "list(APPEND", "add_custom_command(OUTPUT (a)", "foo(a=\"b)", "foo((((",
]
FENCE = re.compile("(?i)#[ \\t]*(cmake-format|cmf):")
BLOCKS = ["if(a)", "elseif(b)", "else()", "endif()", "foreach(x)",
          "endforeach()", "while(a)", "endwhile()", "function(f)",
          "endfunction()", "macro(m)", "endmacro()", "foo(a)", "# note",
          "IF(a)", "EndIf()", "endforeach(x)", "endif(a) # why"]
BLOCK_WORD = re.compile(
    r"(?im)^[ \t]*(end)?(if|foreach|while|function|macro)(?=[ \t]*\()")
MODES = ["stdout", "out", "inplace", "check", "stdin", "lint", "page", "stub",
         "lint2", "dump"]

BAD_CONFIGS = [
    ("missing.yaml", None), ("sub/missing.py", None),
    ("a.yaml", "format: [1\n"), ("a.yaml", "a: b: c\n"), ("a.yaml", "\t- x\n"),
    ("a.json", "{\"format\": \n"), ("a.json", "{\"format\": {}} x"),
    ("a.py", "line_width = \n"), ("a.py", "import nosuchmodule_xyz\n"),
    ("a.py", "with section('format'):\nline_width = 3\n"),
    ("a.py", "line_width = nosuchname\n"), ("a.py", "1/0\n"),
    ("a.yaml", "- 1\n- 2\n"), ("a.json", "[1]"), ("a.yaml", "format: 3\n"),
    ("a.json", "{\"markup\": []}"), ("a.yaml", "parse: x\n"),
    ("a.yaml", "format:\n  line_ending: bogus\n"),
    ("a.yaml", "format:\n  command_case: bogus\n"),
    ("a.json", "{\"format\": {\"line_ending\": \"\"}}"),
    ("a.yaml", "format:\n  line_width: abc\n"),
    ("a.yaml", "format:\n  line_width: null\n"),
    ("a.yaml", "include:\n- nosuch.yaml\n"),
    ("a.json", "{\"include\": [\"nosuch/b.json\"]}"),
    ("a.py", "include = ['nosuch.py']\n"),
    ("a.yaml", "encode:\n  input_encoding: nosuch-encoding\n"),
    ("a.yaml", "encode:\n  output_encoding: nosuch-encoding\n"),
    ("a.yaml", "encode:\n  output_encoding: ascii\n"),
    ("a.yaml", "encode:\n  input_encoding: ascii\n"),
    ("a", "\0\x01"), ("a.json", "\ufffe"),
]
BAD_ARGS = [["--nosuch-option"], ["--line-width", "abc"], ["--line-width"],
            ["--line-ending", "bogus"], ["--tab-size", "x"],
            ["--command-case", "bogus"], ["--keyword-case", "bogus"],
            ["--dangle-align", "bogus"], ["--log-level", "bogus"],
            ["--use-tabchars", "maybe", "--nosuch"], ["--config-files"]]


def worker_setup():
  cli.preload()


def fixed():
  for text in HAND:
    yield {"what": "text", "text": text, "config": {}, "via": "lib"}
    for mode in MODES:
      yield {"what": "text", "text": text, "config": {}, "via": mode}
  for conf in BAD_CONFIGS:
    for where in ("dash-c", "dir"):
      for mode in ("stdout", "inplace", "out", "check", "lint", "page"):
        yield {"what": "conf", "conf": list(conf), "where": where,
               "mode": mode}
  for args in BAD_ARGS:
    for mode in ("stdout", "inplace", "lint"):
      yield {"what": "args", "args": args, "mode": mode}


JUNK = ["(", ")", "\"", "[[", "]]", "[=[", "]=]", "#[[", "#", "\\", "$", "${",
        "}", "'", ";", "\n", " ", "\r", "a", "1", "=", "@", "<", ">", "$<",
        "if(a)\n", "endif()\n", "else()\n", "foreach(a)\n", "endforeach()\n",
        "function(f)\n", "endfunction()\n", "macro(m)\n", "endmacro()\n",
        "while(a)\n", "endwhile()\n", "foo(", "\0", "\t", "\u00e9", "\ufeff",
        "# cmake-format: off\n", "# cmake-format: on\n", "\x0c", "\u2028",
        "AND", "NOT", "TARGETS", "DESTINATION", "COMMAND"]


def damage(rng, text):
  kinds = []
  for _ in range(rng.choice([1, 1, 1, 2, 3])):
    kind = rng.choice(["insert", "delete", "cut", "double", "swap", "drop",
                       "one", "line", "behead", "block"])
    kinds.append(kind)
    pos = rng.randrange(len(text) + 1)
    if kind == "insert":
      text = text[:pos] + rng.choice(JUNK) + text[pos:]
    elif kind == "delete":
      text = text[:pos] + text[pos + rng.choice([1, 1, 2, 5]):]
    elif kind == "cut":
      text = text[:pos]
    elif kind == "behead":
      text = text[pos:]
    elif kind == "double":
      end = min(len(text), pos + rng.randrange(1, 30))
      text = text[:end] + text[pos:end] + text[end:]
    elif kind == "swap":
      a, b = sorted([pos, rng.randrange(len(text) + 1)])
      text = text[:a] + text[b:b + 8] + text[a:b] + text[b + 8:]
    elif kind == "drop" or kind == "one":
      # a character which matters
      spots = [i for i, c in enumerate(text) if c in "()\"[]#\\"]
      if spots:
        at = rng.choice(spots)
        text = text[:at] + (rng.choice(JUNK) if kind == "one" else "") + \
            text[at + 1:]
    elif kind == "block":
      # another block command instead of one
      spots = list(BLOCK_WORD.finditer(text))
      if spots:
        spot = rng.choice(spots)
        text = (text[:spot.start()] + rng.choice(["", "end"]) + rng.choice(
            ["if", "foreach", "while", "function", "macro"])
                + text[spot.end():])
    elif kind == "line":
      lines = text.split("\n")
      at = rng.randrange(len(lines))
      if rng.random() < 0.5:
        del lines[at]
      else:
        lines.insert(rng.randrange(len(lines)), lines[at])
      text = "\n".join(lines)
  return text, sorted(set(kinds))


def gen(rng, idx, tier):
  roll = rng.random()
  if idx % 60 == 7:
    return {"what": "conf", "conf": list(rng.choice(BAD_CONFIGS)),
            "where": rng.choice(["dash-c", "dir"]),
            "mode": rng.choice(["stdout", "inplace", "out", "check", "lint",
                                "page", "stdin"])}
  if idx % 9 == 4:
    # block commands, mostly well nested, with one or two of them wrong
    out = []

    def block(depth):
      for _ in range(rng.randrange(1, 3)):
        word = rng.choice(["if", "foreach", "while", "function", "macro", ""])
        if not word or depth > 4:
          out.append(rng.choice(["foo(a)", "# note", "", "set(x 1)"]))
          continue
        out.append(word + "(a)")
        block(depth + 1)
        if word == "if" and rng.random() < 0.3:
          out.append(rng.choice(["else()", "elseif(b)"]))
          block(depth + 1)
        out.append("end" + word + "()")
    block(0)
    for _ in range(rng.choice([1, 1, 2])):
      at = rng.randrange(len(out))
      roll = rng.random()
      if roll < 0.4:
        out[at] = rng.choice(BLOCKS)
      elif roll < 0.7:
        out.insert(at, rng.choice(BLOCKS))
      elif len(out) > 1:
        del out[at]
    text, kinds = "\n".join(out) + "\n", ["blocks"]
  elif roll < 0.15:
    text = "".join(rng.choice(JUNK) for _ in range(rng.randrange(1, 25)))
    kinds = ["junk"]
  else:
    if roll < 0.6:
      text = fmt.make_text(rng, idx)
    else:
      text = lintgen.LintGen(rng).listfile()
    text, kinds = damage(rng, text)
  cfg = fmt.make_cfg(rng) if rng.random() < 0.4 else {}
  cfg["enable_markup"] = False
  return {"what": "text", "text": text, "config": cfg, "kinds": kinds,
          "via": "lib" if idx % 12 else rng.choice(MODES)}


def essence(text):
  return "".join(text.split()).replace("\ufeff", "").replace(
      "#", "").replace("\0", "").lower().replace("cmf:", "cmake-format:")


def preserved(text, out, cfg):
  """Message if a character of the input is missing."""
  want, got = essence(text), essence(out)
  if want == got:
    return None
  pos = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b),
             min(len(want), len(got)))
  return ("accepted, but the output differs from the input: %r became %r"
          % (want[max(0, pos - 20):pos + 20], got[max(0, pos - 20):pos + 20]))


def open_block(text):
  """True if a block command is never ended by its own end command, whatever
  else is taken for an ordinary statement; None if the text has no tokens."""
  try:
    cmds = reflex.commands(reflex.lex(text))
  except reflex.RefError:
    return None
  opens = {"if": "endif", "foreach": "endforeach", "while": "endwhile",
           "function": "endfunction", "macro": "endmacro"}
  stack = []
  for cmd in cmds:
    name = cmd.name.lower()
    if name in opens:
      stack.append(opens[name])
    elif stack and stack[-1] == name:
      stack.pop()
  return bool(stack)


def is_valid(text):
  try:
    return reflex.blocks_balanced(reflex.commands(reflex.lex(text)))
  except reflex.RefError:
    return False


def library(text, cfg):
  """-> (accepted, message)"""
  out, _, err = fmt.try_fmt(text, cfg)
  if err is not None:
    return False, None
  return True, preserved(text, out, cfg)


def judge_text(payload, obs):
  text, cfg = payload["text"], payload["config"]
  if is_valid(text):
    raise Skip("valid")
  cfg = dict(cfg, enable_markup=False)
  accepted, msg = library(text, cfg)
  if msg:
    return msg
  if accepted and open_block(text) and not FENCE.search(text):
    return "accepted, but a block is not ended by its own end command"
  obs.hit("accepted" if accepted else "refused")
  via = payload["via"]
  if via == "lib":
    return seen(payload, accepted, obs)
  try:
    text.encode("utf-8")
  except UnicodeEncodeError:
    raise Skip("surrogates")
  with cli.Scratch() as scratch:
    scratch.write("cfg.json", json.dumps(cfg))
    scratch.write("bad.cmake", text)
    scratch.write("other.cmake", "foo(  b )\n")
    scratch.write("out.cmake", "precious\n")
    before = cli.snapshot(scratch.path)
    conf = ["-c", "cfg.json"]
    tool = "format"
    stdin = b""
    if via == "stdout":
      args = ["bad.cmake"] + conf
    elif via == "out":
      args = ["bad.cmake", "-o", "out.cmake"] + conf
    elif via == "inplace":
      args = ["-i", "bad.cmake", "other.cmake"] + conf
    elif via == "check":
      args = ["--check", "bad.cmake"] + conf
    elif via == "stdin":
      args, stdin = ["-"] + conf, text.encode("utf-8")
    elif via == "dump":
      args = ["--dump", "parse", "bad.cmake"] + conf
    elif via in ("lint", "lint2"):
      tool = "lint"
      args = (["bad.cmake", "other.cmake"] if via == "lint2" else
              ["bad.cmake"]) + conf
    else:
      tool = "annotate"
      args = ["-f", via, "bad.cmake"]
    res = cli.run(tool, args, stdin, cwd=scratch.path)
    after = cli.snapshot(scratch.path)
    if res.code < 0 or res.code in (97, 98):
      return "%s %r ended with %d: %r" % (tool, args, res.code, res.err[-300:])
    if accepted:
      return seen(payload, accepted, obs)
    if tool == "format" and via == "dump":
      # the parser may have been content, and the layout not
      return None if after == before else "--dump changed files"
    if tool == "annotate" or tool == "lint":
      # The layout is not computed by these. They may accept the text.
      from cmakelang import lex, parse
      try:
        tokens = lex.tokenize(text)
        parse.parse(tokens)
        return seen(payload, accepted, obs)
      except Exception:  # pylint: disable=broad-except
        pass
    if res.code == 0:
      return "%s %r: refused text, but exit status 0" % (tool, args)
    if not res.err.strip():
      return "%s %r: refused text, but no message" % (tool, args)
    if tool == "format" and res.out:
      return "%s %r: refused text, but output %r" % (tool, args, res.out[:80])
    if after != before:
      changed = [name for name in set(before) | set(after)
                 if before.get(name) != after.get(name)]
      return "%s %r: refused text, but files changed: %r" % (
          tool, args, changed)
    obs.hit("command line runs with a refused text")
  return seen(payload, accepted, obs)


def seen(payload, accepted, obs):
  text = payload["text"]
  obs.see(accepted, payload.get("kinds"), len(text) // 16,
          text.count("("), text.count(")"), text.count("\""))
  return None


GOOD = "foo(  a\u00e9 )\n"


def judge_conf(payload, obs):
  mode = payload["mode"]
  with cli.Scratch() as scratch:
    scratch.write("d/x.cmake", GOOD)
    scratch.write("out.cmake", "precious\n")
    args = []
    if payload["what"] == "conf":
      name, content = payload["conf"]
      if payload["where"] == "dash-c":
        if content is not None:
          scratch.write(name, content)
        args = ["-c", name]
      else:
        if content is None:
          raise Skip("nothing to find")
        ext = name.split(".", 1)[1] if "." in name else None
        scratch.write("d/.cmake-format" + ("." + ext if ext else ""), content)
    else:
      args = payload["args"]
      name = content = None
    before = cli.snapshot(scratch.path)
    tool, stdin, cwd = "format", b"", scratch.path
    if mode == "stdout":
      argv = ["d/x.cmake"] + args
    elif mode == "out":
      argv = ["d/x.cmake", "-o", "out.cmake"] + args
    elif mode == "inplace":
      argv = ["-i", "d/x.cmake"] + args
    elif mode == "check":
      argv = ["--check", "d/x.cmake"] + args
    elif mode == "stdin":
      argv, stdin = ["-"] + args, GOOD.encode()
      if payload.get("where") == "dir":
        raise Skip("working directory")
    elif mode == "lint":
      tool, argv = "lint", ["d/x.cmake"] + args
    else:
      tool, argv = "annotate", ["d/x.cmake"] + args
    if tool != "format" and content and (
        "command_case" in content or "put_encoding" in content
        or "line_" in content or "keyword_case" in content):
      raise Skip("an option that the tool does not need")
    res = cli.run(tool, argv, stdin, cwd=cwd)
    after = cli.snapshot(scratch.path)
    if res.code == 0:
      return "%s %r: exit status 0 with %r" % (tool, argv, payload.get(
          "conf", payload.get("args")))
    if res.code < 0 or res.code in (97, 98):
      return "%s %r ended with %d" % (tool, argv, res.code)
    if not res.err.strip():
      return "%s %r: no message" % (tool, argv)
    if tool == "format" and res.out:
      return "%s %r: output %r" % (tool, argv, res.out[:80])
    if after != before:
      return "%s %r: files changed" % (tool, argv)
    obs.hit("runs with a bad configuration or command line")
    obs.see(payload["what"], mode, payload.get("conf"), payload.get("args"),
            payload.get("where"))
  return None


def judge(payload, obs):
  if payload["what"] == "text":
    return judge_text(payload, obs)
  return judge_conf(payload, obs)


def TIMEOUT_IS_VIOLATION(payload):  # pylint: disable=invalid-name
  return len(payload.get("text", "")) < 4000
