"""C10: every tool finishes on every listfile that CMake accepts."""
import io

from vlib import fmt, gen, lintgen, reflex
from vlib.run import Skip

RULE = """A case is a listfile that CMake accepts (random, from the corpus,
lint-oriented, every builtin command with random and missing arguments), a
configuration (formatting options, user specified commands with odd keywords
and counts) and a tool: the formatter, its debug dumps, the linter, the
annotator or the spec generator. It must end within the limit and raise
nothing. Non-trivial: two statements or five arguments; distinct by tool and
command names."""
COUNT = {"quick": 9000, "thorough": 400000}
CASE_LIMIT = 20.0

TOOLS = ["format", "lint", "lex", "parse", "layout", "markup", "parsedb",
         "page", "stub", "iframe", "genparsers"]

HAND = [
    "", "\n", "#", "# c", "#[[c]]", "foo()", "set()\n", "list()\n", "file()\n",
    "string()\n", "install()\n", "if()\nendif()\n", "while()\nendwhile()\n",
    "foreach()\nendforeach()\n", "foreach(x)\nendforeach()\n",
    "function()\nendfunction()\n", "macro()\nendmacro()\n",
    "cmake_parse_arguments()\n", "cmake_policy()\n", "add_library()\n",
    "add_library(x)", "add_executable()\n", "add_executable(x)",
    "add_custom_command()\n", "add_custom_target()\n", "add_custom_target(x)\n",
    "set_target_properties()\n", "set_target_properties(a PROPERTIES)\n",
    "set_target_properties(a PROPERTIES b)\n", "break(a)\n", "export()\n",
    "install(TARGETS)\n", "install(TARGETS a DESTINATION#c\n b)\n",
    "set(x y CACHE#c\n STRING z)\n", "set(x y PARENT_SCOPE#c\n)\n",
    "if(a AND#c\n b)\nendif()\n", "set(x CACHE)\n", "set(CACHE)\n",
    "set(PARENT_SCOPE)\n", "list(LENGTH)\n", "list(APPEND)\n", "list(GET)\n",
    "list(${x})\n", "list(foo)\n", "list(foo bar)\n", "message(\"${x\")\n",
    "message(\"${CMAKE_CXX_STANDARD\")\n", "message(\"{PROJECT_NAME}\")\n",
    "function(f)\nforeach(a ${ARGN})\nif(a)\nendif()\nendforeach()\n"
    "endfunction()\n",
    "function(f)\nwhile(${ARGN})\nif(NOT a)\nendif()\nendwhile()\n"
    "endfunction()\n",
    "if(a)endif()\n" if False else "if(a)\nendif()",
    "set(x y CACHE STRING)\n", "set(x y CACHE a b c d)\n", "set(#c\n)\n",
    "list(#c\n)\n", "file(#c\n)\n", "string(#[[c]])\n", "install(#c\n)\n",
    "set(${x})\n", "set(\"\")\n", "set([[x]] y)\n", "function(\"a\")\n"
    "endfunction()\n", "foreach(\"\")\nendforeach()\n",
    "add_custom_command(OUTPUT)\n", "add_custom_command(TARGET)\n",
    "add_custom_command(${x})\n", "cmake_policy(foo)\n", "cmake_policy(${x})\n",
    "file(${x})\n", "file(foo)\n", "string(${x})\n", "build_command(a b)\n",
    "exec_program()\n", "install_files()\n", "install_files(a)\n",
    "install_targets()\n", "subdirs()\n", "ExternalProject_Add()\n",
    "FetchContent_Declare()\n", "@x@\n", "@x@ # c\n", "block()\nendblock()\n",
    "if(((a)))\nendif()\n", "foo(((a)))\n", "set(x (a))\n", "set((a))\n",
    "list((a))\n", "function((a))\nendfunction()\n", "if((a)(b))\nendif()\n",
    "foreach((a))\nendforeach()\n", "add_library((a))\n", "file((a))\n",
    "install((a))\n", "add_custom_command((a))\n", "add_custom_target((a))\n",
    "set_target_properties((a) PROPERTIES (b) (c))\n", "string((a))\n",
    "# cmake-lint: disable=C0103\n", "# cmake-lint: foo\nfoo()\n",
    "# cmake-format: sort\nfoo(a)\n", "foo(# cmake-format: sort\n b a)\n",
]
SPECS = [{}, {"foo": {"pargs": 0}}, {"foo": {"pargs": "2+"}},
         {"foo": {"pargs": {"nargs": "+", "flags": ["x"]}}},
         {"foo": {"pargs": [{"nargs": 1}, {"nargs": "?"}],
                  "kwargs": {"a": 1, "B": {"pargs": "*", "kwargs": {"A": 0}}}}},
         {"foo": {"flags": ["a", "-b"], "kwargs": {"-x": "*", "12": "+"}}}]


def fixed():
  for text in HAND:
    for tool in TOOLS:
      yield {"text": text, "config": {}, "tool": tool}
    for tool in ("format", "lint"):
      for cfg in ({"line_ending": "auto"}, {"use_tabchars": True},
                  {"line_width": 10, "dangle_parens": True},
                  {"max_pargs_hwrap": 0, "max_subgroups_hwrap": 0},
                  {"autosort": True, "always_wrap": ["foo", "set"]}):
        yield {"text": text, "config": cfg, "tool": tool}
  for spec in SPECS:
    for text in ("foo()\n", "foo(a)\n", "foo(b a c B a A x -x 12 -b)\n",
                 "foo(B A #c\n)\n", "foo(B#c\n A#d\n)\n", "foo((a) (B))\n"):
      for tool in ("format", "lint", "stub"):
        yield {"text": text, "config": {"additional_commands": spec},
               "tool": tool}


def random_spec(rng, words, depth=0):
  count = lambda: rng.choice(["*", "+", "?", 0, 1, 2, 3, "1+", "2+", "0+"])
  out = {}
  roll = rng.random()
  if roll < 0.2 and depth:
    return count()
  if roll < 0.5:
    out["pargs"] = count()
  elif roll < 0.8:
    out["pargs"] = [
        dict(nargs=count(), **({"flags": rng.sample(words, 1)}
                               if words and rng.random() < 0.3 else {}))
        for _ in range(rng.choice([0, 1, 2, 3]))]
  if words and rng.random() < 0.7 and depth < 3:
    out["kwargs"] = {
        w: random_spec(rng, words, depth + 1)
        for w in rng.sample(words, min(len(words), rng.choice([1, 2, 3])))}
  if words and rng.random() < 0.4 and not isinstance(out.get("pargs"), list):
    out["flags"] = rng.sample(words, min(len(words), 2))
  return out


def wild_args(rng, idx):
  """Every builtin command with arbitrary arguments."""
  lgen = lintgen.LintGen(rng, ws=0.3, pragmas=0.2)
  out = ""
  for _ in range(rng.choice([1, 2, 3])):
    name, args = lgen.builtin()
    if rng.random() < 0.15:
      pos = rng.randrange(len(args) + 1)
      args[pos:pos] = rng.choice([["(", "a", ")"], ["(", ")"],
                                  ["(", "(", "x", ")", ")"]])
    if rng.random() < 0.3:
      pos = rng.randrange(len(args) + 1)
      args[pos:pos] = [rng.choice(["#c\n", "# c\n", "#[[c]]", "\n#\n",
                                   "# cmake-format: off\n",
                                   "# cmake-format: on\n", "# cmf: sort\n"])]
    sep = rng.choice([" ", " ", "\n", ""])
    text = name + "("
    for arg in args:
      if text[-1] not in "(\n" and not arg.startswith("#"):
        text += sep if sep or arg in "()" else " "
      text += arg
    out += text + ")\n"
  return out


def gen_text(rng, idx):
  roll = rng.random()
  if roll < 0.3:
    return fmt.make_text(rng, idx)
  if roll < 0.65:
    return lintgen.LintGen(rng).listfile()
  return wild_args(rng, idx)


def gen(rng, idx, tier):
  text = gen_text(rng, idx)
  tool = TOOLS[idx % 2] if rng.random() < 0.7 else rng.choice(TOOLS)
  cfg = fmt.make_cfg(rng) if rng.random() < 0.5 else {}
  if rng.random() < 0.3:
    cfg["autosort"] = True
  if tool == "lint" and rng.random() < 0.5:
    cfg = lintgen.random_config(rng)
  if rng.random() < 0.25:
    try:
      cmds = reflex.commands(reflex.lex(text))
    except reflex.RefError:
      return None
    extra = {}
    for cmd in cmds[:4]:
      if cmd.args is None or cmd.name.lower() in (
          "if", "while", "elseif", "else", "endif", "endwhile", "foreach",
          "endforeach", "function", "endfunction", "macro", "endmacro"):
        continue
      words = [a[1] for a in cmd.args if a[0] != "("] + ["KEY", "key", "-k"]
      words = sorted(set(w for w in words if len(w) < 20 and "." not in w))
      extra[cmd.name] = random_spec(rng, words)
    if extra:
      cfg["additional_commands"] = extra
  if tool == "genparsers":
    cfg = {}  # it reads no configuration
  return {"text": text, "config": cfg, "tool": tool}


def run_tool(tool, text, cfg):
  from cmakelang import annotate, genparsers
  from cmakelang.format import __main__ as fmain
  from cmakelang.lint import __main__ as lmain, lint_util
  config = fmt.make_config(cfg)
  out = io.StringIO()
  if tool == "format":
    return fmain.process_file(config, text)[0]
  if tool in ("lex", "parse", "layout", "markup", "parsedb"):
    return fmain.process_file(config, text, tool)[0]
  if tool == "lint":
    gctx = lint_util.GlobalContext(out)
    local = gctx.get_file_ctx("x.cmake", config)
    lmain.process_file(config, local, text)
    local.writeout(out)
    return out.getvalue()
  if tool == "genparsers":
    return repr(genparsers.process_tree(
        genparsers.process_file(config, text)))
  annotate.annotate_file(config, io.StringIO(text, newline=""), out, tool)
  return out.getvalue()


def judge(payload, obs):
  text, tool, cfg = payload["text"], payload["tool"], payload["config"]
  toks = fmt.need_valid(text)
  from vlib.run import Watchdog
  try:
    run_tool(tool, text, cfg)
  except Watchdog:
    raise
  except BaseException as ex:  # pylint: disable=broad-except
    import os
    import traceback
    last = traceback.extract_tb(ex.__traceback__)[-1]
    return "%s raised %s: %s (%s, %s)" % (
        tool, type(ex).__name__, (str(ex) or getattr(ex, "msg", ""))[:300],
        os.path.basename(last.filename), last.name)
  cmds = reflex.commands(toks)
  obs.hit("runs of " + tool)
  if len(cmds) > 1 or sum(len(c.args or ()) for c in cmds) > 4:
    obs.see(tool, tuple(c.name.lower() for c in cmds)[:8], sorted(cfg))
  return None


def TIMEOUT_IS_VIOLATION(payload):  # pylint: disable=invalid-name
  """Nothing this short takes a minute."""
  return len(payload["text"]) < 4000
