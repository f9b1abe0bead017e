"""C24: the structural and naming lint is what its description says."""
import re

from vlib import fmt, lintgen, lintrun, reflex
from vlib.run import Skip

RULE = """A case is a listfile of definitions, loops, conditions, assignments
in every scope, with random names, arguments, spacing and indentation, and a
configuration with random patterns and limits. The monitor compares the records
of the real linter, code by code, with those derived by an independent reading
of the file (statements, blocks, scopes, positions): E0103, W0101, E0108, E0109,
C0202, C0103, C0111, C0112, C0201, C0305, C0307, R0911, R0912, R0913, R0915,
W0105. Places where the description leaves the result open are left out on both
sides. Non-trivial: at least one record; distinct by bag of records."""
COUNT = {"quick": 16000, "thorough": 300000}

DEFAULTS = {
    "function_pattern": "[0-9a-z_]+", "macro_pattern": "[0-9A-Z_]+",
    "global_var_pattern": "[A-Z][0-9A-Z_]+",
    "internal_var_pattern": "_[A-Z][0-9A-Z_]+",
    "local_var_pattern": "[a-z][a-z0-9_]+",
    "private_var_pattern": "_[0-9a-z_]+",
    "public_var_pattern": "[A-Z][0-9A-Z_]+",
    "argument_var_pattern": "[a-z][a-z0-9_]+",
    "keyword_pattern": "[A-Z][0-9A-Z_]+",
    "max_conditionals_custom_parser": 2, "min_statement_spacing": 1,
    "max_statement_spacing": 2, "max_returns": 6, "max_branches": 12,
    "max_arguments": 5, "max_localvars": 15, "max_statements": 50,
    "tab_size": 2, "disabled_codes": [],
}
BUILTINS = {"CMAKE_CXX_STANDARD", "CMAKE_BUILD_TYPE", "BUILD_SHARED_LIBS",
            "PROJECT_NAME", "WIN32", "UNIX", "CMAKE_MODULE_PATH"}
JUDGED = ("E0103 W0101 E0108 E0109 C0202 C0103 C0111 C0112 C0201 C0305 C0307 "
          "R0911 R0912 R0913 R0915 W0105").split()
WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
OPEN = ("if", "foreach", "while", "function", "macro")

HAND = [
    "break()\n", "foreach(xx a)\n  break()\nendforeach()\n",
    "while(a)\n  if(b)\n    continue()\n  endif()\nendwhile()\n",
    "if(a)\n  continue()\nendif()\n", "return()\n", "return()\nfoo()\n",
    "if(a)\n  return()\nendif()\nfoo()\n",
    "if(a)\n  return()\n  # c\nelse()\n  foo()\nendif()\n",
    "return()\nif(a)\nendif()\n", "return()\n# c\n", "Return()\nfoo()\n",
    "# c\nfunction(foo aa bb)\nendfunction()\n",
    "# c\nfunction(foo aa AA aa Aa 1a ${x} \"q\")\nendfunction()\n",
    "# c\n\nfunction(foo)\nendfunction()\n", "#\nfunction(foo)\nendfunction()\n",
    "function(foo)\nendfunction()\n", "foo() # c\nfunction(foo)\nendfunction()\n",
    "# c\nfunction(FOO)\nendfunction()\n# c\nmacro(foo)\nendmacro()\n",
    "# c\nmacro(FOO)\nendmacro()\n# c\nfunction(foo)\nendfunction()\n",
    "# c\nfunction(foo a1 a2 a3 a4 a5)\nendfunction()\n",
    "# c\nfunction(foo a1 a2 a3 a4 a5 a6)\nendfunction()\n",
    "# c\nfunction(foo)\n" + "  return()\n" * 7 + "endfunction()\n",
    "# c\nfunction(foo)\n" + "  if(a)\n  endif()\n" * 12 + "endfunction()\n",
    "# c\nfunction(foo)\n" + "  if(a)\n  else()\n  endif()\n" * 7
    + "endfunction()\n",
    "# c\nfunction(foo)\n" + "  foo()\n" * 50 + "endfunction()\n",
    "# c\nfunction(foo)\n" + "  foo()\n" * 51 + "endfunction()\n",
    "# c\nfunction(\n  foo\n  aa)\n" + "  foo()\n" * 51 + "endfunction()\n",
    "set(foo 1)\nset(FOO 1)\nset(_foo 1)\nset(_FOO 1)\nset(foo)\n",
    "set(foo 1 CACHE STRING \"d\")\nset(FOO 1 CACHE STRING \"d\")\n"
    "set(_FOO 1 CACHE INTERNAL \"d\")\nset(FOO 1 CACHE INTERNAL \"d\")\n",
    "set(foo 1 PARENT_SCOPE)\nset(-foo 1 PARENT_SCOPE)\n",
    "# c\nfunction(foo)\n  set(FOO 1)\n  set(foo 1)\n  if(a)\n    set(FOO 1)\n"
    "  endif()\n  set(FOO 1 PARENT_SCOPE)\nendfunction()\nset(foo 1)\n",
    "# c\nmacro(FOO)\n  set(FOO 1)\n  set(foo 1)\n  set(-x 1)\nendmacro()\n",
    "# c\nmacro(FOO)\n  # c\n  function(foo)\n    set(FOO 1)\n  endfunction()\n"
    "endmacro()\n",
    "list(LENGTH FOO foo)\nlist(GET FOO 0 1 foo)\nlist(APPEND foo a)\n",
    "list(JOIN FOO \";\" foo)\nlist(SUBLIST FOO 0 1 foo)\n",
    "set(${foo} 1)\nset(${foo}_x 1)\nset(x_${foo} 1)\nset(${x${y}} 1)\n",
    "foreach(FOO a)\nendforeach()\nforeach(foo a)\nendforeach()\n",
    "set(cmake_cxx_standard 1)\nset(CMAKE_CXX_STANDARD 1)\nfoo(${Win32})\n",
    "foo(\"${unix} ${UNIX} ${Project_Name}\")\nset(unix_sources a)\n",
    "foo()\nbar()\n\nbaz()\n\n\nfoo()\n\n\n\nbar()\n",
    "\n\n\n\nfoo()\n", "if(a)\n\n\n  foo()\nendif()\n",
    "foo()\n# c\n\n\nfoo()\n", " foo()\n", "if(a)\n foo()\n  foo()\n   foo()\n"
    "  # c\n endif()\n", "if(a)\n  foo(\n a\n    b\n  )\n  foo(\n    a\n    )\n"
    "endif()\n", "\tfoo()\n", "if(a)\n\tfoo()\nendif()\n",
    "# c\nfunction(foo)\n  foreach(arg ${ARGN})\n"
    + "    if(arg STREQUAL \"A\")\n      foo()\n    endif()\n" * 3
    + "  endforeach()\nendfunction()\n",
    "# c\nfunction(foo)\n  foreach(arg ${ARGN})\n"
    + "    if(arg STREQUAL \"A\")\n      foo()\n    endif()\n" * 2
    + "  endforeach()\nendfunction()\n",
    "# c\nfunction(foo)\n  cmake_parse_arguments(a b c d)\n"
    "  foreach(arg ${ARGN})\n"
    + "    if(arg STREQUAL \"A\")\n      foo()\n    endif()\n" * 3
    + "  endforeach()\nendfunction()\n",
    "# c\nfunction(foo)\n  foreach(arg ${ARGN})\n"
    "    if(arg STREQUAL \"A\")\n    elseif(arg MATCHES b)\n"
    "    elseif(arg MATCHES c)\n    elseif(bar MATCHES c)\n    endif()\n"
    "  endforeach()\nendfunction()\n",
]


def fixed():
  for text in HAND:
    yield {"text": text, "config": {}}
    for cfg in ({"max_returns": 0, "max_branches": 0, "max_arguments": 0,
                 "max_statements": 0, "max_statement_spacing": 1,
                 "max_conditionals_custom_parser": 0, "tab_size": 4},
                {"min_statement_spacing": 2, "max_statement_spacing": 3},
                {"function_pattern": "[A-Z]+$", "macro_pattern": "x",
                 "local_var_pattern": "^$", "public_var_pattern": "x",
                 "private_var_pattern": "y", "argument_var_pattern": "z",
                 "global_var_pattern": "x", "internal_var_pattern": "y"}):
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  text = lintgen.LintGen(rng, ws=rng.choice([0.02, 0.1, 0.4]),
                         pragmas=0).listfile()
  return {"text": text,
          "config": lintgen.random_config(rng) if rng.random() < .7 else {}}


class Stmt(object):
  """One statement: positions of its tokens and of the space before it."""

  def __init__(self):
    self.name = self.low = None
    self.pos = None
    self.args = []           # (kind, text, pos)
    self.close_line = None
    self.before = []         # line comments and newlines in front, in order
    self.scope = ()          # enclosing blocks, outermost first
    self.bodies = None


def read(toks):
  """-> (body, all statements); body = list of Stmt or ("block", ...)"""
  where = {}
  col = 0
  for tok in toks:
    where[id(tok)] = (tok.line, col)
    if "\n" in tok.text:
      col = len(tok.text) - tok.text.rindex("\n") - 1
    else:
      col += len(tok.text)
  stmts = []
  cur = None
  depth = 0
  before = []
  for tok in toks:
    if tok.kind == "at":
      raise Skip("template word")
    if depth == 0:
      if tok.kind in ("nl", "lc", "bc"):
        before.append(tok)
      elif tok.kind == "id":
        cur = Stmt()
        cur.name, cur.low = tok.text, tok.text.lower()
        cur.pos = where[id(tok)]
        cur.before = before
        before = []
      elif tok.kind == "(":
        depth = 1
      continue
    if tok.kind == "(":
      depth += 1
      cur.args.append(("(", "(", where[id(tok)]))
    elif tok.kind == ")":
      depth -= 1
      if depth == 0:
        cur.close_line = tok.line
        stmts.append(cur)
      else:
        cur.args.append((")", ")", where[id(tok)]))
    elif tok.kind in ("uq", "q", "b"):
      cur.args.append((tok.kind, tok.text, where[id(tok)]))
  pos = 0

  def body(stop, scope):
    nonlocal pos
    out = []
    while pos < len(stmts):
      stmt = stmts[pos]
      if stmt.low in stop:
        return out
      stmt.scope = scope
      out.append(stmt)
      pos += 1
      if stmt.low in OPEN:
        end = "end" + stmt.low
        stmt.bodies = []
        opener = stmt
        while True:
          inner = body((end,) + (("else", "elseif") if stmt.low == "if"
                                 else ()), scope + (opener,))
          stmt.bodies.append((opener, inner))
          opener = stmts[pos]
          opener.scope = scope
          opener.closes = stmt
          stmt.bodies.append(opener)
          pos += 1
          if opener.low == end:
            break
    return out

  return body((), ()), stmts, where


def everything(items):
  """All statements of a body, nested ones too."""
  for stmt in items:
    yield stmt
    for part in stmt.bodies or ():
      if isinstance(part, tuple):
        for sub in everything(part[1]):
          yield sub
      else:
        yield part


def unreferenced(text):
  while True:
    new = re.sub(r"\$\{[A-Za-z0-9_./+-]+\}", "", text)
    if new == text:
      return text
    text = new


def reference(text, toks, conf):
  """-> (records, places that are left open as (code, line))"""
  top, stmts, where = read(toks)
  out = []
  undecided = set()

  def rec(code, loc, msg):
    out.append((loc, code, msg))

  def bodies(items):
    yield items
    for stmt in items:
      for part in stmt.bodies or ():
        if isinstance(part, tuple):
          for sub in bodies(part[1]):
            yield sub

  def invalid_name(kind, name, pattern, loc):
    if not re.match(pattern, name):
      rec("C0103", loc, "Invalid %s name \"%s\" doesn't match `%s`"
          % (kind, name, pattern))

  for stmt in stmts:
    # loops
    if stmt.low in ("break", "continue"):
      if not any(s.low in ("foreach", "while") for s in stmt.scope):
        rec("E0103", stmt.pos, "%s outside of loop" % stmt.low)
    if stmt.low == "foreach":
      if not stmt.args:
        undecided.add(("C0103", stmt.close_line))
      else:
        invalid_name("argument", stmt.args[0][1],
                     conf["argument_var_pattern"], stmt.args[0][2])
    # definitions
    if stmt.low in ("function", "macro"):
      if not stmt.args:
        undecided.add(("C0103", stmt.close_line))
      else:
        invalid_name(stmt.low, stmt.args[0][1],
                     conf[stmt.low + "_pattern"], stmt.args[0][2])
      seen, folded = set(), set()
      for kind, name, loc in stmt.args[1:]:
        if kind == ")":
          break
        if kind != "uq" or not WORD.match(name):
          rec("E0109", loc, "Invalid argument name %s in function/macro "
              "definition" % name)
          continue
        if name in seen:
          rec("E0108", loc, "Duplicate argument name %s in function/macro "
              "definition" % name)
        elif name.lower() in folded:
          rec("C0202", loc, "Argument name %s differs from existing argument "
              "only in case" % name)
        else:
          invalid_name("argument", name, conf["argument_var_pattern"], loc)
        seen.add(name)
        folded.add(name.lower())
      count = len(stmt.args) - 1
      if count > conf["max_arguments"]:
        rec("R0913", stmt.pos, "Too many named arguments %d/%d"
            % (count, conf["max_arguments"]))
      inner = list(everything(stmt.bodies[0][1]))
      for code, names, key, what in (
          ("R0911", ("return",), "max_returns", "return statements"),
          ("R0912", ("if", "elseif", "else"), "max_branches", "branches"),
          ("R0915", None, "max_statements", "statements")):
        count = sum(1 for s in inner if names is None or s.low in names)
        if count > conf[key]:
          rec(code, (stmt.close_line + 1,), "Too many %s %d/%d"
              % (what, count, conf[key]))
      # parsing of arguments by hand
      if not any(s.low == "cmake_parse_arguments" for s in inner):
        for loop in inner:
          if loop.low not in ("foreach", "while"):
            continue
          if not any(a[0] == "uq" and a[1] == "${ARGN}" for a in loop.args):
            continue
          var = loop.args[0][1]
          count = 0
          for sub in everything(loop.bodies[0][1]):
            if sub.low not in ("if", "elseif", "while", "else", "endif",
                               "endwhile"):
              continue
            if any(a[0] in "()" or a[1] in ("AND", "OR", "NOT")
                   for a in sub.args) or (
                       sub.low[0] == "e" and sub.low != "elseif"
                       and sub.args):
              undecided.add(("C0201", None))
            elif len(sub.args) > 1 and sub.args[0][1] == var \
                and sub.args[1][1] in ("STREQUAL", "MATCHES"):
              count += 1
          if count > conf["max_conditionals_custom_parser"]:
            rec("C0201", loop.pos, "Consider replacing custom parser logic "
                "with cmake_parse_arguments")
            break
    # assignments
    if stmt.low == "set" and stmt.args or (
        stmt.low == "list" and len(stmt.args) > 1
        and stmt.args[0][1].upper() in ("LENGTH", "GET", "JOIN", "SUBLIST")):
      kind, name, loc = stmt.args[0 if stmt.low == "set" else -1]
      words = [a[1] for a in stmt.args[1:]]
      plain = unreferenced(name)
      open_ended = "\\" in name or kind in "()" or "$" in plain
      scope = None
      if stmt.low == "set":
        if stmt.args[0][1].upper() in ("CACHE", "PARENT_SCOPE"):
          open_ended = True
        keys = [i for i, w in enumerate(words)
                if w.upper() in ("CACHE", "PARENT_SCOPE")]
        if keys:
          first = keys[0]
          if words[first] == "CACHE" and len(keys) == 1 \
              and first + 3 <= len(words) and first > 0:
            scope = "INTERNAL" if words[first + 1] == "INTERNAL" else "CACHE"
          elif words[first:] == ["PARENT_SCOPE"] and first > 0:
            scope = "PARENT"
          else:
            open_ended = True
      if open_ended:
        undecided.add(("C0103", loc[0]))
      elif plain:
        if scope is None:
          scope = "DIRECTORY"
          for outer in reversed(stmt.scope):
            if outer.low == "function":
              scope = "LOCAL"
              break
            if outer.low == "macro":
              scope = "PARENT"
              break
        what, keys = {
            "CACHE": ("CACHE variable", ["global"]),
            "INTERNAL": ("INTERNAL variable", ["internal"]),
            "PARENT": ("PARENT_SCOPE variable", ["public", "private",
                                                 "local"]),
            "LOCAL": ("local variable", ["local"]),
            "DIRECTORY": ("directory variable", ["public", "private"]),
        }[scope]
        pattern = "|".join(conf[k + "_var_pattern"] for k in keys)
        if not any(re.match(conf[k + "_var_pattern"], plain) for k in keys):
          rec("C0103", loc, "Invalid %s name \"%s\" doesn't match `%s`"
              % (what, name, pattern))
    # builtin variables
    message = "%s variable '%s' which matches a built-in except for case"

    def builtin(name, loc, what):
      if name.upper() in BUILTINS and name not in BUILTINS:
        rec("W0105", loc, message % (what, name))
      elif re.match(r"(?i)_?(cmake|project|ctest|cpack|win|unix|build)",
                    name) or "_" in name and name.upper() not in BUILTINS:
        undecided.add(("W0105", loc[0]))
    target = stmt.args[:1] if stmt.low == "set" else (
        stmt.args[1:2] if stmt.low == "list" else [])
    for kind, name, loc in target:
      builtin(name, loc, "Assignment to")
    for kind, name, loc in stmt.args:
      if kind == "q" or kind == "uq" and re.match(r"\$\{\w+\}\Z", name):
        for var in re.findall(r"\$\{([\w_]+)\}", name):
          builtin(var, loc, "Reference to")

  for items in bodies(top):
    for num, stmt in enumerate(items):
      # unreachable
      if stmt.low in ("break", "continue", "return") and num + 1 < len(items):
        rec("W0101", stmt.pos, "Unreachable code")
  # the space and the comments in front
  flow_parts = {id(p) for s in stmts for p in s.bodies or ()
                if not isinstance(p, tuple)}
  for num, stmt in enumerate(stmts):
    if id(stmt) in flow_parts:
      continue
    before = stmt.before
    newlines = 0
    comment = None
    for tok in reversed(before):
      if tok.kind != "nl":
        comment = tok
        break
      newlines += 1
    same_line = False
    if comment is not None and num:
      first = next(t for t in before if t.kind != "nl")
      same_line = first.line == stmts[num - 1].close_line
    if stmt.low in ("function", "macro"):
      message = "Missing docstring on function or macro declaration"
      comments = [t for t in before if t.kind != "nl"]
      if comment is None or newlines > 1 or (
          same_line and len(comments) == 1):
        rec("C0111", stmt.pos, message)
      elif same_line and comments[-1].line - comments[0].line == len(
          comments) - 1:
        undecided.update([("C0111", stmt.pos[0]), ("C0112", stmt.pos[0])])
      else:
        # the block of comment lines directly in front
        block = []
        for tok in reversed(comments):
          if block and block[-1].line != tok.line + 1:
            break
          block.append(tok)
        words = "".join(t.text.strip() for t in block)
        if any(t.kind == "bc" for t in block):
          undecided.update([("C0111", stmt.pos[0]), ("C0112", stmt.pos[0])])
        elif not words.strip("# \t"):
          if words.count("#") > len(block):
            undecided.update([("C0111", stmt.pos[0]), ("C0112", stmt.pos[0])])
          elif len(block) != len(comments):
            undecided.update([("C0112", stmt.pos[0])])
          else:
            rec("C0112", stmt.pos,
                "Empty docstring on function or macro declaration")
    # spacing
    if num == 0 and not before:
      continue
    if comment is not None and comment.kind == "bc" and newlines == 0:
      undecided.add(("C0305", stmt.pos[0]))
      continue
    message = "%s newlines between statements"
    if newlines < conf["min_statement_spacing"]:
      rec("C0305", stmt.pos, message % "not enough")
    elif newlines > conf["max_statement_spacing"]:
      rec("C0305", stmt.pos, message % "too many")

  # indentation
  level = 0
  depth = 0
  name = None
  previous = None
  closed = None
  for num, tok in enumerate(toks):
    if tok.kind == "id":
      name = tok.text.lower()
      if name.startswith("end") and name[3:] in OPEN or name in (
          "else", "elseif"):
        level -= 1
    col = where[id(tok)][1]
    if tok.kind == "sp":
      previous = tok
      continue
    if previous is not None and where[id(previous)][1] == 0:
      blanks = previous.text
      actual = len(blanks) + blanks.count("\t") * (conf["tab_size"] - 1)
      want = level * conf["tab_size"]
      if tok.kind == "nl":
        undecided.add(("C0307", tok.line))
      elif tok.kind in ("lc", "bc") and (
          depth or closed is not None and tok.line == closed + 1):
        undecided.add(("C0307", tok.line))
      elif depth > 1 and tok.kind == ")":
        undecided.add(("C0307", tok.line))
      elif depth and tok.kind != ")":
        if actual < want:
          rec("C0307", (tok.line, col), None)
      elif actual != want:
        rec("C0307", (tok.line, col), None)
    previous = None
    if tok.kind in ("lc", "bc") and closed is not None and (
        closed in (tok.line, tok.line - 1)):
      closed = tok.line + tok.text.count("\n")
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      if depth == 0:
        closed = tok.line
        if name in OPEN or name in ("else", "elseif"):
          level += 1
  return out, undecided


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  if "cmake-lint:" in text or "cmake-format:" in text or "cmf:" in text:
    raise Skip("pragma")
  conf = dict(DEFAULTS, **cfg)
  # nothing is a glued argument (the tools read those as one)
  for one, two in zip(toks, toks[1:]):
    if one.kind in ("uq", "q", "b") and two.kind in ("uq", "q", "b"):
      raise Skip("glued arguments")
  want, undecided = reference(text, toks, conf)
  open_codes = {code for code, line in undecided if line is None}

  def keep(rec):
    return (rec[1] in JUDGED and rec[1] not in conf["disabled_codes"]
            and rec[1] not in open_codes
            and (rec[1], rec[0][0] if rec[0] else None) not in undecided)

  def plain(rec):
    return rec if rec[1] != "C0307" else (rec[0], rec[1], None)

  want = [r for r in want if keep(r)]
  got = [plain(r) for r in lintrun.records(text, cfg) if keep(r)]
  bad = lintrun.diff(want, got)
  if bad:
    return bad
  for rec in want:
    obs.hit(rec[1])
  obs.hit("places left open", len(undecided))
  if want:
    obs.see(sorted(want, key=repr))
  return None
