"""
Listfiles for the linter: definitions, loops, assignments in every scope, bad
names, missing arguments, odd white space, suppression pragmas.
"""
from . import gen

NAMES = ["my_func", "_my_func", "MyFunc", "MY_FUNC", "myFunc", "_myFunc", "x",
         "_x", "X", "_X", "a-b", "foo_1", "_FOO_1", "1abc", "Foo", "foo",
         "FOO", "__foo", "_", "cmake_cxx_standard", "CMAKE_CXX_STANDARD",
         "Cmake_Build_Type", "BUILD_SHARED_LIBS", "build_shared_libs",
         "${x}", "${x}_foo", "foo_${x}", "${x}${y}", "é", "project_name",
         "PROJECT_NAME", "_PROJECT_name", "ARGN", "lower_case", "UPPER_CASE"]
PLAIN = ["a", "b.cc", "lib", "VERSION", "1.0", "STREQUAL", "MATCHES", "NOT",
         "AND", "TARGET", "-DX=1", "x=\"y\"", "$<TARGET_FILE:a>", "..."]
REFS = ["${x}", "${CMAKE_CXX_STANDARD}", "\"${cmake_cxx_standard}\"",
        "${ARGN}", "\"${ARGN}\"", "\"$ENV{PATH}\"", "\"${\"", "\"${x\"",
        "\"{x}\"", "\"$x\"", "\"${CMAKE_CXX_STANDARD\"", "$ENV{CMAKE_X}",
        "\"{CMAKE_CXX_STANDARD}\"", "\"$CMAKE_CXX_STANDARD\"",
        "\"\\${x\"", "\"\\\\${x\"", "\"{PROJECT_NAME}\"", "\"${${x}}\"",
        "\"${${x}\"", "[[${PROJECT_NAME]]", "\"${PROJECT_NAME\"",
        "${PROJECT_NAME}x", "x{PROJECT_NAME}", "\"${Project_Name}\""]
CODES = ["C0102", "C0103", "C0111", "C0112", "C0113", "C0201", "C0202",
         "C0301", "C0303", "C0304", "C0305", "C0306", "C0307", "C0321",
         "C0327", "E0011", "E0012", "E0103", "E0108", "E0109", "E1120",
         "E1121", "E1122", "E1125", "E1126", "R0911", "R0912", "R0913",
         "R0915", "W0101", "W0104", "W0105", "W0106"]
SUBCOMMANDS = {
    "list": ["LENGTH", "GET", "JOIN", "SUBLIST", "APPEND", "FIND", "SORT",
             "FILTER", "REMOVE_ITEM", "TRANSFORM", "REVERSE", "${x}", "foo"],
    "file": ["READ", "WRITE", "GLOB", "COPY", "REMOVE", "DOWNLOAD", "${x}",
             "foo"],
    "string": ["REPLACE", "REGEX", "TOLOWER", "APPEND", "${x}", "foo"],
    "install": ["TARGETS", "FILES", "DIRECTORY", "EXPORT", "CODE", "${x}"],
    "cmake_policy": ["SET", "PUSH", "POP", "${x}", "foo", "GET", "VERSION"],
    "add_custom_command": ["OUTPUT", "TARGET", "${x}", "foo", "COMMAND"],
    "export": ["TARGETS", "EXPORT", "PACKAGE", "${x}"],
    "ctest_start": ["x"],
}


class LintGen(object):

  def __init__(self, rng, ws=0.1, pragmas=0.1, width=None):
    self.rng = rng
    self.ws = ws
    self.pragmas = pragmas

  def p(self, prob):
    return self.rng.random() < prob

  def name(self):
    return self.rng.choice(NAMES)

  def arg(self):
    roll = self.rng.random()
    if roll < 0.3:
      return self.name()
    if roll < 0.6:
      return self.rng.choice(PLAIN)
    if roll < 0.85:
      return self.rng.choice(REFS)
    if roll < 0.93:
      return '"some text"'
    return "[[text]]"

  def args(self, low=0, high=5):
    return [self.arg() for _ in range(self.rng.randrange(low, high + 1))]

  def pragma(self):
    roll = self.rng.random()
    if roll < 0.75:
      body = "disable=" + ",".join(
          self.rng.choice(CODES) for _ in range(self.rng.choice([1, 1, 2, 3])))
    elif roll < 0.85:
      body = "disable=" + self.rng.choice(["X0000", "", "C0103,,E0011", "c0103"])
    else:
      body = self.rng.choice(["enable=C0103", "foo", "disable", "foo bar=1",
                              "disable=C0103 disable=C0303", "disable=C0103 x"])
    return "# cmake-lint: " + body

  def render(self, name, args, indent):
    """One statement."""
    rng = self.rng
    sep = " "
    if self.p(0.06):
      name = rng.choice([name.upper(), name.title(), name.lower()])
    text = name + ("" if not self.p(0.03) else " ") + "("
    broken = self.p(0.12)
    for num, arg in enumerate(args):
      if num or broken:
        if broken and self.p(0.6):
          if self.p(0.15):
            text += " " + (self.pragma() if self.p(0.5) else "# note")
          sep = "\n" + indent + rng.choice(["  ", "    ", "", "\t"])
        else:
          sep = " "
        text += sep
      text += arg
    if broken and self.p(0.3):
      text += "\n" + indent
    return text + ")"

  def builtin(self):
    rng = self.rng
    names = getattr(self, "_names", None)
    if names is None:
      names = self._names = sorted(set(gen.HAND) | set(gen.TABLE))
    name = rng.choice(names)
    if self.p(0.3):
      name = rng.choice(sorted(SUBCOMMANDS))
    if name in ("if", "elseif", "else", "endif", "while", "endwhile",
                "foreach", "endforeach", "function", "endfunction", "macro",
                "endmacro", "block", "endblock"):
      name = "message"
    args = []
    if name in SUBCOMMANDS and self.p(0.9):
      args.append(rng.choice(SUBCOMMANDS[name]))
    words = []
    if name in gen.HAND:
      words = list(gen.HAND[name][2]) + list(gen.HAND[name][3])
    else:
      def collect(obj):
        if isinstance(obj, str) and obj.isupper():
          words.append(obj)
        elif isinstance(obj, dict):
          for key, value in obj.items():
            collect(key)
            collect(value)
        elif isinstance(obj, (list, tuple)):
          for item in obj:
            collect(item)
      collect(gen.TABLE.get(name))
    for _ in range(rng.randrange(0, 6)):
      if words and self.p(0.5):
        args.append(rng.choice(words))
      else:
        args.append(self.arg())
    return name, args

  def simple(self, depth):
    rng = self.rng
    roll = rng.random()
    if roll < 0.28:
      args = [self.name()] + self.args(0, 3)
      if self.p(0.25):
        args += rng.choice([
            ["CACHE", "STRING", '"doc"'], ["CACHE", "INTERNAL", '"doc"'],
            ["CACHE", "STRING", '"doc"', "FORCE"], ["PARENT_SCOPE"],
            ["CACHE"], ["CACHE", "BOOL"], ["CACHE", "BOOL", "a", "b"],
            ["CACHE", "BOOL", "a", "b", "c"], ["CACHE", "BOOL", "a", "Force"]])
      if self.p(0.03):
        args = []
      return "set", args
    if roll < 0.4:
      which = rng.choice(SUBCOMMANDS["list"])
      if self.p(0.06):
        which = which.lower()
      return "list", [which] + self.args(
          0, 4) if not self.p(0.05) else []
    if roll < 0.55:
      return rng.choice(["return", "break", "continue"]), (
          self.args(1, 2) if self.p(0.05) else [])
    if roll < 0.8:
      return self.builtin()
    return rng.choice(["message", "foo", "cmake_parse_arguments", "MyCommand",
                       "unset", "SET", "List"]), self.args(1, 4)

  def blank(self):
    if self.p(self.ws):
      return self.rng.choice(["", "", "\n", "\n\n", "\n\n\n", "   \n", "\t\n"])
    return "\n" if self.p(0.15) else ""

  def lines(self, depth, indent, count):
    rng = self.rng
    out = []
    for _ in range(count):
      out.append(self.blank())
      if self.p(0.2):
        out.append(indent + rng.choice([
            "# a comment", "#", "# ", "# more words here", "#[[ block ]]",
            "#[[]]", "##", "# TODO"]) + "\n")
        if self.p(0.2):
          out.append("\n")
      if self.p(self.pragmas):
        out.append(indent + self.pragma() + "\n")
      lead = indent
      if self.p(self.ws * 0.5):
        lead = rng.choice(["", " ", "\t", indent + " ", indent + "  ", "\t  "])
      tail = ""
      if self.p(self.ws * 0.5):
        tail = rng.choice([" ", "\t", "  "])
      if self.p(0.08):
        tail = " # trailing" + tail
      elif self.p(self.pragmas * 0.3):
        tail = " " + self.pragma()
      if self.p(0.04):
        tail = " # " + "x" * rng.choice([30, 70, 100])
      if depth < 4 and self.p(0.4):
        out.append(lead + self.block(depth, indent) + tail + "\n")
      else:
        name, args = self.simple(depth)
        out.append(lead + self.render(name, args, indent) + tail + "\n")
    return "".join(out)

  def block(self, depth, indent):
    rng = self.rng
    kind = rng.choice(["function", "macro", "foreach", "while", "if",
                       "function", "foreach", "if"])
    inner = indent + "  "
    count = rng.choice([0, 1, 2, 2, 3, 5])
    if self.p(0.04):
      count = 12
    if kind in ("function", "macro"):
      args = [self.name()] + [self.name() for _ in range(
          rng.choice([0, 1, 2, 3, 6]))]
      if self.p(0.02):
        args = []
    elif kind == "foreach":
      args = [self.name()] + rng.choice([
          ["${ARGN}"], ["IN", "LISTS", "ARGN"], ["RANGE", "3"], ["${x}", "b"],
          []])
    elif kind == "while":
      args = rng.choice([["TRUE"], ["${ARGN}"], ["x", "LESS", "3"],
                         ["ARGN", "AND", "${ARGN}"]])
    else:
      args = self.condition()
    text = self.render(kind, args, indent) + "\n"
    if kind == "foreach" and self.p(0.3):
      # custom argument parsing
      for _ in range(rng.choice([1, 2, 3, 4])):
        text += "%sif(%s)\n%s  set(x 1)\n%sendif()\n" % (
            inner, " ".join([args[0]] + rng.choice([
                ["STREQUAL", "x"], ["MATCHES", "y"], [], ["IN_LIST", "z"]])),
            inner, inner)
    text += self.lines(depth + 1, inner, count)
    if kind == "if":
      while self.p(0.3):
        text += indent + self.render("elseif", self.condition(), indent) + "\n"
        text += self.lines(depth + 1, inner, rng.choice([0, 1, 2]))
      if self.p(0.4):
        text += indent + "else()\n" + self.lines(depth + 1, inner,
                                                 rng.choice([0, 1, 2]))
    return text + indent + "end" + kind + "()"

  def condition(self):
    out = [self.arg()]
    while self.p(0.4):
      out += [self.rng.choice(["AND", "OR", "STREQUAL", "MATCHES", "NOT"]),
              self.arg()]
    return out

  def listfile(self, count=None):
    text = self.lines(0, "", count or self.rng.choice([1, 1, 2, 3, 5, 8]))
    if self.p(0.05):
      text = text.rstrip("\n")
    if self.p(0.1):
      text = text.replace("\n", "\r\n")
    return text


def random_config(rng):
  cfg = {}

  def maybe(prob, key, values):
    if rng.random() < prob:
      cfg[key] = rng.choice(values)

  maybe(0.3, "line_width", [20, 40, 79, 100])
  maybe(0.2, "tab_size", [1, 4, 8])
  maybe(0.15, "use_tabchars", [True])
  maybe(0.1, "fractional_tab_policy", ["round-up", "use-space"])
  maybe(0.25, "line_ending", ["windows", "auto", "unix"])
  maybe(0.2, "disabled_codes", [rng.sample(CODES, 3), rng.sample(CODES, 15)])
  for key in ("function_pattern", "macro_pattern", "global_var_pattern",
              "internal_var_pattern", "local_var_pattern",
              "private_var_pattern", "public_var_pattern",
              "argument_var_pattern"):
    maybe(0.1, key, ["[a-z]+", "[A-Z]+$", ".*", "^$", "x", "[0-9A-Z_a-z]+"])
  maybe(0.15, "max_conditionals_custom_parser", [0, 1, 2, 5])
  maybe(0.15, "min_statement_spacing", [1, 2])
  maybe(0.15, "max_statement_spacing", [1, 2, 3])
  maybe(0.15, "max_returns", [0, 1, 3])
  maybe(0.15, "max_branches", [0, 1, 3])
  maybe(0.15, "max_arguments", [0, 1, 3])
  maybe(0.15, "max_statements", [0, 1, 3, 10])
  return cfg
