"""C33: the options that govern wrapping do what they say."""
import random
import re

from vlib import fmt, reflex
from vlib.run import Skip

RULE = """A case is a number of statements of commands whose groups of arguments
are known (unknown commands: one group; user specified commands: positional
arguments and keywords), in blocks, and a configuration. For one group the
monitor knows the layout: the first admissible of on one line or wrapped behind
the parenthesis, wrapped below the command, one per line below it, by line width,
max_pargs_hwrap, max_lines_hwrap, min_prefix_chars, max_prefix_chars,
always_wrap; the text must be that. For several groups: the statement is on
one line exactly if it fits and no limit is exceeded, groups that exceed
max_pargs_hwrap or max_lines_hwrap have one argument per line, groups are one
per line if there are more than max_subgroups_hwrap; the arguments of a keyword
are behind or below it as min_prefix_chars, max_prefix_chars and the room say. For all: the parenthesis
dangles where it should, in the column of dangle_align, and the blank in front
of parentheses is there or not. Every 5th case is about one command whose group
is a command line (tags of its specification in all spellings, override_spec,
or vartags and the name of a variable): it is never one argument per line, and
max_rows_cmdline limits it; or has limits of its own (specification or
override_spec), with which it is formatted as if they were the global ones, and
statements of other commands as before. Non-trivial: a statement takes more than one
line; distinct by (layouts, configuration)."""
COUNT = {"quick": 6000, "thorough": 250000}

KWSPEC = {"known_kw": {"pargs": "*", "kwargs": {"ALPHA": "*", "BETA": "+",
                                                "GAMMA": "*", "K": "*",
                                                "A_LONG_KEYWORD": "*"}},
          "kw": {"pargs": "*", "kwargs": {"ALPHA": "*", "BETA": "+"}},
          "a_command_with_a_long_name": {
              "pargs": "*", "kwargs": {"ALPHA": "*", "BETA": "+"}}}
KEYS = ("ALPHA", "BETA", "GAMMA", "A_LONG_KEYWORD", "K")


def fixed():
  for count in range(0, 9):
    for size in (1, 7, 25):
      for name in ("f", "foo", "foo_bar_baz", "foo_bar_baz_foo_bar_baz"):
        for cfg in ({}, {"line_width": 40}, {"line_width": 40,
                                             "dangle_parens": True},
                    {"always_wrap": ["foo"]}, {"max_pargs_hwrap": 3},
                    {"separate_fn_name_with_space": True,
                     "max_lines_hwrap": 0, "line_width": 50}):
          yield {"stmts": [[name, ["x" * size] * count, []]], "depth": 0,
                 "config": cfg, "seed": 1}
  for depth in (0, 1, 2):
    for cfg in ({}, {"line_width": 60}, {"max_subgroups_hwrap": 1},
                {"dangle_parens": True, "dangle_align": "child",
                 "max_subgroups_hwrap": 0},
                {"dangle_parens": True, "dangle_align": "prefix-indent",
                 "line_width": 30, "separate_ctrl_name_with_space": True},
                {"dangle_align": "off", "dangle_parens": True,
                 "line_width": 30}):
      for name in sorted(KWSPEC):
        for sizes in ((1, 1, 1), (0, 3, 9), (7, 7, 0), (2, 12, 2)):
          yield {"stmts": [[name, ["a"] * sizes[0],
                            [["ALPHA", ["b"] * sizes[1]],
                             ["BETA", ["cccccccccccc"] * sizes[2]]]],
                           ["foo", ["a", "b"], []]],
                 "depth": depth, "config": cfg, "seed": 2}


def gen(rng, idx, tier):
  if idx % 5 == 2:
    return gen_limits(rng)
  cfg = {}

  def maybe(prob, key, values):
    if rng.random() < prob:
      cfg[key] = rng.choice(values)
  maybe(0.6, "line_width", [30, 40, 50, 60, 79, 80, 100, 120])
  maybe(0.4, "tab_size", [1, 2, 3, 4, 8])
  maybe(0.4, "max_subgroups_hwrap", [0, 1, 2, 3, 6])
  maybe(0.4, "max_pargs_hwrap", [0, 1, 3, 6, 12])
  maybe(0.3, "separate_ctrl_name_with_space", [True, False])
  maybe(0.3, "separate_fn_name_with_space", [True, False])
  maybe(0.5, "dangle_parens", [True, False])
  maybe(0.5, "dangle_align", ["prefix", "prefix-indent", "child", "off"])
  maybe(0.4, "min_prefix_chars", [0, 4, 5, 8, 20])
  maybe(0.4, "max_prefix_chars", [0, 4, 5, 10, 14, 30])
  maybe(0.3, "max_lines_hwrap", [0, 1, 2, 5])
  maybe(0.2, "always_wrap", [["foo"], ["known_kw", "foo"], ["quick_fox"]])
  stmts = []
  for _ in range(rng.randint(1, 3)):
    size = rng.choice([2, 6, 12, 20])

    def args(low=0):
      return [word(rng, size) for _ in range(rng.choice(
          [low, 1, 1, 2, 3, 4, 5, 6, 7, 8, 12, 14]))]
    if rng.random() < 0.6:
      name = rng.choice(["f", "foo", "quick_fox", "x1", "brown_fox_jumps",
                         "over_the_lazy_dog_and_the_quick_fox", "aa", "abcdefg",
                         "abcdefgh", "abcdefghi", "abcdefghij"])
      stmts.append([name, args(), []])
    else:
      name = rng.choice(sorted(KWSPEC))
      keys = [k for k in KEYS if rng.random() < 0.7
              and k in KWSPEC[name]["kwargs"]]
      stmts.append([name, args(), [[k, args(1)] for k in keys]])
  return {"stmts": stmts, "depth": rng.choice([0, 0, 0, 1, 2]), "config": cfg,
          "seed": rng.randrange(1 << 30)}


def word(rng, size):
  text = rng.choice("abcdefgh") * rng.randint(1, max(1, size))
  roll = rng.random()
  if roll < 0.1:
    return '"%s %s"' % (text, text)
  if roll < 0.2:
    return "${%s}" % text
  return text


def source(payload):
  rng = random.Random(payload["seed"])
  gap = lambda: rng.choice([" ", " ", "\n", "   "])  # noqa
  lines = ["if(a)"] * payload["depth"]
  for name, pargs, kwargs in payload["stmts"]:
    flat = list(pargs)
    for key, values in kwargs:
      flat.append(key)
      flat.extend(values)
    text = ""
    for arg in flat:
      text += (gap() if text else rng.choice(["", "", "\n"])) + arg
    lines.append("%s(%s)" % (name, text))
  lines += ["endif()"] * payload["depth"]
  return "\n".join(lines) + "\n"


class Opt(object):
  def __init__(self, cfg):
    self.width = cfg.get("line_width", 80)
    self.tab = cfg.get("tab_size", 2)
    self.subgroups = cfg.get("max_subgroups_hwrap", 2)
    self.pargs = cfg.get("max_pargs_hwrap", 6)
    self.space_ctrl = cfg.get("separate_ctrl_name_with_space", False)
    self.space_fn = cfg.get("separate_fn_name_with_space", False)
    self.dangle = cfg.get("dangle_parens", False)
    self.align = cfg.get("dangle_align", "prefix")
    self.minp = cfg.get("min_prefix_chars", 4)
    self.maxp = cfg.get("max_prefix_chars", 10)
    self.lines = cfg.get("max_lines_hwrap", 2)
    self.cmdline = False
    self.cmdrows = cfg.get("max_rows_cmdline", 2)
    self.always = cfg.get("always_wrap", [])


def pack(args, column, width, strict=True):
  """
  Fill lines from `column` on; the parenthesis has to fit on the last. (The
  formatter leaves room for it on all of them: `strict`.)
  """
  rows = []
  for idx, arg in enumerate(args):
    last = idx + 1 == len(args)
    if rows:
      length = column + len(" ".join(rows[-1] + [arg]))
      if length <= width and (
          not (last or strict) or length + 1 <= width):
        rows[-1].append(arg)
        continue
    rows.append([arg])
  return rows


def extent(rows, column):
  return max([column + len(" ".join(row)) for row in rows] or [column])


def admissible(rows, column, args, opt):
  """May these arguments be filled into lines?"""
  if opt.cmdline:
    return (extent(rows, column) <= opt.width and len(rows) <= opt.cmdrows
            and len(rows) - 1 <= opt.lines)
  return (extent(rows, column) <= opt.width and len(args) <= opt.pargs
          and len(rows) - 1 <= opt.lines)


def model(name, args, opt, col, strict=True):
  """-> (lines, valid) of a command with one group of arguments"""
  head = name + (" (" if opt.space_fn else "(")
  prefix = len(head)
  may_nest = prefix > opt.minp
  tries = [(False, False), (True, False), (True, True)]
  if not may_nest:
    tries = [(False, False), (False, True)]
  if args and (name in opt.always or opt.subgroups < 1):
    # groups below each other, whatever their own layout is
    tries = [(may_nest, True)]
  for nest, vertical in tries:
    column = col + (opt.tab if nest and args else prefix)
    rows = pack(args, column, opt.width, strict)
    if vertical and not opt.cmdline and not admissible(
        rows, column, args, opt):
      rows = [[a] for a in args]
    good = (extent(rows, column) <= opt.width
            and (vertical and not opt.cmdline or admissible(rows, column, args, opt)))
    # the parenthesis
    tail = (column + len(" ".join(rows[-1]))) if rows else col + prefix
    total = len(rows) + (1 if nest and args else 0)
    dangle = False
    if opt.dangle and total > 1:
      dangle = True
    elif tail >= opt.width:
      dangle = True
      if not nest:
        good = False
    end = total - 1 + (1 if dangle else 0)
    if not nest and end > 1 and prefix > opt.maxp:
      good = False
    if col + prefix > opt.width:
      good = False
    if good or (nest, vertical) == tries[-1]:
      break
  lines = [" " * col + head]
  for idx, row in enumerate(rows):
    text = " ".join(row)
    if idx == 0 and not nest:
      lines[-1] += text
    else:
      lines.append(" " * column + text)
  if dangle:
    where = {"prefix": col, "off": col, "prefix-indent": col + opt.tab,
             "child": column if args or not nest else col + opt.tab}[opt.align]
    lines.append(" " * where + ")")
  else:
    lines[-1] += ")"
  return lines, good


LIMITS = ("max_pargs_hwrap", "max_subgroups_hwrap")


def gen_limits(rng):
  cfg = {}

  def maybe(prob, key, values):
    if rng.random() < prob:
      cfg[key] = rng.choice(values)
  maybe(0.6, "line_width", [30, 40, 60, 80, 100])
  maybe(0.3, "tab_size", [1, 2, 4, 8])
  maybe(0.6, "max_rows_cmdline", [0, 1, 2, 3, 5])
  maybe(0.3, "max_lines_hwrap", [0, 1, 2, 5])
  maybe(0.3, "max_pargs_hwrap", [0, 1, 3, 6, 12])
  maybe(0.5, "max_subgroups_hwrap", [0, 1, 2, 3, 6, 9])
  maybe(0.2, "min_prefix_chars", [0, 4, 8])
  maybe(0.2, "max_prefix_chars", [0, 4, 10, 30])
  maybe(0.3, "separate_fn_name_with_space", [True])
  maybe(0.3, "dangle_parens", [True])
  size = rng.choice([2, 6, 12, 20])
  count = rng.choice([1, 2, 3, 4, 6, 7, 9, 13, 20])
  args = [word(rng, size) for _ in range(count)]
  name = rng.choice(["f", "foo", "quick_fox", "brown_fox_jumps",
                     "over_the_lazy_dog_and_the_quick_fox"])
  return {"what": rng.choice(["cmdline", "cmdline", "pargs", "subgroups",
                              "vartags"]),
          "name": name, "args": args, "config": cfg,
          "key": [word(rng, size) for _ in range(rng.choice([1, 3, 8]))],
          "limit": rng.choice([0, 0, 1, 2, 3, 6, 20]),
          "seed": rng.randrange(1 << 30)}


def judge_limits(payload, obs):
  """A command with tags or limits of its own."""
  what, name, cfg = payload["what"], payload["name"], payload["config"]
  args, keyed = payload["args"], payload["key"]
  rng = random.Random(payload["seed"])
  opt = Opt(cfg)
  plain = "%s(%s)\n" % (name, " ".join(args))
  extra = "other_fox(%s)\n" % " ".join(args)

  def run(text, **more):
    out, valid, err = fmt.try_fmt(text, dict(cfg, **more))
    if err:
      raise RuntimeError(err)
    return out, valid
  if what == "cmdline":
    tag = ["cmdline"]
    ways = [
        {"additional_commands": {name: {"pargs": {"nargs": "*", "tags": tag}}}},
        {"additional_commands": {name: {"pargs": [
            {"nargs": "+", "tags": ["file-list", "cmdline"]}]}}},
        {"additional_commands": {name: {"pargs": [["*", False, tag]]}}},
        {"additional_commands": {name: {"pargs": "*"}},
         "override_spec": {name + "/parg[0].tags": tag}},
        {"additional_commands": {name: {"pargs": [{"nargs": "*"}]}},
         "override_spec": {name + "/parg[0].tags": tag}}]
    way = rng.choice(ways)
    opt.cmdline = True
    (out, valid), (both, _) = run(plain, **way), run(plain + extra, **way)
    want, good = model(name, args, opt, 0)
    if out.split("\n")[:-1] != want:
      want, good = model(name, args, opt, 0, False)
    if out.split("\n")[:-1] != want:
      return "%r: the layout is\n%s\nbut should be\n%s" % (
          way, out, "\n".join(want))
    if valid != good:
      return "%r: the layout is reported as %s\n%s" % (
          way, "valid" if valid else "not valid", out)
    if both != out + run(extra)[0]:
      return "%r changes other commands: %r" % (way, both)
    obs.see("cmdline", len(want), len(args), cfg.get("max_rows_cmdline"))
    # the same for a keyword, in each of its spellings
    key = "%s(KEY %s)\n" % (name, " ".join(args))
    outs = [run(key, **way)[0] for way in (
        {"additional_commands": {name: {"kwargs": {"KEY": {
            "nargs": "*", "tags": tag}}}}},
        {"additional_commands": {name: {"kwargs": {"KEY": {
            "pargs": {"nargs": "*", "tags": tag}}}}}},
        {"additional_commands": {name: {"kwargs": {"KEY": {
            "pargs": [{"nargs": "*", "tags": tag}]}}}}},
        {"additional_commands": {name: {"kwargs": {"KEY": "*"}}},
         "override_spec": {name + "/KEY/parg[0].tags": tag}})]
    if len(set(outs)) != 1:
      return "the spellings of a specification differ: %r" % (outs,)
    rows = [line.split() for line in outs[0].split("\n")]
    if len(args) > 4 and max(len(a) for a in args) < 8 and (
        opt.width >= 40) and not any(a.startswith('"') for a in args):
      if max(len(row) for row in rows) < 3:
        return "a command line has one argument per line\n" + outs[0]
  elif what in ("pargs", "subgroups"):
    option = "max_%s_hwrap" % what
    decl = {"nargs": "*"}
    spec = {"pargs": [decl], "kwargs": {"KEY": "*", "OPT": "*"}}
    text = "%s(%s%s)\n" % (name, " ".join(args), "".join(
        " %s %s" % (k, " ".join(keyed)) for k in ("KEY", "OPT")))
    path = name + ".max_subgroups_hwrap"
    own = dict(spec, max_subgroups_hwrap=payload["limit"])
    if what == "pargs":
      # keyword groups have another limit, so there must not be any
      text = plain
      path = name + "/parg[0].max_pargs_hwrap"
      own = {"pargs": [dict(decl, max_pargs_hwrap=payload["limit"])]}
      spec = {"pargs": [decl]}
    first = run(text, additional_commands={name: own})
    second = run(text, additional_commands={name: spec},
                 override_spec={path: payload["limit"]})
    want = run(text, additional_commands={name: spec},
               **{option: payload["limit"]})
    if what == "subgroups" and min(payload["limit"], opt.subgroups) < 1:
      want = None  # keywords have groups of their own
      if payload["limit"] == 0:
        # there are three groups, which is more than zero, or than one
        want = run(text, additional_commands={
            name: dict(spec, max_subgroups_hwrap=1)})
    if first != second:
      return "%s in the specification and in override_spec: %r, %r" % (
          option, first, second)
    if want is not None and first != want:
      return "%s of the command and as an option: %r, %r" % (
          option, first, want)
    both = run(text + extra, additional_commands={name: own})
    if both[0] != first[0] + run(extra)[0]:
      return "a limit of %s changes other commands: %r" % (name, both)
    obs.see(option, payload["limit"], len(args), first[0].count("\n"))
  else:
    pattern, tagged = rng.choice([
        ("FOO_.*", "FOO_BAR"), (".*_LIST", "my_list"), ("x[0-9]+", "X12"),
        (".*", "foo"), (None, "MY_COMMAND"), (None, "x_command")])
    tags = {"vartags": [[pattern, ["cmdline"]]]} if pattern else {}
    other = "zoo" if pattern != ".*" else None
    line = lambda var: "set(%s %s)\n" % (var, " ".join(args))  # noqa
    out, valid = run(line(tagged), **tags)
    rows = out.rstrip(")\n ").split("\n")
    # the values are filled, with as many on each line as there is room for
    body = [row.strip() for row in rows]
    flat = " ".join(body)
    start = flat.index(tagged) + len(tagged)
    want = " ".join(args)
    if flat[start:].strip() != want:
      raise Skip("C01")
    at = next(num for num, row in enumerate(body)
              if row == tagged or tagged + " " in row + " "
              or row.endswith("(" + tagged))
    if body[at].endswith(tagged):
      at += 1
    for num in range(at, len(rows) - 1):
      if len(rows[num]) + 1 + len(next_word(body[num + 1])) < opt.width:
        return "a command line is not filled:\n" + out
    if other:
      got = run(line(other), **tags)
      if got != run(line(other)):
        return "the tag of %r changes %r" % (pattern, other)
    obs.see("vartags", pattern, len(rows), valid)
  obs.hit("statements with tags or limits of their own")
  return None


def next_word(text):
  """The first argument of a line."""
  if text.startswith('"'):
    return text[:text.index('"', 1) + 1]
  return text.split(" ")[0]


def judge(payload, obs):
  if "what" in payload:
    return judge_limits(payload, obs)
  cfg = dict(payload["config"])
  cfg["additional_commands"] = KWSPEC
  text = source(payload)
  out, valid, err = fmt.try_fmt(text, cfg)
  if err:
    raise Skip("refused")
  opt = Opt(cfg)
  toks = reflex.lex(out)
  cmds = reflex.commands(toks)
  lines = out.split("\n")
  col = payload["depth"] * opt.tab
  depth = payload["depth"]
  if len(cmds) != len(payload["stmts"]) + 2 * depth:
    raise Skip("C01")
  # the blank in front of the parenthesis
  for idx, tok in enumerate(toks):
    if tok.kind == "id":
      want = (opt.space_ctrl if tok.text.lower() in ("if", "endif")
              else opt.space_fn)
      got = toks[idx + 1].kind == "sp"
      if got != want:
        return "%r is %sfollowed by a blank" % (
            tok.text, "" if got else "not ")
      if got and toks[idx + 1].text != " ":
        return "blanks in front of a parenthesis: %r" % toks[idx + 1].text
  shapes = []
  all_valid = True
  for cmd, (name, pargs, kwargs) in zip(
      cmds[depth:len(cmds) - depth], payload["stmts"]):
    chunk = lines[cmd.line - 1:cmd.endline]
    if not kwargs and name not in KWSPEC:
      want, good = model(name, pargs, opt, col)
      if chunk != want:
        want, good = model(name, pargs, opt, col, False)
      all_valid = all_valid and good
      if chunk != want:
        return "the layout is\n%s\nbut should be\n%s" % (
            "\n".join(chunk), "\n".join(want))
    else:
      all_valid = None if all_valid else all_valid
      msg = groups(chunk, name, pargs, kwargs, opt, col, valid)
      if msg:
        return msg + "\n" + "\n".join(chunk)
    shapes.append((name, len(chunk), len(chunk[0]) // 8))
  if all_valid is not None and not depth and valid != all_valid:
    return "the layout is reported as %s" % (
        "valid" if valid else "not valid")
  if any(count > 1 for _, count, _ in shapes):
    obs.hit("statements", len(shapes))
    obs.hit("on several lines", sum(1 for s in shapes if s[1] > 1))
    obs.see(shapes, sorted(payload["config"].items(), key=repr))
  return None


def keyword(chunk, key, values, row, rows, opt):
  """
  The arguments of a keyword are behind it, else below it: never below a short
  keyword, nor below one behind which they fit (one on each line); never behind
  a long one if they take more than two lines.
  """
  found = re.search(r"(?<![\w\"$}])%s(?![\w}])" % key, chunk[row])
  if not found or chunk[row].count(key) != 1:
    return None
  column = found.end() + 1
  nested = rows[0] > row
  if nested and len(key) <= opt.minp:
    return "the arguments are below %s" % key
  if not nested and rows[-1] - row > 1 and len(key) > max(
      opt.maxp, opt.minp):
    return "the arguments are behind %s" % key
  if nested and max(column + len(v) for v in values) <= opt.width and not (
      len(values) > 2 and len(key) > opt.maxp):
    return "the arguments of %s fit behind it" % key
  return None


def groups(chunk, name, pargs, kwargs, opt, col, valid):
  """Several groups of arguments."""
  head = name + (" (" if opt.space_fn else "(")
  grouped = ([["", pargs]] if pargs else []) + kwargs
  flat = list(pargs)
  for key, values in kwargs:
    flat += [key] + values
  one = " " * col + head + " ".join(flat) + ")"
  many = (max([len(v) for _, v in grouped if len(v) > 1] or [0]) > opt.pargs
          or len(grouped) > max(1, opt.subgroups)
          or len(grouped) > 1 and name in opt.always)
  free = (max([len(v) for _, v in grouped] or [0]) <= opt.pargs
          and len(grouped) <= opt.subgroups and opt.subgroups > 0
          and name not in opt.always)
  if len(chunk) == 1 and many:
    return "a limit is exceeded, but the statement is on one line"
  if len(chunk) == 1 and chunk[0] != one:
    return "a line that should be %r" % one
  if len(chunk) > 1 and len(one) <= opt.width and free and flat:
    return "the statement fits on one line"
  if len(chunk) == 1:
    return None
  # the closing parenthesis
  last = chunk[-1]
  dangles = last.strip() == ")"
  before = chunk[-2]
  if opt.dangle and not dangles:
    return "the parenthesis does not dangle"
  if not opt.dangle and dangles and len(before) < opt.width:
    return "the parenthesis dangles"
  nested = chunk[0].strip() == head.strip()
  if dangles and flat:
    want = {"prefix": col, "off": col, "prefix-indent": col + opt.tab,
            "child": col + (opt.tab if nested else len(head))}[opt.align]
    if len(last) - 1 != want:
      return "the parenthesis is in column %d" % len(last)
  # place every argument
  where = []
  for num, line in enumerate(chunk):
    text = line
    for tok in reflex.lex("x(" + text.replace("(", " ").replace(")", " ")[
        len(head) + col - 1 if num == 0 else 0:] + ")"):
      if tok.kind in ("uq", "q"):
        where.append((num, tok.text))
  if [t for _, t in where] != flat:
    return "cannot place the arguments"
  pos = 0
  starts = []
  for key, values in grouped:
    if key:
      starts.append(where[pos][0])
      pos += 1
    rows = [where[pos + k][0] for k in range(len(values))]
    pos += len(values)
    if not rows:
      continue
    if key:
      msg = keyword(chunk, key, values, starts[-1], rows, opt)
      if msg:
        return msg
    if not key:
      starts.append(rows[0])
    height = rows[-1] - rows[0]
    if len(set(rows)) < len(rows):
      if len(rows) > opt.pargs:
        return "%d arguments of a group are not one per line" % len(rows)
      if height > opt.lines:
        return "a group is filled over %d lines" % (height + 1)
  if len(grouped) > opt.subgroups and len(set(starts)) < len(starts):
    return "%d groups are not on lines of their own" % len(grouped)
  return None
