"""
Explicit trailing comments: a comment that matches explicit_trailing_pattern
begins on the line of what is in front of it, whatever separates the two.
"""
import re

from . import fmt, reflex
from .run import Skip

STATEMENTS = [
    ("foo", ["a", "bb", "ccc", "\"d d\"", "${e}", "[[f]]"]),
    ("set", ["X", "a", "bb.cc", "ccccccccccccc", "dddddddddddd"]),
    ("set", ["X", "a", "CACHE", "STRING", "\"doc string\""]),
    ("cmake_parse_arguments", ["ARG", "\"A BB\"", "\"C\"", "\"\"", "${ARGN}"]),
    ("target_link_libraries", ["x", "PUBLIC", "aaa", "bbb", "PRIVATE", "c"]),
    ("add_library", ["x", "STATIC", "b.cc", "a.cc", "c.cc"]),
    ("install", ["TARGETS", "a", "b", "DESTINATION", "dddd", "COMPONENT", "c"]),
    ("add_custom_command", ["OUTPUT", "o", "COMMAND", "cmd", "-x", "y",
                            "DEPENDS", "d1", "d2"]),
    ("list", ["APPEND", "X", "a", "b"]),
    ("set_target_properties", ["a", "PROPERTIES", "b", "c", "dd", "ee"]),
]
WORDS = ["one", "two", "three", "lib", "of", "targets", "configuration",
         "e.g.,", "x-y", "(paren)", "end."]
GAPS = [" ", "", "   ", "\n", "\n\n", "\n      ", "\t", " \n\n\n "]


def gen(rng):
  pattern, spellings = rng.choice(fmt.EXPLICIT + [("#<", ["#<"])] * 3)
  spelling = rng.choice(spellings)
  items = []
  for name, args in [rng.choice(STATEMENTS)
                     for _ in range(rng.choice([1, 1, 2]))]:
    # (keywords are not arguments that a comment is attached to)
    args = [[arg, note(rng) if rng.random() < 0.35
             and not re.match(r"[A-Z]{4,}$", arg) else None] for arg in args]
    items.append([name, args, note(rng) if rng.random() < 0.3 else None])
  cfg = {"explicit_trailing_pattern": pattern}
  if pattern == "#<" and rng.random() < 0.5:
    cfg = {}
  if rng.random() < 0.7:
    cfg["line_width"] = rng.choice([30, 40, 60, 100])
  if rng.random() < 0.3:
    cfg["tab_size"] = rng.choice([1, 4, 8])
  if rng.random() < 0.2:
    cfg["dangle_parens"] = True
  if rng.random() < 0.15:
    cfg["enable_markup"] = False
  return {"statements": items, "config": cfg, "spelling": spelling,
          "seed": rng.randrange(10 ** 6)}


def note(rng):
  """-> the words of each of one to three lines"""
  return [[rng.choice(WORDS[:6])] + [rng.choice(WORDS) for _ in range(
      rng.choice([0, 1, 3, 9]))] for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def render(payload):
  import random
  rng = random.Random(payload["seed"])
  text = ""

  def comment(lines):
    out = ""
    for num, line in enumerate(lines):
      out += rng.choice(GAPS) if not num else "\n" + rng.choice(
          ["", " ", "      "])
      out += payload["spelling"] + " " + " ".join(line)
    return out + "\n"

  for name, args, behind in payload["statements"]:
    text += name + "("
    for num, (arg, lines) in enumerate(args):
      if num and not text.endswith("\n"):
        text += rng.choice([" ", " ", "\n", "\n  "])
      text += arg
      if lines:
        text += comment(lines)
    text += ")"
    text += comment(behind) if behind else "\n"
  return text


def judge(payload, obs):
  text, cfg = render(payload), payload["config"]
  fmt.need_valid(text)
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  spelling = payload["spelling"]

  def fail(what):
    return "%s\n%s\n---- formatted to\n%s" % (what, text, out)

  want = []
  for name, args, behind in payload["statements"]:
    want += [(arg, lines) for arg, lines in args] + [(")", behind)]
  toks = [t for t in reflex.lex(out) if t.kind not in ("sp", "id", "(")]
  pos = 0
  count = 0
  for what, lines in want:
    while pos < len(toks) and toks[pos].kind == "nl":
      pos += 1
    if pos == len(toks) or toks[pos].text != what:
      raise Skip("C01")
    line = toks[pos].line
    col = toks[pos].pos - out.rfind("\n", 0, toks[pos].pos) - 1
    pos += 1
    words = []
    while pos < len(toks) and toks[pos].kind in ("nl", "lc"):
      tok = toks[pos]
      pos += 1
      if tok.kind == "nl":
        continue
      if not lines:
        return fail("a comment behind %r" % what)
      if not tok.text.startswith(spelling):
        return fail("%r does not begin with %r" % (tok.text, spelling))
      room = cfg.get("line_width", 80) - col - 2
      if what == ")" and tok.line == line + 1 and (
          room < 18 or cfg.get("enable_markup") is False):
        line += 1             # there is no room behind the statement
      if not words and tok.line != line:
        return fail("the comment is not on the line of %r" % what)
      words += tok.text[len(spelling):].split()
    if words != [w for l in lines or () for w in l]:
      return fail("the comment behind %r has the words %r" % (what, words))
    count += bool(lines)
  obs.hit("explicit trailing comments", count)
  if count > 1:
    obs.see("explicit", spelling, out.count("\n"), sorted(cfg.items()))
  return None


def shrink(payload):
  items = payload["statements"]
  for idx in range(len(items)):
    if len(items) > 1:
      yield dict(payload, statements=items[:idx] + items[idx + 1:])
    name, args, behind = items[idx]
    if behind:
      yield dict(payload, statements=items[:idx] + [[name, args, None]]
                 + items[idx + 1:])
    for num, (arg, lines) in enumerate(args):
      if lines:
        less = args[:num] + [[arg, None]] + args[num + 1:]
        yield dict(payload, statements=items[:idx] + [[name, less, behind]]
                   + items[idx + 1:])
  for key in payload["config"]:
    if key != "explicit_trailing_pattern":
      yield dict(payload, config={k: v for k, v in payload["config"].items()
                                  if k != key})
