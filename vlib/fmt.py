"""
Running the real formatter in-process, plus pieces shared by its monitors.
"""
import re

from . import canon, gen, reflex
from .run import Skip


class Raised(Exception):
  """The code under test raised on an input that it has to accept."""


def make_config(cfg):
  from cmakelang import configuration
  return configuration.Configuration(**cfg)


def fmt(text, cfg=None):
  """-> (output, layout is valid)"""
  from cmakelang.format import __main__ as fmain
  return fmain.process_file(make_config(dict(cfg or {})), text)


def try_fmt(text, cfg=None):
  """-> (output, valid, error message or None)"""
  from .run import Watchdog
  try:
    out, valid = fmt(text, cfg)
  except Watchdog:
    raise
  except Exception as ex:  # pylint: disable=broad-except
    return None, None, "formatter raised %s: %s" % (
        type(ex).__name__, (str(ex) or getattr(ex, "msg", ""))[:200])
  return out, valid, None


def need_valid(text, max_depth=3):
  """Precondition: CMake accepts the text and its blocks are balanced."""
  try:
    toks = reflex.lex(text)
  except reflex.RefError as ex:
    raise Skip("not a listfile: %s" % ex)
  if not reflex.blocks_balanced(reflex.commands(toks)):
    raise Skip("unbalanced blocks")
  depth = 0
  for tok in toks:
    if tok.kind == "(":
      depth += 1
      if depth > max_depth + 1:
        raise Skip("deep nesting")
    elif tok.kind == ")":
      depth -= 1
  return toks


def onoff_in_args(toks):
  """An off/on switch inside of an argument list (known finding)."""
  depth = 0
  for tok in toks:
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    elif tok.kind == "lc" and depth and canon.ONOFF.match(tok.text.rstrip()):
      return True
  return False


_SQ = re.compile(r"(?<![^\s(])'")


def squote_hazard(toks):
  """A single quote at the start of an argument (known finding)."""
  return any(t.kind == "uq" and t.text.startswith("'") for t in toks)


def align_comments(text):
  """
  Put every line comment that directly follows another one into the same
  column. (Two adjacent comments in different columns are kept apart by the
  first pass of the formatter and joined by the second: known finding.)
  """
  toks = reflex.lex(text)
  out = []
  prev_col = None
  col = 0
  for idx, tok in enumerate(toks):
    spelling = tok.text
    if tok.kind == "lc":
      if prev_col is not None and col != prev_col:
        # rewrite the blanks in front of it
        if out and toks[idx - 1].kind == "sp":
          out.pop()
        spelling = " " * prev_col + spelling
        col = prev_col
      prev_col = col
      col = 0
    elif tok.kind == "nl":
      col = 0
      out.append(spelling)
      continue
    elif tok.kind == "sp":
      col += len(spelling)
      out.append(spelling)
      continue
    else:
      prev_col = None
    if "\n" in spelling:
      col = len(spelling.rsplit("\n", 1)[1])
    else:
      col += len(spelling)
    out.append(spelling)
  return "".join(out)


def misaligned_comments(text):
  return align_comments(text) != text


def case_text(rng, idx, comments=True, **opts):
  """The standard mixture of workloads."""
  roll = rng.random()
  if roll < 0.12:
    text = gen.corpus_chunk(rng)
    if text is not None and comments:
      return text
    if text is not None:
      return strip_comments(text)
  if roll < 0.30:
    text = gen.corpus_chunk(rng)
    if text is not None:
      if not comments:
        text = strip_comments(text)
      return gen.respace(rng, text, comments=(
          rng.choice([0, 0, 0.1]) if comments else 0))
  return gen.Gen(rng, comments=comments, **opts).listfile(
      rng.choice([1, 1, 1, 2, 2, 3, 5, 9]))


def strip_comments(text):
  """Remove all comments (line comments inside lists leave their newline)."""
  return "".join(t.text for t in reflex.lex(text)
                 if t.kind not in ("lc", "bc"))


def features(toks, out, cfg):
  """A cheap signature of what a case exercised."""
  kinds = tuple(sorted(set(t.kind for t in toks)))
  names = tuple(t.text.lower() for t in toks if t.kind == "id")[:4]
  return kinds, names, len(out.split("\n")), tuple(sorted(cfg.items(),
                                                          key=repr)).__repr__()


def make_cfg(rng):
  """A random formatting configuration."""
  cfg = gen.random_format_config(rng) if rng.random() < 0.75 else {}
  if rng.random() < 0.2:
    cfg["use_tabchars"] = True
    if rng.random() < 0.5:
      cfg["fractional_tab_policy"] = "round-up"
  if rng.random() < 0.25:
    cfg["line_ending"] = rng.choice(["windows", "auto", "unix"])
  if rng.random() < 0.1:
    cfg["enable_markup"] = False
  if rng.random() < 0.1:
    cfg["emit_byteorder_mark"] = True
  if rng.random() < 0.05:
    cfg["first_comment_is_literal"] = True
  if rng.random() < 0.05:
    cfg["bullet_char"] = "-"
  if rng.random() < 0.05:
    cfg["enum_char"] = ")"
  if rng.random() < 0.05:
    cfg["canonicalize_hashrulers"] = False
  if rng.random() < 0.05:
    cfg["hashruler_min_length"] = rng.choice([4, 20])
  if rng.random() < 0.05:
    cfg["layout_passes"] = {
        name: rng.choice(PASSES) for name in rng.sample(PASS_NODES, 2)}
  return cfg


PASS_NODES = ["StatementNode", "KwargGroupNode", "PargGroupNode",
              "ArgGroupNode", "ParenGroupNode"]
PASSES = [[[0, True]], [[0, False]], [[0, False], [5, True]],
          [[0, False], [3, False], [4, True], [5, True]]]

# explicit_trailing_pattern and comments that match it
EXPLICIT = [("#!<", ["#!<"]), ("#[<!]", ["#<", "#!"]), ("#(?:<|->)", ["#<", "#->"]),
            ("#<+", ["#<", "#<<<"]), (" ?# ?<", ["#<", "# <"]),
            (r"#<\s*", ["#<"]), (r"#\^.*", ["#^"])]


def explicit(rng, payload, share=0.06):
  """A pattern of its own for explicit trailing comments, now and then."""
  if "#<" in payload["text"] and rng.random() < share:
    pattern, spellings = rng.choice(EXPLICIT)
    payload["config"]["explicit_trailing_pattern"] = pattern
    payload["text"] = re.sub(r"#<(?= )", lambda _m: rng.choice(spellings),
                             payload["text"])
  return payload


def make_text(rng, idx, **opts):
  opts.setdefault("trailws", rng.random() < 0.3)
  opts.setdefault("onoff", 0.04)
  opts.setdefault("onoff_args", 0.02)
  text = case_text(rng, idx, **opts)
  roll = rng.random()
  if roll < 0.1:
    text = text.replace("\r\n", "\n").replace("\n", "\r\n")
  elif roll < 0.13:
    text = "\ufeff" + text
  return text


def exclude(toks):
  """Inputs that are the subject of a known finding of their own."""
  if squote_hazard(toks):
    raise Skip("single quote")


def holds(judge, payload):
  """The counterfactual: does the property hold on this variant?"""
  from .run import Obs
  try:
    return judge(payload, Obs()) is None
  except Skip:
    return False


def shorten_comments(text):
  """
  Reduce every line comment inside of an argument list, and every comment
  which follows a closing parenthesis on its line, to its first word.
  """
  out = []
  depth = 0
  after_paren = False
  for tok in reflex.lex(text):
    spelling = tok.text
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      after_paren = depth == 0
    elif tok.kind in ("id", "at"):
      after_paren = False
    elif tok.kind == "lc" and (depth or after_paren):
      if not canon.ONOFF.match(spelling.rstrip()):
        words = canon.comment_words(spelling)
        keep = "#<" if spelling.startswith("#<") else "#"
        spelling = keep + " " + (words[0][:6] if words else "x")
    elif tok.kind == "bc" and (depth or after_paren):
      spelling = "#[[x]]"
    out.append(spelling)
  return "".join(out)


def arg_comment_lines(text):
  """Number of line comments inside of argument lists."""
  depth = count = 0
  for tok in reflex.lex(text):
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    elif tok.kind == "lc" and depth:
      count += 1
  return count


def trailing_comments(text):
  """Number of comments that follow a closing parenthesis on its line."""
  depth = count = 0
  after_paren = False
  for tok in reflex.lex(text):
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      after_paren = depth == 0
    elif tok.kind == "nl":
      after_paren = False
    elif tok.kind in ("lc", "bc") and after_paren:
      count += 1
      after_paren = False
  return count


def without_arg_comments(text):
  """Remove the comments inside of argument lists (switches stay)."""
  out = []
  depth = 0
  for tok in reflex.lex(text):
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    elif tok.kind in ("lc", "bc") and depth:
      if tok.kind == "bc" or not canon.ONOFF.match(tok.text.rstrip()):
        continue
    out.append(tok.text)
  return "".join(out)


def without_embedded_rulers(text):
  """Cut runs of punctuation out of comments which also have words."""
  out = []
  for tok in reflex.lex(text):
    spelling = tok.text
    if tok.kind == "lc" and re.search(r"\w", spelling):
      spelling = re.sub(r"(?<=.)[^\w\s]{4,}", "", spelling)
    out.append(spelling)
  return "".join(out)
