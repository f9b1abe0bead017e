"""
Canonical streams over listfile text, built on the reference lexer.
"""
import re
from . import reflex

ONOFF = re.compile(r"#\s*(?:cmake-format|cmf): (on|off)(?![\w-])([^\n]*)$")
_ENUM = re.compile(r"(?<![^\s(])\d+[.)](?=\s|$)")


def comment_words(text):
  """
  What reflowing a line comment is required to keep: the sequence of its word
  characters. Bullets, enumerators, rulers, hashes, fences and punctuation-only
  material may be rewritten by comment markup; words may not.
  """
  text = re.sub(r"^#+<?", "", text.strip())
  text = _ENUM.sub(" ", text)
  return [w.lstrip("<") for w in text.split() if re.search(r"[^\W_]", w)]


def arg_key(kind, text, ws="exact"):
  text = reflex.norm_nl(text)
  if kind in ("q", "b") and ws == "trail":
    text = re.sub(r"[ \t\f\v]+\n", "\n", text)
  return (kind, text)


def stream(text, ws="exact", comments="words", fold_args=False):
  """
  The ordered stream of everything that matters in a listfile: command names
  (case folded), arguments (verbatim), parentheses and comments.

  comments: "words"  line comments contribute their word sequence
            "exact"  line comments contribute their text (right-stripped)
            "none"   comments are ignored
  """
  out = []
  for tok in reflex.lex(text):
    kind = tok.kind
    if kind in ("nl", "sp"):
      continue
    if kind == "id":
      out.append(("id", tok.text.lower()))
    elif kind in ("(", ")"):
      out.append((kind,))
    elif kind in ("uq", "q", "b"):
      key = arg_key(kind, tok.text, ws)
      if fold_args and kind == "uq":
        key = (kind, key[1].lower())
      out.append(key)
    elif kind == "at":
      out.append(("at", tok.text))
    elif kind == "bc":
      if comments != "none":
        out.append(("bc", re.sub(r"[ \t\f\v]+\n", "\n",
                                 reflex.norm_nl(tok.text))))
    elif kind == "lc":
      if comments == "none":
        continue
      match = ONOFF.match(tok.text.rstrip())
      if match:
        out.append(("onoff", match.group(1), match.group(2).rstrip()))
      elif comments == "words":
        out.extend(("cw", word) for word in comment_words(tok.text))
      else:
        out.append(("lc", tok.text.rstrip()))
  return out


def first_diff(left, right):
  for idx, (a, b) in enumerate(zip(left, right)):
    if a != b:
      return ("at item %d: source has %r, result has %r (after %r)"
              % (idx, a, b, left[max(0, idx - 3):idx]))
  if len(left) != len(right):
    idx = min(len(left), len(right))
    return ("lengths differ (%d vs %d): source tail %r, result tail %r"
            % (len(left), len(right), left[idx:idx + 4], right[idx:idx + 4]))
  return None
