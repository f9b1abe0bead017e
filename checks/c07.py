"""C07: line endings, indentation characters, trailing blanks, BOM."""
import re

from checks import c04
from vlib import fmt, reflex

RULE = """A case is a listfile (unix, windows or mixed line endings, with and
without byte-order mark and final newline) and a random configuration. The
monitor reads the characters of the output: off/on sections are cut out, the
remaining line endings must all be the configured ones (with auto: those of the
majority of the input), no line ends with a blank, indentation consists of what
the tab policy allows, the file ends with one newline, and there is a
byte-order mark exactly if it was requested. Non-trivial: the output has more
than two lines; distinct by (options, shapes of the indentation, line
endings)."""
COUNT = {"quick": 5000, "thorough": 150000}

FIXED = [
    "foo(a)\r\nbar(b)\n", "foo(a)\r\nbar(b)\r\nbaz()\n", "foo(\"a\r\nb\")\n",
    "foo(a\n# c\r\n b)\r\n", "#[[a\r\nb]]\nfoo()\n", "", "\n", "\r\n\r\n",
    "# x", "foo()", "foo()   ", "foo()\t\n\t\n", "\ufefffoo()\n", "\ufeff",
    "\ufeff# cmake-format: off\n foo( )\n# cmake-format: on\n",
    "# cmake-format: off\r\nfoo( )  \r\n# cmake-format: on\r\nfoo( a )  \r\n",
    "function(a b)\nif(c)\nforeach(x)\nfoo(a)\n# c\nendforeach()\nendif()\n"
    "endfunction()\n",
    "foo(a # b   \n c # d\t\n)\n", "foo(\"  a  \n\t b\" [[\n   x]])\n",
    "if(a)\nfoo(\"x\n\ty\" aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa b)\n"
    "endif()\n",
    "foo(a)\n\n\n", "foo(a)\n\n# cmake-format: off\n x\n",
    "foo(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbbbbbbbbb "
    "cccccccccccccccccccccccccccccccc ddddddddddddddddddddddddd # e f\n)\n",
    "# a\n#\n# b\n#   - c\n#\n", "foo(a) #\n", "foo(#\n a)\n",
]
CONFIGS = [{}, {"line_ending": "windows"}, {"line_ending": "auto"},
           {"use_tabchars": True, "tab_size": 4},
           {"use_tabchars": True, "fractional_tab_policy": "round-up"},
           {"emit_byteorder_mark": True, "line_ending": "windows"},
           {"use_tabchars": True, "tab_size": 3, "dangle_parens": True,
            "line_width": 30}, {"enable_markup": False}]


def fixed():
  for text in FIXED:
    for cfg in CONFIGS:
      yield {"text": text, "config": cfg}


def gen(rng, idx, tier):
  text = fmt.make_text(rng, idx)
  roll = rng.random()
  if roll < 0.15:               # mixed line endings
    text = text.replace("\r\n", "\n")
    text = re.sub("\n", lambda _m: rng.choice(["\n", "\r\n"]), text)
  elif roll < 0.25:
    text = text.rstrip()
  cfg = fmt.make_cfg(rng)
  if rng.random() < 0.3:
    cfg["use_tabchars"] = True
    cfg["fractional_tab_policy"] = rng.choice(["use-space", "round-up"])
  return fmt.explicit(rng, {"text": text, "config": cfg})


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  if out.startswith("\ufeff") != bool(cfg.get("emit_byteorder_mark")):
    return "byte-order mark: %r" % out[:20]
  body = out[1:] if out.startswith("\ufeff") else out
  if "\ufeff" in body and "\ufeff" not in text[1:]:
    return "stray byte-order mark: %r" % body
  try:
    otoks = reflex.lex(body)
  except reflex.RefError as ex:
    return "CMake rejects the output: %s\n%s" % (ex, out)
  secs = c04.sections(body)
  ending = cfg.get("line_ending", "unix")
  if ending == "auto":
    crlf = text.count("\r\n")
    ending = "windows" if crlf > text.count("\n") - crlf else "unix"
  nl = "\r\n" if ending == "windows" else "\n"

  unterminated = bool(secs and secs[-1][1] is None)
  if not unterminated:
    if not body.endswith("\n"):
      return "no newline at the end: %r" % body[-40:]
    if body.endswith(nl * 2):
      return "empty line at the end: %r" % body[-40:]

  def verbatim(pos):
    return any(start <= pos and (end is None or pos < end)
               for start, end, _depth in secs)

  inside = []                   # multi-line tokens
  for tok in otoks:
    if tok.kind in ("q", "b", "bc", "uq") and "\n" in tok.text:
      inside.append((tok.pos, tok.pos + len(tok.text)))

  tab = cfg.get("tab_size", 2)
  indents = set()
  pos = 0
  for line in re.findall(r"[^\n]*\n|[^\n]+$", body):
    start, end = pos, pos + len(line)
    pos = end
    eol = end - 1               # position of the newline
    if line.endswith("\n") and not verbatim(eol):
      if (line.endswith("\r\n")) != (nl == "\r\n"):
        return "line ending %r is not %s" % (line, ending)
      obs.hit("line_endings")
      if not any(a <= eol < b for a, b in inside):
        flat = line.rstrip("\r\n")
        if flat != flat.rstrip() and not verbatim(start + len(flat) - 1):
          return "trailing blank: %r" % line
    if "\r" in line.rstrip("\r\n") and "\r" not in text.replace("\r\n", ""):
      return "stray carriage return: %r" % line
    if verbatim(start) or any(a < start < b for a, b in inside):
      continue
    flat = line.rstrip("\r\n")
    lead = flat[:len(flat) - len(flat.lstrip())]
    if not flat.strip():
      continue
    if cfg.get("use_tabchars"):
      if cfg.get("fractional_tab_policy") == "round-up":
        if lead.strip("\t"):
          return "indentation with blanks: %r" % line
      else:
        if not re.match(r"^\t* *$", lead) or lead.count(" ") >= tab:
          return "indentation is not tabs, then less than %d blanks: %r" % (
              tab, line)
    elif lead.strip(" "):
      return "indentation with tabs: %r" % line
    indents.add(lead)
    obs.hit("indentations")
  # no tabs between tokens
  for tok in otoks:
    if tok.kind == "sp" and "\t" in tok.text.lstrip("\t") and not verbatim(
        tok.pos):
      return "tab between tokens: %r" % body[tok.pos - 20:tok.pos + 20]
    if tok.kind == "sp" and "\t" in tok.text and not verbatim(tok.pos):
      before = body[body.rfind("\n", 0, tok.pos) + 1:tok.pos]
      if before:
        return "tab between tokens: %r" % body[tok.pos - 20:tok.pos + 20]
  obs.hit("newline_at_end")
  if len(body.split("\n")) > 3:
    obs.see(nl, "\r\n" in text, "\n" in text.replace("\r\n", ""),
            sorted(indents), repr(sorted(cfg.items(), key=repr)))
  return None
