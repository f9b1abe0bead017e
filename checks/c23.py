"""C23: the line level lint (C0301, C0303, C0304, C0306, C0327) is exact."""
from vlib import fmt, gen as vgen, lintgen, lintrun, reflex
from vlib.run import Skip

RULE = """A case is a listfile with random tabs, blanks at the end of lines,
long lines, mixed line endings and missing final newline, and a configuration
(line width, tab policy, line ending, disabled codes). The monitor compares the
records of the real linter for the five codes (line, column, numbers in the
message) with the records derived from the characters of the file.
Non-trivial: at least one record; distinct by bag of records."""
COUNT = {"quick": 9000, "thorough": 400000}
CODES = ("C0301", "C0303", "C0304", "C0306", "C0327")

HAND = ["foo()\n", "foo()", "foo() ", "foo() \n", "foo()\t\n", "\tfoo()\n",
        " \tfoo()\n", "\t foo()\n", "foo()\r\n", "foo()\r\nbar()\n",
        "foo()\nbar()\r\n", "foo()\r\nbar()", "foo() \r\n", "   \n", "\t\n",
        "\n", "\r\n", "foo(\n\ta\n \tb\n\t c)\n", "foo(\"\n\ta \n\")\n",
        "#[[\n\tx \n]]\n", "# c \n", "foo(aaaaaaaaaaaaaaaaaaaaaaaaaa)\n",
        "foo(aaaaaaaaa)\nfoo(aaaaaaaaaaaaaa)\nfoo(aaaaaaaaaaaaaa) \n",
        "foo(aaaaaaaaaaaaaa)\r\n", "foo(aaaaaaaaaaaaa)\r\n",
        "foo(\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9"
        "\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9)\n"]
CONFIGS = [{}, {"line_ending": "windows"}, {"line_ending": "auto"},
           {"use_tabchars": True, "fractional_tab_policy": "round-up"},
           {"use_tabchars": True}, {"line_width": 20}, {"line_width": 19},
           {"line_width": 19, "line_ending": "windows"},
           {"disabled_codes": ["C0303", "C0327"]}]


def fixed():
  for text in HAND:
    for cfg in CONFIGS:
      yield {"text": text, "config": cfg}


def dirty(rng, text):
  """Disturb the white space of a listfile (CMake still accepts it)."""
  out = []
  rate = rng.choice([0, 0.05, 0.2, 0.5])
  for line in text.split("\n"):
    cut = line.rstrip("\r")
    if rng.random() < rate:
      cut += rng.choice([" ", "\t", "   ", " \t"])
    if rng.random() < rate:
      cut = rng.choice(["\t", " ", "\t\t", " \t", "\t ", "  \t  "]) + cut
    if rng.random() < rate:
      cut += " # " + "x" * rng.randrange(100)
    out.append(cut)
  ending = rng.choice(["\n", "\n", "\r\n", "mixed", "mixed"])
  text = ""
  for num, line in enumerate(out):
    if num + 1 < len(out):
      line += rng.choice(["\n", "\n", "\r\n"]) if ending == "mixed" else ending
    text += line
  return text


def gen(rng, idx, tier):
  text = (lintgen.LintGen(rng, ws=0.4, pragmas=0).listfile()
          if rng.random() < 0.5 else vgen.Gen(rng, trailws=True).listfile())
  return {"text": dirty(rng, text), "config": lintgen.random_config(rng)}


def reference(text, cfg):
  width = cfg.get("line_width", 80)
  ending = cfg.get("line_ending", "unix")
  if ending == "auto":
    windows = text.count("\r\n")
    ending = "windows" if windows > text.count("\n") - windows else "unix"
  out = []
  pos = 0
  num = 0
  while pos < len(text):
    num += 1
    end = text.find("\n", pos)
    last = end < 0
    line = text[pos:] if last else text[pos:end]
    pos = len(text) if last else end + 1
    crlf = not last and line.endswith("\r")
    if crlf:
      line = line[:-1]
    if len(line) > width:
      out.append(((num,), "C0301", "Line too long (%d/%d)"
                  % (len(line), width)))
    if line and line[-1].isspace():
      out.append(((num,), "C0303", "Trailing whitespace"))
    if last:
      out.append(((num,), "C0304", "Final newline missing"))
    elif crlf and ending == "unix":
      out.append(((num,), "C0327", "Wrong line ending (windows)"))
    elif not crlf and ending == "windows":
      out.append(((num,), "C0327", "Wrong line ending (unix)"))
    blanks = line[:len(line) - len(line.lstrip(" \t"))]
    message = "Tab-policy violation. Found %s but should be %s"
    if not cfg.get("use_tabchars", False):
      if "\t" in blanks:
        out.append(((num, blanks.index("\t")), "C0306",
                    message % ("tab", "space")))
    elif cfg.get("fractional_tab_policy", "use-space") == "round-up":
      if " " in blanks:
        out.append(((num, blanks.index(" ")), "C0306",
                    message % ("space", "tab")))
    elif " " in blanks and "\t" in blanks[blanks.index(" "):]:
      out.append(((num, blanks.index(" ")), "C0306",
                  message % ("space", "tab")))
  off = cfg.get("disabled_codes", [])
  return [r for r in out if r[1] not in off]


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  fmt.need_valid(text)
  if "cmake-lint:" in text or text.startswith("\ufeff") or not text:
    raise Skip("pragma, mark or nothing")
  if "\r" in text.replace("\r\n", ""):
    raise Skip("lone carriage return")
  got = [r for r in lintrun.records(text, cfg) if r[1] in CODES]
  want = reference(text, cfg)
  bad = lintrun.diff(want, got)
  if bad:
    return bad
  order = [r[0][0] for r in got]
  if order != sorted(order):
    return "records are not in the order of lines: %r" % (got,)
  for rec in want:
    obs.hit(rec[1])
  obs.hit("lines", text.count("\n"))
  if want:
    obs.see(sorted(want))
  return None
