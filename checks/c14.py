"""C14: protected comment text is preserved, and markup is honoured."""
from vlib import explicit, fmt

RULE = """A case is a listfile with comments that are generated from a
description (paragraphs, notes, rulers, nested bulleted and numbered lists,
fences with arbitrary text, literal comments) at block depth 0 to 3 and inside
of argument lists, and a configuration of the markup options. The expected
comment lines are computed from the description, not from the text, by an
independent renderer; the monitor compares them, in order, with the comment
lines of the real output. In other cases explicit trailing comments (with any
explicit_trailing_pattern) stand behind arguments, with any white space between,
and have to begin on the line of their argument. Non-trivial: protected text or a list; distinct by
(expected lines, options)."""
COUNT = {"quick": 5000, "thorough": 300000}

WORDS = ["alpha", "beta", "the", "quick", "brown", "fox", "lib", "a", "of",
         "targets", "(paren)", "http://x.org/y#z", "foo()", "x-y", "e.g.,",
         "don't", "${VAR}", "\u00e9t\u00e9", "CMAKE_CURRENT_SOURCE_DIR",
         "\"quoted\"", "and", "12", "v1.2.3", "#tag", "semi;colon", "end."]
STARTS = [w for w in WORDS if w[0].isalpha()]
RAW = ["int  x =  1;", "  if (a)   b", "* not a list", "1. not", "---- a ----",
       "TODO(me): x", "  - a", "a\tb", "x", "", "     deep", "| a | b |",
       "trailing   ", "set(x  y)", "\u00e9   \u00e9", "long " * 25, "####",
       "<- arrow", "[ x ]", "===", "'", "\"", "#"]
HOSTS = ["set(X\n%s a b c)", "set(X a\n%s b c)", "foo(a\n%s b)",
         "target_link_libraries(x PUBLIC\n%s a)", "if(A\n%s AND B)\nendif()",
         "add_library(x STATIC\n%s a.cc b.cc)", "foreach(x\n%s IN LISTS y)\n"
         "endforeach()", "install(TARGETS a\n%s DESTINATION b)",
         "set_target_properties(a PROPERTIES\n%s b c)", "foo(a\n%s)",
         "add_executable(x\n%s a.cc)", "add_custom_target(a COMMAND b\n%s)",
         "foreach(x\n%s a b)\nendforeach()", "set(X\n%s)",
         "list(APPEND x\n%s a)", "if(A)\nelse(\n%s)\nendif()",
         "add_custom_command(OUTPUT a\n%s COMMAND b)",
         "file(GLOB x\n%s a b)", "set_property(TARGET a PROPERTY\n%s b c)"]


# -- the description ----------------------------------------------------------
def words(rng, low, high, start=False):
  out = [rng.choice(WORDS) for _ in range(rng.randint(low, high))]
  if out and start:
    out[0] = rng.choice(STARTS)
  return out


def lines_of(rng, count, low=1, high=14):
  return [words(rng, low, high, start=True) for _ in range(count)]


def items(rng, cfg, args):
  """The items of one comment."""
  out = []
  last = None
  depth_ok = 0
  for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 9])):
    kind = rng.choice(["para", "para", "list", "list", "enum", "enum", "fence",
                       "fence", "note", "ruler", "hashruler", "sep"])
    if args and kind in ("ruler", "hashruler"):
      continue
    if last in ("list", "enum") and kind in ("para", "note", "list", "enum"):
      out.append({"k": "sep"})
    if last in ("para", "note") and kind in ("list", "enum", "para"):
      out.append({"k": "sep"})
    if last == "fence" and kind == "para" and False:
      out.append({"k": "sep"})
    if last == "fence":
      # after a fence the state is neutral
      pass
    high = 1 if args else rng.choice([3, 14])
    if kind == "para":
      out.append({"k": "para", "indent": rng.choice([0, 1, 1, 1, 3]),
                  "lines": lines_of(rng, 1 if args else rng.randint(1, 4), 1,
                                    high)})
    elif kind == "note":
      head = [rng.choice(["TODO(josh):", "NOTE(x_y):", "FIX_ME(a):"])]
      out.append({"k": "note", "indent": 1, "lines": [
          head + ([] if args else words(rng, 0, 12))] + (
              [] if args else lines_of(rng, rng.choice([0, 1])))})
    elif kind in ("list", "enum"):
      count = 1 if rng.random() < 0.2 else rng.randint(2, 5)
      if kind == "enum" and rng.random() < 0.3:
        count = rng.choice([9, 10, 11, 12, 25])
      if kind == "enum" and rng.random() < 0.01:
        count = 101
      depth_ok = rng.choice([1, 1, 2, 4, 7])
      entries = [lines_of(rng, 1 if args else rng.choice([1, 1, 2]), 1, high)
                 for _ in range(count)]
      entry = {"k": kind, "indent": depth_ok, "items": entries}
      if kind == "list":
        entry["mark"] = rng.choice(["*", "*", "-",
                                    cfg.get("bullet_char", "*")])
      else:
        entry["mark"] = rng.choice([".", ".", ":", cfg.get("enum_char", ".")])
        entry["first"] = rng.choice([1, 1, 0, 3])
        entry["right"] = rng.random() < 0.5
      out.append(entry)
    elif kind == "fence":
      mark = rng.choice(["~~~", "```", "~~~~~~", "~~~"])
      if cfg.get("fence_pattern"):
        mark = "%%%"
      out.append({"k": "fence", "open": mark, "close": mark,
                  "lines": [rng.choice(RAW) for _ in range(
                      rng.choice([0, 1, 2, 3, 5, 8]))]})
    elif kind == "ruler":
      if cfg.get("ruler_pattern"):
        text = rng.choice(["%%%%", "%%%%%%%%"])
      else:
        text = rng.choice(["---- x ----", "-" * 30, "=== The ===", "*" * 9,
                           "~-~ a ~-~"])
      out.append({"k": "ruler", "text": text})
    elif kind == "hashruler":
      if cfg.get("ruler_pattern") or cfg.get("canonicalize_hashrulers") is False:
        continue
      out.append({"k": "hashruler", "count": rng.choice([7, 20, 40, 77]),
                  "blank": rng.random() < 0.5})
    else:
      out.append({"k": "sep"})
    last = out[-1]["k"]
  if not out:
    out.append({"k": "para", "indent": 1, "lines": [["alpha"]]})
  return out


def config(rng):
  cfg = {}
  if rng.random() < 0.5:
    cfg["line_width"] = rng.choice([24, 30, 40, 60, 100, 120])
  if rng.random() < 0.3:
    cfg["tab_size"] = rng.choice([1, 3, 4, 8])
  if rng.random() < 0.2:
    cfg["bullet_char"] = rng.choice(["-", "+", "*"])
  if rng.random() < 0.2:
    cfg["enum_char"] = rng.choice([")", ":"])
  if rng.random() < 0.12:
    cfg["enable_markup"] = False
  if rng.random() < 0.25:
    cfg["first_comment_is_literal"] = True
  if rng.random() < 0.25:
    cfg["literal_comment_pattern"] = rng.choice(PATTERNS)[0]
  if rng.random() < 0.1:
    cfg["fence_pattern"] = r"^\s*(%%%)(.*)$"
  elif rng.random() < 0.1:
    cfg["ruler_pattern"] = r"^\s*%{4,}$"
  if rng.random() < 0.15:
    cfg["hashruler_min_length"] = rng.choice([6, 12])
  if rng.random() < 0.1:
    cfg["canonicalize_hashrulers"] = False
  if rng.random() < 0.1:
    cfg["max_pargs_hwrap"] = rng.choice([0, 2])
  if rng.random() < 0.05:
    cfg["autosort"] = True
  return cfg


# (pattern, how a comment that matches begins)
PATTERNS = [(r" *\(c\)", " (c) 2020  me"), (r"[ ]?Copyright", " Copyright   x"),
            (r"^\s*@file", "   @file   y"), (r"(?s).*LITERAL", None)]


def raw_block(rng, cfg, kind):
  lines = [rng.choice([" ", " ", "  ", "", "\t"]) + rng.choice(RAW)
           for _ in range(rng.randint(1, 6))]
  if kind == "pattern":
    start = dict(PATTERNS)[cfg["literal_comment_pattern"]]
    if start is None:
      lines[rng.randrange(len(lines))] = "  xx  LITERAL  yy"
    else:
      lines[0] = start
  lines = [" " + l if l[:1] in ("[", "<", "!") else l for l in lines]
  if rng.random() < 0.2:
    lines = ["#" + l for l in lines]
  return lines


def gen(rng, idx, tier):
  if idx % 8 == 3:
    return explicit.gen(rng)
  cfg = config(rng)
  entries = []
  depth = 0
  for num in range(rng.choice([1, 2, 3, 5, 8])):
    roll = rng.random()
    if roll < 0.15 and depth < 3:
      entries.append({"t": "open"})
      depth += 1
    elif roll < 0.25 and depth:
      entries.append({"t": "close"})
      depth -= 1
    elif roll < 0.35:
      entries.append({"t": "stmt"})
    entry = {"t": "c"}
    roll = rng.random()
    if num == 0 and rng.random() < 0.1 and not depth:
      entry["raw"] = ["!/usr/bin/cmake -P"] + raw_block(rng, cfg, "bang")
      if entries:
        entries = []
    elif num == 0 and not entries and cfg.get("first_comment_is_literal"):
      entry["raw"] = raw_block(rng, cfg, "first")
    elif cfg.get("literal_comment_pattern") and roll < 0.4:
      entry["raw"] = raw_block(rng, cfg, "pattern")
    elif cfg.get("enable_markup") is False:
      entry["raw"] = raw_block(rng, cfg, "off")
    elif roll > 0.93:
      entry = {"t": "b", "text": rng.choice([
          "#[[ a  \n   b ]]", "#[==[\n  x\n\n   y ]] \n]==]", "#[[x   y]]"])}
      entries.append(entry)
      continue
    else:
      host = None
      if roll > 0.7:
        host = rng.randrange(len(HOSTS))
      entry["items"] = items(rng, cfg, host is not None)
      if host is not None:
        entry["host"] = host
    if "raw" in entry and num and rng.random() < 0.3:
      entry["host"] = rng.randrange(len(HOSTS))
    entries.append(entry)
  lead = rng.choice(["", "", "", "\ufeff", "\n", "\ufeff\n\n", " \n\n"])
  if lead and rng.random() < 0.3:
    cfg["emit_byteorder_mark"] = True
  return {"entries": entries, "config": cfg, "lead": lead}


# -- the text -----------------------------------------------------------------
def source_lines(item):
  kind = item["k"]
  if kind == "sep":
    return [""]
  if kind in ("para", "note"):
    return [" " * item["indent"] + " ".join(l) for l in item["lines"]]
  if kind == "ruler":
    return [" " + item["text"]]
  if kind == "hashruler":
    return [(" " if item["blank"] else "") + "#" * (
        item["count"] if item["blank"] else max(item["count"], 12))]
  if kind == "fence":
    return ([" " + item["open"]] + [" " + l if l else "" for l in item["lines"]]
            + [" " + item["close"]])
  out = []
  pad = " " * item["indent"]
  total = len(item["items"])
  for num, lines in enumerate(item["items"]):
    if kind == "list":
      head = pad + item["mark"]
    else:
      label = str(num + item["first"])
      if item["right"]:
        label = label.rjust(len(str(total + item["first"] - 1)))
      head = pad + label + item["mark"]
    out.append(head + " " + " ".join(lines[0]))
    out.extend(pad + "   " + " ".join(l) for l in lines[1:])
  return out


def fill(all_words, width):
  out = []
  for word in all_words:
    if out and len(out[-1]) + 1 + len(word) <= width:
      out[-1] += " " + word
    else:
      out.append(word)
  return out


def render(the_items, cfg, avail):
  """-> list of alternatives, each a list of lines behind '#'"""
  width = max(10, avail - 2)
  results = []
  for tight in (False, True):
    out = []
    stack = []
    prev = None
    for item in the_items:
      kind = item["k"]
      if kind == "sep":
        if prev != "sep":
          out.append("")
        prev = kind
        continue
      prev = kind
      if kind in ("list", "enum"):
        indent = item["indent"]
        if kind == "enum" and item["right"]:
          # the number is right-aligned
          indent += (len(str(len(item["items"]) + item["first"] - 1))
                     - len(str(item["first"])))
        while stack and stack[-1] >= indent:
          stack.pop()
        stack.append(indent)
        nested = 2 * (len(stack) - 1)
        digits = len(str(len(item["items"])))
        room = width - nested - 2 - (digits if kind == "enum" and tight else 0)
        for num, lines in enumerate(item["items"]):
          if kind == "list":
            label = cfg.get("bullet_char", "*") + " "
          else:
            label = "%*d%s " % (digits, num + 1, cfg.get("enum_char", "."))
          rows = fill([w for l in lines for w in l], room)
          for row_num, row in enumerate(rows):
            head = label if row_num == 0 else " " * len(label)
            out.append(" " * nested + head + row)
        continue
      stack = []
      if kind in ("para", "note"):
        out.extend(fill([w for l in item["lines"] for w in l], width))
      elif kind == "ruler":
        out.extend(fill(item["text"].split(), width))
      elif kind == "hashruler":
        out.append("#" * width)
      elif kind == "fence":
        out.append("~~~")
        out.extend(l.rstrip() for l in item["lines"])
        out.append("~~~")
    results.append([" " + l if l else "" for l in out])
  return results


def build(payload):
  """-> (text, list of (depth or None, alternatives))"""
  cfg = payload["config"]
  tab = cfg.get("tab_size", 2)
  width = cfg.get("line_width", 80)
  text = []
  want = []
  depth = 0
  for entry in payload["entries"]:
    if entry["t"] == "open":
      text.append("  " * depth + "if(X)\n")
      depth += 1
      continue
    if entry["t"] == "close":
      if depth:
        depth -= 1
        text.append("  " * depth + "endif()\n")
      continue
    if entry["t"] == "stmt":
      text.append("foo(a)\n")
      continue
    if entry["t"] == "b":
      text.append("\n%s\n\n" % entry["text"])
      want.append(("b", depth, [[l.rstrip()
                                 for l in entry["text"].split("\n")]]))
      continue
    if "raw" in entry:
      lines = entry["raw"]
      expect = [[l.rstrip() for l in lines]]
    else:
      lines = [l for item in entry["items"] for l in source_lines(item)]
      expect = render(entry["items"], cfg, width - tab * depth)
    host = entry.get("host")
    if host is None:
      # a comment of its own
      if text:
        text.append("\n")
      text.extend("  " * depth + "#" + l + "\n" for l in lines)
      text.append("\n")
      want.append(("c", depth, expect))
    else:
      block = "".join("   #" + l + "\n" for l in lines)
      text.append(HOSTS[host] % block + "\n")
      want.append(("a", depth, expect))
  text.append("endif()\n" * depth)
  return "".join(text), want


def judge(payload, obs):
  if "statements" in payload:
    return explicit.judge(payload, obs)
  cfg = payload["config"]
  text, want = build(payload)
  text = payload.get("lead", "") + text
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return "%s:\n%s" % (err, text)
  out = out.lstrip("\ufeff")
  tab = cfg.get("tab_size", 2)
  rows = out.split("\n")
  pos = 0

  def fail(what):
    return "%s\n---- input:\n%s---- output:\n%s" % (what, text, out)

  for kind, depth, alternatives in want:
    best = None
    for lines in alternatives:
      cur = pos
      bad = None
      if kind == "b":
        first = " " * (tab * depth) + lines[0]
        while cur < len(rows) and rows[cur] != first:
          cur += 1
        got = rows[cur:cur + len(lines)]
        if got != [first] + lines[1:]:
          bad = "bracket comment: expected %r, got %r" % (lines, got)
        cur += len(lines)
      else:
        for line in lines:
          while cur < len(rows) and "#" not in rows[cur]:
            cur += 1
          if cur >= len(rows):
            bad = "comment line is missing: %r" % line
            break
          got = rows[cur]
          cur += 1
          if kind == "c":
            expect = " " * (tab * depth) + "#" + line
          else:
            # it may be behind an argument
            expect, got = "#" + line, got[got.index("#"):]
          if got != expect:
            bad = "expected %r, got %r" % (expect, got)
            break
      if bad is None:
        pos = cur
        break
      best = best or bad
    else:
      return fail(best)
  for row in rows[pos:]:
    if "#" in row:
      return fail("comment line out of nowhere: %r" % row)

  for entry in payload["entries"]:
    if "raw" in entry:
      obs.hit("literal_comments")
      obs.hit("literal_lines", len(entry["raw"]))
    for item in entry.get("items", ()):
      obs.hit(item["k"])
      if item["k"] == "fence":
        obs.hit("fenced_lines", len(item["lines"]))
    if entry.get("host") is not None:
      obs.hit("in_arguments")
    if "raw" in entry or any(i["k"] in ("fence", "list", "enum")
                             for i in entry.get("items", ())):
      obs.see(want, sorted(cfg.items()))
  return None


def shrink(payload):
  if "statements" in payload:
    for less in explicit.shrink(payload):
      yield less
    return
  entries = payload["entries"]
  for idx in range(len(entries)):
    yield dict(payload, entries=entries[:idx] + entries[idx + 1:])
  for idx, entry in enumerate(entries):
    for key in ("items", "raw"):
      for num in range(len(entry.get(key, ()))):
        if len(entry[key]) > 1:
          less = dict(entry)
          less[key] = entry[key][:num] + entry[key][num + 1:]
          yield dict(payload, entries=entries[:idx] + [less]
                     + entries[idx + 1:])
  for key in payload["config"]:
    cfg = dict(payload["config"])
    del cfg[key]
    yield dict(payload, config=cfg)


def fixed():
  fence = {"k": "fence", "open": "~~~", "close": "~~~",
           "lines": ["  deep", "x   y", "", "* z"]}
  for num in range(len(HOSTS)):
    yield {"entries": [{"t": "stmt"}, {"t": "c", "items": [fence],
                                       "host": num}], "config": {}}
  for cfg in ({"first_comment_is_literal": True}, {"enable_markup": False},
              {"literal_comment_pattern": r".*c\)"}):
    for head in ("", "#"):
      yield {"entries": [{"t": "c", "raw": [head + " (c)  x", head + "    y ",
                                            head, head + " - z"]}],
             "config": cfg}
  yield {"entries": [{"t": "c", "raw": ["!/bin/x", "#  a   b"]}], "config": {}}
  for count in (1, 2, 9, 10, 11, 99, 100, 101):
    for right in (False, True):
      yield {"entries": [{"t": "c", "items": [
          {"k": "enum", "indent": 1, "mark": ".", "first": 1, "right": right,
           "items": [[["word"] * 30]] * count}]}], "config": {}}
  yield {"entries": [{"t": "c", "items": [
      {"k": "para", "indent": 1, "lines": [["a"], ["---", "x", "---"]]}]}],
         "config": {"ruler_pattern": "^ *%{4,}$"}}
