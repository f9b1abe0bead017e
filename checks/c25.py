"""C25: a suppression pragma hides its codes in its scope, and nothing else."""
from vlib import fmt, lintgen, lintrun, reflex
from vlib.run import Skip

RULE = """A case is a listfile with pragmas (one or several codes, several
pragmas in a scope, nested scopes, unknown codes, unknown options, within an
argument list) and a configuration. The monitor runs the real linter twice: on
the file, and on the file with the word of the pragma spelled differently (same
length), which shows all the records. What the first run reports must be the
records of the second which lie in no interval of a pragma for their code
(intervals from an independent reading of the block structure), plus the
records about malformed pragmas. Non-trivial: a record was hidden; distinct by
the hidden records."""
COUNT = {"quick": 7000, "thorough": 300000}
PREFIX = "# cmake-lint: "
ALIAS = "# cmake-lins: "

HAND = [
    "# cmake-lint: disable=C0303\nfoo() \n",
    "# cmake-lint: disable=C0303\nfoo() \n\n\n\n\nbar() ",
    "foo() \n# cmake-lint: disable=C0303\nfoo() \nfoo() \n",
    "if(a) \n  # cmake-lint: disable=C0303\n  foo() \nendif() \nfoo() \n",
    "if(a) \n  # cmake-lint: disable=C0303\n  foo() \n  endif() \nfoo() \n",
    "if(a)\n  # cmake-lint: disable=C0303\n  foo() \nelse() \n  bar() \n"
    "endif() \n",
    "# cmake-lint: disable=C0103\nfunction(Foo)\n"
    "  # cmake-lint: disable=C0303\n  foo() \nendfunction() \n",
    "# cmake-lint: disable=C0103\nif(a)\n  # cmake-lint: disable=C0103,C0303\n"
    "  set(a-b c) \nendif() \nset(a-b c) \n",
    "# cmake-lint: disable=C0303\nfoo() \n# cmake-lint: disable=C0303\nfoo() \n",
    "foo(a # cmake-lint: disable=C0303 \n b \n c) \n",
    "foo(a\n  # cmake-lint: disable=C0303 \n b \n c) \n",
    "# cmake-lint: disable=C9999\n# cmake-lint: enable=C0103\n"
    "# cmake-lint: foo\n",
    "# cmake-lint: disable=E0011 foo\n# cmake-lint: foo\nfoo() \n",
    "# cmake-lint: disable=C0103,C0111,C0305\nfunction(Foo)\nendfunction()\n"
    "\n\n\n\nfunction(Foo)\nendfunction()\n",
    "# x\n# cmake-lint: disable=C0303\nfoo() \n",
    "# x \n# cmake-lint: disable=C0303\nfoo() \n",
    "break()\n# cmake-lint: disable=E0103\nbreak()\n",
    "if(a)\n # cmake-lint: disable=C0307\n   foo()\n bar()\nendif()\n",
    "while(a)\n  # cmake-lint: disable=W0101\n  break()\n  foo()\nendwhile()\n",
    "while(a)\n  break()\n  # cmake-lint: disable=W0101\n  foo()\nendwhile()\n",
    "set(a b) # cmake-lint: disable=C0303,C0103\nset(a-b c) \n",
]


def fixed():
  for text in HAND:
    for cfg in ({}, {"disabled_codes": ["C0303"]}, {"line_width": 20}):
      yield {"text": text, "config": cfg}
    yield {"text": text.replace("\n", "\r\n"), "config": {}}


def gen(rng, idx, tier):
  for _ in range(6):
    text = lintgen.LintGen(rng, ws=rng.choice([0.2, 0.5]),
                           pragmas=rng.choice([0.3, 0.6])).listfile()
    if "cmake-lint:" in text:
      break
  if rng.random() < 0.5:
    # codes that do occur
    text = text.replace("C0102", "C0303").replace("C0201", "C0103").replace(
        "E1121", "C0305").replace("E1125", "C0301").replace("W0104", "W0101")
  cfg = lintgen.random_config(rng) if rng.random() < 0.5 else {}
  return {"text": text, "config": cfg}


def read_pragmas(comment, row, col):
  """-> (codes, records)"""
  codes, recs = [], []
  known = set(lintgen.CODES) | {"R0914"}
  for item in comment[len(PREFIX):].split():
    if "=" not in item:
      recs.append(((row,), "E0011", item))
      continue
    key, value = item.split("=", 1)
    if key != "disable":
      recs.append(((row,), "E0011", key))
      continue
    for code in value.split(","):
      if code in known:
        codes.append(code)
      else:
        recs.append(((row,), "E0012", code))
  return codes, recs


def intervals(toks):
  """-> ([(first line, last line, code)], records about pragmas)"""
  out, recs = [], []
  stack = [[]]           # open scopes: list of (line, code)
  last_line = 0          # last line of the current scope
  depth = 0
  blocks = dict(reflex._FLOW_OPEN)  # pylint: disable=protected-access
  del blocks["block"]
  ends = set(blocks.values())
  name = None
  closed = trailing = -1 # lines of the last ')' and of a comment after it
  for tok in toks:
    if tok.kind == "lc" and depth == 0:
      if tok.line == trailing + 1:
        raise Skip("comment goes on below a trailing comment")
      if tok.line == closed:
        trailing = tok.line
    if tok.kind == "lc" and tok.text.startswith(PREFIX):
      codes, more = read_pragmas(tok.text, tok.line, 0)
      recs += more
      for code in codes:
        if depth or tok.line == closed:
          out.append((tok.line, tok.line, code))
        else:
          stack[-1].append((tok.line, code))
    elif tok.kind == "id":
      name = tok.text.lower()
      if name in ends or name in ("else", "elseif"):
        for line, code in stack.pop():
          out.append((line, tok.line - 1, code))
        if name not in ends:
          stack.append(None)  # opened after the parenthesis
    elif tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      if depth == 0:
        closed = tok.line
        if name in ("else", "elseif"):
          stack[-1] = []
        elif name in blocks:
          stack.append([])
  for scope in stack:
    for line, code in scope:
      out.append((line, 10 ** 9, code))
  return out, recs


def judge(payload, obs):
  text, cfg = payload["text"], payload["config"]
  toks = fmt.need_valid(text)
  if PREFIX not in text or ALIAS in text:
    raise Skip("no pragma")
  for tok in toks:
    if PREFIX in tok.text and not (tok.kind == "lc"
                                   and tok.text.startswith(PREFIX)):
      raise Skip("pragma in other text")
  full = lintrun.records(text.replace(PREFIX, ALIAS), cfg)
  got = lintrun.records(text, cfg)
  spans, recs = intervals(toks)
  off = cfg.get("disabled_codes", [])

  def hidden(rec):
    if not rec[0]:
      return None  # no location: undetermined
    return any(a <= rec[0][0] <= b and code == rec[1] for a, b, code in spans)

  def plain(rec):
    """Messages of indentation quote the tree; those of pragmas the text."""
    return rec[0], rec[1], "" if rec[1] == "C0307" else rec[2]

  want = [plain(r) for r in full if hidden(r) is False]
  texts = {"E0011": "Unrecognized file option %s",
           "E0012": "Bad option value %s"}
  want += [(r[0], r[1], texts[r[1]] % r[2]) for r in recs
           if r[1] not in off and not hidden(r)]
  seen = []
  for rec in got:
    if not rec[0]:
      continue
    if rec[1] in texts:
      rec = (rec[0][:1],) + rec[1:]
    seen.append(plain(rec))
  bad = lintrun.diff(want, seen)
  if bad:
    return bad
  gone = [r for r in full if hidden(r)]
  obs.hit("records hidden", len(gone))
  obs.hit("records reported", len(seen))
  for rec in gone:
    obs.hit("hidden " + rec[1])
  if gone:
    obs.see(sorted(map(repr, gone)))
  return None
