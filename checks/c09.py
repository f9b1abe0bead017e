"""C09: arguments are sorted where that was asked for, and nowhere else."""
from vlib import fmt, reflex

RULE = """A case is a listfile of commands with lists of file names which are
sortable by the command, by the specification of a custom command, by an
annotation (all documented forms), made unsortable by one, or not sortable, and
a configuration with autosort on or off. Arguments have unique trailing
comments now and then. The expected order of the arguments (a stable sort by
lower case spelling of exactly the lists that are sortable) is computed from
the description; the monitor compares it with the arguments of the real output,
and the comment behind each argument. Non-trivial: sorting changed the order of
at least one list; distinct by (expected stream, options)."""
COUNT = {"quick": 7000, "thorough": 400000}

NAMES = ["b.cc", "a.cc", "B.cc", "c/d.cc", "c.d/x", "a10.cc", "a9.cc", "Z.h",
         "\"q r.cc\"", "\"A.cc\"", "${SRCS}", "${a}/b.cc", "$<X:y>", "_x.cc",
         "\u00e9.cc", "zz.cc", "[[br.cc]]", "-x", "a.cc", "A.CC", "x/y/z.h",
         "aa.cc", "a_b.cc", "a-b.cc", "d\\ e.cc", "0.cc", "main.cc"]
SORT = ["sort", "sortable", "SORT", "Sortable"]
UNSORT = ["unsort", "unsortable", "UNSORT"]
FORMS = ["# cmake-format: %s", "# cmf: %s", "#[[cmake-format: %s]]",
         "#[[cmf: %s]]", "#[==[cmf:%s]==]", "#  cmf: %s "]
SPEC = {
    "my_cmd": {"pargs": {"nargs": 1, "flags": []},
               "kwargs": {"SRCS": {"pargs": {"nargs": "*", "sortable": True}},
                          "PLAIN": "*", "MORE": {"pargs": "+"},
                          "TWO": 2, "ONE": 1}},
    "my_list": {"pargs": {"nargs": "*", "sortable": True,
                          "flags": ["QUIET"]}, "kwargs": {"END_": "*"}},
    "my_two": {"pargs": [{"nargs": 2},
                         {"nargs": "+", "sortable": True}], "kwargs": {}},
}
# (text before the list, text behind it, how it is sorted)
#   inherent: with autosort; tag: only if annotated; no: never; any: either way
TEMPLATES = [
    ("add_library(x ", ")", "inherent"),
    ("add_library(x STATIC ", ")", "inherent"),
    ("add_library(x shared EXCLUDE_FROM_ALL ", ")", "inherent"),
    ("add_library(${x} MODULE ", ")", "inherent"),
    ("add_library(x OBJECT ", ")", "object"),
    ("add_library(x ${TYPE} ", ")", "no_tag"),
    ("add_executable(x ", ")", "inherent"),
    ("add_executable(x WIN32 EXCLUDE_FROM_ALL ", ")", "inherent"),
    ("add_executable(x ${WIN} ", ")", "no_tag"),
    ("set(X ", ")", "tag"),
    ("set(X ", " CACHE STRING \"doc\")", "tag"),
    ("set(X ", " PARENT_SCOPE)", "tag"),
    ("target_sources(x PRIVATE ", " PUBLIC z y)", "tag"),
    ("target_sources(x PUBLIC z y PRIVATE ", ")", "tag"),
    ("target_link_libraries(x PUBLIC ", " PRIVATE z y)", "tag"),
    ("add_custom_target(x DEPENDS ", " SOURCES z y)", "tag"),
    ("add_custom_command(OUTPUT z y DEPENDS ", " COMMAND z y x)", "tag"),
    ("install(FILES ", " DESTINATION z)", "tag"),
    ("install(TARGETS ", " DESTINATION z)", "tag"),
    ("foreach(z IN ITEMS ", ")\nendforeach()", "tag"),
    ("foreach(z ", ")\nendforeach()", "no_tag"),
    ("message(STATUS ", ")", "no_tag"),
    ("list(APPEND z y ", ")", "no_tag"),
    ("unknown(", ")", "no_tag"),
    ("set_source_files_properties(", " PROPERTIES z y)", "no_tag"),
    ("my_cmd(z SRCS ", ")", "inherent"),
    ("my_cmd(z SRCS ", " PLAIN y x)", "inherent"),
    ("my_cmd(z PLAIN ", " SRCS b y)", "tag"),
    ("my_cmd(z MORE ", " TWO y x ONE w)", "tag"),
    ("my_list(", ")", "inherent"),
    ("my_list(", " END_ z y)", "inherent"),
    ("my_two(z y ", ")", "inherent"),
]


def gen(rng, idx, tier):
  cmds = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    tmpl = rng.randrange(len(TEMPLATES))
    mode = TEMPLATES[tmpl][2]
    count = rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 11])
    args = [rng.choice(NAMES) for _ in range(count)]
    if args and ("add_" in TEMPLATES[tmpl][0] and args[0].startswith("$")):
      args[0] = "m.cc"
    if len(args) > 1 and "add_" in TEMPLATES[tmpl][0] and "${" in args[1]:
      args[1] = "k.cc"
    tag = None
    if mode != "no_tag" and count and rng.random() < 0.5:
      words = UNSORT if rng.random() < 0.4 else SORT
      if rng.random() < 0.05:
        words = ["sorted", "off_", "sort it", "nosort"]
      tag = rng.choice(FORMS) % rng.choice(words)
    notes = [rng.random() < 0.15 for _ in args]
    if rng.random() < 0.5:
      notes = [False] * count
    cmds.append({"t": tmpl, "args": args, "tag": tag, "notes": notes,
                 "nl": [rng.choice([" ", "\n  ", "\n"]) for _ in args],
                 "off": rng.random() < 0.03 and count > 1,
                 "head": rng.random() < 0.2})
  cfg = {}
  if rng.random() < 0.85:
    cfg["autosort"] = True
  if rng.random() < 0.2:
    cfg["enable_sort"] = rng.random() < 0.5
  if rng.random() < 0.3:
    cfg["line_width"] = rng.choice([20, 40, 120])
  if rng.random() < 0.3:
    cfg["max_pargs_hwrap"] = rng.choice([0, 2, 99])
  if rng.random() < 0.3:
    cfg["dangle_parens"] = True
  return {"cmds": cmds, "config": cfg}


def fixed():
  for tmpl, (_head, _tail, mode) in enumerate(TEMPLATES):
    for tag in [None] + ([f % w for f in FORMS for w in (
        "sort", "unsortable")] if mode != "no_tag" else []):
      for autosort in (True, False):
        yield {"cmds": [{"t": tmpl, "args": ["c.cc", "B.cc", "a.cc", "b.cc"],
                         "tag": tag, "notes": [True, False, False, True],
                         "nl": [" ", " ", "\n", "\n"], "off": False,
                         "head": False}],
               "config": {"autosort": autosort}}


def is_tag(tag):
  """-> True (sortable), False (unsortable), None"""
  if tag is None:
    return None
  word = tag.strip("#[]= ").split(":", 1)[1].strip().lower()
  return {"sort": True, "sortable": True,
          "unsort": False, "unsortable": False}.get(word)


def build(payload):
  text = []
  want = []
  for num, cmd in enumerate(payload["cmds"]):
    head, tail, mode = TEMPLATES[cmd["t"]]
    parts = [head]
    if cmd["tag"]:
      # the annotation is on a line of its own
      parts.append("\n  " + cmd["tag"] + "\n  ")
      if cmd["head"] and mode != "object":
        parts.append("# words\n  ")
    pairs = []
    for pos, arg in enumerate(cmd["args"]):
      if pos or not cmd["tag"]:
        parts.append(cmd["nl"][pos] if pos else "")
      if cmd["off"] and pos == 1:
        parts.append("\n# cmake-format: off\n")
      parts.append(arg)
      note = None
      if cmd["notes"][pos]:
        note = "# note%dx%d" % (num, pos)
        parts.append(" " + note + "\n")
      if cmd["off"] and pos == 1:
        parts.append("\n# cmake-format: on\n")
      pairs.append((arg, note))
    parts.append(tail + "\n")
    text.append("".join(parts))
    hint = is_tag(cmd["tag"])
    if mode in ("inherent", "object"):
      do_sort = hint is not False
    elif mode == "tag":
      do_sort = hint is True
    else:
      do_sort = False
    if not payload["config"].get("autosort") or cmd["off"]:
      do_sort = False
    in_order = sorted(pairs, key=lambda p: p[0].lower()) if do_sort else pairs
    choices = [in_order]
    if mode == "object" and hint is None:
      # documented as sortable, but never was
      choices.append(pairs)
    want.append((head, tail, choices, pairs))
  return "".join(text), want


def stream(text):
  """-> list of commands: (name, [(argument, comment behind it or None)])"""
  out = []
  toks = [t for t in reflex.lex(text) if t.kind not in ("sp", "nl")]
  for idx, tok in enumerate(toks):
    if tok.kind == "id":
      out.append((tok.text.lower(), []))
    elif tok.kind in ("uq", "q", "br", "lg") or tok.kind not in (
        "lc", "bc", "(", ")", "id"):
      nxt = toks[idx + 1] if idx + 1 < len(toks) else None
      note = None
      if nxt is not None and nxt.kind == "lc" and "note" in nxt.text:
        note = nxt.text.strip()
      out[-1][1].append((tok.text, note))
  return out


def judge(payload, obs):
  text, want = build(payload)
  cfg = dict(payload["config"])
  cfg["additional_commands"] = SPEC
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return "%s:\n%s" % (err, text)
  got = [c for c in stream(out) if c[0] != "endforeach"]
  if len(got) != len(want):
    return "%d commands became %d:\n%s" % (len(want), len(got), out)
  for (head, tail, choices, pairs), (_name, args) in zip(want, got):
    before = [a for _n, l in stream(head + ")") for a in l]
    after = [a for _n, l in stream("f(" + tail) for a in l]
    options = [before + c + after for c in choices]

    def fold(pair):
      return (pair[0].lower() if pair[0].isalpha() else pair[0], pair[1])
    if [fold(a) for a in args] not in [[fold(a) for a in o] for o in options]:
      return "expected %r\n got     %r\n%s---- output:\n%s" % (
          options[0], args, text, out)
    obs.hit("lists")
    if choices[0] != pairs:
      obs.hit("lists_sorted")
    else:
      obs.hit("lists_kept")
  if any(c[0] != p for _h, _t, c, p in want):
    obs.see(want, sorted(payload["config"].items()))
  return None


def shrink(payload):
  cmds = payload["cmds"]
  for idx in range(len(cmds)):
    if len(cmds) > 1:
      yield dict(payload, cmds=cmds[:idx] + cmds[idx + 1:])
  for idx, cmd in enumerate(cmds):
    for num in range(len(cmd["args"])):
      less = dict(cmd)
      for key in ("args", "notes", "nl"):
        less[key] = cmd[key][:num] + cmd[key][num + 1:]
      yield dict(payload, cmds=cmds[:idx] + [less] + cmds[idx + 1:])
  for key in payload["config"]:
    cfg = dict(payload["config"])
    del cfg[key]
    yield dict(payload, config=cfg)
