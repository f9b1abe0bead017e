"""C17: arguments are grouped as the specification of the command says."""
import re

from vlib import builtin, fmt, lintrun
from vlib.run import Skip

RULE = """A case is a specification of a command (positional groups with exact
and open counts and flags, keywords with specifications of their own, up to
three levels deep, in every spelling the documentation allows) and calls of the
command with arguments drawn from its keywords and flags in any case, other
words, quoted and bracket arguments with the same text, variables, comments and
line breaks. The monitor compares the groups of the real parse tree (positional
groups with their arguments and flags, keyword groups, nesting) with those of a
reference interpreter of the specification, and the records E1120 and E1122 of
the real linter with those that follow. The builtin commands are represented by
a table of some 16000 calls, which has each keyword and flag of each of them in
calls with too few, enough and too many arguments. Non-trivial: at least one keyword group
or two positional groups; distinct by the shape of the groups and of the
specification."""
COUNT = {"quick": 12000, "thorough": 500000}

WORDS = ["KEY", "Other", "third", "-x", "--Long", "FLAG", "OPT", "sub", "DEEP",
         "One_Two", "a", "b2", "TARGETS", "-D"]
PLAIN = ["x", "y.cc", "${KEY}", "\"KEY\"", "\"a b\"", "[[FLAG]]", "1", "2.5",
         "a/b.c", "$<X:Y>", "KEYS", "key2", "${x}y", "\"\"", "@at@", "-y",
         "a;b", "KEY=1"]
REPEATS = ("AND", "OR", "COMMAND", "PATTERN", "REGEX")


def norm(word):
  if word.startswith("-"):
    return word.lower()
  return word.upper()


_WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*$|-[^\s\"()#$\\@<>;=.\[\]]+$")


def key_of(arg):
  """The keyword that an argument may be, or None."""
  return norm(arg) if _WORD.match(arg) else None


# -- the reference interpreter ---------------------------------------------------

def digest(spec):
  """-> {"groups": [(nargs, flags)], "rest": (nargs, flags), "kw": {...}}"""
  if isinstance(spec, (str, int)):
    spec = {"pargs": spec}
  if "pargs" not in spec and "kwargs" not in spec and set(spec) & {
      "nargs", "tags", "legacy", "sortable", "max_pargs_hwrap"}:
    # the shorthand for a keyword with one group
    spec = {"pargs": [spec]}
  pargs = spec.get("pargs")
  kw = {norm(k): digest(v) for k, v in (spec.get("kwargs") or {}).items()}
  rest = ("*", frozenset())
  if pargs is None or isinstance(pargs, (str, int)):
    flags = frozenset(norm(f) for f in spec.get("flags") or ())
    nargs = "*" if pargs is None else pargs
    if isinstance(nargs, int):
      return {"groups": [(nargs, flags)], "rest": rest, "kw": kw}
    return {"groups": [], "rest": (nargs, flags), "kw": kw}
  if isinstance(pargs, dict):
    pargs = [pargs]
  groups = []
  legacy = False
  for decl in pargs:
    if not isinstance(decl, dict):
      decl = {"nargs": decl}
    groups.append((decl.get("nargs", "*"),
                   frozenset(norm(f) for f in decl.get("flags") or ())))
    legacy = bool(decl.get("legacy"))
  if len(groups) == 1 and legacy and not isinstance(groups[0][0], int):
    return {"groups": [], "rest": groups[0], "kw": kw}
  return {"groups": groups, "rest": rest, "kw": kw}


def full(nargs, have):
  if isinstance(nargs, int):
    return have >= nargs
  return nargs == "?" and have >= 1


def least(nargs):
  if isinstance(nargs, int):
    return nargs
  return {"?": 0, "*": 0, "+": 1}.get(nargs, None) if nargs in (
      "?", "*", "+") else int(nargs.rstrip("+"))


def group(spec, args, outer):
  """
  Consume from the list `args`. outer: words that end this level.
  -> list of ["kw", word, sub or None] and ["pos", nargs, [[kind, text]...]]
  """
  out = []
  groups = list(spec["groups"])
  flags = frozenset().union(spec["rest"][1], *[g[1] for g in groups])
  inner = outer | frozenset(spec["kw"]) | flags
  while args:
    key = key_of(args[0])
    if key is not None and key in outer:
      nargs = (groups[0] if groups else spec["rest"])[0]
      # an exact number of arguments is taken, whatever they are
      if not isinstance(nargs, int) or nargs == 0:
        break
    if key is not None and key in spec["kw"]:
      word = args.pop(0)
      sub = group(spec["kw"][key], args, inner)
      out.append(["kw", word, sub])
      continue
    last = not groups
    nargs, flags_here = spec["rest"] if last else groups.pop(0)
    if nargs == 0 and not last:
      continue
    later = frozenset().union(*[g[1] for g in groups]) - flags_here
    stop = outer | frozenset(spec["kw"]) | later
    taken = []
    while args and not full(nargs, len(taken)):
      key = key_of(args[0])
      if key is not None and key in stop and not isinstance(nargs, int):
        break
      taken.append(["FLAG" if key is not None and key in flags_here else
                    "ARGUMENT", args.pop(0)])
    if not taken and not last:
      continue
    if not taken:
      raise Skip("no progress")
    out.append(["pos", nargs, taken])
  return out


# -- the real tree ---------------------------------------------------------------

def read(node):
  out = []
  for child in node.children:
    kind = getattr(getattr(child, "node_type", None), "name", None)
    if kind == "KWARGGROUP":
      word, sub = None, []
      for part in child.children:
        name = getattr(getattr(part, "node_type", None), "name", None)
        if name == "KEYWORD":
          word = part.children[0].spelling
        elif name == "ARGGROUP":
          sub = read(part)
      out.append(["kw", word, sub])
    elif kind == "PARGGROUP":
      taken = []
      for part in child.children:
        name = getattr(getattr(part, "node_type", None), "name", None)
        if name in ("FLAG", "ARGUMENT"):
          taken.append([name, "".join(
              t.spelling for t in part.get_tokens(kind="semantic"))])
      if taken:
        out.append(["pos", None, taken])
    elif kind not in (None, "COMMENT", "ONOFFSWITCH"):
      out.append(["?", kind])
  return out


def strip(ref):
  return [[g[0], None, g[2]] if g[0] == "pos" else [g[0], g[1], strip(g[2])]
          for g in ref]


def lint_of(ref):
  """The multiset of codes that the groups deserve."""
  out = []
  seen = set()
  for item in ref:
    if item[0] == "pos":
      if len(item[2]) < least(item[1]):
        out.append("E1120")
    else:
      word = item[1].upper()
      if word not in REPEATS:
        if word in seen:
          out.append("E1122 " + word)
        seen.add(word)
      out += lint_of(item[2])
  return out


# -- the workload ----------------------------------------------------------------

def random_count(rng, scalar=False):
  return rng.choice(["*", "+", "?", 0, 1, 1, 2, 3, "1+", "2+", "*", "+",
                     rng.choice(["3+", "10+", "12+", 10, 11])])


def random_spec(rng, words, depth=0):
  if depth and rng.random() < 0.45:
    return random_count(rng)
  words = list(words)
  rng.shuffle(words)
  if depth and rng.random() < 0.12:
    # a keyword given as the specification of its group
    spec = {"nargs": random_count(rng)}
    if rng.random() < 0.4 and words:
      spec["flags"] = [words.pop()]
    if rng.random() < 0.3:
      spec["tags"] = ["file-list"]
    if rng.random() < 0.3:
      spec["legacy"] = True
    return spec
  spec = {}
  roll = rng.random()
  if roll < 0.35:
    spec["pargs"] = random_count(rng)
    if rng.random() < 0.5:
      spec["flags"] = [words.pop() for _ in range(rng.choice([1, 2]))
                       if words]
  elif roll < 0.9:
    groups = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      decl = {"nargs": random_count(rng)}
      if rng.random() < 0.4 and words:
        decl["flags"] = [words.pop()]
      if rng.random() < 0.15:
        decl = decl["nargs"]
      elif rng.random() < 0.1:
        del decl["nargs"]
      groups.append(decl)
    if len(groups) == 1 and isinstance(groups[0], dict):
      if rng.random() < 0.3:
        groups[0]["legacy"] = True
      if rng.random() < 0.4:
        groups = groups[0]
    spec["pargs"] = groups
  if words and depth < 3 and rng.random() < (0.85 if not depth else 0.5):
    kwargs = {}
    for _ in range(rng.choice([1, 2, 2, 3])):
      if not words:
        break
      word = words.pop()
      kwargs[word] = random_spec(
          rng, [w for w in WORDS if w != word] if rng.random() < 0.3
          else words, depth + 1)
    spec["kwargs"] = kwargs
  return spec


def words_of(spec, out):
  if isinstance(spec, dict):
    out.update(spec.get("flags") or ())
    for key, sub in (spec.get("kwargs") or {}).items():
      out.add(key)
      words_of(sub, out)
    pargs = spec.get("pargs")
    for decl in ([pargs] if isinstance(pargs, dict) else
                 pargs if isinstance(pargs, list) else ()):
      if isinstance(decl, dict):
        out.update(decl.get("flags") or ())
  return out


def random_args(rng, words):
  out = []
  for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 14])):
    if words and rng.random() < 0.5:
      word = rng.choice(words)
      out.append(rng.choice([word, word, word.upper(), word.lower(),
                             word.swapcase()]))
    else:
      out.append(rng.choice(PLAIN))
  return out


def call(rng, name, args):
  text = name + "("
  for idx, arg in enumerate(args):
    if idx or rng.random() < 0.1:
      text += rng.choice([" ", " ", " ", "\n", "  \n ", " # c\n", " #[[c]] ",
                          "\n# KEY\n"])
    text += arg
  return text + rng.choice(["", "", "\n", " # end\n"]) + ")\n"


def fixed():
  for payload in builtin.load(0):
    yield payload
  specs = [
      {"pargs": 1, "kwargs": {"KEY": 1, "OPT": "*"}, "flags": ["FLAG"]},
      {"pargs": "*", "flags": ["FLAG", "-x"], "kwargs": {"KEY": "+"}},
      {"pargs": [{"nargs": "?", "flags": ["FLAG"]}, {"nargs": "+"}],
       "kwargs": {"KEY": {"pargs": 1, "kwargs": {"sub": 2}}}},
      {"pargs": [2, "*"], "kwargs": {"-x": "*", "KEY": {"kwargs": {
          "OPT": {"kwargs": {"DEEP": 1}}}}}},
      {"pargs": 0, "kwargs": {"KEY": 0, "OPT": 1}},
      {"pargs": {"nargs": "2+", "flags": ["FLAG"]},
       "kwargs": {"KEY": {"pargs": "+", "flags": ["OPT"]}}},
      {"pargs": [{"nargs": "*", "legacy": True, "flags": ["FLAG"]}],
       "kwargs": {"key": "?"}},
  ]
  lists = [[], ["a"], ["KEY"], ["key", "a"], ["a", "KEY", "b", "c", "FLAG"],
           ["FLAG", "KEY", "OPT"], ["KEY", "a", "KEY", "b"],
           ["a", "b", "c", "-x", "d"], ["\"KEY\"", "${KEY}", "KEY"],
           ["KEY", "OPT", "DEEP", "x", "FLAG", "y"], ["KEY", "sub", "KEY",
                                                       "OPT", "z"],
           ["OPT", "KEY", "OPT", "KEY"], ["-X", "a", "flag", "-x"],
           ["KEY", "-x", "1", "2.5"]]
  for spec in specs:
    for args in lists:
      yield {"spec": spec, "args": args, "text": "foo(%s)\n" % " ".join(args)}


def gen(rng, idx, tier):
  spec = random_spec(rng, WORDS)
  words = sorted(words_of(spec, set()))
  args = random_args(rng, words)
  name = rng.choice(["foo", "foo", "FOO", "Foo"])
  return {"spec": spec, "args": args, "text": call(rng, name, args)}


def shrink(payload):
  if "builtin" in payload:
    for less in builtin.shrink(payload):
      yield less
    return
  args = payload["args"]
  for idx in range(len(args)):
    less = args[:idx] + args[idx + 1:]
    yield dict(payload, args=less, text="foo(%s)\n" % " ".join(less))

  def smaller(spec):
    if not isinstance(spec, dict):
      return
    for key in sorted(spec):
      yield {k: v for k, v in spec.items() if k != key}
    for key in sorted(spec.get("kwargs") or {}):
      yield dict(spec, kwargs={k: v for k, v in spec["kwargs"].items()
                               if k != key})
      for sub in smaller(spec["kwargs"][key]):
        yield dict(spec, kwargs=dict(spec["kwargs"], **{key: sub}))
  for spec in smaller(payload["spec"]):
    yield dict(payload, spec=spec)


def judge(payload, obs):
  from cmakelang import lex, parse
  if "builtin" in payload:
    return builtin.judge(payload, obs, 0)
  spec, args, text = payload["spec"], payload["args"], payload["text"]
  ref = group(digest(spec), list(args), frozenset())
  cfg = {"additional_commands": {"foo": spec}}
  try:
    config = fmt.make_config(cfg)
    parse_db = parse.funs.get_parse_db()
    parse_db.update(parse.funs.get_funtree(config.parse.fn_spec))
    tree = parse.parse(lex.tokenize(text),
                       parse.ParseContext(parse_db, config=config))
  except Exception as ex:  # pylint: disable=broad-except
    return "parser raised %s: %s" % (type(ex).__name__, (
        str(ex) or getattr(ex, "msg", ""))[:200])
  stmt = [c for c in tree.children
          if getattr(c, "node_type", None) is not None
          and c.node_type.name == "STATEMENT"][0]
  top = [c for c in stmt.children
         if getattr(getattr(c, "node_type", None), "name", "") == "ARGGROUP"]
  got = read(top[0]) if top else []
  if got != strip(ref):
    return "grouped as %r instead of %r" % (got, strip(ref))
  want = sorted(lint_of(ref))
  have = []
  for _, code, msg in lintrun.records(text, cfg):
    if code == "E1120":
      have.append(code)
    elif code == "E1122":
      have.append("E1122 " + msg.split()[-1].upper())
  if sorted(have) != want:
    return "lint is %r instead of %r" % (sorted(have), want)
  obs.hit("statements compared")
  obs.hit("keyword groups", repr(ref).count("'kw'"))
  obs.hit("E1120/E1122 records", len(want))
  if "'kw'" in repr(ref) or repr(ref).count("'pos'") > 1:
    obs.see(shape(ref), sorted(words_of(spec, set())))
  return None


def shape(ref):
  return [(g[0], len(g[2])) if g[0] == "pos" else (g[0], shape(g[2]))
          for g in ref]
