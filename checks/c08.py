"""C08: command names and keywords are cased as configured, nothing else."""
import json
import os
import re

from vlib import fmt, gen as vgen, reflex

RULE = """A case is a listfile made of command calls from a table of reference
grammars (and wild ones), with names and keywords in random case, and a random
case policy, global and per command, with and without user specified commands.
The monitor predicts the spelling of every command name and compares; for calls
from the table it also knows which words are keywords, and requires exactly
these to have the configured case; in all other calls a word may only change
case if it is a keyword of that command. Non-trivial: some spelling differs
from the input; distinct by (command, policy, cased words)."""
COUNT = {"quick": 9000, "thorough": 250000}

HERE = os.path.dirname(os.path.abspath(__file__))
CASED = os.path.join(os.path.dirname(HERE), "vlib", "cased.json")

CANONICAL = {name.lower(): name for name in [
    "FetchContent_Declare", "FetchContent_MakeAvailable",
    "FetchContent_GetProperties", "FetchContent_Populate",
    "ExternalProject_Add", "ExternalProject_Add_Step",
    "ExternalProject_Add_StepDependencies",
    "ExternalProject_Add_StepTargets", "ExternalProject_Get_Property"]}
FLOW = ["if", "elseif", "else", "endif", "while", "endwhile", "foreach",
        "endforeach", "function", "endfunction", "macro", "endmacro"]

_CASED = None


def cased():
  global _CASED
  if _CASED is None:
    with open(CASED) as infile:
      _CASED = json.load(infile)
  return _CASED




def neutral(kind, rng):
  """A value which is no keyword of anything."""
  num = rng.randrange(1000)
  return {
      "q": '"q %d"' % num, "file": "d/f%d.cc" % num, "name": "n%d" % num,
      "value": "v%d" % num, "prop": "p%d" % num, "flag": "-d%d" % num,
      "genex": "$<x:%d>" % num, "url": "https://u%d.org/x" % num,
  }.get(kind)


def fill(form, rng):
  """-> (name, args) with the lower case words of the form replaced"""
  args = []
  for word in form[2:-1]:
    base = word.rstrip("+")
    if neutral(base, rng) is None or base.upper() == base:
      args.append(word)
      continue
    for _ in range(rng.choice([1, 2, 3]) if word.endswith("+") else 1):
      args.append(neutral(base, rng))
  return form[0], args


def table_call(name, word, rng):
  args = ["v1", "v2"][:rng.choice([1, 1, 2])] + [word, "v3"]
  return name, args


def fixed():
  import random
  rng = random.Random(5)
  for policy in ("upper", "lower", "unchanged"):
    for num, form in enumerate(vgen.FORMS):
      name, args = fill(form, rng)
      yield {"calls": [[name, args, "form:%d" % num]],
             "config": {"keyword_case": policy}, "seed": num}
  for cmd_policy in ("upper", "lower", "unchanged", "canonical"):
    yield {"calls": [[n, [], ""] for n in CANONICAL], "seed": 1,
           "config": {"command_case": cmd_policy}}
    yield {"calls": [["MyFun", ["a"], ""], ["my_fun", [], ""]], "seed": 2,
           "config": {"command_case": cmd_policy,
                      "additional_commands": {"MyFun": {"pargs": "*"}}}}
    yield {"calls": [["MyFun", ["a"], ""], ["my_fun", [], ""]], "seed": 2,
           "config": {"command_case": cmd_policy, "per_command": {
               "MYFUN": {"command_case": "upper"}}}}
    for flow in ("if", "foreach", "While", "function", "MACRO"):
      yield {"calls": [[flow, ["a"], ""], ["my_fun", [], ""],
                       ["end" + flow, [], ""]], "seed": 2,
             "config": {"command_case": cmd_policy, "per_command": {
                 flow.lower(): {"command_case": "upper"},
                 "end" + flow: {"command_case": "lower"}}}}
    yield {"calls": [["MyFun", ["a"], ""], ["my_fun", [], ""]], "seed": 2,
           "config": {"command_case": cmd_policy, "per_command": {
               "MyFun": {"spelling": "mYfUN"}}}}


def recase(word, rng):
  roll = rng.random()
  if roll < 0.4:
    return word
  if roll < 0.6:
    return word.upper()
  if roll < 0.8:
    return word.lower()
  return "".join(rng.choice([c.upper(), c.lower()]) for c in word)


USER = ["MyFun", "my_fun", "Foo_Bar", "DO_IT", "xyz"]


def gen(rng, idx, tier):
  calls = []
  for _ in range(rng.choice([1, 1, 2, 4])):
    roll = rng.random()
    if roll < 0.55:
      num = rng.randrange(len(vgen.FORMS))
      name, args = fill(vgen.FORMS[num], rng)
      rule = "form:%d" % num
    elif roll < 0.75:
      key = rng.choice(sorted(cased()["table"]))
      name, word = key.split()
      name, args = table_call(name, word, rng)
      rule = "table:" + key
    elif roll < 0.9:
      name = rng.choice(USER)
      args = [vgen.Gen(rng, comments=False).value() for _ in range(3)]
      rule = "user" if name != "xyz" else ""
    else:
      name, args = vgen.Gen(rng, comments=False, unicode=False).wild()
      rule = "wild"
    literal = [a for a in args if a.upper() == a and re.match(
        r"^[A-Z][A-Z0-9_]+$", a)]
    args = [recase(a, rng) if a in literal else a for a in args]
    calls.append([recase(name, rng), args, rule])
  if rng.random() < 0.35:
    flow = rng.choice(["if", "foreach", "while", "function", "macro"])
    parts = [[recase(flow, rng), ["n%d" % rng.randrange(9)], ""]]
    if flow == "if" and rng.random() < 0.5:
      parts.append([recase("elseif", rng), ["v2"], ""])
      parts.append([recase("else", rng), [], ""])
    parts.append([recase("end" + flow, rng), [], ""])
    parts[1:1] = calls
    calls = parts
  cfg = {}
  if rng.random() < 0.7:
    cfg["keyword_case"] = rng.choice(["upper", "lower", "unchanged"])
  if rng.random() < 0.7:
    cfg["command_case"] = rng.choice(
        ["upper", "lower", "unchanged", "canonical"])
  if rng.random() < 0.3:
    cfg["additional_commands"] = {
        rng.choice(USER): {"pargs": "*", "flags": ["QQFLAG"],
                           "kwargs": {"QQKEY": "*"}}}
  if rng.random() < 0.3:
    cfg["per_command"] = {
        recase(rng.choice(USER + [c[0] for c in calls]), rng): {
            "command_case": rng.choice(["upper", "lower", "unchanged"])}}
    if rng.random() < 0.3:
      name = rng.choice(USER)
      cfg["per_command"] = {name: {"spelling": recase(name, rng)}}
  if rng.random() < 0.3:
    cfg["line_width"] = rng.choice([20, 40])
  return {"calls": calls, "config": cfg, "seed": rng.randrange(1 << 20)}


def render(payload):
  lines = []
  for name, args, _rule in payload["calls"]:
    lines.append("%s(%s)" % (name, " ".join(args)))
  return "\n".join(lines) + "\n"


def expected_name(name, cfg):
  low = name.lower()
  per = {}
  for key, val in cfg.get("per_command", {}).items():
    if key.lower() == low:
      per = val
  policy = per.get("command_case", cfg.get("command_case", "canonical"))
  if policy == "upper":
    return name.upper()
  if policy == "lower":
    return name.lower()
  if policy == "unchanged":
    return name
  for key in cfg.get("additional_commands", {}):
    if key.lower() == low:
      return key
  if "spelling" in per:
    return per["spelling"]
  return CANONICAL.get(low, cased()["spelling"].get(low, low))


def keywords_of(name):
  """Every word which may be a keyword of the command."""
  low = name.lower()
  words = set()
  if low in vgen.TABLE:
    words |= set(vgen.TABLE[low]["k"]) | set(vgen.TABLE[low]["f"])
  if low in vgen.HAND:
    words |= set(vgen.HAND[low][2]) | set(vgen.HAND[low][3])
  for form in vgen.FORMS:
    if form[0].lower() == low:
      words |= set(w for w in form if w.upper() == w)
  return words


def judge(payload, obs):
  cfg = payload["config"]
  text = render(payload)
  toks = fmt.need_valid(text)
  fmt.exclude(toks)
  out, _valid, err = fmt.try_fmt(text, cfg)
  if err:
    return err
  src = reflex.commands(toks)
  try:
    got = reflex.commands(reflex.lex(out))
  except reflex.RefError as ex:
    return "CMake rejects the output: %s\n%s" % (ex, out)
  if len(src) != len(got):
    return "number of commands changed:\n%s" % out
  kwcase = cfg.get("keyword_case", "unchanged")
  for (name, _args, rule), old, new in zip(payload["calls"], src, got):
    want = expected_name(name, cfg)
    obs.hit("names_checked")
    speller = None
    low = name.lower()
    for key, val in cfg.get("per_command", {}).items():
      if key.lower() == low and "spelling" in val:
        speller = val["spelling"]
    if new.name != want:
      if not (speller and new.name in (want, low, CANONICAL.get(low))
              and low in known_builtin()):
        return "%r became %r, expected %r (%s)\n%s" % (
            name, new.name, want, cfg, out)
    if len(old.args) != len(new.args):
      return "number of arguments changed:\n%s" % out
    user = any(key.lower() == low
               for key in cfg.get("additional_commands", {}))
    must = None
    if rule.startswith("form:"):
      must = set(cased()["form"][rule[5:]])
    elif rule.startswith("table:"):
      must = set(cased()["table"][rule[6:]])
    changed = []
    for left, right in zip(old.args, new.args):
      was, now = left[1], right[1]
      word = was.upper()
      target = (was.upper() if kwcase == "upper" else
                was.lower() if kwcase == "lower" else was)
      if now != was and now != target:
        return "argument %r became %r with keyword_case %s\n%s" % (
            was, now, kwcase, out)
      if now != was:
        changed.append(word)
        if left[0] != "uq" or word not in keywords_of(name):
          if not (user and word in ("QQFLAG", "QQKEY")):
            return "%r is no keyword of %s but became %r\n%s" % (
                was, name, now, out)
      elif (must is not None and word in must and not user and
            kwcase != "unchanged" and now != target and left[0] == "uq"):
        return "keyword %r of %s was not cased %s\n%s" % (
            was, name, kwcase, out)
      if must is not None and word in must:
        obs.hit("keywords_checked")
      obs.hit("arguments_checked")
    if changed or new.name != name:
      obs.see(name, new.name, kwcase, sorted(changed))
  return None


def known_builtin():
  return set(vgen.TABLE) | set(vgen.HAND) | {f[0].lower() for f in vgen.FORMS}


def shrink(payload):
  calls = payload["calls"]
  for idx in range(len(calls)):
    yield dict(payload, calls=calls[:idx] + calls[idx + 1:])
  for idx, (name, args, rule) in enumerate(calls):
    for num in range(len(args)):
      yield dict(payload, calls=calls[:idx] + [
          [name, args[:num] + args[num + 1:], rule]] + calls[idx + 1:])
  for key in payload["config"]:
    yield dict(payload, config={k: v for k, v in payload["config"].items()
                                if k != key})


def snapshot():
  """Write the table of keywords from the code as it is (reviewed by hand)."""
  import random
  rng = random.Random(1)
  rules = {"form": {}, "table": {}, "spelling": {}}
  for name in sorted(set(vgen.TABLE) | set(vgen.HAND)):
    if name in FLOW:
      continue
    out, _valid, err = fmt.try_fmt("%s()\n" % name, {})
    if not err and out[:len(name)] != name:
      rules["spelling"][name] = out[:len(name)]

  def probe(name, args):
    text = "%s(%s)\n" % (name, " ".join(args))
    words = None
    for case in ("lower", "upper"):
      if case == "upper":
        text = "%s(%s)\n" % (name, " ".join(
            a.lower() if re.match(r"^[A-Z][A-Z0-9_]+$", a) else a
            for a in args))
      out, _valid, err = fmt.try_fmt(text, {"keyword_case": case})
      if err:
        return []
      old = reflex.commands(reflex.lex(text))[0].args
      new = reflex.commands(reflex.lex(out))[0].args
      now = {a[1].upper() for a, b in zip(old, new) if a[1] != b[1]}
      words = now if words is None else words & now
    return sorted(words)

  for num, form in enumerate(vgen.FORMS):
    sets = [set(probe(*fill(form, rng))) for _ in range(12)]
    rules["form"][str(num)] = sorted(set.intersection(*sets))
  for name in sorted(vgen.TABLE):
    for word in sorted(set(vgen.TABLE[name]["k"]) | set(
        vgen.TABLE[name]["f"])):
      if not re.match(r"^[A-Z][A-Z0-9_]+$", word):
        continue
      sets = [set(probe(*table_call(name, word, rng))) for _ in range(6)]
      words = sorted(set.intersection(*sets))
      if words:
        rules["table"]["%s %s" % (name, word)] = words
  with open(CASED, "w") as outfile:
    json.dump(rules, outfile, indent=0, sort_keys=True)
    outfile.write("\n")


if __name__ == "__main__":
  snapshot()
