"""C21: config file formats are equivalent, and dumps read back the same."""
import collections
import contextlib
import json

from vlib import cli, conf, fmt
from vlib.run import Skip

RULE = """A case is a set of options with random values (including unicode,
regular expressions, lists and dictionaries), part of which is written to a
configuration file (yaml, json or python, flat or in sections, in several
styles), the rest given on the command line, and a dump format with and without
help and defaults. The monitor runs the real main() with --dump-config, reads
the dump with its own readers, and requires exactly the given options over the
defaults (or, with --no-default, exactly the given options); then the dump is
used as the configuration file of a second run, the dump of which has to be the
same; every third case formats a text under both. Non-trivial: some option is
not the default; distinct by (options, formats)."""
COUNT = {"quick": 2500, "thorough": 80000}

EXTRA = {
    "line_width": [1, 2000], "bullet_char": ["\u2022", "#", "'", '"', "on"],
    "enum_char": [":", "\\", "\u00bb"],
    "fence_pattern": ["^x'\"\\\\{3}$", "a: b # c", "[\u00e4]+"],
    "ruler_pattern": [r"^[^\w\s]{3}.*[^\w\s]{3}$", "%s", "{}"],
    "explicit_trailing_pattern": ["#<<", "# :", "\u2192"],
    "literal_comment_pattern": ["yes", "1.0", "null", "", " ", "a\nb"],
    "function_pattern": ["[0-9a-z_]+|\\.x", "~"],
    "keyword_pattern": ["[A-Z]+"], "local_var_pattern": ["x*"],
    "min_statement_spacing": [0, 2], "max_returns": [0, 1],
    "max_branches": [3], "max_localvars": [0], "max_statements": [9],
    "max_conditionals_custom_parser": [7],
    "input_encoding": ["latin-1", "utf-8"],
    "output_encoding": ["utf-8", "utf-16"],
    "require_valid_layout": [True, False], "disable": [True, False],
    "enable_sort": [True, False], "macro_pattern": ["M_.*"],
    "global_var_pattern": ["G"], "internal_var_pattern": ["I"],
    "private_var_pattern": ["P"], "public_var_pattern": ["Q"],
    "argument_var_pattern": ["A"], "override_spec": [{}, {"foo.spelling": "FOO"}],
    "proptags": [[], [["X_.*", ["cmdline"]]]],
    "layout_passes": [{}, {"StatementNode": [[0, True]]}],
    "always_wrap": [[], ["a", "b/c", "\u00e4"]],
    "disabled_codes": [[], ["C0103"]],
    "per_command": [{}, {"fetchcontent_declare": {"command_case": "upper"}},
                    {"x": {"command_case": "lower"},
                     "ExternalProject_Add": {"command_case": "upper"}}],
    "additional_commands": [{}, {"c": {"spelling": "C", "pargs": {
        "nargs": "*", "flags": ["F"]}, "kwargs": {"K": {
            "pargs": 2, "kwargs": {"L": "+"}}}}}],
    "vartags": [[], [["V", ["a", "b"]]]],
}
SECTION = {k: s for k, (s, _) in conf.OPTIONS.items()}
for _key in EXTRA:
  if _key not in SECTION:
    SECTION[_key] = (
        "encode" if "encoding" in _key else
        "lint" if _key.startswith(("max_", "min_")) or "_var_" in _key
        or _key in ("keyword_pattern", "macro_pattern") else
        "markup" if _key in ("ruler_pattern",) else
        "parse" if _key in ("override_spec", "proptags") else "format")
VALUES = {k: list(conf.OPTIONS[k][1]) if k in conf.OPTIONS else []
          for k in SECTION}
for _key, _values in EXTRA.items():
  VALUES[_key] = VALUES[_key] + _values


def worker_setup():
  cli.preload()


def nest(options):
  out = {}
  for key, value in options.items():
    out.setdefault(SECTION[key], {})[key] = value
  return out


def cli_able(key, value):
  if isinstance(value, dict) or key in ("vartags", "proptags",
                                        "additional_commands"):
    return False
  if isinstance(value, list):
    return all(not v.startswith("-") for v in value)
  return True


def fixed():
  count = 0
  for key in sorted(VALUES):
    for value in VALUES[key]:
      count += 1
      for via in ("json", "yaml", "py", "cli"):
        if via == "cli" and not cli_able(key, value):
          continue
        yield {"options": {key: value}, "via": via,
               "on_cli": [key] if via == "cli" else [],
               "nested": bool((count + len(via)) % 2), "style": count % 8,
               "dump": ["json", "yaml", "python"][(count + len(via)) % 3],
               "help": count % 4 == 0, "defaults": count % 5 != 0,
               "tool": "lint" if count % 7 == 0 else "format"}


def gen(rng, idx, tier):
  keys = rng.sample(sorted(VALUES), rng.choice([1, 2, 4, 8, 20]))
  if "override_spec" in keys and "additional_commands" in keys:
    keys.remove("override_spec")
  options = {k: rng.choice(VALUES[k]) for k in keys}
  share = rng.choice([0, 0, 0.3, 1])
  return {"options": options, "via": rng.choice(["json", "yaml", "py"]),
          "on_cli": [k for k in keys if cli_able(k, options[k])
                     and rng.random() < share],
          "nested": rng.random() < 0.5, "style": rng.randrange(8),
          "dump": rng.choice(["json", "yaml", "python"]),
          "help": rng.random() < 0.5, "defaults": rng.random() < 0.5,
          "tool": rng.choice(["format", "format", "lint"])}


TRUE = ["true", "yes", "y", "t", "1", "True", "YES"]
FALSE = ["false", "no", "n", "f", "0", "False", "NO"]


def read_dump(text, kind):
  if kind == "json":
    return json.loads(text)
  if kind == "yaml":
    import yaml
    return yaml.safe_load(text) or {}
  stack = [{}]

  class Names(dict):
    def __setitem__(self, key, value):
      stack[-1][key] = value

  @contextlib.contextmanager
  def section(name):
    inner = stack[0].setdefault(name, {})
    stack.append(inner)
    yield
    stack.pop()
  names = Names()
  dict.__setitem__(names, "section", section)
  exec(text, names)  # pylint: disable=exec-used
  stack[0].pop("__builtins__", None)
  return stack[0]


def without_help(data):
  return {k: without_help(v) if isinstance(v, dict) and k in (
      "parse", "format", "markup", "lint", "encode", "misc") else v
          for k, v in data.items() if not k.startswith("_help_")}


def plain(value):
  """Tuples become lists, ordered dictionaries dictionaries."""
  return json.loads(json.dumps(value))


def judge(payload, obs):
  options = payload["options"]
  in_file = {k: v for k, v in options.items() if k not in payload["on_cli"]}
  args = []
  for num, key in enumerate(payload["on_cli"]):
    value = options[key]
    flag = "--" + key.replace("_", "-")
    if isinstance(value, bool):
      words = TRUE if value else FALSE
      args.append("%s=%s" % (flag, words[(payload["style"] + num)
                                         % len(words)]))
    elif isinstance(value, list):
      args += [flag] + value
    else:
      args.append("%s=%s" % (flag, value))
  data = nest(in_file) if payload["nested"] else in_file
  dump_args = ["--dump-config", payload["dump"]]
  if not payload["help"]:
    dump_args.append("--no-help")
  if not payload["defaults"]:
    dump_args.append("--no-default")
  ext = {"python": "py"}.get(payload["dump"], payload["dump"])
  base = plain(fmt.make_config({}).as_odict())
  if payload["defaults"]:
    want = {s: dict(v) for s, v in base.items()}
  else:
    want = {}
  for key, value in options.items():
    want.setdefault(SECTION[key], {})[key] = value
  with cli.Scratch() as box:
    if payload["via"] != "cli":
      ext0 = payload["via"]
      args += ["-c", box.write("in." + ext0,
                               conf.render(data, ext0, payload["style"]))]
    res = cli.run(payload["tool"], dump_args + args, cwd=box.path)
    if res.code != 0:
      return "--dump-config fails: %d %s" % (res.code, res.err[-500:])
    text = res.out.decode("utf-8")
    try:
      got = plain(read_dump(text, payload["dump"]))
    except Exception as ex:  # pylint: disable=broad-except
      return "the dump is not valid %s: %s: %s" % (payload["dump"], ex,
                                                   text[:300])
    if payload["help"] and payload["dump"] != "python" and want:
      if "_help_" not in text:
        return "the dump has no help"
    if not payload["help"] and ("_help_" in text or (
        payload["dump"] == "python" and text.lstrip().startswith("#"))):
      return "the dump has help texts: " + text[:100]
    got = without_help(got)
    message = differ(got, want)
    if message:
      return "dump (%s): %s" % (payload["dump"], message)
    again = cli.run(payload["tool"], dump_args + [
        "-c", box.write("dumped." + ext, text)], cwd=box.path)
    if again.code != 0:
      return "the dump cannot be read back: %s" % again.err[-500:]
    second = without_help(plain(read_dump(again.out.decode("utf-8"),
                                          payload["dump"])))
    message = differ(second, want)
    if message:
      return "dump (%s) read back: %s" % (payload["dump"], message)
    if not (options.get("disable") or len(text) % 3 or any(
        k.endswith(("encoding", "_pattern")) for k in options)):
      probe = box.write("probe.cmake", SMALL)
      one = cli.run("format", [probe] + args, cwd=box.path)
      two = cli.run("format", [probe, "-c", box / ("dumped." + ext)],
                    cwd=box.path)
      if one.code != two.code or one.out != two.out:
        return "formatting differs with the dumped configuration: %r %r" % (
            one[:2], two[:2])
      obs.hit("formatted under both")
  obs.hit("dump:" + payload["dump"])
  obs.hit("via:" + payload["via"])
  obs.hit("options compared", sum(len(v) for v in want.values()))
  if any(base.get(SECTION[k], {}).get(k) != v for k, v in options.items()):
    obs.see(sorted(options.items(), key=repr), payload["dump"], payload["via"],
            payload["nested"], payload["defaults"], len(payload["on_cli"]))
  return None


SMALL = """if(a AND b)
  Foo(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbbbbb cccccccccccccccccc)
  c(x F K 1 2 L 3)
endif()
# a
#  b
set_property(TARGET x PROPERTY y z)
"""


def differ(got, want):
  for name in sorted(set(got) | set(want)):
    one, two = got.get(name, {}), want.get(name, {})
    if not isinstance(one, dict):
      return "unexpected %r: %r" % (name, one)
    if (name in got) != (name in want):
      return "section %r is %s" % (
          name, "missing" if name in want else "unexpected")
    for key in sorted(set(one) | set(two)):
      if key not in one:
        return "%s.%s is missing" % (name, key)
      if key not in two:
        return "%s.%s is unexpected: %r" % (name, key, one[key])
      if one[key] != two[key] or isinstance(one[key], bool) != isinstance(
          two[key], bool):
        return "%s.%s is %r instead of %r" % (name, key, one[key], two[key])
  return None


def shrink(payload):
  for key in payload["options"]:
    yield dict(payload,
               options={k: v for k, v in payload["options"].items()
                        if k != key},
               on_cli=[k for k in payload["on_cli"] if k != key])
