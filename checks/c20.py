"""C20: which configuration applies: discovery, -c, include, merging, override."""
import os

from vlib import cli, conf, fmt
from vlib.run import Skip

RULE = """A case is a directory tree with configuration files (yaml, json,
python, without extension; flat or in sections; with includes of each other) in
some directories, decoys with other names, one to three listfiles in different
directories, possibly -c options and options on the command line (spelled in every way
that it takes), and one of
the tools cmake-format and cmake-lint. A reference model computes the options
that apply to each file: the nearest directory with a configuration file, or
the files given with -c in order, includes relative to the including file and
after it, latest wins, dictionaries merged, the command line last. The monitor
runs the real main() and compares the result with that of the library under
these options, on a probe text the formatted form of which depends on every
option used. Non-trivial: the options are not the defaults; distinct by
(structure, options)."""
COUNT = {"quick": 300, "thorough": 30000}

NAMES = [".cmake-format", ".cmake-format.py", ".cmake-format.json",
         ".cmake-format.yaml", "cmake-format.py", "cmake-format.json",
         "cmake-format.yaml"]
DECOYS = ["cmake-format.txt", ".cmake-format.bak", "cmake_format.json",
          ".cmake-lint.json", "x.cmake-format.py", ".clang-format",
          ".git/config", ".git/HEAD", ".git", ".hg/hgrc", ".svn/entries",
          "CMakeCache.txt", "setup.cfg", "pyproject.toml", ".editorconfig",
          "CMakePresets.json", "WORKSPACE"]
SIMPLE = [k for k in sorted(conf.OPTIONS)
          if not isinstance(conf.OPTIONS[k][1][0], dict)
          and k not in ("vartags",)]
TRUE = ["True", "true", "y", "yes", "1", "YES", "T"]
FALSE = ["False", "false", "n", "no", "0", "NO", "F"]
FORMAT_KEYS = [k for k in sorted(conf.OPTIONS)
               if conf.OPTIONS[k][0] != "lint"]
LINT_KEYS = ["line_width", "disabled_codes", "max_statement_spacing",
             "function_pattern", "macro_pattern", "max_arguments", "tab_size",
             "line_ending"]


def worker_setup():
  cli.preload()


def fmt_of(name, rng):
  for ext in ("json", "yaml", "py"):
    if name.endswith("." + ext):
      return ext
  return rng.choice(["json", "yaml", "py"])


def fixed():
  import random
  count = 0
  for name in NAMES:
    for depth in (0, 1, 3):
      for tool in ("format", "lint"):
        rng = random.Random(count)
        count += 1
        configs = [["/".join(["s"] * depth + [name]).lstrip("/"),
                    fmt_of(name, rng),
                    conf.nest({"line_width": 40}) if count % 2 else
                    {"line_width": 40}, [], count % 8]]
        if depth == 3:
          configs.append([NAMES[count % 7], fmt_of(NAMES[count % 7], rng),
                          {"line_width": 25, "tab_size": 8}, [], 0])
        yield {"tool": tool, "configs": configs, "decoys": [],
               "listfiles": ["s/s/s/CMakeLists.txt", "CMakeLists.txt"],
               "dash_c": [], "cli": {}, "stdin": False}
  # includes: relative to the includer, chains, latest wins, merging
  inner = {"additional_commands": {"my_cmd": {"pargs": 1, "kwargs": {
      "TWO": "*"}}}, "line_width": 60}
  outer = {"additional_commands": {"other_cmd": {"kwargs": {"FOUR": "+"}}},
           "line_width": 100, "tab_size": 4}
  for style in range(6):
    for ext in ("py", "json", "yaml"):
      for nested in (False, True):
        first, second = (conf.nest(outer), conf.nest(inner)) if nested else (
            outer, inner)
        for where in ("inc/b." + ext, "b." + ext):
          yield {"tool": "format", "decoys": [], "dash_c": [],
                 "configs": [["p/.cmake-format." + ext, ext, first,
                              [where], style],
                             ["p/" + where, ext, second, [], style]],
                 "listfiles": ["p/q/x.cmake"], "cli": {}, "stdin": False}
      yield {"tool": "format", "decoys": [], "dash_c": ["a/1." + ext],
             "configs": [["a/1." + ext, ext, outer, ["b/2." + ext], style],
                         ["a/b/2." + ext, ext, {"line_width": 60,
                                                "tab_size": 8},
                          ["c/3." + ext], style],
                         ["a/b/c/3." + ext, ext, {"line_width": 40}, [],
                          style]],
             "listfiles": ["q/x.cmake"], "cli": {}, "stdin": False}
      yield {"tool": "format", "decoys": [],
             "dash_c": ["a/1." + ext, "z/2." + ext],
             "configs": [["a/1." + ext, ext, outer, [], style],
                         ["z/2." + ext, ext, inner, [], style],
                         ["q/.cmake-format." + ext, ext,
                          {"line_width": 25}, [], style]],
             "listfiles": ["q/x.cmake", "r/y.cmake"],
             "cli": {"line_width": 79} if style % 2 else {}, "stdin": False}
  # files without options, empty ones among them; paths in the home directory
  for style in range(8):
    for name in NAMES:
      for tool in ("format", "lint"):
        ext = fmt_of(name, random.Random(style))
        yield {"tool": tool, "decoys": [], "dash_c": [],
               "configs": [[name, "yaml", {"line_width": 40}, [], 0]
                           if not name.endswith(("py", "json")) else
                           [".cmake-format", "yaml", {"line_width": 40}, [], 0],
                           ["a/" + name, ext, {}, [], style]],
               "listfiles": ["a/x.cmake", "b/x.cmake"], "cli": {},
               "stdin": False}
    yield {"tool": "format", "decoys": [], "dash_c": [],
           "configs": [[".cmake-format", "py", conf.nest({"tab_size": 8}), [],
                        style]],
           "listfiles": ["a/x.cmake"], "cli": {}, "stdin": False}
    yield {"tool": "format", "decoys": [], "tilde": True,
           "dash_c": ["a/1.json", "z z/2.yaml"], "spelling": style,
           "configs": [["a/1.json", "json", {"line_width": 40}, [], style],
                       ["z z/2.yaml", "yaml", {"tab_size": 8}, ["3.py"], 0],
                       ["z z/3.py", "py", {"command_case": "upper"}, [], 1]],
           "listfiles": ["q/x.cmake"], "cli": {}, "stdin": False}
  # every option on the command line, in every spelling
  for key in FORMAT_KEYS:
    if key not in SIMPLE:
      continue
    for value in conf.OPTIONS[key][1]:
      for spelling in (0, 1, 2):
        yield {"tool": "format", "decoys": [], "dash_c": [],
               "configs": [["q/.cmake-format.yaml", "yaml",
                            {key: conf.OPTIONS[key][1][0]}, [], 0]],
               "listfiles": ["q/x.cmake"], "cli": {key: value},
               "spelling": spelling, "stdin": False}


def gen(rng, idx, tier):
  tool = "lint" if rng.random() < 0.25 else "format"
  keys = LINT_KEYS if tool == "lint" else FORMAT_KEYS
  dirs = ["", "a", "a/b", "a/b/c", "d"]
  style = rng.choice(["flat", "nested", "each its own", "each its own"])

  def data():
    opts = conf.random_options(rng, keys=keys)
    one = style
    if one == "each its own":
      one = rng.choice(["flat", "nested", "nested", "both"])
    if one == "both":
      flat = {k: opts.pop(k) for k in sorted(opts) if rng.random() < 0.5}
      return dict(conf.nest(opts), **flat)
    return conf.nest(opts) if one == "nested" else opts
  configs = []
  taken = set()
  for place in dirs:
    if rng.random() < 0.4:
      name = rng.choice(NAMES)
      configs.append([os.path.join(place, name), fmt_of(name, rng),
                      data() if rng.random() < 0.9 else {}, [],
                      rng.randrange(8)])
      taken.add(configs[-1][0])
  dash_c = []
  extra = []
  for num in range(rng.choice([0, 0, 0, 1, 2, 3])):
    ext = rng.choice(["json", "yaml", "py", "cfg"])
    path = "%s/x%d.%s" % (rng.choice(["conf", "a", "conf/deep"]), num, ext)
    configs.append([path, ext if ext != "cfg" else rng.choice(
        ["json", "yaml", "py"]), data(), [], rng.randrange(8)])
    extra.append(path)
  if extra and rng.random() < 0.5:
    dash_c = list(extra)
    rng.shuffle(dash_c)
  # includes: a forest, so that there are no cycles
  for num in range(rng.choice([0, 0, 1, 2, 3])):
    if not configs:
      break
    parent = rng.choice(configs)
    ext = rng.choice(["json", "yaml", "py"])
    rel = rng.choice(["", "inc/", "../", "inc/more/"]) + "i%d.%s" % (num, ext)
    path = os.path.normpath(os.path.join(os.path.dirname(parent[0]), rel))
    if path.startswith("..") or any(c[0] == path for c in configs):
      continue
    parent[3].append("ABS:" + path if rng.random() < 0.2 else rel)
    configs.append([path, ext, data(), [], rng.randrange(8)])
  listfiles = rng.sample(["CMakeLists.txt", "a/x.cmake", "a/b/y.cmake",
                          "a/b/c/z.cmake", "d/CMakeLists.txt"],
                         rng.choice([1, 1, 2, 3]))
  cli_opts = {}
  if rng.random() < 0.35:
    cli_opts = conf.random_options(
        rng, rng.choice([1, 2, 3]), [k for k in keys if k in SIMPLE])
  return {"tool": tool, "configs": configs, "dash_c": dash_c,
          "decoys": [os.path.join(rng.choice(dirs), rng.choice(DECOYS))
                     for _ in range(rng.choice([0, 0, 1, 2]))],
          "listfiles": listfiles, "cli": cli_opts,
          "spelling": rng.randrange(1, 1000) if rng.random() < 0.8 else 0,
          "cwd": rng.choice([None, "", "a", "a/b", "d", "e/f"]),
          "relative": rng.random() < 0.5, "tilde": rng.random() < 0.2,
          "stdin": len(listfiles) == 1 and rng.random() < 0.3}


def flatten(data):
  """Model of one configuration file -> flat options."""
  out = {}
  sections = {s for s, _ in conf.OPTIONS.values()}
  for key, value in data.items():
    if key in sections:
      out.update(value)
    else:
      out[key] = value
  return out


def resolve(payload, names):
  """Breadth first over includes; latest wins; dictionaries merge."""
  table = {c[0]: c for c in payload["configs"]}
  queue = list(names)
  merged = {}
  while queue:
    name = queue.pop(0)
    _, _, data, includes, _ = table[name]
    for rel in includes:
      if rel.startswith("ABS:"):
        queue.append(rel[4:])
      else:
        queue.append(os.path.normpath(
            os.path.join(os.path.dirname(name), rel)))
    merged = conf.merge(merged, flatten(data))
  return merged


def applies(payload, listfile):
  if payload["dash_c"]:
    return resolve(payload, payload["dash_c"])
  table = {c[0] for c in payload["configs"]}
  place = os.path.dirname(listfile)
  while True:
    for name in NAMES:
      if os.path.join(place, name) in table:
        return resolve(payload, [os.path.join(place, name)])
    if not place:
      return {}
    place = os.path.dirname(place)


def command_line(options, spelling):
  """The options as arguments, in one of the spellings."""
  import random
  rng = random.Random(spelling)
  default = fmt.make_config({})
  args = []
  for key, value in sorted(options.items()):
    flag = "--" + key.replace("_", "-")
    if isinstance(value, list):
      args += [flag] + value
    elif spelling and isinstance(value, bool):
      bare = value != getattr(getattr(default, conf.OPTIONS[key][0]), key)
      if bare and rng.random() < 0.6:
        args.append(flag)
      else:
        args.append(flag + "=" + rng.choice(TRUE if value else FALSE))
    elif spelling and rng.random() < 0.4 and not str(value).startswith("-"):
      args += [flag, str(value)]
    else:
      args.append("%s=%s" % (flag, value))
  return args


def lint_text(text, options, path):
  import io
  from cmakelang.lint import __main__ as lmain, lint_util
  cfg = fmt.make_config(options)
  outfile = io.StringIO()
  ctx = lint_util.GlobalContext(outfile)
  local = ctx.get_file_ctx(path, cfg)
  lmain.process_file(cfg, local, text)
  local.writeout(outfile)
  return outfile.getvalue(), local.has_lint()


def judge(payload, obs):
  tool = payload["tool"]
  with cli.Scratch() as box:
    root = os.path.realpath(box.path)
    for path, ext, data, includes, style in payload["configs"]:
      data = dict(data)
      if includes:
        data = dict({"include": [
            os.path.join(root, i[4:]) if i.startswith("ABS:") else i
            for i in includes]}, **data)
      # an empty file is a configuration without options
      box.write(path, conf.render(data, ext, style) if data or style % 3
                else "")
    for path in payload["decoys"]:
      try:
        if not os.path.exists(box / path):
          box.write(path, '{"line_width": 33, "tab_size": 5}')
      except OSError:
        pass  # a decoy below another one
    paths = [box.write(p, conf.PROBE) for p in payload["listfiles"]]
    cwd = os.path.dirname(paths[0])
    if payload.get("cwd") is not None and not payload["stdin"]:
      cwd = box / payload["cwd"] if payload["cwd"] else box.path
      os.makedirs(cwd, exist_ok=True)
    if payload.get("relative"):
      paths = [os.path.relpath(p, cwd) for p in paths]
    args = command_line(payload["cli"], payload.get("spelling", 0))
    if payload["dash_c"]:
      given = [os.path.relpath(box / p, cwd) if payload.get("relative")
               else box / p for p in payload["dash_c"]]
      if payload.get("tilde"):
        given = [os.path.join("~", p) for p in payload["dash_c"]]
      if payload.get("spelling", 0) % 3 == 1:
        for one in given:
          args += ["-c", one]
      else:
        args += ["-c"] + given
    if tool == "lint":
      args.append("--suppress-decorations")
    if args:
      args.append("--")
    args += ["-"] if payload["stdin"] else paths
    want = ""
    code = 0
    seen = []
    for rel, path in zip(payload["listfiles"], paths):
      options = conf.merge(applies(payload, rel), payload["cli"])
      seen.append(sorted(options.items(), key=repr))
      if tool == "format":
        out, _, err = fmt.try_fmt(conf.PROBE, options)
        if err:
          raise Skip("the library raises")
        want += out
      else:
        out, lint = lint_text(conf.PROBE, options,
                              "-" if payload["stdin"] else path)
        want += out
        code |= lint
    res = cli.run(tool, args, stdin=conf.PROBE.encode("utf-8"), cwd=cwd,
                  before=lambda: os.environ.update(HOME=root))
  if res.code != code:
    return "%s: exit status %d instead of %d: %s" % (
        tool, res.code, code, res.err[-400:])
  got = res.out.decode("utf-8", "replace")
  if got != want:
    one, two = got.splitlines(), want.splitlines()
    for num, (have, need) in enumerate(zip(one, two)):
      if have != need:
        return ("%s: line %d of the result is %r instead of %r, as it is "
                "under the options that apply: %r" % (
                    tool, num + 1, have, need, seen))
    return "%s: the result is shorter or longer than under %r" % (tool, seen)
  obs.hit("tool:" + tool)
  if payload["dash_c"]:
    obs.hit("with -c")
  if any(c[3] for c in payload["configs"]):
    obs.hit("with include")
  if any(seen):
    obs.see(tool, seen, payload["stdin"], [c[0] for c in payload["configs"]])
  return None


def shrink(payload):
  for key in ("listfiles", "decoys", "dash_c"):
    for num in range(len(payload[key])):
      if key == "listfiles" and len(payload[key]) == 1:
        continue
      yield dict(payload, **{key: payload[key][:num] + payload[key][num + 1:]})
  for key in payload["cli"]:
    yield dict(payload, cli={k: v for k, v in payload["cli"].items()
                             if k != key})
  used = {os.path.normpath(os.path.join(os.path.dirname(c[0]), i))
          for c in payload["configs"] for i in c[3]} | set(payload["dash_c"])
  for num, rec in enumerate(payload["configs"]):
    rest = payload["configs"][:num] + payload["configs"][num + 1:]
    if rec[0] not in used and not any(
        i.startswith("ABS:") for c in payload["configs"] for i in c[3]):
      yield dict(payload, configs=rest)
    for key in rec[2]:
      data = {k: v for k, v in rec[2].items() if k != key}
      yield dict(payload, configs=payload["configs"][:num] + [
          rec[:2] + [data] + rec[3:]] + payload["configs"][num + 1:])
    if rec[3]:
      yield dict(payload, configs=payload["configs"][:num] + [
          rec[:3] + [rec[3][1:]] + rec[4:]] + payload["configs"][num + 1:])
