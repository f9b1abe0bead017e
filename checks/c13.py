"""C13: a result depends on the file and its configuration, and nothing else."""
from vlib import cli, fmt, lintgen, reflex, tools
from vlib.run import Skip
from . import c10, c11

RULE = """A case is a target (text, configuration, tool) and a history of one
to four others: other texts with other configurations and specifications of the
same commands, malformed ones, other tools, files with pragmas. The monitor
runs the target (a) in a process that has done nothing else, (b) behind the
history, twice in a row, and between repetitions of the history, (c) with one
configuration object for several files, (d) in a process with another hash
seed, locale, time zone and working directory. All results (the output, or the
type of the exception) must be equal. Non-trivial: the history ran to an end
and the target gives output; distinct by tools, commands and configurations."""
COUNT = {"quick": 1300, "thorough": 100000}
CASE_LIMIT = 30.0

SERVERS = []


def worker_setup():
  cli.preload()


def server():
  import os
  if not SERVERS or SERVERS[0][0] != os.getpid():
    del SERVERS[:]
    SERVERS.append((os.getpid(), tools.Server({
        "PYTHONHASHSEED": str(os.getpid() % 4000 + 1), "LC_ALL": "C",
        "TZ": "Asia/Kathmandu", "PYTHONUTF8": "0", "HOME": "/nonexistent",
        "COLUMNS": "40"})))
  return SERVERS[0][1]


TEXTS = [
    "foo(a KEY b c FLAG d)\n", "bar(KEY a)\nfoo(KEY a FLAG)\n",
    "set(b c d)\nlist(APPEND x y)\n", "message(STATUS x)\nfoo(b a)\n",
    "add_library(foo STATIC b.cc a.cc)\n",
    "# cmake-lint: disable=C0103,C0305\nset(x)\nfunction(Foo)\nendfunction()\n",
    "function(Foo a b)\n# cmake-lint: disable=C0103\nset(X 1)\nendfunction()\n",
    "macro(Bar)\nset(a ${ARGN})\nendmacro()\nfoo(",
    "# cmake-format: off\nfoo( a)\n", "foo(\n# cmake-format: sort\nb a)\n",
    "install(TARGETS a RUNTIME DESTINATION b)\n", "file(GLOB x y)\n",
    "if(a AND b)\nfoo()\nelse()\nbar()\nendif()\n",
    "add_custom_command(OUTPUT x COMMAND y DEPENDS z)\n",
    "cmake_parse_arguments(a \"B\" \"C\" \"D\" ${ARGN})\n",
]
CONFIGS = [
    {}, {"line_width": 20}, {"autosort": True}, {"command_case": "upper"},
    {"additional_commands": {"foo": {"kwargs": {"KEY": 1},
                                     "flags": ["FLAG"]}}},
    {"additional_commands": {"foo": {"pargs": {"nargs": "+",
                                               "sortable": True},
                                     "kwargs": {"KEY": "*"}}}},
    {"additional_commands": {"set": {"kwargs": {"b": "+"}},
                             "add_library": {"pargs": "+"}}},
    {"additional_commands": {"foo": {"spelling": "fOO", "pargs": 1}}},
    {"additional_commands": {"Foo": {"kwargs": {"KEY": 2, "FLAG": 1}},
                             "message": {"flags": ["STATUS"]}}},
    {"per_command": {"foo": {"command_case": "upper"}}},
    {"always_wrap": ["foo", "set"]}, {"use_tabchars": True, "tab_size": 4},
    {"vartags": [["x", ["cmdline"]]]},
    {"disabled_codes": ["C0103", "C0301"]}, {"max_arguments": 0},
    {"proptags": [["x", ["file-list"]]]}, {"line_ending": "windows"},
]


def fixed():
  for idx, text in enumerate(TEXTS):
    for tool in ("format", "lint", "page"):
      for cfg in CONFIGS:
        yield {"target": [text, cfg, tool],
               "history": [[TEXTS[(idx + k) % len(TEXTS)],
                            CONFIGS[(idx * 5 + k * 3) % len(CONFIGS)],
                            ["format", "lint", "parse"][k % 3]]
                           for k in (0, 1, 4, 7)]}


def job(rng, idx, names=()):
  text = c10.gen_text(rng, idx) if rng.random() < 0.75 else rng.choice(TEXTS)
  if rng.random() < 0.15:
    text = c11.damage(rng, text)[0]
  cfg = {}
  roll = rng.random()
  if roll < 0.4:
    cfg = fmt.make_cfg(rng)
  elif roll < 0.6:
    cfg = lintgen.random_config(rng)
  elif roll < 0.85:
    cfg = dict(rng.choice(CONFIGS))
  if rng.random() < 0.3:
    cfg["autosort"] = True
  try:
    names = list(names) + [c.name for c in reflex.commands(reflex.lex(text))
                           if c.args is not None]
  except reflex.RefError:
    names = list(names)
  blocks = ("if", "while", "elseif", "else", "endif", "endwhile", "foreach",
            "endforeach", "function", "endfunction", "macro", "endmacro")
  names = [n for n in names if n.lower() not in blocks]
  if names and rng.random() < 0.5:
    words = ["KEY", "FLAG", "PUBLIC", "TARGETS", "DESTINATION", "COMMAND",
             "a", "src", "lib"]
    extra = dict(cfg.get("additional_commands", {}))
    for name in rng.sample(names, min(len(names), 3)):
      extra[rng.choice([name, name.lower()])] = c10.random_spec(rng, words)
    cfg["additional_commands"] = extra
  if names and rng.random() < 0.15:
    cfg["per_command"] = {rng.choice(names).lower(): {"command_case": "upper"}}
  tool = rng.choice(["format", "format", "format", "lint", "lint"]
                    + tools.TOOLS)
  return [text, cfg, tool], names


def gen(rng, idx, tier):
  target, names = job(rng, idx)
  history = []
  for _ in range(rng.choice([1, 1, 2, 3, 4])):
    item, _ = job(rng, idx, names)
    if rng.random() < 0.5:
      item[0] = target[0]  # the same text with another configuration
    history.append(item)
  return {"target": target, "history": history,
          "share": rng.random() < 0.3}


def shrink(payload):
  target, history = payload["target"], payload["history"]
  for pos in range(len(history)):
    if len(history) > 1:
      yield dict(payload, history=history[:pos] + history[pos + 1:])
  for holder in [None] + list(range(len(history))):
    item = target if holder is None else history[holder]

    def put(new, holder=holder):
      if holder is None:
        return dict(payload, target=new)
      return dict(payload,
                  history=history[:holder] + [new] + history[holder + 1:])
    for key in sorted(item[1]):
      yield put([item[0], {k: v for k, v in item[1].items() if k != key},
                 item[2]])
    lines = item[0].split("\n")
    size = max(1, len(lines) // 2)
    while size:
      for start in range(0, len(lines), size):
        yield put(["\n".join(lines[:start] + lines[start + size:]), item[1],
                   item[2]])
      size = size // 2 if size > 1 else 0


def run_sequence(payload):
  import copy
  text, cfg, tool = payload["target"]
  results = []
  ended = 0
  configs = {}
  for round_ in range(2):
    for item in payload["history"]:
      got = tools.outcome(item[2], item[0], copy.deepcopy(item[1]))
      ended += got[0] == "ok"
    for _ in range(2):
      results.append(tools.outcome(tool, text, copy.deepcopy(cfg)))
  if payload.get("share"):
    # one configuration object for several files
    try:
      config = fmt.make_config(copy.deepcopy(cfg))
    except Exception:  # pylint: disable=broad-except
      config = None
    if config is not None:
      for item in payload["history"]:
        tools.outcome(item[2], item[0], None, config)
      results.append(tools.outcome(tool, text, None, config))
  return results, ended


def judge(payload, obs):
  text, cfg, tool = payload["target"]
  clean = tools.forked(lambda: tools.outcome(tool, text, cfg))
  if clean is None:
    raise Skip("no result")
  if tool == "genparsers" and payload.get("share"):
    payload = dict(payload, share=False)
  both = tools.forked(lambda: run_sequence(payload), 60)
  if both is None:
    raise Skip("no result")
  results, ended = both
  for idx, got in enumerate(results):
    if got != clean:
      where = ["behind other files", "the second time", "behind more files",
               "the fourth time", "with a shared configuration object"][idx]
      return "%s: %s the result is %s instead of %s" % (
          tool, where, short(got, clean), short(clean, got))
  other = server().ask(tool, text, cfg)
  if other is not None and other != clean:
    return "%s: in another environment the result is %s instead of %s" % (
        tool, short(other, clean), short(clean, other))
  obs.hit("runs behind a history", len(results))
  obs.hit("runs in another environment")
  if clean[0] == "ok" and clean[1].strip() and ended:
    obs.see(tool, sorted(cfg), [(h[2], sorted(h[1]), len(h[0]))
                                for h in payload["history"]], len(text))
  return None


def short(got, ref):
  if got[0] != "ok" or ref[0] != "ok":
    return repr(got)[:150]
  pos = next((i for i, (a, b) in enumerate(zip(got[1], ref[1])) if a != b),
             min(len(got[1]), len(ref[1])))
  return "...%r" % got[1][max(0, pos - 40):pos + 60]
