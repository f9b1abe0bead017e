"""C26: the report and the exit status of cmake-lint agree with the lint."""
import json
import re

from vlib import cli, fmt, lintgen, lintrun
from vlib.run import Skip

RULE = """A case is one to four listfiles in several directories, with a
configuration file or none in each, missing files among them, the decorations
on or off, and the report on standard output, in a file (-o), or the text from
standard input. The monitor runs the real main() and compares: the blocks of
the report, in the order of the arguments, with the records of each file when
linted alone with its own configuration; the summary with the sums by category;
and the exit status, which must be 0 exactly if there is no record and every
file could be read. Non-trivial: two files or some lint; distinct by (kinds of
files, modes, counts)."""
COUNT = {"quick": 3500, "thorough": 120000}

CLEAN = ["# a comment\nset(FOO_X 1)\n", "# c\nset(_FOO_X 1)\nmessage(a)\n",
         "if(FOO)\n  message(STATUS \"a\")\nendif()\n"]
NAMES = {"C": "Convention", "E": "Error", "R": "Refactor", "W": "Warning"}


def worker_setup():
  cli.preload()


def fixed():
  clean, dirty, worse = CLEAN[0], "foo() \n", "break()\nset( a-b)"
  for texts in ([clean], [dirty], [worse], [clean, dirty], [dirty, clean],
                [None], [None, clean], [clean, None], [dirty, None, worse],
                [clean, clean, clean], [worse, dirty, clean]):
    for out in ("stdout", "file"):
      for deco in (True, False):
        yield {"texts": texts, "configs": [{}] * len(texts), "out": out,
               "deco": deco, "disabled": []}
  for text in (clean, dirty, worse):
    yield {"texts": [text], "configs": [{}], "out": "stdin", "deco": True,
           "disabled": []}
  yield {"texts": [dirty, dirty], "configs": [{"disabled_codes": ["C0303"]},
                                              {}],
         "out": "stdout", "deco": True, "disabled": []}
  yield {"texts": [dirty], "configs": [{"disabled_codes": ["C0303"]}],
         "out": "stdout", "deco": True, "disabled": []}
  yield {"texts": [dirty, worse], "configs": [{}, {}],
         "out": "stdout", "deco": True, "disabled": ["C0303", "C0304"]}


def gen(rng, idx, tier):
  texts, configs = [], []
  for _ in range(rng.choice([1, 1, 2, 3, 4])):
    roll = rng.random()
    if roll < 0.1:
      texts.append(None)
    elif roll < 0.4:
      texts.append(rng.choice(CLEAN))
    else:
      texts.append(lintgen.LintGen(rng).listfile(rng.choice([1, 1, 2, 3])))
    configs.append(lintgen.random_config(rng) if rng.random() < 0.3 else {})
  out = rng.choice(["stdout", "stdout", "file", "stdin"])
  if out == "stdin":
    texts, configs = [rng.choice(CLEAN) if texts[0] is None else texts[0]], \
        configs[:1]
  return {"texts": texts, "configs": configs, "out": out,
          "deco": rng.random() < 0.6,
          "disabled": rng.sample(lintgen.CODES, 4)
                      if rng.random() < 0.2 else []}


def line_of(path, rec):
  where = ",".join("%02d" % num for num in rec[0])
  return "%s:%s: [%s] %s\n" % (path, where, rec[1], rec[2])


def judge(payload, obs):
  texts, configs = payload["texts"], payload["configs"]
  for text in texts:
    if text is not None:
      fmt.need_valid(text)
  with cli.Scratch() as tmp:
    paths = []
    blocks = []
    total = {}
    some = False
    read = 0
    for num, (text, cfg) in enumerate(zip(texts, configs)):
      rel = "d%d/f%d.cmake" % (num, num)
      path = tmp / rel
      if cfg:
        tmp.write("d%d/.cmake-format.json" % num, json.dumps(cfg))
      if payload["out"] == "stdin":
        path = "-"
        if cfg:
          tmp.write(".cmake-format.json", json.dumps(cfg))
      paths.append(path)
      if text is None:
        some = True
        continue
      if payload["out"] != "stdin":
        tmp.write(rel, text)
      read += 1
      eff = dict(cfg)
      if payload["disabled"]:
        eff["disabled_codes"] = payload["disabled"]
      recs = lintrun.records(text, eff)
      some = some or bool(recs)
      for rec in recs:
        key = rec[1][0]
        total[key] = total.get(key, 0) + 1
      body = "".join(line_of(path, rec) for rec in recs)
      if payload["deco"]:
        body = "%s\n%s\n%s\n" % (path, "=" * len(path), body)
      blocks.append(body)
    args = list(paths)
    if payload["out"] == "file":
      args = ["-o", tmp / "report"] + args
    if not payload["deco"]:
      args = ["--suppress-decorations"] + args
    if payload["disabled"]:
      args = args + ["--disabled-codes"] + payload["disabled"]
    stdin = texts[0].encode("utf-8") if payload["out"] == "stdin" else b""
    os_cwd = tmp.path
    res = cli.run("lint", args, stdin=stdin, cwd=os_cwd)
    report = res.out.decode("utf-8")
    if payload["out"] == "file":
      if report:
        return "-o, but wrote to standard output: %r" % report[:200]
      report = cli.read(tmp / "report").decode("utf-8")
  want = "".join(blocks)
  if report[:len(want)] != want:
    for one, two in zip(want.split("\n"), report.split("\n")):
      if one != two:
        return "report has %r instead of %r" % (two, one)
    return "report is cut: %r" % report[-200:]
  rest = report[len(want):]
  if not payload["deco"]:
    if rest:
      return "report goes on: %r" % rest[:300]
  else:
    match = re.match(r"Summary\n=======\nfiles scanned: (\d+)\nfound lint:\n"
                     r"((?: *\w+: \d+\n)*)\n$", rest)
    if not match:
      return "summary is %r" % rest[:400]
    if int(match.group(1)) != read:
      return "%s files scanned instead of %d" % (match.group(1), read)
    counts = dict((k, int(v)) for k, v in re.findall(
        r"(\w+): (\d+)", match.group(2)))
    expect = {NAMES[k]: v for k, v in total.items()}
    if counts != expect:
      return "summary counts %r instead of %r" % (counts, expect)
  if res.code != (1 if some else 0):
    return "exit status %d, %s" % (
        res.code, "although there is lint" if some else "without any lint")
  if b"Traceback" in res.err:
    return "error on standard error: %r" % res.err[-300:]
  obs.hit("files", len(texts))
  obs.hit("records", sum(total.values()))
  obs.hit("exit %d" % res.code)
  if len(texts) > 1 or total:
    obs.see(payload["out"], payload["deco"], sorted(total.items()),
            [t is None for t in texts], len(want))
  return None
