"""C35: the editor extension runs the program as its settings say."""
import atexit
import json
import os
import re
import resource
import subprocess

from vlib import cli
from vlib.run import REPO, Skip

RULE = """A case is a document, the folders of the workspace, the environment
and the settings of the extension (exePath, args, cwd, env, mergeEnv) with or
without variables. The real extension source is transpiled with the TypeScript
compiler and loaded in a stand-in for the editor (vlib/vscode_host.js); its
formatting provider is called, and the edits it returns are applied to the
document. In most cases the program is a recorder, which writes down its
arguments, directory, environment and input and answers with a given text and
exit status; else it is the real cmake-format, next to configuration files.
Compared with what the settings mean, worked out independently. Non-trivial:
the program ran; distinct by (settings, folders, document)."""
COUNT = {"quick": 2500, "thorough": 60000}

MODULES = "/opt/veriftools/node/node_modules"
EXT = os.path.join(REPO, "cmakelang", "vscode_extension")
HOST = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "vlib", "vscode_host.js")
OWN = ("PWD", "OLDPWD", "_", "SHLVL")
RECORDER = """#!/bin/sh
printf 'x' >> '%(d)s/runs'
printf '%%s\\0' "$@" > '%(d)s/args'
/usr/bin/env -0 > '%(d)s/env'
/bin/pwd > '%(d)s/cwd'
/bin/cat > '%(d)s/stdin'
/bin/cat '%(d)s/reply'
exit %(code)d
"""
REAL = """#!/bin/sh
PYTHONPATH='%s' PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 exec '%s' \
-m cmakelang.format "$@"
"""

HOSTPROC = None


def _unlimit():
  _, hard = resource.getrlimit(resource.RLIMIT_AS)
  resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def host():
  global HOSTPROC
  if HOSTPROC is None or HOSTPROC.poll() is not None:
    HOSTPROC = subprocess.Popen(
        ["node", HOST, EXT, MODULES], stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
        preexec_fn=_unlimit, cwd="/")
    atexit.register(HOSTPROC.kill)
  return HOSTPROC


def worker_setup():
  cli.preload()


def ask(job):
  global HOSTPROC
  proc = host()
  try:
    proc.stdin.write(json.dumps(job).encode("ascii") + b"\n")
    proc.stdin.flush()
    line = proc.stdout.readline()
  except BaseException:
    # out of step: start again
    proc.kill()
    HOSTPROC = None
    raise
  if not line:
    HOSTPROC = None
    raise RuntimeError("the host of the extension has ended")
  return json.loads(line.decode("utf-8"))


FOLDERS = ["ws", "ws/sub", "other", "a b", "p$&q", "p$$q", "p$`q", "p$'q",
           "p$1q", "\u00fc", "we'ird".replace("'", "-")]
ARGS = [[], [], [], ["--"], ["--line-width", "100"],
        ["-c", "${workspaceFolder}/.cmake-format.py"],
        ["-c", "${workspaceRoot}/x.yaml", "${workspaceFolder}/y.json"],
        ["-c", "${workspaceFolder}/a", "${workspaceFolder}/b", "--"],
        ["--tab-size=${env.TABS}"], ["-c", "${cwd}/z"], ["${env.NONE}"],
        ["${workspaceFolder}${workspaceFolder}"], ["--", "--check"],
        ["a b", "", "$HOME", "\"q\"", "\u00e9"], ["${unknown}", "${env}"],
        ["${env.TABS}${env.TABS}"], ["-"]]
TEXTS = ["", "\n", "foo()\n", "foo(a b)", "foo()\n\n\nbar(\n  x)\n# c",
         "foo()\r\nbar()\r\n", "message(\"\u00e4\u20ac\U0001f600\")\n",
         "  \n  foo( a )\n  ", "# \u2028 x\n", "a(\tb )\n" * 50,
         "foo()\na_longer_last_line( x )", "a\n\n  # no end of line"]
CONFIGS = ["", "", "format:\n  line_width: 30\n", "format:\n  tab_size: 5\n",
           "format:\n  dangle_parens: true\n  max_subgroups_hwrap: 0\n"]


def fixed():
  base = {"folders": ["ws"], "file": "ws/CMakeLists.txt", "editor": "same",
          "settings": {}, "exe": "abs", "base": {}, "text": "foo( )\n",
          "reply": "foo()\n", "code": 0, "config": "", "real": False}
  yield base
  yield dict(base, code=1, reply="")
  yield dict(base, code=1, reply="half of it")
  yield dict(base, exe="path")
  yield dict(base, exe="path", settings={"mergeEnv": False, "env": {"A": "1"}})
  yield dict(base, text="x" * 50, big=1500000)
  yield dict(base, text="\u20ac" * 900000 + "\n", reply="foo()\n")
  for text in TEXTS:
    yield dict(base, text=text)
  for args in ARGS:
    yield dict(base, settings={"args": args})
    for folder in FOLDERS:
      yield dict(base, settings={"args": args}, folders=[folder],
                 file=folder + "/x/a.cmake")


def gen(rng, idx, tier):
  folders = rng.sample(FOLDERS, rng.choice([1, 1, 1, 2, 3]))
  if rng.random() < 0.05:
    folders = None
  home = rng.choice(folders or FOLDERS)
  if rng.random() < 0.1:
    home = "outside"
  settings = {}
  roll = rng.random()
  if roll < 0.6:
    args = list(rng.choice(ARGS))
    if rng.random() < 0.3:
      args = list(rng.choice(ARGS)) + args
    settings["args"] = args
  if rng.random() < 0.3:
    settings["cwd"] = rng.choice(
        ["@/run", "${workspaceFolder}", "${workspaceRoot}", "${env.RUN}",
         "${cwd}", None])
  if rng.random() < 0.5:
    env = {}
    for key in rng.sample(["PATH", "PYTHONPATH", "TABS", "FOO", "NEWPATH",
                           "A_B", "PATHX"], rng.choice([0, 1, 2, 4])):
      env[key] = rng.choice(["1", "/x/y", "@/bin2", "/x:/y", "\u00e9 z", ""]
                            if not key.endswith("PATH") else
                            ["@/bin2", "/x/y", "/x:/y:@/bin2", "/x y"])
    settings["env"] = env
    if rng.random() < 0.1:
      settings["env"] = None
  if rng.random() < 0.3:
    settings["mergeEnv"] = rng.random() < 0.5
    if not settings["mergeEnv"] and not settings.get("env"):
      settings["env"] = {"ONLY": "1"}
  base = {}
  for key in rng.sample(["PYTHONPATH", "TABS", "FOO", "NEWPATH", "LANG",
                         "HOME"], rng.choice([0, 1, 2, 3])):
    base[key] = rng.choice(["8", "/base/x", "/b:/c", "\u00fc"])
  payload = {
      "folders": folders,
      "file": home + rng.choice(["/CMakeLists.txt", "/d/e/a.cmake",
                                 "/d f/\u00e4.cmake", "/d/$&.cmake"]),
      "editor": rng.choice(["same", "same", "same", "other", "none"]),
      "settings": settings,
      "exe": rng.choice(["abs", "abs", "path"]),
      "base": base,
      "text": rng.choice(TEXTS),
      "reply": rng.choice(["", "foo()\n", "bar(\u20ac)\n# x\n", "no end",
                           "a\r\nb\r\n", "x\n" * 300]),
      "code": rng.choice([0, 0, 0, 0, 1, 2, 255]),
      "config": "", "real": False}
  if rng.random() < 0.01:
    payload["big"] = rng.choice([300000, 1100000, 4000000])
  if rng.random() < 0.04:
    payload.update(
        real=True, exe="abs", config=rng.choice(CONFIGS),
        settings=dict(
            {"args": rng.choice([[], ["--line-width", "40"], ["--tab-size", "3",
                                                              "--"]])},
            **({"cwd": "@/run"} if rng.random() < 0.2 else {})),
        text=rng.choice(TEXTS + ["foo(\n", "target_link_libraries(a PUBLIC b c"
                                 " d e f g h i j k l m n o p q r s t)\n",
                                 "set(x \"a\nb\" c d e f g h i j k l m n)\n"]))
  return payload


def substitute(value, env, root, folder, cwd):
  def one(match):
    name = match.group(1)
    if name == "workspaceRoot":
      return match.group(0) if root is None else root
    if name == "workspaceFolder":
      return match.group(0) if folder is None else folder
    if name == "cwd":
      return cwd
    if name.startswith("env."):
      return env.get(name[4:], "")
    return match.group(0)
  return re.sub(r"\$\{(workspaceRoot|workspaceFolder|cwd|env\.[^}]+)\}", one,
                value)


def eol(text):
  return text.replace("\r\n", "\n").replace("\r", "\n")


def judge(payload, obs):
  with cli.Scratch() as tmp:
    return judge_in(payload, obs, tmp)


def judge_in(payload, obs, tmp):
  def real(path):
    return None if path is None else path.replace("@", tmp.path)

  for name in ("bin2", "run", "base", "outside"):
    os.makedirs(tmp / name, exist_ok=True)
  folders = payload["folders"]
  if folders is not None:
    folders = [tmp / f for f in folders]
    for name in folders:
      os.makedirs(name, exist_ok=True)
  docfile = tmp.write(payload["file"], payload["text"])
  reply = payload["reply"]
  if payload.get("big"):
    reply = "# %s\n" % ("y" * 77) * (payload["big"] // 80)
  tmp.write("reply", reply)
  exe = tmp.write("bin/cmake-format", RECORDER % {
      "d": tmp.path, "code": payload["code"]}
                  if not payload["real"] else
                  REAL % (REPO, "/opt/venv/bin/python"))
  os.chmod(exe, 0o755)
  where = os.path.dirname(docfile)
  if payload["config"]:
    tmp.write(os.path.relpath(where, tmp.path) + "/.cmake-format.yaml",
              payload["config"])
  settings = {}
  for key, val in payload["settings"].items():
    if isinstance(val, str):
      val = real(val)
    elif isinstance(val, dict):
      val = {k: real(v) for k, v in val.items()}
    settings["cmakeFormat." + key] = val
  base = {"PATH": "/usr/bin:/bin", "RUN": tmp / "run"}
  base.update(payload["base"])
  custom = settings.get("cmakeFormat.env") or {}
  merge = settings.get("cmakeFormat.mergeEnv", True)
  if payload["exe"] == "abs":
    settings["cmakeFormat.exePath"] = exe
  elif "PATH" in custom or not merge:
    custom["PATH"] = (tmp / "bin") + (
        ":" + custom["PATH"] if "PATH" in custom else "")
  else:
    base["PATH"] = (tmp / "bin") + ":" + base["PATH"]
  # what the settings mean
  env = dict(base) if merge else {}
  for key, val in custom.items():
    if key.endswith("PATH") and key in env:
      val = val + ":" + env[key]
    env[key] = val
  editor = {"same": docfile, "none": None,
            "other": where + "/other.txt"}[payload["editor"]]
  root = folders[0] if folders else None
  folder = None
  if folders and editor:
    inside = [f for f in folders if editor.startswith(f + "/")]
    folder = max(inside, key=len) if inside else folders[0]
  args = list(settings.get("cmakeFormat.args", []))
  if args[-1:] != ["--"]:
    args.append("--")
  args.append("-")
  subst = lambda v: substitute(v, base, root, folder, tmp / "base")
  args = [subst(a) for a in args]
  cwd = settings.get("cmakeFormat.cwd")
  cwd = where if cwd is None else subst(cwd)
  if not os.path.isdir(cwd):
    raise Skip("no such directory")

  report = ask({"settings": settings, "folders": folders, "file": docfile,
                "editor": editor, "env": base, "cwd": tmp / "base",
                "text": payload["text"]})
  if "crash" in report:
    return "the extension cannot be loaded: %s" % report["crash"][:400]
  sel = report["selectors"]
  if len(sel) != 1 or report["subscriptions"] < 1:
    return "registered %r, %d subscriptions" % (sel, report["subscriptions"])
  first = sel[0][0] if isinstance(sel[0], list) else sel[0]
  if first != {"scheme": "file", "language": "cmake"}:
    return "registered for %r" % (sel[0],)
  shown = [m for m in report["messages"] if m[0] == "error"]
  if cli.read(docfile) != payload["text"].encode("utf-8"):
    return "the file of the document was written"
  if payload["real"]:
    want = cli.run("format", args, stdin=payload["text"].encode("utf-8"),
                   cwd=cwd)
    code, reply = want.code, want.out.decode("utf-8")
    obs.hit("runs of cmake-format")
  else:
    code = payload["code"]
    runs = cli.read(tmp / "runs") if os.path.exists(tmp / "runs") else b""
    if len(runs) != 1:
      return "the program ran %d times: %s" % (
          len(runs), report.get("error", "no error")[:300])
    got = cli.read(tmp / "args").decode("utf-8").split("\0")[:-1]
    if got != args:
      return "arguments %r, should be %r" % (got, args)
    got = cli.read(tmp / "stdin").decode("utf-8")
    if got != payload["text"]:
      return "input %r, should be %r" % (got[:200], payload["text"][:200])
    got = cli.read(tmp / "cwd").decode("utf-8").rstrip("\n")
    if os.path.realpath(got) != os.path.realpath(cwd):
      return "directory %r, should be %r" % (got, cwd)
    got = dict(item.split("=", 1) for item in
               cli.read(tmp / "env").decode("utf-8").split("\0")[:-1])
    got = {k: v for k, v in got.items() if k not in OWN}
    if got != env:
      return "environment %r, should be %r" % (got, env)
    obs.hit("recorded runs")
  if code != 0:
    obs.hit("failures")
    if report.get("edits"):
      return "exit status %d, but the document is edited to %r" % (
          code, report["text"][:200])
    if not report.get("error") and not shown:
      return "exit status %d, but no error is shown" % code
  else:
    if report.get("error"):
      return "no edit: %s" % report["error"][:300]
    if eol(report["text"]) != eol(reply):
      return "the document becomes %r, should be %r" % (
          report["text"][:200], reply[:200])
    obs.hit("edits applied")
  obs.see(sorted(payload["settings"].items(), key=repr), payload["folders"],
          payload["editor"], payload["text"], payload["file"])
  return None
