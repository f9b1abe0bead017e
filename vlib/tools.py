"""
The tools as functions of (text, configuration), and ways to call them in
processes which have done nothing else.
"""
import io
import json
import os
import pickle
import signal
import struct
import subprocess
import sys

TOOLS = ["format", "lint", "lex", "parse", "layout", "markup", "parsedb",
         "page", "stub", "iframe", "genparsers"]


def run_tool(tool, text, cfg, config=None):
  """What the tool writes. `config` may be an object to be used again."""
  from cmakelang import annotate, configuration, genparsers
  from cmakelang.format import __main__ as fmain
  from cmakelang.lint import __main__ as lmain, lint_util
  if config is None:
    config = configuration.Configuration(**dict(cfg))
  out = io.StringIO()
  if tool == "format":
    result, valid = fmain.process_file(config, text)
    return result + ("" if valid else "\n<<invalid layout>>")
  if tool in ("lex", "parse", "layout", "markup", "parsedb"):
    return fmain.process_file(config, text, tool)[0]
  if tool == "lint":
    gctx = lint_util.GlobalContext(out)
    local = gctx.get_file_ctx("x.cmake", config)
    lmain.process_file(config, local, text)
    local.writeout(out)
    return out.getvalue()
  if tool == "genparsers":
    return json.dumps(genparsers.process_tree(
        genparsers.process_file(config, text)))
  annotate.annotate_file(config, io.StringIO(text, newline=""), out, tool)
  return out.getvalue()


def outcome(tool, text, cfg, config=None):
  """-> ["ok", output] or ["raised", type, message]"""
  try:
    return ["ok", run_tool(tool, text, cfg, config)]
  except Exception as ex:  # pylint: disable=broad-except
    return ["raised", type(ex).__name__]


def forked(func, timeout=30):
  """The result of func() in a forked child (None if the child died)."""
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(rfd)
      signal.setitimer(signal.ITIMER_REAL, 0)
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      signal.alarm(timeout)
      data = pickle.dumps(func())
      with os.fdopen(wfd, "wb") as out:
        out.write(data)
    finally:
      os._exit(0)
  os.close(wfd)
  try:
    with os.fdopen(rfd, "rb") as inp:
      data = inp.read()
    os.waitpid(pid, 0)
  except BaseException:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    raise
  return pickle.loads(data) if data else None


class Server(object):
  """
  A process with another environment (hash seed, locale, time zone, working
  directory), which forks for every request.
  """

  def __init__(self, env, cwd="/"):
    from .run import REPO, VERIF
    full = dict(os.environ, PYTHONPATH=REPO + os.pathsep + VERIF,
                PYTHONDONTWRITEBYTECODE="1")
    full.update(env)
    self.proc = subprocess.Popen(
        [sys.executable, "-m", "vlib.tools"], stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, cwd=cwd, env=full)

  def ask(self, tool, text, cfg):
    data = pickle.dumps((tool, text, cfg))
    self.proc.stdin.write(struct.pack("<I", len(data)) + data)
    self.proc.stdin.flush()
    size, = struct.unpack("<I", self.proc.stdout.read(4))
    return pickle.loads(self.proc.stdout.read(size))

  def close(self):
    self.proc.kill()
    self.proc.wait()
    self.proc.stdin.close()
    self.proc.stdout.close()


def serve():
  import logging
  logging.disable(logging.CRITICAL)
  from . import cli
  cli.preload()
  inp = os.fdopen(os.dup(0), "rb")
  out = os.fdopen(os.dup(1), "wb")
  os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
  while True:
    head = inp.read(4)
    if len(head) < 4:
      return
    tool, text, cfg = pickle.loads(inp.read(struct.unpack("<I", head)[0]))
    data = pickle.dumps(forked(lambda: outcome(tool, text, cfg)))
    out.write(struct.pack("<I", len(data)) + data)
    out.flush()


if __name__ == "__main__":
  serve()
