"""
Running the real command line tools.

`run(tool, args, ...)` forks, points the standard streams at pipes or files,
sets sys.argv, and calls the real main() of the tool, so that one case costs
milliseconds instead of an interpreter start. `run_exec` starts a real process
for the same thing; a sample of the cases is run both ways.
"""
import collections
import os
import shutil
import signal
import subprocess
import sys
import tempfile

from .run import REPO

Result = collections.namedtuple("Result", ["code", "out", "err"])

MODULES = {
    "format": "cmakelang.format.__main__",
    "lint": "cmakelang.lint.__main__",
    "annotate": "cmakelang.annotate",
    "genparsers": "cmakelang.genparsers",
    "ctest-to": "cmakelang.ctest_to",
}


def preload():
  import importlib
  for name in MODULES.values():
    importlib.import_module(name)
  try:
    import yaml  # noqa pylint: disable=unused-import
  except ImportError:
    pass


class Scratch(object):
  """A scratch directory, removed afterwards."""

  def __init__(self):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access(
        "/dev/shm", os.W_OK) else None
    self.path = tempfile.mkdtemp(prefix="cmfverif-", dir=base)

  def __enter__(self):
    return self

  def __exit__(self, *_):
    shutil.rmtree(self.path, ignore_errors=True)

  def __truediv__(self, name):
    return os.path.join(self.path, name)

  def write(self, name, data):
    path = os.path.join(self.path, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
      data = data.encode("utf-8")
    with open(path, "wb") as outfile:
      outfile.write(data)
    return path


def read(path):
  with open(path, "rb") as infile:
    return infile.read()


def snapshot(root):
  """{relative path: (type, mode, content)} of everything below root"""
  out = {}
  for dirpath, dirnames, filenames in os.walk(root):
    dirnames.sort()
    for name in sorted(dirnames + filenames):
      path = os.path.join(dirpath, name)
      rel = os.path.relpath(path, root)
      if os.path.islink(path):
        out[rel] = ("link", 0, os.readlink(path))
      elif os.path.isdir(path):
        out[rel] = ("dir", os.stat(path).st_mode & 0o7777, None)
      else:
        out[rel] = ("file", os.stat(path).st_mode & 0o7777, read(path))
  return out


def run(tool, args, stdin=b"", cwd=None, before=None, timeout=60):
  """
  Call main() of the tool in a forked child. `before` is called in the child
  first (limits, hooks). code: exit status, or -signal.
  """
  import importlib
  module = importlib.import_module(MODULES[tool])
  tmp = tempfile.TemporaryFile()
  err = tempfile.TemporaryFile()
  inp = tempfile.TemporaryFile()
  inp.write(stdin)
  inp.seek(0)
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    code = 97
    try:
      signal.setitimer(signal.ITIMER_REAL, 0)
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      signal.alarm(timeout)
      os.dup2(inp.fileno(), 0)
      os.dup2(tmp.fileno(), 1)
      os.dup2(err.fileno(), 2)
      import io
      import logging
      sys.stdin = io.open(os.dup(0), "r", encoding="utf-8")
      sys.stdout = io.open(os.dup(1), "w", encoding="utf-8")
      sys.stderr = io.open(os.dup(2), "w", encoding="utf-8",
                           errors="backslashreplace")
      logging.disable(logging.NOTSET)
      for handler in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(handler)
      if cwd:
        os.chdir(cwd)
      sys.argv = ["cmake-" + tool] + list(args)
      if before:
        before()
      try:
        code = module.main()
      except SystemExit as ex:
        code = ex.code
        if isinstance(code, str):
          sys.stderr.write(code + "\n")
          code = 1
      except BaseException:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        code = 1
      code = 0 if code is None else int(code)
      sys.stdout.flush()
      sys.stderr.flush()
    except BaseException:  # pylint: disable=broad-except
      code = 98
    finally:
      os._exit(code & 0xff)
  try:
    _, status = os.waitpid(pid, 0)
  except BaseException:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    raise
  code = os.waitstatus_to_exitcode(status)
  result = []
  for handle in (tmp, err):
    handle.seek(0)
    result.append(handle.read())
    handle.close()
  inp.close()
  return Result(code, result[0], result[1])


def run_exec(tool, args, stdin=b"", cwd=None):
  env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8",
             PYTHONDONTWRITEBYTECODE="1")
  proc = subprocess.run(
      [sys.executable, "-m", MODULES[tool]] + list(args), input=stdin, cwd=cwd,
      stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, check=False,
      timeout=120)
  return Result(proc.returncode, proc.stdout, proc.stderr)
