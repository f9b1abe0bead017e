"""C19: formatting in place never damages a file, whatever goes wrong."""
import errno
import io
import json
import os
import resource
import signal
import sys

from vlib import cli, fmt
from vlib.run import Skip

RULE = """A case is one to three files, a way to format them in place
(cmake-format -i, by name or through a symbolic link) and something that goes wrong: an undecodable input, output
that cannot be encoded, a syntax error, an invalid layout with
require_valid_layout, a missing file, an I/O error or a kill at the k-th
filesystem operation, or a disk that is full after n bytes (kernel file size
limit, with and without the signal). While the real main() runs, a monitor
inside the process (audit hook and profile hook) looks at every file at each
filesystem operation and after each write, flush and close; afterwards the
directory is examined. At all times every file must be its original or its
completely formatted self, with its permission bits; what failed must be
reported by the exit status; on a survived failure no other file may be left
behind. Non-trivial: the fault happened; distinct by (kind of fault, point of
the fault, state of each file, exit status)."""
COUNT = {"quick": 450, "thorough": 20000}

EVENTS = ("open", "os.rename", "os.remove", "os.chmod", "os.truncate",
          "os.link", "os.symlink", "os.utime", "os.mkdir", "os.rmdir",
          "shutil.move", "shutil.copymode", "shutil.copyfile", "shutil.copystat",
          "os.chown", "tempfile.mkstemp", "tempfile.mkdtemp")
WATCHED = ("write", "writelines", "flush", "close", "truncate", "__exit__",
           "rename", "replace", "remove", "unlink", "chmod", "open",
           "sendfile", "copy_file_range", "fsync")


def worker_setup():
  cli.preload()


BAD = "foo(  a\n\n b )\n# x  y\nset( A\n  b )\n"
GOOD = "foo(a b)\n"
FAULTS = ["none", "encode", "decode", "syntax", "layout", "missing",
          "error", "kill", "fsize-signal", "fsize-error"]


def fixed():
  for bits in (0o644, 0o600, 0o755):
    for kind in FAULTS:
      points = range(8) if kind in ("error", "kill") else [0]
      if kind.startswith("fsize"):
        points = [0, 1, 5, 20, 39, 40, 41]
      for point in points:
        for pos, texts in ((0, [BAD]), (1, [GOOD, BAD, BAD]),
                           (0, [BAD, GOOD]), (1, [BAD, BAD])):
          yield {"files": texts, "kind": kind, "point": point, "pos": pos,
                 "config": {}, "bits": bits}
          if bits == 0o600:
            yield {"files": texts, "kind": kind, "point": point, "pos": pos,
                   "config": {}, "bits": bits, "links": [pos]}
            break


def gen(rng, idx, tier):
  texts = [fmt.make_text(rng, idx) for _ in range(rng.choice([1, 1, 2, 3]))]
  texts = [t[:4000] if len(t) < 4000 else BAD for t in texts]
  kind = rng.choice(FAULTS + ["error", "kill", "fsize-signal", "fsize-error"])
  pos = rng.randrange(len(texts))
  if kind.startswith("fsize"):
    point = rng.choice([0, 1, rng.randrange(50), rng.randrange(3000)])
  else:
    point = rng.randrange(9)
  cfg = fmt.make_cfg(rng)
  return {"files": texts, "kind": kind, "point": point, "pos": pos,
          "config": cfg, "bits": rng.choice([0o644, 0o600, 0o755, 0o444]),
          "links": [n for n in range(len(texts)) if rng.random() < 0.2]}


KINDS = (io.IOBase, type(os))
SKIP = (io.StringIO, io.BytesIO)


class Monitor(object):
  """Lives in the process under test."""

  def __init__(self, report_fd, states, kind, point, root):
    self.report_fd = report_fd
    self.states = states  # path -> [acceptable (bytes, mode)]
    self.kind = kind
    self.point = point
    self.root = root
    self.seen = 0
    self.busy = False

  def tell(self, text):
    os.write(self.report_fd, (text + "\n").encode("utf-8", "replace"))

  def look(self, where):
    if self.busy:
      return
    self.busy = True
    try:
      for path, accept in self.states.items():
        try:
          with open(path, "rb") as infile:
            now = (infile.read(), os.fstat(infile.fileno()).st_mode & 0o7777)
        except OSError as ex:
          self.tell("BAD at %s: %s: %s" % (where, path, ex))
          continue
        if now not in accept:
          self.tell("BAD at %s: %s is %r" % (where, path, now))
      self.tell("LOOK")
    finally:
      self.busy = False

  def audit(self, event, args):
    if self.busy or event not in EVENTS:
      return
    if event == "open":
      path, _, flags = args
      if not isinstance(path, str) or not path.startswith(self.root):
        return
      if not flags & (os.O_WRONLY | os.O_RDWR):
        return
    self.look("%d:%s" % (self.seen, event))
    self.seen += 1
    if self.seen == self.point + 1:
      if self.kind == "kill":
        self.tell("FAULT %s" % event)
        os.kill(os.getpid(), signal.SIGKILL)
      if self.kind == "error":
        self.tell("FAULT %s" % event)
        raise OSError(errno.ENOSPC, "injected")

  def profile(self, _frame, event, func):
    if event == "c_return" and not self.busy:
      owner = getattr(func, "__self__", None)
      if getattr(func, "__name__", "") in WATCHED and isinstance(
          owner, KINDS) and not isinstance(owner, SKIP):
        self.look("after " + func.__name__)




def judge(payload, obs):
  kind, pos = payload["kind"], payload["pos"]
  cfg = dict(payload["config"])
  texts = list(payload["files"])
  bits = payload["bits"]
  raw = []
  results = []
  input_encoding = output_encoding = "utf-8"
  if kind == "encode":
    output_encoding = "ascii"
    texts[pos] = texts[pos] + "\n# \u20ac  \u00fc\n"
  if kind == "syntax":
    texts[pos] = "bar( a )\n" + texts[pos] + "\nfoo((a)\n"
  for num, text in enumerate(texts):
    if "\r" in text.replace("\r\n", ""):
      raise Skip("bare carriage return")
    if not (kind == "syntax" and num == pos):
      fmt.need_valid(text)
      out, valid, err = fmt.try_fmt(text, cfg)
      if err:
        raise Skip("the library raises")
    else:
      out, valid = None, True
    data = text.encode("utf-8")
    if kind == "decode" and num == pos:
      data = data + b"# \xff\xfe\xff\n"
      out = None
    if out is not None and out != text and output_encoding == "ascii":
      try:
        out.encode("ascii")
      except UnicodeEncodeError:
        out = None
    if kind == "layout" and not valid:
      out = None
    raw.append(data)
    results.append(None if out is None else out.encode("utf-8"))
  if kind == "layout":
    cfg["require_valid_layout"] = True
  with cli.Scratch() as box:
    paths = [box.write("d/f%d.cmake" % n, d) for n, d in enumerate(raw)]
    box.write("d/other.cmake", "untouched( )\n")
    box.write("d/.cmake-format.json", json.dumps(
        dict(cfg, input_encoding=input_encoding,
             output_encoding=output_encoding)))
    for path in paths:
      os.chmod(path, bits)
    states = {p: [(d, bits)] + ([(r, bits)] if r is not None else [])
              for p, d, r in zip(paths, raw, results)}
    args = list(paths)
    os.mkdir(box / "links")
    links = {}
    for num in payload.get("links", ()):
      if num < len(args):
        args[num] = box / ("links/l%d.cmake" % num)
        links[args[num]] = "../d/" + os.path.basename(paths[num])
        os.symlink(links[args[num]], args[num])
    if kind == "missing":
      args.insert(pos, box / "d/missing.cmake")
    before = cli.snapshot(box.path)
    rfd, wfd = os.pipe()
    os.set_blocking(wfd, False)

    def prepare():
      os.close(rfd)
      resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
      monitor = Monitor(wfd, states, kind, payload["point"], box.path)
      sys.addaudithook(monitor.audit)
      if kind.startswith("fsize"):
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == "fsize-signal"
                      else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (payload["point"],) * 2)
      sys.setprofile(monitor.profile)

    res = cli.run("format", ["-i"] + args, cwd=box.path, before=prepare)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as pipe:
      reports = pipe.read().decode("utf-8", "replace").splitlines()
    after = cli.snapshot(box.path)
    for link, dest in links.items():
      if not os.path.islink(link) or os.readlink(link) != dest:
        return "%s: the link %s was replaced" % (kind, link)

  looks = sum(r == "LOOK" for r in reports)
  bad = [r for r in reports if r.startswith("BAD")]
  injected = [r for r in reports if r.startswith("FAULT")]
  if bad:
    return "%s: while running: %s" % (kind, bad[0][:600])
  state = []
  for path, data, out in zip(paths, raw, results):
    rel = os.path.relpath(path, box.path)
    if rel not in after:
      return "%s: %s is gone" % (kind, rel)
    now = (after[rel][2], after[rel][1])
    if now not in states[path]:
      return "%s: %s is neither the original nor the formatted text: %r" % (
          kind, rel, now)
    if out is None:
      state.append("original")
    elif out == data:
      state.append("same")
    else:
      state.append("new" if now[0] == out else "original")
  killed = res.code < 0
  if not killed:
    extra = set(after) - set(before)
    if extra:
      return "%s: left behind: %s" % (kind, sorted(extra))
  for rel in before:
    if rel not in after:
      return "%s: %s is gone" % (kind, rel)
    if rel.endswith("other.cmake") and after[rel] != before[rel]:
      return "%s: %s was changed" % (kind, rel)
  missing = [p for p, s, out in zip(paths, state, results)
             if s == "original" or out is None]
  if res.code == 0 and (missing or kind == "missing"):
    return "%s: exit status 0, but not formatted: %s" % (kind, missing)
  faultless = kind == "none" or (kind in ("error", "kill") and not injected)
  if faultless and (res.code != 0 or missing):
    return "no fault, but exit status %d and not formatted: %s: %s" % (
        res.code, missing, res.err[-300:])
  obs.hit("looks at the files", looks)
  obs.hit("fault:" + kind, 1)
  if injected:
    obs.hit("injected at " + injected[0][6:])
  if not looks and any(s != "same" for s in state):
    obs.hit("unobserved")
  if killed or injected or res.code:
    obs.see(kind, payload["point"], state, res.code, len(paths))
  return None


def shrink(payload):
  for num in range(len(payload["files"])):
    if len(payload["files"]) > 1:
      files = payload["files"][:num] + payload["files"][num + 1:]
      yield dict(payload, files=files, pos=min(payload["pos"],
                                               len(files) - 1))
    lines = payload["files"][num].split("\n")
    for start in range(len(lines)):
      files = list(payload["files"])
      files[num] = "\n".join(lines[:start] + lines[start + 1:])
      yield dict(payload, files=files)
  for key in payload["config"]:
    yield dict(payload, config={k: v for k, v in payload["config"].items()
                                if k != key})
