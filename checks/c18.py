"""C18: all ways to run cmake-format agree, and --check tells the truth."""
import json
import os
import zlib

from vlib import cli, fmt
from vlib.run import Skip

RULE = """A case is one to three listfiles in directories of their own, a
configuration (in a file for each directory, or passed with -c, or as command
line options, or both, with the command line overriding), a mode (stdout, -o,
-i, --check, standard input, standard input with --check) and possibly
require_valid_layout or disable. The monitor runs the real main() in a forked
process with a scratch directory, and compares exit status, standard output
and the state of the whole directory afterwards with what follows from
formatting each file by itself through the library. Every 40th case runs as a
real process. Non-trivial: some file is changed by formatting, or the layout
is invalid; distinct by (mode, options, exit status, number of files
changed)."""
COUNT = {"quick": 1000, "thorough": 40000}
MODES = ["stdout", "out", "inplace", "check", "stdin", "stdin-check"]


def worker_setup():
  cli.preload()


BAD = "foo(  a\n\n b )\n"
GOOD = "foo(a b)\n"
WIDE = "foo(%s %s)\n" % ("a" * 50, "b" * 60)
OVER = "foo(%s)\n" % ("a" * 100)


def fixed():
  count = 0
  for mode in MODES:
    multi = mode not in ("out", "stdin", "stdin-check")
    for texts in ([BAD], [GOOD], [OVER], [""], [BAD.replace("\n", "\r\n")],
                  ["\ufeff" + BAD], ["foo(\u00e4 # \u20ac\n)\n"],
                  [BAD, GOOD], [GOOD, BAD], [GOOD, OVER, BAD], [GOOD, GOOD]):
      if len(texts) > 1 and not multi:
        continue
      for options in ({}, {"require_valid_layout": True}, {"disable": True},
                      {"line_width": 20}, {"line_ending": "windows"},
                      {"line_ending": "auto"}, {"emit_byteorder_mark": True}):
        count += 1
        for via in [("cli", "file", "dir", "both")[count % 4]]:
          yield {"files": texts, "config": options, "mode": mode, "via": via,
                 "mode_bits": 0o644}


def gen(rng, idx, tier):
  mode = rng.choice(MODES)
  multi = mode not in ("out", "stdin", "stdin-check")
  cfg = fmt.make_cfg(rng)
  if rng.random() < 0.15:
    cfg["require_valid_layout"] = True
    if rng.random() < 0.6:
      cfg["line_width"] = rng.choice([20, 30])
  if rng.random() < 0.03:
    cfg["disable"] = True
  texts = []
  for num in range(rng.choice([1, 1, 2, 3]) if multi else 1):
    text = fmt.make_text(rng, idx)
    if rng.random() < 0.4:
      out, _, err = fmt.try_fmt(text, cfg)
      if err is None:
        text = out
    texts.append(text)
  return {"files": texts, "config": cfg, "mode": mode,
          "via": rng.choice(["cli", "file", "dir", "both"]),
          "mode_bits": rng.choice([0o644, 0o644, 0o755, 0o600, 0o664]),
          "name": rng.choice(["CMakeLists.txt", "a b.cmake",
                              "\u00fc.cmake", "x.in"]),
          "exec": idx % 40 == 0}


YES = ["yes", "True", "true", "Y", "1", "YES", "t", "yup", "TRUE", "Yes"]
NO = ["no", "False", "false", "N", "0", "NO", "f", "nope", "FALSE", "No"]


def options(cfg):
  """The command line for a flat configuration, and the rest."""
  args = []
  rest = {}
  for key in sorted(cfg):
    value = cfg[key]
    flag = "--" + key.replace("_", "-")
    if isinstance(value, bool):
      words = YES if value else NO
      pick = zlib.crc32(repr((key, sorted(cfg))).encode()) % len(words)
      args.append("%s=%s" % (flag, words[pick]))
    elif isinstance(value, list):
      args.append(flag)
      args.extend(value)
    elif isinstance(value, dict):
      rest[key] = value
    else:
      args.append("%s=%s" % (flag, value))
  return args, rest


def expected(texts, cfg):
  """[(text, output, valid)]"""
  out = []
  for text in texts:
    res, valid, err = fmt.try_fmt(text, cfg)
    if err:
      raise Skip("the library raises")
    out.append((text, res, valid))
  return out


def judge(payload, obs):
  cfg = payload["config"]
  mode = payload["mode"]
  texts = payload["files"]
  for text in texts:
    if "\r" in text.replace("\r\n", ""):
      raise Skip("bare carriage return")
    try:
      fmt.need_valid(text)
    except Skip:
      raise
  results = expected(texts, cfg)
  stdin = mode.startswith("stdin")
  with cli.Scratch() as box:
    paths = []
    args = []
    on_cli, in_file = options(cfg)
    via = payload["via"]
    if via == "cli":
      file_cfg = in_file
    else:
      file_cfg = dict(cfg)
      if via == "both":
        # the file says something else, the command line wins
        for key in list(file_cfg):
          if key in in_file:
            continue
          file_cfg[key] = {"line_width": 33, "tab_size": 7}.get(
              key, file_cfg[key])
      else:
        on_cli = []
    for num, text in enumerate(texts):
      name = "d%d/%s" % (num, payload.get("name", "CMakeLists.txt"))
      paths.append(box.write(name, text))
      os.chmod(paths[-1], payload["mode_bits"])
      if via in ("dir", "both") or (via == "cli" and file_cfg):
        box.write("d%d/.cmake-format.json" % num, json.dumps(file_cfg))
    if not stdin:
      args.extend(paths)
    else:
      args.append("-")
    if via == "file":
      args += ["-c", box.write("conf/my.json", json.dumps(file_cfg))]
    args += on_cli
    out_path = box / "result"
    if mode == "out":
      args += ["-o", out_path]
    elif mode == "inplace":
      args += ["-i"]
    elif mode.endswith("check"):
      args += ["--check"]
    before = cli.snapshot(box.path)
    old_stat = [os.stat(path) for path in paths]
    runner = cli.run_exec if payload.get("exec") else cli.run
    res = runner("format", args, stdin=texts[0].encode() if stdin else b"",
                 cwd=os.path.dirname(paths[0]))
    after = cli.snapshot(box.path)

    # what has to come out
    want = dict(before)
    want_code = 0
    want_out = b""
    failing = []
    changed = 0
    for path, (text, output, valid) in zip(paths, results):
      rel = os.path.relpath(path, box.path)
      data = output.encode("utf-8")
      if cfg.get("disable"):
        continue
      if cfg.get("require_valid_layout") and not valid:
        want_code = 1
        failing.append(path)
        continue
      changed += output != text
      if mode.endswith("check"):
        if output != text:
          want_code = 1
          failing.append(path)
      elif mode == "inplace":
        want[rel] = ("file", payload["mode_bits"], data)
      elif mode == "out":
        want["result"] = ("file", after.get("result", (0, 0))[1], data)
      else:
        want_out += data
    where = "%s %s: " % (mode, via)
    if res.code != want_code:
      return where + "exit status %d instead of %d; stderr: %s" % (
          res.code, want_code, res.err[-300:].decode("utf-8", "replace"))
    if res.out != want_out:
      return where + "wrote %r to the standard output instead of %r" % (
          res.out[:300], want_out[:300])
    if after != want:
      for rel in sorted(set(after) | set(want)):
        if after.get(rel) != want.get(rel):
          return where + "afterwards %s is %r instead of %r" % (
              rel, after.get(rel), want.get(rel))
    if mode == "inplace":
      for path, old, (text, output, valid) in zip(paths, old_stat, results):
        now = os.stat(path)
        if output == text and (now.st_ino, now.st_mtime_ns) != (
            old.st_ino, old.st_mtime_ns):
          return where + "an already formatted file was written again"
    if not stdin:
      for path in failing:
        if path.encode("utf-8") not in res.err:
          return where + "the failing file %r is not named on stderr: %r" % (
              path, res.err[-300:])
    obs.hit("mode:" + mode)
    obs.hit("via:" + via)
    obs.hit("exit:%d" % res.code)
    if payload.get("exec"):
      obs.hit("real processes")
    if changed or failing:
      obs.see(mode, via, res.code, changed, len(texts),
              sorted(cfg.items(), key=repr))
  return None


def shrink(payload):
  for num in range(len(payload["files"])):
    if len(payload["files"]) > 1:
      yield dict(payload, files=payload["files"][:num]
                 + payload["files"][num + 1:])
    lines = payload["files"][num].split("\n")
    for size in (len(lines) // 2, 4, 1):
      if size < 1:
        continue
      for start in range(0, len(lines), size):
        files = list(payload["files"])
        files[num] = "\n".join(lines[:start] + lines[start + size:])
        yield dict(payload, files=files)
  for key in payload["config"]:
    yield dict(payload, config={k: v for k, v in payload["config"].items()
                                if k != key})
  if payload.get("exec"):
    yield dict(payload, exec=False)
