"""C22: encodings: characters survive, failures are reported, locale ignored."""
import os
import subprocess
import sys

from vlib import cli, fmt, gen as vgen, reflex
from vlib.run import REPO, Skip

RULE = """A case is a listfile with characters of a repertoire (western,
cyrillic, japanese, chinese, emoji, combining), an input and an output
encoding, and a mode (stdout, -o, -i, --check, standard input, cmake-lint).
The monitor runs the real main() on the encoded bytes and requires the bytes
of the encoded result of the library on the decoded text. When the input cannot
be decoded or the output not encoded, the exit status must not be 0 and no file
may change. Some cases run as real processes under LC_ALL=C and in a latin-1
locale. Non-trivial: the text is not ascii; distinct by (encodings, mode,
outcome, text)."""
COUNT = {"quick": 1800, "thorough": 60000}

REPERTOIRE = {
    "western": "\u00e4\u00f6\u00fc\u00df\u00e9\u00e8\u00e7\u00f1\u00bf",
    "euro": "\u20ac\u201c\u201d\u2013\u00e4",
    "cyrillic": "\u0436\u043b\u0434\u042f\u0451",
    "japanese": "\u65e5\u672c\u8a9e\u304b\u306a\u30ab",
    "chinese": "\u4e2d\u6587\u7f16\u7801",
    "emoji": "\U0001f600\U0001f4a9\u2603",
    "combining": "e\u0301o\u0308a\u030a",
    "ascii": "abc",
}
ENCODINGS = ["utf-8", "utf-8", "utf-8", "latin-1", "cp1252", "utf-16",
             "utf-16-le", "utf-32", "utf-8-sig", "shift_jis", "koi8-r",
             "ascii", "gb18030"]
MODES = ["stdout", "out", "inplace", "check", "stdin", "lint"]


def worker_setup():
  cli.preload()


def fixed():
  for rep in sorted(REPERTOIRE):
    text = "foo( %s \"%s\" )\n#  %s   %s\n" % ((REPERTOIRE[rep],) * 4)
    for mode in MODES:
      for one in ("utf-8", "latin-1", "utf-16", "shift_jis", "ascii"):
        yield {"text": text, "in": one, "out": one, "mode": mode,
               "config": {}, "junk": 0, "exec": False}
      yield {"text": text, "in": "utf-8", "out": "ascii", "mode": mode,
             "config": {}, "junk": 0, "exec": False}
      yield {"text": text, "in": "utf-8", "out": "utf-8", "mode": mode,
             "config": {}, "junk": 1, "exec": False}
    for env in ("C", "latin"):
      yield {"text": text, "in": "utf-8", "out": "utf-8", "config": {},
             "mode": ["stdout", "stdin", "inplace"][len(rep) % 3], "junk": 0,
             "exec": env}


def gen(rng, idx, tier):
  rep = rng.choice(sorted(REPERTOIRE))
  base = vgen.Gen(rng, unicode=False, onoff=0.03).listfile(
      rng.choice([1, 2, 4]))
  # sprinkle the repertoire over words of arguments and comments
  out = []
  for tok in reflex.lex(base):
    text = tok.text
    if tok.kind in ("lc", "q", "uq", "bc", "b") and rng.random() < 0.5:
      chars = "".join(rng.choice(REPERTOIRE[rep])
                      for _ in range(rng.choice([1, 3])))
      if tok.kind == "uq":
        text = text + chars
      elif tok.kind == "lc":
        text = text.rstrip("\r") + " " + chars
      else:
        text = text.replace("e", chars, 1) if "[" not in text else text
    out.append(text)
  text = "".join(out)
  if rng.random() < 0.15:
    text = text.replace("\n", "\r\n")
  one = rng.choice(ENCODINGS)
  cfg = fmt.make_cfg(rng)
  cfg.pop("emit_byteorder_mark", None)
  if rng.random() < 0.1:
    cfg["emit_byteorder_mark"] = True
  return {"text": text, "in": one,
          "out": one if rng.random() < 0.6 else rng.choice(ENCODINGS),
          "mode": rng.choice(MODES), "config": cfg,
          "junk": 1 if rng.random() < 0.1 else 0,
          "exec": rng.choice(["C", "latin"]) if idx % 50 == 0 else False}


JUNK = {"utf-8": b"# \xff\xfe\xfd\n", "utf-8-sig": b"# \xc3\x28\n",
        "ascii": b"# \xe4\n", "utf-16": b"\x00\xd8\x41", "utf-16-le":
        b"\x00\xd8\x41\x00", "shift_jis": b"# \xff\xff\n",
        "gb18030": b"# \xff\xff\n", "utf-32": b"\xff\xff\xff\xff"}


def run_env(args, stdin, cwd, env_kind):
  env = {k: v for k, v in os.environ.items()
         if not k.startswith(("LC_", "LANG", "PYTHON"))}
  env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="0",
             PYTHONCOERCECLOCALE="0")
  env["LC_ALL"] = "C"
  if env_kind == "latin":
    env["PYTHONIOENCODING"] = "latin-1"
  proc = subprocess.run(
      [sys.executable, "-m", "cmakelang.format"] + args, input=stdin, cwd=cwd,
      stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, check=False,
      timeout=120)
  return cli.Result(proc.returncode, proc.stdout, proc.stderr)


def judge(payload, obs):
  text, mode, cfg = payload["text"], payload["mode"], payload["config"]
  if "\r" in text.replace("\r\n", ""):
    raise Skip("bare carriage return")
  try:
    data = text.encode(payload["in"])
  except UnicodeEncodeError:
    raise Skip("the text does not exist in this encoding")
  bad_input = False
  if payload["junk"]:
    if payload["in"] not in JUNK:
      raise Skip("every byte is valid in this encoding")
    data += JUNK[payload["in"]]
  try:
    decoded = data.decode(payload["in"])
  except UnicodeDecodeError:
    bad_input = True
    decoded = text
  if decoded.startswith("\ufeff"):
    fmt.need_valid(decoded[1:])
  else:
    fmt.need_valid(decoded)
  out, _, err = fmt.try_fmt(decoded, cfg)
  if err:
    raise Skip("the library raises")
  try:
    want = out.encode(payload["out"])
  except UnicodeEncodeError:
    want = None
  with cli.Scratch() as box:
    path = box.write("x.cmake", data)
    other = box.write("y.cmake", "foo()\n".encode(payload["in"]))
    args = ["--input-encoding", payload["in"], "--output-encoding",
            payload["out"]]
    on_cli = []
    import json
    conf = box.write("c.json", json.dumps(cfg))
    args += ["-c", conf]
    stdin = b""
    tool = "format"
    if mode == "lint":
      tool = "lint"
      files = [path, other]
    elif mode == "stdin":
      stdin = data
      files = ["-"]
    else:
      files = [path]
    args = files + args + on_cli
    if mode == "out":
      args += ["-o", box / "result"]
    elif mode == "inplace":
      args += ["-i"]
    elif mode == "check":
      args += ["--check"]
    if payload["exec"] and tool == "format":
      res = run_env(args, stdin, box.path, payload["exec"])
      obs.hit("real processes in other locales")
    else:
      res = cli.run(tool, args, stdin=stdin, cwd=box.path)
    now = cli.read(path)
    result = cli.read(box / "result") if os.path.exists(
        box / "result") else None
  tag = "%s -> %s, %s: " % (payload["in"], payload["out"], mode)
  outcome = "ok"
  if mode == "lint":
    if now != data:
      return tag + "the input was changed"
    if bad_input:
      if res.code == 0:
        return tag + "undecodable input is not reported"
      outcome = "undecodable"
    if other.encode() not in res.out:
      return tag + "the second file was not scanned: %r" % res.err[-200:]
    if not bad_input and path.encode() not in res.out:
      return tag + "the file was not scanned: %r" % res.err[-200:]
  elif bad_input:
    outcome = "undecodable"
    if res.code == 0:
      return tag + "undecodable input is not reported"
    if now != data or result is not None or res.out:
      return tag + "undecodable input, but something was written"
  elif mode == "check":
    if now != data or res.out:
      return tag + "--check wrote something"
    if res.code != int(out != decoded):
      return tag + "--check exits %d, text changes: %s: %s" % (
          res.code, out != decoded, res.err[-200:])
  elif want is None and not (mode == "inplace" and out == decoded):
    outcome = "unencodable"
    if res.code == 0:
      return tag + "unencodable output is not reported"
    if now != data:
      return tag + "unencodable output, but the input was changed"
  else:
    if res.code != 0:
      return tag + "exit status %d: %s" % (res.code, res.err[-300:])
    if mode == "inplace":
      expect = data if out == decoded else want
      if now != expect:
        return tag + "the file is %r instead of %r" % (now, expect)
    else:
      if now != data:
        return tag + "the input was changed"
      got = result if mode == "out" else res.out
      if payload["exec"] and mode != "out" and payload["out"] in (
          "utf-16", "utf-32"):
        # CPython writes the mark of these codecs to a file, not to a pipe
        if got == want[2 if payload["out"] == "utf-16" else 4:]:
          got = want
      if got != want:
        return tag + "the result is %r instead of %r" % (got, want)
  obs.hit("outcome:" + outcome)
  obs.hit("mode:" + mode)
  if not text.isascii():
    obs.see(payload["in"], payload["out"], mode, outcome, text)
  return None
