"""
Check runner.

  python -m vlib.run C01 [--tier quick|thorough] [--replay FILE]

A check module `checks/<id>.py` provides

  RULE      text: how cases are made, what makes one non-trivial
  COUNT     {"quick": n, "thorough": n}
  fixed()   optional: iterable of hand written payloads, always run
  gen(rng, idx, tier) -> payload (JSON-able) or None
  judge(payload, obs) -> None (held) | str (violation) ; may raise Skip
  known(payload, message) -> None | known finding id   (optional)
  shrink(payload) -> iterable of smaller payloads       (optional)

`judge` is a deterministic function of the payload and the code under test: it
runs the real code and watches it. Generation and judgement are separate, so
that every violation can be replayed.

Verdicts are three-valued: held, violated, undecided (Skip, watchdog).
Undecided cases are counted, never believed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")
WALL_CAP = {"quick": 200.0, "thorough": 2 * 3600.0}


class Skip(Exception):
  """The case does not meet the precondition of the property."""


class Watchdog(BaseException):
  """Raised by the per-case alarm."""


class Obs(object):
  """What the monitors saw."""

  def __init__(self):
    self.counts = collections.Counter()
    self.distinct = set()
    self.nontrivial = False

  def hit(self, name, n=1):
    self.counts[name] += n

  def see(self, *parts):
    """Record a distinct non-trivial observation."""
    self.nontrivial = True
    digest = hashlib.blake2b(repr(parts).encode("utf-8", "replace"),
                             digest_size=8).digest()
    self.distinct.add(digest)


def _alarm(_signum, _frame):
  raise Watchdog()


def guarded(func, seconds):
  """Run func() under the watchdog."""
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, seconds)
  try:
    return func()
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


MODULE = None
MODULE_ID = None
TIER = None
SEED = None
CASE_LIMIT = 12.0
MEMORY_LIMIT = 3 << 30


def load(check_id):
  sys.path[:0] = [p for p in (VERIF, REPO) if p not in sys.path]
  return importlib.import_module("checks." + check_id.lower())


def _init(check_id, tier, seed):
  global MODULE, MODULE_ID, TIER, SEED
  import logging
  logging.disable(logging.CRITICAL)
  # a runaway loop in the code under test ends in a MemoryError
  _, hard = resource.getrlimit(resource.RLIMIT_AS)
  resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, hard))
  MODULE_ID, TIER, SEED = check_id, tier, seed
  MODULE = load(check_id)
  if hasattr(MODULE, "worker_setup"):
    MODULE.worker_setup()


def make(check_id, module, seed, idx, tier):
  from .reflex import RefError
  rng = random.Random("%s:%s:%d" % (check_id, seed, idx))
  try:
    return module.gen(rng, idx, tier)
  except (Skip, RefError):
    return None


def judge_one(module, payload, obs, limit=None):
  """-> (status, message)"""
  try:
    message = guarded(lambda: module.judge(payload, obs),
                      limit or getattr(module, "CASE_LIMIT", CASE_LIMIT))
  except Skip as ex:
    return "skip", str(ex)
  except Watchdog:
    return "timeout", ""
  except Exception as ex:  # pylint: disable=broad-except
    frames = traceback.extract_tb(ex.__traceback__)
    if frames and frames[-1].filename.startswith(REPO + "/"):
      # the code under test raised where the check had no provision for it
      message = "code under test raised %s: %s at %s:%s" % (
          type(ex).__name__, str(ex)[:200],
          os.path.relpath(frames[-1].filename, REPO), frames[-1].name)
    else:
      raise
  if message:
    return "violation", message
  return "held", None


def _work(job):
  kind, items = job
  counts = collections.Counter()
  distinct = set()
  samples = []
  bad = []
  for item in items:
    if kind == "gen":
      try:
        payload = make(MODULE_ID, MODULE, SEED, item, TIER)
      except Exception:  # pylint: disable=broad-except
        counts["_harness_error"] += 1
        bad.append(("error", {"index": item}, traceback.format_exc()))
        continue
      if payload is None:
        counts["_nogen"] += 1
        continue
    else:
      payload = item
    obs = Obs()
    try:
      status, message = judge_one(MODULE, payload, obs)
    except Exception:  # pylint: disable=broad-except
      counts["_harness_error"] += 1
      bad.append(("error", payload, traceback.format_exc()))
      continue
    counts["_evaluations"] += 1
    counts["_" + status] += 1
    counts.update(obs.counts)
    if status == "held":
      if obs.nontrivial:
        counts["_nontrivial"] += 1
        if len(samples) < 1:
          samples.append(payload)
      distinct |= obs.distinct
    elif status == "violation":
      kid = None
      if hasattr(MODULE, "known"):
        kid = MODULE.known(payload, message)
      if kid:
        counts["_known:" + kid] += 1
      else:
        counts["_violations"] += 1
        bad.append(("violation", payload, message))
    elif status == "timeout":
      bad.append(("timeout", payload, ""))
  return counts, distinct, samples, bad


def size_of(payload):
  return len(json.dumps(payload))


def generic_shrink(payload):
  """Smaller variants of a payload: chunks of text removed, options dropped."""
  for key in ("text", "source"):
    text = payload.get(key)
    if isinstance(text, str):
      lines = text.split("\n")
      size = max(1, len(lines) // 2)
      while size >= 1:
        for start in range(0, len(lines), size):
          cut = lines[:start] + lines[start + size:]
          yield dict(payload, **{key: "\n".join(cut)})
        if size == 1:
          break
        size //= 2
      if len(text) < 400:
        words = text.split(" ")
        for start in range(len(words)):
          yield dict(payload, **{key: " ".join(words[:start]
                                               + words[start + 1:])})
  cfg = payload.get("config")
  if isinstance(cfg, dict):
    for key in sorted(cfg):
      yield dict(payload, config={k: v for k, v in cfg.items() if k != key})


def shrink(module, payload, message, budget=25.0):
  """Greedy minimisation; a candidate must violate again, not as known."""
  end = time.time() + budget
  shrinker = getattr(module, "shrink", None) or generic_shrink
  progress = True
  while progress and time.time() < end:
    progress = False
    for cand in shrinker(payload):
      if time.time() > end:
        break
      if size_of(cand) >= size_of(payload):
        continue
      try:
        status, msg = judge_one(module, cand, Obs(), 10.0)
      except Exception:  # pylint: disable=broad-except
        continue
      if status != "violation":
        continue
      if hasattr(module, "known") and module.known(cand, msg):
        continue
      payload, message = cand, msg
      progress = True
      break
  return payload, message


def load_findings(check_id):
  out = []
  if not os.path.exists(FINDINGS):
    return out
  with open(FINDINGS, encoding="utf-8") as infile:
    for line in infile:
      line = line.strip()
      if not line or line.startswith("fixed:") or line.startswith("#"):
        continue
      rec = json.loads(line)
      if rec.get("property") == check_id:
        out.append(rec)
  return out


def check_findings(module, findings):
  """Re-run the witness of every listed finding against the real code."""
  alive = []
  for rec in findings:
    try:
      status, message = judge_one(module, rec["witness"], Obs())
    except Exception:  # pylint: disable=broad-except
      status, message = "error", traceback.format_exc()
    rec["_status"] = status
    rec["_message"] = message
    if status == "violation":
      alive.append(rec)
  return alive


def chunks(seq, size):
  buf = []
  for item in seq:
    buf.append(item)
    if len(buf) >= size:
      yield buf
      buf = []
  if buf:
    yield buf


def write_json(path, obj):
  tmp = path + ".tmp"
  with open(tmp, "w", encoding="utf-8") as outfile:
    json.dump(obj, outfile, indent=1, ensure_ascii=True, sort_keys=True)
    outfile.write("\n")
  os.replace(tmp, path)


def main(argv=None):
  argparser = argparse.ArgumentParser()
  argparser.add_argument("check")
  argparser.add_argument("--tier", default=os.environ.get("VERIF_TIER",
                                                          "quick"))
  argparser.add_argument("--seed", type=int,
                         default=int(os.environ.get("VERIF_SEED", "1")))
  argparser.add_argument("--replay")
  argparser.add_argument("--scale", type=float, default=1.0)
  argparser.add_argument("--jobs", type=int, default=0)
  argparser.add_argument("--max-bad", type=int, default=1)
  args = argparser.parse_args(argv)
  check_id = args.check.upper()
  tier = args.tier if args.tier in WALL_CAP else "quick"
  start = time.time()
  os.makedirs(EVIDENCE, exist_ok=True)

  _init(check_id, tier, args.seed)
  module = MODULE

  if args.replay:
    with open(args.replay, encoding="utf-8") as infile:
      rec = json.load(infile)
    payload = rec.get("payload", rec)
    status, message = judge_one(module, payload, Obs())
    print("%s: %s" % (status, message))
    return 1 if status == "violation" else 0

  findings = load_findings(check_id)
  alive = check_findings(module, findings)
  for rec in alive:
    print("KNOWN-FINDING: property=%s %s: %s"
          % (check_id, rec["id"], rec["what"]))

  jobs = args.jobs or os.cpu_count() or 4
  jobs = min(jobs, getattr(module, "MAX_JOBS", jobs))
  total = int(module.COUNT[tier] * args.scale)
  fixed = list(module.fixed()) if hasattr(module, "fixed") else []
  csize = getattr(module, "CHUNK", 16)
  worklist = [("fixed", c) for c in chunks(fixed, 4)]
  worklist += [("gen", c) for c in chunks(range(total), csize)]

  counts = collections.Counter()
  distinct = set()
  samples = []
  violations = []
  timeouts = []
  errors = []
  capped = False
  broken = None
  cap = getattr(module, "WALL", WALL_CAP).get(tier, WALL_CAP[tier])

  import concurrent.futures as futures
  import multiprocessing
  ctx = multiprocessing.get_context("fork")
  with futures.ProcessPoolExecutor(
      jobs, mp_context=ctx, initializer=_init,
      initargs=(check_id, tier, args.seed)) as pool:
    pending = set()
    it = iter(worklist)
    done_feeding = False
    try:
      while True:
        while not done_feeding and len(pending) < jobs * 3:
          if time.time() - start > cap:
            capped = True
            done_feeding = True
            break
          try:
            pending.add(pool.submit(_work, next(it)))
          except StopIteration:
            done_feeding = True
        if not pending:
          break
        done, pending = futures.wait(
            pending, timeout=5, return_when=futures.FIRST_COMPLETED)
        for fut in done:
          cnt, dist, smp, bad = fut.result()
          counts.update(cnt)
          distinct |= dist
          if len(samples) < 5:
            samples.extend(smp)
          for kind, payload, message in bad:
            if kind == "violation":
              violations.append((payload, message))
            elif kind == "timeout":
              timeouts.append(payload)
            else:
              errors.append((payload, message))
        if len(violations) >= args.max_bad:
          done_feeding = True
          for fut in pending:
            fut.cancel()
          pending = {f for f in pending if not f.cancelled()}
    except futures.process.BrokenProcessPool as ex:
      broken = str(ex)

  # A timeout is not a verdict: try again alone, with a generous limit.
  undecided = []
  decisive = getattr(module, "TIMEOUT_IS_VIOLATION", None)
  for payload in timeouts[:3]:
    if not (tier == "thorough" or (decisive and decisive(payload))):
      undecided.append(payload)
      continue
    status, message = judge_one(module, payload, Obs(), 60.0)
    if status == "violation":
      if not (hasattr(module, "known") and module.known(payload, message)):
        violations.append((payload, message))
    elif status == "timeout":
      if decisive and decisive(payload):
        violations.append((payload, "no result within 60 s"))
      else:
        undecided.append(payload)

  code = 0
  replay_path = None
  if violations:
    violations.sort(key=lambda x: size_of(x[0]))
    payload, message = violations[0]
    payload, message = shrink(module, payload, message)
    replay_path = os.path.join(EVIDENCE, "replay-%s.json" % check_id)
    write_json(replay_path, {"property": check_id, "seed": args.seed,
                             "tier": tier, "message": message,
                             "payload": payload})
    print("---- violation: %s" % message)
    for key in sorted(payload):
      value = payload[key]
      if isinstance(value, str) and "\n" in value:
        print("---- %s:\n%s" % (key, value))
      else:
        print("---- %s: %r" % (key, value))
    print("VIOLATION property=%s replay=%s" % (check_id, replay_path))
    code = 1
  elif errors:
    print("HARNESS ERROR (%d):\n%s" % (len(errors), errors[0][1]))
    code = 3
  elif broken:
    print("HARNESS ERROR: worker pool broke: %s" % broken)
    code = 3
  elif counts["_evaluations"] == 0 or not distinct:
    print("INCONCLUSIVE: the monitors observed nothing")
    code = 3

  coverage = {
      "evaluations": counts["_evaluations"],
      "distinct_nontrivial": len(distinct),
      "rule": " ".join(module.RULE.split()),
      "samples": samples[:3] or [{"note": "no non-trivial sample"}],
      "nontrivial_cases": counts["_nontrivial"],
      "held": counts["_held"],
      "skipped_precondition": counts["_skip"],
      "undecided_timeout": len(timeouts),
      "undecided_samples": timeouts[:2],
      "not_generated": counts["_nogen"],
      "stopped_by_wall_cap": capped,
      "fixed_cases": len(fixed),
      "events": {k: v for k, v in sorted(counts.items())
                 if not k.startswith("_")},
      "known_findings_seen": {k[7:]: v for k, v in counts.items()
                              if k.startswith("_known:")},
      "known_findings_witnessed": [r["id"] for r in alive],
      "known_findings_gone": [r["id"] for r in findings if r not in alive],
  }
  if hasattr(module, "coverage_extra"):
    coverage.update(module.coverage_extra(tier))
  write_json(os.path.join(EVIDENCE, check_id + ".json"), {
      "property": check_id, "tier": tier, "seed": args.seed,
      "level": getattr(module, "LEVEL", "exploration"),
      "coverage": coverage, "wall_s": round(time.time() - start, 2),
      "violations": len(violations),
      "violation_samples": [{"message": m, "payload": p, "replay": replay_path}
                            for p, m in violations[:3]],
  })
  print("%s %s seed=%d: %d cases (%d non-trivial, %d distinct), %d skipped, "
        "%d undecided, %d violations, %.1f s"
        % (check_id, tier, args.seed, counts["_evaluations"],
           counts["_nontrivial"], len(distinct), counts["_skip"],
           len(timeouts), len(violations), time.time() - start))
  if counts["_evaluations"]:
    for key in ("_known:",):
      for k, v in sorted(counts.items()):
        if k.startswith(key):
          print("  known finding %s seen %d times in the sweep" % (k[7:], v))
  return code


if __name__ == "__main__":
  # run the module under its real name so that workers and checks share it
  sys.path[:0] = [VERIF]
  from vlib import run as _run
  sys.exit(_run.main())
