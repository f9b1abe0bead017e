"""Running the real linter in-process."""
from . import fmt


def records(text, cfg=None):
  """-> list of (location tuple, code, message) in the reported order"""
  import io
  from cmakelang.lint import __main__ as lmain, lint_util
  config = fmt.make_config(dict(cfg or {}))
  out = io.StringIO()
  gctx = lint_util.GlobalContext(out)
  local = gctx.get_file_ctx("x.cmake", config)
  lmain.process_file(config, local, text)
  return [(tuple(r.location[:2]) if r.location else (), r.spec.idstr, r.msg)
          for r in local.get_lint()]


def diff(want, got, limit=4):
  """Compare two bags of records -> message or None."""
  import collections
  want, got = collections.Counter(want), collections.Counter(got)
  if want == got:
    return None
  miss = sorted((want - got).elements(), key=repr)[:limit]
  extra = sorted((got - want).elements(), key=repr)[:limit]
  return "missing %r, unexpected %r" % (miss, extra)
