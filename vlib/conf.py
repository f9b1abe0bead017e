"""
Configuration files: random options, a reference model of merging, and writing
them in every format and style.
"""
import json
import pprint

# option -> (section, values)
OPTIONS = {
    "line_width": ("format", [25, 40, 60, 79, 100, 120]),
    "tab_size": ("format", [1, 3, 4, 8]),
    "use_tabchars": ("format", [True, False]),
    "fractional_tab_policy": ("format", ["use-space", "round-up"]),
    "max_subgroups_hwrap": ("format", [1, 3, 5]),
    "max_pargs_hwrap": ("format", [1, 3, 12]),
    "max_rows_cmdline": ("format", [1, 4]),
    "separate_ctrl_name_with_space": ("format", [True, False]),
    "separate_fn_name_with_space": ("format", [True, False]),
    "dangle_parens": ("format", [True, False]),
    "dangle_align": ("format", ["prefix", "prefix-indent", "child"]),
    "min_prefix_chars": ("format", [0, 8]),
    "max_prefix_chars": ("format", [3, 30]),
    "max_lines_hwrap": ("format", [1, 4]),
    "line_ending": ("format", ["unix", "windows", "auto"]),
    "command_case": ("format", ["lower", "upper", "canonical", "unchanged"]),
    "keyword_case": ("format", ["lower", "upper", "unchanged"]),
    "always_wrap": ("format", [["foo"], ["set", "bar"]]),
    "autosort": ("format", [True, False]),
    "bullet_char": ("markup", ["-", "+"]),
    "enum_char": ("markup", [")"]),
    "first_comment_is_literal": ("markup", [True, False]),
    "literal_comment_pattern": ("markup", ["^ keep", "keep"]),
    "fence_pattern": ("markup", [r"^\s*(@{3}[@]*)(.*)$"]),
    "hashruler_min_length": ("markup", [4, 30]),
    "canonicalize_hashrulers": ("markup", [True, False]),
    "enable_markup": ("markup", [True, False]),
    "explicit_trailing_pattern": ("markup", ["#!<"]),
    "emit_byteorder_mark": ("encode", [True, False]),
    "additional_commands": ("parse", [
        {"my_cmd": {"pargs": 1, "flags": ["ONE"], "kwargs": {"TWO": "*"}}},
        {"other_cmd": {"kwargs": {"THREE": 1, "FOUR": "+"}}}]),
    "vartags": ("parse", [[["MYVAR.*", ["cmdline"]]]]),
    "per_command": ("misc", [{"foo": {"command_case": "upper"}},
                             {"bar": {"command_case": "upper"}}]),
    "disabled_codes": ("lint", [["C0301"], ["C0103", "C0305"]]),
    "max_statement_spacing": ("lint", [1, 4]),
    "function_pattern": ("lint", ["[A-Z]+"]),
    "macro_pattern": ("lint", ["[a-z_]+"]),
    "max_arguments": ("lint", [1]),
}

# A listfile of which the formatted text depends on every format option.
PROBE = """# first   comment
#   keeps its   shape

MY_CMD(pos ONE two TWO a b c d e f g h i j k l m n o p q r s t u v w x y z0 z1)
my_cmd(pos one two TWO alpha)
other_cmd(THREE aaaaaaaaaaaaaaaaaaaaaaaaaaaa FOUR bbbbbbbbbbbbbbbbbbbbbb ccccccccccccc)
if(A AND (B OR C) AND ddddddddddddddddddddddddddd AND eeeeeeeeeeeeeeeeeeeeeeeeeee)
foo(a b)
  bar(a b)
  bar(a b c d)
  bar(a b c d e f g h)
  if(x)
  foo(aaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbbbbbbb cccccccccccccccccccccc
      dddddddddddddddddddddddd)
  endif()
endif()
Set(MYVAR_X -aaaaaaaaa --bbbbbbbb=bbbbbbbb --ccccccccccccc -ddddddd eeeeeee fffffffff ggggggggg)
Set(MYVAR_X aaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbb cccccccccccccccccc dddddddddd eeeee)
set(x y CACHE string "doc")
message(status "a")
install(TARGETS a b RUNTIME DESTINATION c LIBRARY DESTINATION d ARCHIVE DESTINATION e COMPONENT f)
install(TARGETS aaaaaaaaaaaaaaaa RUNTIME DESTINATION bbbbbbbbbbb LIBRARY DESTINATION cccccccccc)
add_library(zz STATIC b.cc a.cc)
add_custom_target(t COMMAND aaaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbbb cccccccccc ddddddddd eeeeeeeee COMMENT x)
a(bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb cccccccccccccccccccccccccccccc ddddddddddddddddddd)
a_quite_long_command(aaaaaaaaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbb ccccccccccccccccc ddd)
other_cmd(THREE a FOUR bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb cccccccccccccccccccccccccccccc ddddddddddddddddddddddddddddddd eeeeeeeeeeeeeeeeeeeeeeeeeeeeeee fffffffffffffffffff)
foo(bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb cccccccccccccccccccccccccccccc ddddddddddddddddddddddddddddddd eeeeeeeeeeeeeeeeeeeeeeeeeeeeeee fffffffffffffffffff)
set_target_properties(aaaaaaaaaaaa PROPERTIES bbbbbbbbbbbbbb ccccccccccccccccc ddddddddd eeeee)
foo(a #!< explicit comment which is long enough that it has to be wrapped somewhere
  #!< here
  b)

# keep   this
# as  it   is

# * a bullet
# * another one
#
# 1. a number
# 2. another   number
#

######## ruler

# @@@
#   fenced    text
# @@@

##########################
function(Some_Function a b)
endfunction()
macro(SomeMacro)
endmacro()
"""


def nest(options):
  out = {}
  for key, value in options.items():
    out.setdefault(OPTIONS[key][0], {})[key] = value
  return out


def random_options(rng, count=None, keys=None):
  keys = keys or sorted(OPTIONS)
  if count is None:
    count = rng.choice([0, 1, 2, 2, 3, 5, 9])
  return {key: rng.choice(OPTIONS[key][1])
          for key in rng.sample(keys, min(count, len(keys)))}


def merge(first, second):
  """Latest wins, dictionaries are merged (a new dictionary)."""
  out = dict(first)
  for key, value in second.items():
    if isinstance(out.get(key), dict) and isinstance(value, dict):
      out[key] = merge(out[key], value)
    else:
      out[key] = value
  return out


def render(data, fmt, style=0):
  """The text of a config file for a (flat or nested) dictionary."""
  if fmt == "json":
    return json.dumps(data, indent=[None, 1, 4][style % 3],
                      ensure_ascii=bool(style & 4))
  if fmt == "yaml":
    import yaml
    if style % 3 == 1:
      return "# comment\n" + yaml.safe_dump(data, default_flow_style=False)
    if style % 3 == 2:
      return "---\n" + yaml.safe_dump(data, default_flow_style=True, width=60)
    return yaml.safe_dump(data, default_flow_style=False, allow_unicode=True)
  lines = ["# -*- coding: utf-8 -*-"] if style & 1 else []
  sections = {s for s, _ in OPTIONS.values()}
  entries = list(data.items())
  if len(data) % 2 == style % 2:
    # every section is opened twice, in an order that may be any
    entries = []
    for key, value in data.items():
      if key in sections and isinstance(value, dict) and len(value) > 1:
        names = list(value)
        entries.insert(0, (key, {n: value[n] for n in names[::2]}))
        entries.append((key, {n: value[n] for n in names[1::2]}))
      else:
        entries.append((key, value))
  for key, value in entries:
    if key in sections and isinstance(value, dict):
      if style % 3 == 0:
        lines.append("with section(%r):" % key)
        for sub, item in value.items():
          lines.append("  %s = %s" % (sub, pprint.pformat(item, width=1000)))
        if not value:
          lines.append("  pass")
      elif style % 3 == 1:
        lines.append("push_section(%r)" % key)
        for sub, item in value.items():
          lines.append("%s = %s" % (sub, pprint.pformat(item)))
        lines.append("pop_section()")
      elif "%s = {" % key in "\n".join(lines):
        lines.append("%s.update(%s)" % (key, pprint.pformat(value)))
      else:
        lines.append("%s = %s" % (key, pprint.pformat(value)))
    else:
      lines.append("%s = %s" % (key, pprint.pformat(value)))
  return "\n".join(lines) + "\n"
