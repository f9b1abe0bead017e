"""
Workload generation: random listfiles, respacing of existing listfiles, and
random configurations.  Everything is driven by a `random.Random`.
"""
import glob
import json
import os
import re

from . import reflex

HERE = os.path.dirname(os.path.abspath(__file__))

with open(os.path.join(HERE, "cmdtable.json")) as _infile:
  TABLE = json.load(_infile)

# name -> (min positional, max positional, [keywords], [flags])
HAND = {
    "add_compile_definitions": (1, 5, [], []),
    "add_compile_options": (1, 5, [], []),
    "add_custom_command": (0, 0, [
        "OUTPUT", "COMMAND", "COMMAND", "MAIN_DEPENDENCY", "DEPENDS",
        "BYPRODUCTS", "IMPLICIT_DEPENDS", "WORKING_DIRECTORY", "COMMENT",
        "DEPFILE", "TARGET", "ARGS"],
                           ["VERBATIM", "APPEND", "USES_TERMINAL",
                            "COMMAND_EXPAND_LISTS", "POST_BUILD"]),
    "add_custom_target": (1, 1, ["COMMAND", "COMMAND", "DEPENDS",
                                 "BYPRODUCTS", "WORKING_DIRECTORY", "COMMENT",
                                 "SOURCES"],
                          ["ALL", "VERBATIM", "USES_TERMINAL"]),
    "add_definitions": (1, 4, [], []),
    "add_dependencies": (2, 6, [], []),
    "add_executable": (1, 12, [], ["WIN32", "MACOSX_BUNDLE",
                                   "EXCLUDE_FROM_ALL"]),
    "add_library": (1, 12, [], ["STATIC", "SHARED", "MODULE",
                                "EXCLUDE_FROM_ALL"]),
    "add_subdirectory": (1, 2, [], ["EXCLUDE_FROM_ALL"]),
    "aux_source_directory": (2, 2, [], []),
    "break": (0, 0, [], []),
    "continue": (0, 0, [], []),
    "return": (0, 0, [], []),
    "cmake_parse_arguments": (4, 6, [], []),
    "cmake_policy": (0, 3, ["VERSION", "SET", "GET"], ["PUSH", "POP"]),
    "enable_testing": (0, 0, [], []),
    "externalproject_add": (1, 1, [
        "DEPENDS", "PREFIX", "URL", "URL_HASH", "GIT_REPOSITORY", "GIT_TAG",
        "CMAKE_ARGS", "CMAKE_CACHE_ARGS", "BUILD_COMMAND", "INSTALL_COMMAND",
        "PATCH_COMMAND", "SOURCE_DIR", "BINARY_DIR"], []),
    "fetchcontent_declare": (1, 1, ["GIT_REPOSITORY", "GIT_TAG", "URL",
                                    "URL_HASH", "SOURCE_DIR"], []),
    "get_cmake_property": (2, 2, [], []),
    "get_filename_component": (2, 3, ["BASE_DIR", "PROGRAM"], ["CACHE"]),
    "get_source_file_property": (3, 3, [], []),
    "get_target_property": (3, 3, [], []),
    "include_guard": (0, 0, [], ["DIRECTORY", "GLOBAL"]),
    "include_regular_expression": (1, 2, [], []),
    "link_directories": (1, 4, [], ["AFTER", "BEFORE"]),
    "link_libraries": (1, 4, [], []),
    "load_cache": (1, 3, ["READ_WITH_PREFIX", "EXCLUDE"], []),
    "math": (3, 3, [], []),
    "option": (2, 3, [], []),
    "remove_definitions": (1, 3, [], []),
    "separate_arguments": (1, 1, [], []),
    "set": (1, 9, [], ["PARENT_SCOPE"]),
    "set_source_files_properties": (1, 4, [], []),
    "set_target_properties": (1, 3, [], []),
    "site_name": (1, 1, [], []),
    "source_group": (1, 1, ["FILES", "REGULAR_EXPRESSION", "TREE", "PREFIX"],
                     []),
    "target_compile_definitions": (1, 1, ["PUBLIC", "PRIVATE", "INTERFACE"],
                                   []),
    "target_compile_features": (1, 1, ["PUBLIC", "PRIVATE", "INTERFACE"], []),
    "target_sources": (1, 1, ["PUBLIC", "PRIVATE", "INTERFACE"], []),
    "unset": (1, 1, [], ["CACHE", "PARENT_SCOPE"]),
    "variable_watch": (1, 2, [], []),
    "make_directory": (1, 1, [], []),
    "install_files": (2, 4, [], []),
}

# Literal forms of the multi-form commands.  Upper case words are literal, a
# lower case word is a random argument, "+" after a word repeats it.
FORMS = """
set ( name value+ CACHE STRING q )
set ( name value CACHE BOOL q FORCE )
set ( ENV{name} value )
set ( name file+ )
set_target_properties ( name name PROPERTIES prop value prop value prop value )
set_source_files_properties ( file file PROPERTIES prop value )
set_property ( TARGET name PROPERTY prop value+ )
set_property ( GLOBAL APPEND PROPERTY prop value+ )
set_tests_properties ( name name PROPERTIES prop value prop value )
file ( READ file name )
file ( STRINGS file name REGEX q )
file ( WRITE file q )
file ( APPEND file q q )
file ( GLOB name CONFIGURE_DEPENDS RELATIVE file file file )
file ( GLOB_RECURSE name file+ )
file ( REMOVE file+ )
file ( MAKE_DIRECTORY file+ )
file ( RELATIVE_PATH name file file )
file ( TO_CMAKE_PATH q name )
file ( DOWNLOAD url file TIMEOUT 30 STATUS name SHOW_PROGRESS )
file ( COPY file file DESTINATION file FILE_PERMISSIONS OWNER_READ GROUP_READ FILES_MATCHING PATTERN q EXCLUDE )
file ( INSTALL file DESTINATION file PATTERN q PERMISSIONS OWNER_READ )
file ( GENERATE OUTPUT file CONTENT q CONDITION genex )
file ( LOCK file DIRECTORY RELEASE GUARD FUNCTION RESULT_VARIABLE name TIMEOUT 10 )
file ( TIMESTAMP file name )
file ( SHA256 file name )
list ( LENGTH name name )
list ( APPEND name value+ )
list ( GET name 0 1 name )
list ( FIND name value name )
list ( INSERT name 0 value+ )
list ( REMOVE_ITEM name value+ )
list ( SORT name )
list ( FILTER name INCLUDE REGEX q )
list ( TRANSFORM name APPEND q REGEX q OUTPUT_VARIABLE name )
list ( JOIN name q name )
string ( FIND q value name REVERSE )
string ( REPLACE q q name value+ )
string ( REGEX MATCH q name value+ )
string ( REGEX REPLACE q q name value+ )
string ( APPEND name value+ )
string ( CONCAT name value+ )
string ( TOLOWER value name )
string ( SUBSTRING value 0 4 name )
string ( CONFIGURE q name @ONLY ESCAPE_QUOTES )
string ( TIMESTAMP name q UTC )
string ( RANDOM LENGTH 4 ALPHABET value name )
string ( SHA1 name value )
install ( TARGETS name+ RUNTIME DESTINATION file COMPONENT name LIBRARY DESTINATION file NAMELINK_ONLY ARCHIVE DESTINATION file )
install ( TARGETS name EXPORT name PUBLIC_HEADER DESTINATION file OPTIONAL )
install ( FILES file+ DESTINATION file PERMISSIONS OWNER_READ GROUP_READ RENAME name )
install ( PROGRAMS file+ DESTINATION file CONFIGURATIONS name )
install ( DIRECTORY file+ DESTINATION file FILES_MATCHING PATTERN q EXCLUDE PATTERN q )
install ( SCRIPT file )
install ( CODE q )
install ( EXPORT name DESTINATION file NAMESPACE name FILE file )
export ( TARGETS name+ NAMESPACE name FILE file )
export ( PACKAGE name )
add_library ( name STATIC file+ )
add_library ( name IMPORTED GLOBAL )
add_library ( name OBJECT file+ )
add_library ( name ALIAS name )
add_library ( name INTERFACE )
add_executable ( name ALIAS name )
add_executable ( name IMPORTED )
add_executable ( name WIN32 EXCLUDE_FROM_ALL file+ )
add_test ( NAME name COMMAND name value+ WORKING_DIRECTORY file )
add_test ( name name value+ )
add_custom_command ( OUTPUT file+ COMMAND name value+ COMMAND name value+ DEPENDS file+ WORKING_DIRECTORY file COMMENT q VERBATIM )
add_custom_command ( TARGET name POST_BUILD COMMAND name -E value+ )
add_custom_target ( name ALL COMMAND name value+ DEPENDS file+ )
add_custom_target ( name DEPENDS file+ SOURCES file+ )
target_link_libraries ( name PUBLIC name+ PRIVATE name+ INTERFACE genex )
target_link_libraries ( name name+ )
target_include_directories ( name SYSTEM BEFORE PUBLIC genex genex PRIVATE file+ )
target_compile_options ( name PRIVATE flag+ )
target_compile_definitions ( name PUBLIC flag+ INTERFACE flag )
target_sources ( name PRIVATE file+ PUBLIC file )
find_package ( name 1.2.3 EXACT REQUIRED COMPONENTS name+ OPTIONAL_COMPONENTS name )
find_library ( name NAMES name+ HINTS file+ PATHS file PATH_SUFFIXES lib lib64 DOC q NO_DEFAULT_PATH )
find_path ( name file HINTS ENV name file PATH_SUFFIXES include )
find_program ( name NAMES name name DOC q )
execute_process ( COMMAND name value+ COMMAND name value WORKING_DIRECTORY file RESULT_VARIABLE name OUTPUT_VARIABLE name ERROR_QUIET OUTPUT_STRIP_TRAILING_WHITESPACE )
try_compile ( name file file CMAKE_FLAGS flag flag OUTPUT_VARIABLE name )
configure_file ( file file @ONLY )
configure_file ( file file COPYONLY )
message ( STATUS q q )
message ( FATAL_ERROR q )
message ( q )
project ( name VERSION 1.2.3 LANGUAGES C CXX DESCRIPTION q )
cmake_minimum_required ( VERSION 3.5 FATAL_ERROR )
cmake_parse_arguments ( name q q q ${ARGN} )
cmake_parse_arguments ( PARSE_ARGV 1 name q q q )
include ( name OPTIONAL RESULT_VARIABLE name )
include ( file )
option ( name q ON )
math ( EXPR name q )
get_property ( name TARGET name PROPERTY prop )
get_target_property ( name name prop )
get_filename_component ( name file DIRECTORY )
define_property ( GLOBAL PROPERTY prop BRIEF_DOCS q FULL_DOCS q )
externalproject_add ( name PREFIX file URL url CMAKE_ARGS flag+ BUILD_COMMAND name value INSTALL_COMMAND q )
ExternalProject_Add_Step ( name name COMMAND name value+ DEPENDEES name DEPENDERS name )
FetchContent_Declare ( name GIT_REPOSITORY url GIT_TAG value )
gtest_discover_tests ( name EXTRA_ARGS value+ WORKING_DIRECTORY file )
foo ( value BAR BAZ HEADERS file+ SOURCES file+ DEPENDS name+ )
unset ( name CACHE )
mark_as_advanced ( FORCE name+ )
find_package_handle_standard_args ( name REQUIRED_VARS name+ VERSION_VAR name )
write_basic_package_version_file ( file VERSION 1.0.0 COMPATIBILITY SameMajorVersion )
install ( DIRECTORY file+ DESTINATION file USE_SOURCE_PERMISSIONS OPTIONAL MESSAGE_NEVER COMPONENT name EXCLUDE_FROM_ALL FILES_MATCHING PATTERN q EXCLUDE )
install ( DIRECTORY file TYPE name FILE_PERMISSIONS OWNER_READ DIRECTORY_PERMISSIONS OWNER_READ CONFIGURATIONS name REGEX q EXCLUDE PERMISSIONS OWNER_READ )
install ( EXPORT name DESTINATION file EXPORT_LINK_INTERFACE_LIBRARIES COMPONENT name EXCLUDE_FROM_ALL )
install ( SCRIPT file COMPONENT name EXCLUDE_FROM_ALL )
find_library ( name NAMES name+ NO_CMAKE_SYSTEM_PATH )
find_path ( name NAMES file+ NO_CMAKE_SYSTEM_PATH )
file ( UPLOAD file url INACTIVITY_TIMEOUT 10 LOG name USERPWD value HTTPHEADER q NETRC q )
file ( STRINGS file name LENGTH_MAXIMUM 10 LIMIT_COUNT 5 NEWLINE_CONSUME NO_HEX_CONVERSION ENCODING UTF-8 )
file ( READ file name OFFSET 1 LIMIT 10 HEX )
file ( DOWNLOAD url file EXPECTED_HASH value TLS_VERIFY ON )
list ( SORT name COMPARE STRING CASE INSENSITIVE ORDER DESCENDING )
list ( TRANSFORM name REPLACE q q AT 0 1 OUTPUT_VARIABLE name )
get_filename_component ( name file NAME_WE CACHE )
get_filename_component ( name file PROGRAM PROGRAM_ARGS name CACHE )
include_guard ( GLOBAL )
include_guard ( DIRECTORY )
math ( EXPR name q OUTPUT_FORMAT name )
cmake_policy ( SET CMP0012 NEW )
cmake_policy ( GET CMP0012 name )
unset ( name PARENT_SCOPE )
separate_arguments ( name UNIX_COMMAND q )
source_group ( TREE file PREFIX name FILES file+ )
add_custom_command ( TARGET name PRE_LINK COMMAND name value BYPRODUCTS file COMMENT q VERBATIM USES_TERMINAL )
add_custom_command ( OUTPUT file APPEND MAIN_DEPENDENCY file COMMAND name value IMPLICIT_DEPENDS CXX file COMMAND_EXPAND_LISTS )
""".strip().split("\n")
FORMS = [form.split() for form in FORMS]

CONDS = ["EQUAL", "LESS", "GREATER", "STREQUAL", "STRLESS", "MATCHES",
         "VERSION_LESS", "VERSION_EQUAL", "VERSION_GREATER_EQUAL",
         "IS_NEWER_THAN", "IN_LIST"]
UNARY = ["DEFINED", "EXISTS", "TARGET", "COMMAND", "POLICY", "IS_DIRECTORY",
         "IS_ABSOLUTE", "TEST"]

WORDS = ("foo bar baz alpha beta gamma delta src main lib core util test data "
         "the quick brown fox jumps over lazy dog configure target version "
         "build install header source option value this that with from").split()
UNI = ["é", "ß", "λόγος", "日本語", "naïve", "Ω", "…", "—", "𝄞"]
PROPS = ["CXX_STANDARD", "FOLDER", "OUTPUT_NAME", "VERSION", "SOVERSION",
         "INCLUDE_DIRECTORIES", "POSITION_INDEPENDENT_CODE", "LINK_FLAGS",
         "ENVIRONMENT", "COMPILE_FLAGS", "RUNTIME_OUTPUT_DIRECTORY"]


class Gen(object):
  """One random listfile generator. Options select the hostile features."""

  def __init__(self, rng, **opts):
    self.rng = rng
    self.opt = {
        "comments": True,       # any comments at all
        "markup": True,         # comments with bullets, rulers, fences...
        "argcomments": True,    # comments within argument lists
        "onoff": 0.0,           # probability of an off/on region
        "onoff_args": 0.0,      # ... within an argument list
        "tags": 0.05,           # sort tags
        "multiline": True,      # multi-line strings / brackets
        "trailws": False,       # trailing blanks inside of multi-line strings
        "unicode": True,
        "escapes": True,
        "long": True,           # very long tokens
        "nl": "\n",
        "blocks": True,
        "wild": 0.1,            # structurally odd argument lists
        "atwords": True,
        "sloppy": True,         # random whitespace
        "case": True,           # random command case
        "explicit": True,       # "#<" comments
        "paren": True,          # parenthesised groups in plain commands
        "bracket_comment": True,
        "legacy": True,
        "squote": False,
        "tabs": True,
        "punct": True,          # punctuation in comments
    }
    self.opt.update(opts)

  # -- atoms ---------------------------------------------------------------
  def p(self, prob):
    return self.rng.random() < prob

  def word(self):
    rng = self.rng
    if self.opt["unicode"] and self.p(0.04):
      return rng.choice(UNI)
    return rng.choice(WORDS)

  def name(self):
    rng = self.rng
    kind = rng.randrange(6)
    if kind == 0:
      return rng.choice(WORDS)
    if kind == 1:
      return "_".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))
    if kind == 2:
      return "_".join(rng.choice(WORDS) for _ in range(
          rng.randint(1, 4))).upper()
    if kind == 3:
      return "${%s}" % self.name_plain()
    if kind == 4:
      return "%s::%s" % (rng.choice(WORDS), rng.choice(WORDS))
    return "".join(rng.choice(WORDS).title() for _ in range(
        rng.randint(1, 3)))

  def name_plain(self):
    return "_".join(self.rng.choice(WORDS) for _ in range(
        self.rng.randint(1, 3))).upper()

  def file(self):
    rng = self.rng
    base = "/".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))
    if self.p(0.3):
      base = "${%s}/%s" % (rng.choice(
          ["CMAKE_CURRENT_SOURCE_DIR", "CMAKE_BINARY_DIR", "X"]), base)
    return base + rng.choice([".cc", ".h", ".cmake", ".txt", "", "-x.cpp"])

  def genex(self):
    rng = self.rng
    return rng.choice([
        "$<TARGET_FILE:%s>" % rng.choice(WORDS),
        "$<$<CONFIG:Debug>:-D%s>" % self.name_plain(),
        "$<BUILD_INTERFACE:${CMAKE_CURRENT_SOURCE_DIR}/%s>"
        % rng.choice(WORDS),
        "$<$<AND:$<BOOL:${%s}>,$<NOT:$<BOOL:%s>>>:%s>" % (
            self.name_plain(), self.name_plain(), rng.choice(WORDS)),
        "$<INSTALL_INTERFACE:include>",
    ])

  def flag(self):
    rng = self.rng
    forms = ["-D%s=%s" % (self.name_plain(), rng.choice(WORDS)),
             "-W%s" % rng.choice(WORDS), "-std=c++17", "-O2", "--%s=%s" % (
                 rng.choice(WORDS), rng.choice(WORDS)), "/W4", "-j8"]
    if self.opt["legacy"]:
      forms.append('-D%s="%s %s"' % (
          self.name_plain(), rng.choice(WORDS), rng.choice(WORDS)))
      forms.append('%s="%s"' % (rng.choice(WORDS), rng.choice(WORDS)))
    return rng.choice(forms)

  def url(self):
    return "https://%s.com/%s.tar.gz" % (
        self.rng.choice(WORDS), self.rng.choice(WORDS))

  def qcontent(self):
    rng = self.rng
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 16])):
      kind = rng.randrange(12)
      if kind == 0:
        parts.append("${%s}" % self.name_plain())
      elif kind == 1 and self.opt["escapes"]:
        parts.append(rng.choice(
            ['\\"', "\\\\", "\\n", "\\t", "\\;", "\\$", "\\@", "\\#"]))
      elif kind == 2:
        parts.append(rng.choice(["#", "(", ")", ";", "()", "[[", "]]", "'",
                                 "%", "a=b", "@X@", "# not a comment"]))
      elif kind == 3 and self.opt["unicode"]:
        parts.append(rng.choice(UNI))
      else:
        parts.append(rng.choice(WORDS))
    out = []
    for part in parts:
      out.append(part)
      roll = rng.random()
      if self.opt["multiline"] and roll < 0.04:
        out.append(self.opt["nl"])
        if self.p(0.6):
          out.append(" " * rng.randint(0, 9))
      elif self.opt["multiline"] and self.opt["trailws"] and roll < 0.10:
        out.append(rng.choice([" ", "  ", "\t", " \t "]) + self.opt["nl"]
                   + rng.choice(["", "  ", "\t"]))
      elif self.opt["multiline"] and self.opt["escapes"] and roll < 0.11:
        out.append("\\" + self.opt["nl"])
      elif roll < 0.85:
        out.append(rng.choice([" ", " ", " ", "  ", "   "]))
    content = "".join(out)
    # a trailing odd run of backslashes cannot occur: escapes come in pairs
    return content

  def quoted(self):
    return '"' + self.qcontent() + '"'

  def bracket(self):
    rng = self.rng
    eqs = "=" * rng.choice([0, 0, 0, 1, 1, 2, 3])
    pieces = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
      kind = rng.randrange(10)
      if kind == 0:
        pieces.append(rng.choice(['"', "(", ")", "#", "\\", "${X}", "]", "[",
                                  "\\n", "]=", "# x", "'"]))
      else:
        pieces.append(self.word())
      roll = rng.random()
      if self.opt["multiline"] and roll < 0.15:
        pieces.append(self.opt["nl"] + " " * rng.choice([0, 0, 2, 5]))
      elif self.opt["multiline"] and self.opt["trailws"] and roll < 0.22:
        pieces.append("  " + self.opt["nl"])
      elif roll < 0.9:
        pieces.append(" ")
    content = "".join(pieces)
    close = "]" + eqs + "]"
    if close in content + "]" + eqs:
      content = content.replace("]", ".")
    if self.opt["multiline"] and self.p(0.15):
      content = self.opt["nl"] + content
    return "[" + eqs + "[" + content + close

  def unquoted(self):
    rng = self.rng
    kind = rng.randrange(16)
    if kind < 4:
      return self.word()
    if kind < 6:
      return self.name()
    if kind == 6:
      return self.file()
    if kind == 7:
      return self.genex()
    if kind == 8:
      return self.flag()
    if kind == 9:
      return str(rng.randint(-3, 4000))
    if kind == 10:
      return ";".join(rng.choice(WORDS) for _ in range(rng.randint(2, 4)))
    if kind == 11 and self.opt["escapes"]:
      return rng.choice(["a\\ b", "a\\;b", "\\${X}", "\\#x", "x\\(y\\)",
                         "\\\\", "\\\"", "a\\\\b", "\\n", "\\(", "\\)x",
                         "\\@x"])
    if kind == 12 and self.opt["long"]:
      return rng.choice(WORDS) * rng.randint(5, 25)
    if kind == 13:
      return rng.choice(["$ENV{HOME}", "${a${b}c}", "@VAR@", "*.cc", "+",
                         "a=b", "=", "==", "a[0]", "<x>", "1.2.3", "~/x",
                         "%", "^", "&&", "||", ">", "x:y", ":", "!", "?",
                         "a,b", "C:/x", "-", "--", "_", "$", "a$b",
                         "${X}${Y}", "a]]", "]", "`", "{", "}", "|"])
    if kind == 14 and self.opt["legacy"]:
      return rng.choice(['a"b"', '$(MAKE)', '-Dx="y z"', '"a"b',
                         'x="${Y} z"', 'a"b"c"d"', '$(X)/y', 'a[[b]'])
    if kind == 15 and self.opt["squote"]:
      return rng.choice(["'x'", "it's", "'"])
    return self.word()

  def value(self):
    roll = self.rng.random()
    if roll < 0.16:
      return self.quoted()
    if roll < 0.20:
      return self.bracket()
    return self.unquoted()

  def atom(self, kind):
    if kind == "q":
      return self.quoted() if self.p(0.9) else self.value()
    if kind == "prop":
      return self.rng.choice(PROPS)
    return getattr(self, kind)()

  # -- argument lists --------------------------------------------------------
  def args_form(self, form):
    out = []
    words = form[2:-1]
    for word in words:
      repeat = word.endswith("+") and len(word) > 1
      base = word[:-1] if repeat else word
      if base in ("name", "value", "file", "q", "prop", "url", "genex",
                  "flag"):
        count = self.rng.choice([1, 1, 2, 3, 5, 9]) if repeat else 1
        out.extend(self.atom(base) for _ in range(count))
      else:
        if self.p(0.08):
          base = base.lower()
        out.append(base)
    return out

  def args_table(self, name):
    rng = self.rng
    if name in HAND:
      lo, hi, kwargs, flags = HAND[name]
      kwmap = {k: None for k in kwargs}
      kwlist = [k for k in kwargs if self.p(0.35)]
    else:
      spec = TABLE[name]
      nargs = spec["n"]
      lo, hi = 0, 3
      if nargs and isinstance(nargs[0], int):
        lo = hi = nargs[0]
      elif nargs and nargs[0] == "+":
        lo = 1
      flags = spec["f"]
      kwmap = spec["k"]
      keys = sorted(kwmap)
      kwlist = [rng.choice(keys) for _ in range(
          rng.choice([0, 1, 1, 2, 3, 5]))] if keys else []
    out = [self.value() for _ in range(rng.randint(lo, hi))]
    sections = []
    for kwarg in kwlist:
      section = [kwarg]
      sub = kwmap.get(kwarg) if isinstance(kwmap, dict) else None
      nargs = sub["n"][0] if sub and sub["n"] else "*"
      if isinstance(nargs, int):
        count = nargs
      else:
        count = rng.choice([1, 1, 1, 2, 3, 6])
        if nargs == "?" :
          count = min(count, 1)
      section.extend(self.value() for _ in range(count))
      if sub:
        if sub["f"] and self.p(0.3):
          section.append(rng.choice(sub["f"]))
        if sub["k"] and self.p(0.5):
          section.append(rng.choice(sorted(sub["k"])))
          section.append(self.value())
      sections.append(section)
    for flag in flags:
      if self.p(0.25):
        sections.append([flag])
    rng.shuffle(sections)
    for section in sections:
      out.extend(section)
    return out

  def cond(self, depth=0):
    rng = self.rng
    roll = rng.random()
    if roll < 0.35:
      return [self.name_plain()]
    if roll < 0.5:
      return [rng.choice(UNARY), self.name()]
    if roll < 0.72:
      return [self.value(), rng.choice(CONDS), self.value()]
    if roll < 0.80:
      return ["NOT"] + self.cond(depth + 1)
    if roll < 0.90 and depth < 2:
      return ["("] + self.cond(depth + 1) + [")"]
    if depth < 3:
      return (self.cond(depth + 1) + [rng.choice(["AND", "OR"])]
              + self.cond(depth + 1))
    return [self.name_plain()]

  # -- comments ----------------------------------------------------------------
  def prose(self, maxwords=12):
    return " ".join(self.prose_word() for _ in range(
        self.rng.randint(1, maxwords)))

  def prose_word(self):
    word = self.word()
    if self.opt["punct"] and self.p(0.12):
      return self.rng.choice([
          "%s,", "%s.", "(%s)", "`%s`", '"%s"', "%s's", "--%s", "-%s", "e.g.",
          "%s:", "<%s>", "http://%s.org/x#y", "${%s}", "%s()", "%s;", "[%s]",
          "%s/x", "*%s*", "#%s", "%s#", "%s=1", "@%s@", "C++", "\\%s", "%s!",
          "3", "%s_x"]).replace("%s", word)
    return word

  def comment_lines(self):
    """A block of line comments."""
    rng = self.rng
    lines = []
    if not self.opt["markup"]:
      for _ in range(rng.choice([1, 1, 2, 3])):
        lines.append("# " + self.prose(rng.choice([4, 12, 30])))
      return lines
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
      kind = rng.randrange(14)
      if kind < 6:
        for _ in range(rng.choice([1, 1, 2, 3])):
          lines.append(rng.choice(["# ", "# ", "# ", "#", "#   ", "## "])
                       + self.prose(rng.choice([3, 8, 25])))
      elif kind == 6:
        lines.append("#")
      elif kind == 7:
        for _ in range(rng.randint(1, 3)):
          lines.append("# %s %s" % (rng.choice("*-"), self.prose(20)))
      elif kind == 8:
        for idx in range(rng.choice([1, 2, 3, 11])):
          lines.append("# %d%s %s" % (idx + 1, rng.choice(".)"),
                                      self.prose(8)))
      elif kind == 9:
        lines.append(rng.choice(
            ["#" * 20, "# " + "-" * 30, "# " + "=" * 12, "#" * 79,
             "# ----- foo -----", "#----------", "# " + "~" * 3 + "---"]))
      elif kind == 10:
        lines.append("# ~~~")
        for _ in range(rng.randint(0, 3)):
          lines.append("#   %s   %s" % (self.word(), self.word()))
        lines.append("# ~~~")
      elif kind == 11:
        lines.append("# TODO(josh): " + self.prose(15))
      elif kind == 12:
        lines.append("# %s:" % self.word())
        lines.append("#    %s %s" % (self.word(), self.word()))
      else:
        lines.append("#" + self.prose(3))
    return lines

  def bracket_comment(self, multiline=True):
    rng = self.rng
    eqs = "=" * rng.choice([0, 0, 1, 2])
    text = self.prose(8)
    if multiline and self.opt["multiline"] and self.p(0.3):
      text += self.opt["nl"] + "  " + self.prose(4)
    return "#[" + eqs + "[" + text + "]" + eqs + "]"

  # -- whitespace -------------------------------------------------------------
  def blank(self, allow_empty=False):
    rng = self.rng
    if not self.opt["sloppy"]:
      return "" if allow_empty else " "
    if allow_empty and self.p(0.6):
      return ""
    if self.opt["tabs"] and self.p(0.05):
      return "\t"
    return " " * rng.choice([1, 1, 1, 2, 3, 7])

  def newline(self):
    return self.opt["nl"] + (
        " " * self.rng.choice([0, 2, 4, 4, 11])
        if not (self.opt["tabs"] and self.p(0.05)) else "\t\t")

  def gap(self):
    """White space (at least one character) between two arguments."""
    if self.opt["sloppy"] and self.p(0.25):
      return self.blank(True) + self.newline()
    return self.blank()

  def render_args(self, args):
    """Render an argument list, sprinkling whitespace and comments."""
    rng = self.rng
    out = []
    if self.opt["sloppy"] and self.p(0.25):
      out.append(self.gap())
    with_comments = (self.opt["comments"] and self.opt["argcomments"]
                     and self.p(0.25))
    if with_comments and self.p(0.15):
      out.append(self.line_comment_in_args(False))
    off_at = on_at = -1
    if self.opt["comments"] and self.p(self.opt["onoff_args"]):
      off_at = rng.randint(0, len(args))
      on_at = rng.randint(off_at, len(args))
      if self.p(0.05):
        on_at = -1
    word = rng.choice(["cmake-format", "cmf"])
    for idx, arg in enumerate(args):
      if idx:
        out.append(self.gap())
      if idx == off_at:
        out.append(self.newline() + self.switch(word, "off") + self.newline())
      if idx == on_at:
        out.append(self.newline() + self.switch(word, "on") + self.newline())
      out.append(arg)
      if with_comments and self.p(0.15):
        out.append(self.line_comment_in_args(arg not in "()"))
    if off_at == len(args):
      out.append(self.newline() + self.switch(word, "off") + self.newline())
    if on_at == len(args):
      out.append(self.newline() + self.switch(word, "on") + self.newline())
    if self.opt["sloppy"] and self.p(0.2):
      out.append(self.gap())
    return "".join(out)

  def switch(self, word, state):
    """An off/on switch, with a remark now and then."""
    text = "# %s: %s" % (word, state)
    if self.p(0.1):
      text += self.rng.choice([" because of x", "  (see  y)", ": why", "!",
                               " for now", "."])
    return text

  def line_comment_in_args(self, trailing):
    rng = self.rng
    roll = rng.random()
    if roll < 0.1 and self.opt["bracket_comment"]:
      return self.blank() + self.bracket_comment() + self.blank()
    lead = self.blank() if trailing and self.p(0.7) else self.newline()
    if self.opt["explicit"] and roll < 0.15:
      return lead + "#< " + self.prose(6) + self.newline()
    if roll < 0.15 + self.opt["tags"]:
      tag = rng.choice(["sort", "sortable", "unsort", "unsortable",
                        "offset", "only", "on-line"])
      return lead + "# %s: %s" % (
          rng.choice(["cmake-format", "cmf"]), tag) + self.newline()
    text = lead + rng.choice(["# ", "# ", "#"]) + self.prose(
        rng.choice([3, 3, 8, 25])) + self.newline()
    if self.p(0.2):
      text += "# " + self.prose(8) + self.newline()
    if self.p(0.1):
      text += self.newline()
    return text

  def spell(self, name):
    if not self.opt["case"]:
      return name
    roll = self.rng.random()
    if roll < 0.1:
      return name.upper()
    if roll < 0.15:
      return name.title()
    return name

  def command(self, name, args, indent=""):
    out = [indent, self.spell(name),
           self.blank(True) if self.p(0.15) else "", "(",
           self.render_args(args), ")"]
    if self.opt["comments"] and self.p(0.08):
      out.append(self.blank(True))
      if self.opt["bracket_comment"] and self.p(0.15):
        out.append(self.bracket_comment())
      else:
        out.append("# " + self.prose(self.rng.choice([3, 6, 25])))
    elif self.opt["sloppy"] and self.p(0.1):
      out.append(self.blank())
    return "".join(out)

  def simple(self):
    rng = self.rng
    roll = rng.random()
    if roll < 0.45:
      form = rng.choice(FORMS)
      return form[0], self.args_form(form)
    if roll < 0.55:
      name = rng.choice(sorted(HAND))
      return name, self.args_table(name)
    if roll < 0.75:
      name = rng.choice(sorted(TABLE))
      return name, self.args_table(name)
    # unknown user command
    name = "_".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))
    if name in TABLE or name in HAND:
      name = "my_" + name
    args = [self.value() for _ in range(rng.choice([0, 1, 2, 3, 7, 14]))]
    if self.opt["paren"] and self.p(0.06) and args:
      at = rng.randrange(len(args))
      args[at:at] = ["("] + [self.value() for _ in range(
          rng.randint(0, 3))] + [")"]
    return name, args

  def wild(self):
    """Odd but syntactically valid: keywords anywhere, too few arguments."""
    rng = self.rng
    name = rng.choice(sorted(TABLE) + sorted(HAND) * 2
                      + [f[0] for f in FORMS])
    if name.lower() in ("if", "else", "elseif", "endif", "while", "endwhile",
                        "foreach", "endforeach", "function", "endfunction",
                        "macro", "endmacro", "block", "endblock"):
      name = "message"
    pool = []
    form = rng.choice(FORMS)
    for cand in FORMS:
      if cand[0] == name:
        form = cand
    pool.extend(w for w in form[2:-1] if w.upper() == w)
    if name in TABLE:
      pool.extend(TABLE[name]["k"])
      pool.extend(TABLE[name]["f"])
    if name in HAND:
      pool.extend(HAND[name][2])
      pool.extend(HAND[name][3])
    args = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 8])):
      if pool and self.p(0.6):
        args.append(rng.choice(pool))
      else:
        args.append(self.value())
    return name, args

  def block(self, depth, lines, indent):
    rng = self.rng
    pad = indent + "  "
    kind = rng.randrange(5)
    if kind == 0:
      lines.append(self.command("if", self.cond(), indent))
      self.body(depth + 1, lines, pad, rng.randint(0, 2))
      while self.p(0.25):
        lines.append(self.command("elseif", self.cond(), indent))
        self.body(depth + 1, lines, pad, rng.randint(0, 2))
      if self.p(0.4):
        lines.append(self.command("else", [], indent))
        self.body(depth + 1, lines, pad, rng.randint(0, 2))
      lines.append(self.command("endif", [], indent))
    elif kind == 1:
      head = [self.rng.choice(WORDS)]
      head += rng.choice([["RANGE", "10"], ["IN", "LISTS", "FOO", "BAR"],
                          ["IN", "ITEMS"] + [self.value() for _ in range(3)],
                          [self.value() for _ in range(rng.randint(1, 6))]])
      lines.append(self.command("foreach", head, indent))
      self.body(depth + 1, lines, pad, rng.randint(0, 2))
      lines.append(self.command("endforeach", [], indent))
    elif kind == 2:
      lines.append(self.command("while", self.cond(), indent))
      self.body(depth + 1, lines, pad, rng.randint(0, 2))
      lines.append(self.command("endwhile", [], indent))
    else:
      which = "function" if kind == 3 else "macro"
      args = ["_".join(rng.choice(WORDS) for _ in range(2))]
      args += [rng.choice(WORDS) for _ in range(rng.randint(0, 4))]
      lines.append(self.command(which, args, indent))
      self.body(depth + 1, lines, pad, rng.randint(0, 3))
      lines.append(self.command(
          "end" + which, args[:1] if self.p(0.2) else [], indent))

  def body(self, depth, lines, indent, count):
    rng = self.rng
    for _ in range(count):
      if self.opt["sloppy"]:
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
          lines.append("  " if self.p(0.1) else "")
      if self.opt["comments"] and self.p(0.25):
        for line in self.comment_lines():
          lines.append(indent + line)
        if self.p(0.3):
          lines.append("")
      if (self.opt["comments"] and self.opt["bracket_comment"]
          and self.p(0.04)):
        lines.append(indent + self.bracket_comment())
      if self.p(self.opt["onoff"]):
        word = rng.choice(["cmake-format", "cmf"])
        lines.append(indent + self.switch(word, "off"))
        for _ in range(rng.randint(0, 3)):
          lines.append(indent + rng.choice(["", "  ", "\t"])
                       + self.command(*self.simple()))
          if self.p(0.3):
            lines.append(rng.choice(["", "   ", "#  odd   comment ",
                                     "\t# x"]))
        lines.append(indent + self.switch(word, "on"))
      elif self.opt["blocks"] and depth < 3 and self.p(0.16):
        self.block(depth, lines, indent)
      elif self.opt["atwords"] and self.p(0.015):
        line = indent + rng.choice(["@PACKAGE_INIT@", "@FOO@", "@a_b1@"])
        if self.opt["comments"] and self.p(0.4):
          line += rng.choice([" # ", "  # ", "# "]) + self.prose(
              rng.choice([2, 6, 12]))
        lines.append(line)
      elif self.p(self.opt["wild"]):
        name, args = self.wild()
        lines.append(self.command(name, args, indent))
      else:
        name, args = self.simple()
        lines.append(self.command(name, args, indent))
    if self.opt["comments"] and self.p(0.05):
      for line in self.comment_lines():
        lines.append(indent + line)

  def listfile(self, count=None):
    rng = self.rng
    if count is None:
      count = rng.choice([1, 1, 2, 3, 5, 8])
    lines = []
    if self.opt["comments"] and self.p(0.1):
      lines.append("#!/usr/bin/cmake -P" if self.p(0.3)
                   else "# Copyright  (c)   " + self.prose())
      lines.extend(self.comment_lines())
      if self.p(0.6):
        lines.append("")
    self.body(0, lines, "", count)
    # lines may contain multi-line pieces, which already use opt["nl"]
    text = self.opt["nl"].join(lines)
    if not self.p(0.05):
      text += self.opt["nl"]
    return text


# -- real-world corpus ---------------------------------------------------------

CORPUS_ROOTS = ["/usr/share/cmake-3.28/Modules", "/repo/cmakelang",
                "/repo/build_tooling"]
_CORPUS = None


def corpus_files():
  global _CORPUS
  if _CORPUS is None:
    found = []
    for root in CORPUS_ROOTS:
      for dirpath, dirnames, filenames in os.walk(root):
        dirnames.sort()
        for filename in sorted(filenames):
          if filename.endswith(".cmake") or filename == "CMakeLists.txt":
            found.append(os.path.join(dirpath, filename))
    _CORPUS = found
  return _CORPUS


def corpus_chunk(rng, max_bytes=2500):
  """A random balanced run of top level statements of a real listfile."""
  files = corpus_files()
  for _ in range(50):
    if not files:
      return None
    path = rng.choice(files)
    try:
      with open(path, encoding="utf-8", newline="") as infile:
        text = infile.read()
      toks = reflex.lex(text)
    except (reflex.RefError, UnicodeDecodeError, OSError):
      continue
    if "\r" in text or "\f" in text or "\0" in text:
      continue
    # cut points: line starts at flow depth 0, outside of commands
    cuts = [0]
    depth = 0
    pdepth = 0
    for idx, tok in enumerate(toks):
      if tok.kind == "id":
        low = tok.text.lower()
        if low in reflex._FLOW_OPEN:
          depth += 1
        elif low in reflex._FLOW_CLOSE:
          depth -= 1
      elif tok.kind == "(":
        pdepth += 1
      elif tok.kind == ")":
        pdepth -= 1
      elif tok.kind == "nl" and pdepth == 0 and depth == 0:
        cuts.append(tok.pos + len(tok.text))
    if len(cuts) < 2:
      continue
    start = rng.randrange(len(cuts) - 1)
    end = start + 1
    want = rng.choice([300, 800, max_bytes])
    while end + 1 < len(cuts) and cuts[end + 1] - cuts[start] <= want:
      end += 1
    chunk = text[cuts[start]:cuts[end]]
    if len(chunk) > 2 * max_bytes or not chunk.strip():
      continue
    if max_paren_depth(chunk) > 3:
      continue
    return chunk
  return None


def max_paren_depth(text):
  depth = best = 0
  try:
    for tok in reflex.lex(text):
      if tok.kind == "(":
        depth += 1
        best = max(best, depth)
      elif tok.kind == ")":
        depth -= 1
  except reflex.RefError:
    return 99
  return best


def respace(rng, text, comments=0.0, join=True, nl="\n"):
  """
  Re-emit `text` with the same commands, arguments and comments but different
  white space: blanks between arguments become random blanks or newlines, the
  indentation and the number of blank lines changes.

  With join=False a newline is never replaced by a blank (so comment
  attachment cannot change).
  """
  toks = reflex.lex(text)
  out = []
  depth = 0
  idx = 0
  size = len(toks)
  gen = Gen(rng)
  while idx < size:
    tok = toks[idx]
    if tok.kind in ("sp", "nl"):
      run = []
      while idx < size and toks[idx].kind in ("sp", "nl"):
        run.append(toks[idx])
        idx += 1
      has_nl = any(t.kind == "nl" for t in run)
      prev = out[-1] if out else None
      if depth == 0:
        if has_nl:
          count = sum(t.kind == "nl" for t in run)
          out.append(nl * count)
          out.append(" " * rng.choice([0, 0, 1, 2, 4, 9]))
        else:
          out.append(" " * rng.choice([1, 1, 2, 5]))
      else:
        if has_nl:
          out.append(nl * sum(t.kind == "nl" for t in run)
                     + " " * rng.choice([0, 1, 4, 9]))
        else:
          out.append(" " * rng.choice([1, 1, 2, 5]))
      continue
    if tok.kind == "(":
      depth += 1
    elif tok.kind == ")":
      depth -= 1
    out.append(tok.text if nl == "\n" else tok.text)
    if (comments and depth and tok.kind in ("uq", "q", "b")
        and rng.random() < comments):
      out.append(" # " + gen.prose(5) + nl + " ")
    idx += 1
  return "".join(out)


# -- configurations -------------------------------------------------------------

def random_format_config(rng, **fixed):
  """A random (legacy flat style) dictionary of formatting options."""
  cfg = {}

  def maybe(prob, key, values):
    if rng.random() < prob:
      cfg[key] = rng.choice(values)
  maybe(0.5, "line_width", [20, 30, 40, 60, 79, 80, 100, 120, 200])
  maybe(0.4, "tab_size", [1, 2, 3, 4, 8])
  maybe(0.3, "max_subgroups_hwrap", [0, 1, 2, 3, 6])
  maybe(0.3, "max_pargs_hwrap", [0, 1, 3, 6, 12])
  maybe(0.2, "max_rows_cmdline", [0, 1, 2, 5])
  maybe(0.2, "separate_ctrl_name_with_space", [True, False])
  maybe(0.2, "separate_fn_name_with_space", [True, False])
  maybe(0.3, "dangle_parens", [True, False])
  maybe(0.3, "dangle_align", ["prefix", "prefix-indent", "child", "off"])
  maybe(0.2, "min_prefix_chars", [0, 4, 8])
  maybe(0.2, "max_prefix_chars", [0, 4, 10, 30])
  maybe(0.2, "max_lines_hwrap", [0, 1, 2, 5])
  maybe(0.3, "command_case", ["lower", "upper", "canonical", "unchanged"])
  maybe(0.1, "always_wrap", [["set"], ["add_library", "foo"],
                             ["set/PargGroupNode"]])
  cfg.update(fixed)
  return cfg
