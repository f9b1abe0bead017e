"""
Independent reference lexer / parser for the CMake language.

Written from the cmake-language(7) grammar and the lexer of CMake itself
(cmListFileLexer.in.l, CMake 3.28).  It shares no code with the code under
test.  It is the oracle for everything that speaks about what CMake sees.

`lex(text)` yields a list of `T(kind, text, pos, line)`:

  id   command name (only at command position)
  (    left paren            )    right paren
  uq   unquoted argument (including the unquoted_legacy forms)
  q    quoted argument, text includes both quotes
  b    bracket argument, text includes the brackets
  lc   line comment, from '#' up to (excluding) the end of the line
  bc   bracket comment
  at   @WORD@ in command position (configure_file template, cmake-format
       extension)
  nl   a newline ("\n" or "\r\n")
  sp   run of blanks

A `RefError` means "CMake would reject this file".
"""
import re
from collections import namedtuple

T = namedtuple("T", "kind text pos line")


class RefError(Exception):
  pass


_SP = re.compile(r"[ \t\r]+")
_NL = re.compile(r"\r?\n")
_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_AT = re.compile(r"@[A-Za-z_][A-Za-z0-9_]*@(?=[ \t]*(?:#|\r?\n|$))")
_BR = re.compile(r"\[(=*)\[")
_MAKEVAR = r"\$\([A-Za-z0-9_]*\)"
_UQ = r"(?:[^ \0\t\r\n()#\"\[=\\]|\\[^\0\n])"
_LEGACY = (r"(?:" + _MAKEVAR + r"|" + _UQ + r"|\"(?:" + _MAKEVAR + r"|" + _UQ
           + r"|[ \t\[=])*\")")
_UNQUOTED = re.compile(
    r"(?:" + _UQ + r"|=|\[=*" + _UQ + r")(?:" + _UQ + r"|[\[=])*")
_UNQUOTED_LEGACY = re.compile(
    r"(?:" + _MAKEVAR + r"|" + _UQ + r"|=|\[=*" + _LEGACY + r")(?:" + _LEGACY
    + r"|[\[=])*")
_QUOTED = re.compile(r'"(?:[^\\\0"]|\\[^\0])*"', re.DOTALL)


def lex(text):
  """Tokenise; raises RefError on input that CMake's lexer/parser rejects."""
  toks = []
  pos = 0
  line = 1
  size = len(text)
  depth = 0             # paren depth within a command invocation
  expect_lparen = False
  sol = True            # nothing but blanks/bracket comments on this line
  if text.startswith("\ufeff"):
    pos = 1
  sep_error = False     # previous token was a bracket argument
  sep_warn = False      # previous token was an argument (or rparen)

  def emit(kind, end):
    nonlocal pos, line
    spelling = text[pos:end]
    toks.append(T(kind, spelling, pos, line))
    line += spelling.count("\n")
    pos = end

  while pos < size:
    match = _NL.match(text, pos)
    if match:
      emit("nl", match.end())
      if depth == 0:
        if expect_lparen:
          raise RefError("newline after command name at line %d" % line)
        sol = True
      sep_error = sep_warn = False
      continue
    match = _SP.match(text, pos)
    if match:
      emit("sp", match.end())
      sep_error = sep_warn = False
      continue
    char = text[pos]
    if char == "#":
      match = _BR.match(text, pos + 1)
      if match:
        close = "]" + match.group(1) + "]"
        end = text.find(close, match.end())
        if end < 0:
          raise RefError("unterminated bracket comment at line %d" % line)
        emit("bc", end + len(close))
        sep_error = depth > 0
        continue
      end = text.find("\n", pos)
      if end < 0:
        end = size
      if end > pos and text[end - 1] == "\r" and end < size:
        end -= 1
      emit("lc", end)
      continue
    if depth == 0:
      if expect_lparen:
        if char != "(":
          raise RefError("expected ( at line %d" % line)
        emit("(", pos + 1)
        depth = 1
        expect_lparen = False
        sep_error = sep_warn = False
        continue
      if not sol:
        raise RefError("expected newline at line %d" % line)
      match = _ID.match(text, pos)
      if match:
        emit("id", match.end())
        expect_lparen = True
        sol = False
        continue
      match = _AT.match(text, pos)
      if match:
        emit("at", match.end())
        sol = False
        continue
      raise RefError("expected command at line %d: %r"
                     % (line, text[pos:pos + 20]))
    # inside of a command invocation
    if char == "(":
      emit("(", pos + 1)
      depth += 1
      sep_error = sep_warn = False
      continue
    if char == ")":
      emit(")", pos + 1)
      depth -= 1
      sep_error = False
      sep_warn = True
      continue
    if char == "[":
      match = _BR.match(text, pos)
      if match:
        close = "]" + match.group(1) + "]"
        end = text.find(close, match.end())
        if end < 0:
          raise RefError("unterminated bracket argument at line %d" % line)
        if sep_error or sep_warn:
          raise RefError("bracket argument not separated at line %d" % line)
        emit("b", end + len(close))
        sep_error = True
        continue
    if char == '"':
      match = _QUOTED.match(text, pos)
      if not match:
        raise RefError("unterminated string at line %d" % line)
      if sep_error:
        raise RefError("argument not separated at line %d" % line)
      emit("q", match.end())
      sep_warn = True
      continue
    match = _UNQUOTED.match(text, pos)
    match2 = _UNQUOTED_LEGACY.match(text, pos)
    if match2 and (not match or match2.end() > match.end()):
      match = match2
    if not match:
      if char == "[":
        if sep_error:
          raise RefError("argument not separated at line %d" % line)
        emit("uq", pos + 1)
        sep_warn = True
        continue
      raise RefError("bad character %r at line %d" % (char, line))
    if sep_error:
      raise RefError("argument not separated at line %d" % line)
    emit("uq", match.end())
    sep_warn = True
  if depth or expect_lparen:
    raise RefError("unterminated command")
  return toks


Command = namedtuple("Command", "name args line endline")
# args: list of (kind, text) with kind in uq q b ( )


def commands(toks):
  """Group tokens into command invocations, ignoring comments."""
  out = []
  name = None
  depth = 0
  args = []
  start = 0
  for tok in toks:
    if tok.kind in ("sp", "nl", "lc", "bc"):
      continue
    if tok.kind == "at":
      out.append(Command(tok.text, None, tok.line, tok.line))
    elif tok.kind == "id":
      name, args, start = tok.text, [], tok.line
    elif tok.kind == "(":
      if depth:
        args.append(("(", "("))
      depth += 1
    elif tok.kind == ")":
      depth -= 1
      if depth:
        args.append((")", ")"))
      else:
        out.append(Command(name, args, start, tok.line))
    else:
      args.append((tok.kind, tok.text))
  return out


def norm_nl(text):
  """CMake reads CRLF as LF on every platform."""
  return text.replace("\r\n", "\n")


_FLOW_OPEN = {"if": "endif", "foreach": "endforeach", "while": "endwhile",
              "function": "endfunction", "macro": "endmacro",
              "block": "endblock"}
_FLOW_CLOSE = {v: k for k, v in _FLOW_OPEN.items()}


def blocks_balanced(cmds):
  """True if if/foreach/while/function/macro/block nest properly."""
  stack = []
  for cmd in cmds:
    name = cmd.name.lower()
    if name in _FLOW_OPEN:
      stack.append(name)
    elif name in _FLOW_CLOSE:
      if not stack or stack[-1] != _FLOW_CLOSE[name]:
        return False
      stack.pop()
    elif name in ("else", "elseif"):
      if not stack or stack[-1] != "if":
        return False
  return not stack
