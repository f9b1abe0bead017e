"""C15: tokens tile the file, with the right positions and kinds."""
import re

from vlib import canon, fmt, reflex
from vlib.run import Skip

RULE = """A case is a text: a listfile (generated, from the corpus, with CRLF,
BOM, tabs, multi-byte characters), a mutation of one (a character removed,
doubled, replaced, the text cut), or a random string over the characters that
matter to the lexer. The monitor adds up the spellings of the tokens (they must
give the text, nothing else), recomputes line, column and byte offset of both
ends of each token and, if CMake accepts the text, compares the extents and the
kinds of all arguments, parentheses, comments, names and newlines with an
independent lexer. A text may only be refused with a UserError, never if CMake
accepts it. Non-trivial: three kinds of tokens; distinct by sequence of
kinds."""
COUNT = {"quick": 12000, "thorough": 500000}
CASE_LIMIT = 10.0

ALPHABET = ['"', "\\", "[", "]", "=", "(", ")", "#", " ", "\n", "a", "B", "1",
            "$", "{", "}", "@", "\t", "\r\n", ";", "<", ">", "-", "é", "𝄞",
            "[[", "]]", "#[[", "[=[", "]=]", "cmake-format: off",
            "# cmake-format: off\n", "# cmake-format: on\n", "foo(", "\ufeff",
            "'", "\\\\", '\\"', "$(X)", "${x}", "@x@", "\f", "\v", "\r"]

HAND = [
    "", "\n", " ", "\ufeff", "\ufefffoo(é)\n", "foo()", "foo()\r\n",
    'foo("a\nb" c)\n', 'foo("a\r\nb" c)\r\n', "foo([[a\n]]]] b)\n",
    "foo([=[a]]\n]=] b)\n", "#[[a\nb]] # c\nfoo()\n", "foo(#[[x]] a)\n",
    "foo(a#c\n)\n", 'foo("a"#c\n)\n', 'foo("a" #c\n)\n', "foo([[a]]#c\n)\n",
    "foo(a=\"b c\"d e)\n", "foo(-DX=\"b c\" e)\n", "foo(\\\" \\( \\;)\n",
    "foo($(MAKE) a$(X)b)\n", "foo([a] [ [= ]] ])\n", "foo(1 -1 12a 1.2)\n",
    "foo(a;b;\"c d\")\n", "foo(${a} ${a}${b} x${a} ${a${b}} $ENV{x})\n",
    "foo($<a:b> $<a:\"b c\">)\n", "@x@\nfoo(@x@ a@x@)\n",
    "#\n##\n#a\n# [[\n#[ a\n#[= a\nfoo()\n", "foo(a(b)c)\n", "foo((a)(b))\n",
    'foo("")\n', 'foo("" "a\\\\" "b")\n', 'foo("\\"")\n', 'foo("a\\\nb")\n',
    "foo([[]])\n", "foo([==[]=]]==])\n", "foo([[a]b]])\n", "foo(\tа\t)\t\n",
    "# é\n#cmake-format: off\nfoo( )\n#cmake-format: on\n",
    "#cmf: off\nfoo( )\n#  cmf: on x\n", "#cmf: offx\n#cmf: on_\n#cmf: on-\n"
    "#cmf: off.\n", "foo(\"#[[\") # ]]\n",
    "foo('a b')\n", "foo(a'b)\n", "foo(\"a\"b)\n", "foo(\"a\"\"b\")\n",
    "foo( é\n日本語  \"𝄞\n𝄞\" x)\n", "\r\n\r\nfoo()\r\n", "foo(a\\ b)\n",
    "foo(#[[c]]a #[[d]]\"b\" #[[e]][[f]] #[=[g]=]${x}#[[h]]12 #[[i]]@a@)\n",
    "#[[a]]foo(b)\n#[[a]] foo(b)\n", "foo(#\ncmake-format: on\n)\n",
    "foo(a \"b\"#c\n 1#d\n ${x}#e\n @y@#f\n)\n",
    "foo(\\\\ a)\n", "foo(a\\\\)\n", "foo(a\\)b)\n", "foo(a\\#b #c\n)\n",
]


def fixed():
  for text in HAND:
    yield {"text": text, "valid": None}
    yield {"text": "\ufeff" + text.lstrip("\ufeff"), "valid": None}
    yield {"text": text.replace("\r\n", "\n").replace("\n", "\r\n"),
           "valid": None}


def mutate(rng, text):
  for _ in range(rng.choice([1, 1, 2, 4])):
    if not text:
      break
    pos = rng.randrange(len(text))
    roll = rng.random()
    if roll < 0.35:
      text = text[:pos] + text[pos + 1:]
    elif roll < 0.6:
      text = text[:pos] + rng.choice(ALPHABET) + text[pos:]
    elif roll < 0.75:
      text = text[:pos] + rng.choice(ALPHABET) + text[pos + 1:]
    elif roll < 0.9:
      end = min(len(text), pos + rng.choice([1, 2, 5, 30]))
      text = text[:pos] + text[end:]
    else:
      text = text[:pos]
  return text


def gen(rng, idx, tier):
  roll = rng.random()
  if roll < 0.45:
    text = fmt.make_text(rng, idx)
  elif roll < 0.7:
    text = mutate(rng, fmt.make_text(rng, idx))
  elif roll < 0.85:
    text = "foo(" + "".join(rng.choice(ALPHABET) for _ in range(
        rng.randrange(1, 14))) + ")\n"
  else:
    text = "".join(rng.choice(ALPHABET) for _ in range(rng.randrange(1, 25)))
  return {"text": text[:20000], "valid": None}


KINDS = {"lc": ("COMMENT", "FORMAT_ON", "FORMAT_OFF"), "bc": (
    "BRACKET_COMMENT",), "(": ("LEFT_PAREN",), ")": ("RIGHT_PAREN",),
         "id": ("WORD",), "at": ("ATWORD",), "nl": ("NEWLINE",),
         "q": ("QUOTED_LITERAL",), "b": ("BRACKET_ARGUMENT",),
         "uq": ("WORD", "NUMBER", "DEREF", "UNQUOTED_LITERAL", "ATWORD"),
         "sp": ("WHITESPACE",)}


BAD_ESCAPE = re.compile(r'(?<!\\)(\\\\)*\\[^()#" \\$@^trn;]')


def kind_of_word(text):
  if re.match(r"^-?[0-9]+$", text):
    return "NUMBER"
  if re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", text):
    return "WORD"
  if re.match(r"^@[A-Za-z_][A-Za-z0-9_]*@$", text):
    return "ATWORD"
  if re.match(r"^\$\{[A-Za-z_][A-Za-z0-9_]*\}$", text):
    return "DEREF"
  return "UNQUOTED_LITERAL"


def glue(toks):
  """Arguments which touch are one token for the tool."""
  out = []
  for tok in toks:
    if (out and tok.kind in ("uq", "q") and out[-1].kind in ("uq", "q", "glued")
        and out[-1].pos + len(out[-1].text) == tok.pos):
      out[-1] = out[-1]._replace(kind="glued", text=out[-1].text + tok.text)
    else:
      out.append(tok)
  return out


def judge(payload, obs):
  text = payload["text"]
  from cmakelang import common, lex
  try:
    ref = reflex.lex(text)
  except reflex.RefError:
    ref = None
  try:
    toks = lex.tokenize(text)
  except common.UserError as ex:
    if ref is not None:
      return "CMake accepts the text, the lexer refuses it: %s" % ex.msg
    obs.hit("refused")
    return None
  if "".join(t.spelling for t in toks) != text:
    return "the tokens do not add up to the text: %r" % (
        [t.spelling for t in toks][:50],)
  line, col, offset, pos = 1, 0, 0, 0
  at = {}
  for num, tok in enumerate(toks):
    where = "token %d %r" % (num, tok.spelling)
    if not tok.spelling:
      return where + ": empty"
    if tok.type.name == "BYTEORDER_MARK":
      if num or tok.spelling != "\ufeff":
        return where + ": not a byte-order mark"
      if tuple(tok.begin)[2] != 0 or tuple(tok.end)[2] != 3:
        return where + ": wrong offsets"
      offset, pos = 3, 1
      continue
    if tuple(tok.begin) != (line, col, offset):
      return "%s begins at %r instead of %r" % (
          where, tuple(tok.begin), (line, col, offset))
    at[pos] = tok
    pos += len(tok.spelling)
    offset += len(tok.spelling.encode("utf-8"))
    line += tok.spelling.count("\n")
    if "\n" in tok.spelling:
      col = len(tok.spelling.rsplit("\n", 1)[1])
    else:
      col += len(tok.spelling)
    if tuple(tok.end) != (line, col, offset):
      return "%s ends at %r instead of %r" % (
          where, tuple(tok.end), (line, col, offset))
  obs.hit("tokens", len(toks))
  # Make variables $(x y) are wider for the tool than for CMake
  if ref is not None and re.search(r"\$\([A-Za-z0-9_.]*([^A-Za-z0-9_.)]|(?<=\()\))",
                                   text):
    obs.hit("odd make variables")
    ref = None
  # CMake refuses other escapes when it evaluates the command
  if ref is not None and any(
      tok.kind == "uq" and BAD_ESCAPE.search(tok.text) for tok in ref):
    obs.hit("invalid escapes")
    ref = None
  if ref is not None and not fmt.squote_hazard(ref):
    compared = 0
    for tok in glue(ref):
      if tok.kind == "sp":
        continue
      mine = at.get(tok.pos)
      if mine is None and tok.text == "\r\n" and tok.pos + 1 in at:
        continue  # the carriage return went with the comment in front of it
      if tok.kind == "nl" and mine is None and text[tok.pos - 1] == "\r":
        continue  # the carriage return is white space to the reference
      if mine is None:
        return "no token begins at %r (line %d)" % (tok.text, tok.line)
      want = KINDS.get(tok.kind)
      spelling = mine.spelling
      if tok.kind == "lc" and "\r" in tok.text.rstrip("\r"):
        continue
      if tok.kind == "lc":
        spelling = spelling.rstrip("\r")
        match = canon.ONOFF.match(tok.text.rstrip())
        want = ("FORMAT_ON" if match.group(1) == "on" else "FORMAT_OFF",) \
            if match else ("COMMENT",)
        if spelling != tok.text.rstrip("\r"):
          return "comment %r is read as %r" % (tok.text, spelling)
      elif spelling != tok.text:
        return "%s %r is read as %s %r" % (
            tok.kind, tok.text, mine.type.name, spelling)
      if tok.kind == "uq":
        end = tok.pos + len(tok.text)
        if (text[end:end + 1] in (" ", "\n", ")")
            and text[tok.pos - 1] in " \n("):
          want = (kind_of_word(tok.text),)
      if tok.kind == "glued":
        continue
      if tok.kind in "qb" and text[tok.pos + len(tok.text):][:1] == "(":
        continue  # touches a parenthesis, the spelling is the same
      if mine.type.name not in want:
        return "%s %r is read as %s" % (tok.kind, tok.text, mine.type.name)
      compared += 1
    obs.hit("compared with the reference", compared)
  kinds = tuple(t.type.name for t in toks)
  if len(set(kinds)) >= 3:
    obs.see(kinds[:40])
  return None


def known(payload, message):
  text = payload["text"]
  if re.search("[\f\v]", text):
    from vlib.run import Obs
    if judge(dict(payload, text=re.sub("[\f\v]", "x", text)), Obs()) is None:
      return "C15-form-feed"
  return None
