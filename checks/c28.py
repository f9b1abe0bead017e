"""C28: cmake-annotate marks the listfile up without changing its text."""
import json
from html.parser import HTMLParser

from vlib import canon, cli, fmt, reflex
from vlib.run import Skip

RULE = """A case is a listfile (generated or from the corpus, with characters
that mean something in HTML), an output format (stub, page, iframe) and a way
to call the tool (in-process, file, standard input, output file, configuration
file with user specified commands). The monitor reads the HTML with a parser:
there must be nothing but nested, closed spans with the classes of the parse
tree; their text must be the listfile; each command name, comment, string,
bracket, number and parenthesis must have the class that an independent lexer
finds there; spans of statements and blocks must enclose what they should, and
the page and the iframe contain the same markup as the stub. Non-trivial: four
classes; distinct by (sequence of classes, format, call)."""
COUNT = {"quick": 4000, "thorough": 200000}

HAND = ["foo(a)\n", "foo(\"<b>&amp;</b>\" [[</span>]] # <i>&lt;\n)\n",
        "#[[ <!-- ]]\nfoo(a<b a&b a>b)\n", "foo('<x>' &quot; \"\\\"&#39;\")\n",
        "if(a)\n  # <script>\n  foo($<a:b>)\nendif()\n", "", "\n", "# c",
        "\ufefffoo(é ☃ 𝄞)\r\nbar()\r\n", "foo({{content}} \"{% raw %}\")\n",
        "# {{stylesheet}} {# x #}\nfoo(</div></body></html></template>)\n",
        "foo(\t a\t)\n\n\n\nbar()  \n", "# cmake-format: off\n<x( &  )\n"
        "# cmake-format: on\nfoo( <a> )\n", "install(TARGETS a RUNTIME "
        "DESTINATION b # c\n # d\n  COMPONENT 12)\n", "@x@ # <y>\nfoo(@z@)\n",
        "foo(#[[a]]b#[=[c]=]\n \"d\"#e\n)\n", "foo(\"a\n<b>\n\" [==[\n&\n]==])\n",
        "set(A -1 12 1.2 ${x} \"${y}\")\n", "foo((a (b)) c)\n"]
WAYS = ["call", "call", "call", "file", "stdin", "out", "config"]
FORMATS = ["stub", "stub", "page", "iframe"]


def worker_setup():
  cli.preload()


def fixed():
  for text in HAND:
    for outfmt in ("stub", "page", "iframe"):
      for way in ("call", "file", "stdin", "out"):
        yield {"text": text, "fmt": outfmt, "way": way, "extra": {}}
  for text in ("foo(", "if(a)\n", "foo(a))\n", "foo(\"a)\n", "a b\n",
               "foo([[a]\n", "endif()\n"):
    for outfmt in ("stub", "page", "iframe"):
      yield {"text": text, "fmt": outfmt, "way": "out", "extra": {},
             "refused": True}
  for key in ("KEY", "key", "<k>", "&"):
    yield {"text": "foo(a key b KEY c <k> d & e)\n", "fmt": "stub",
           "way": "config", "extra": {"foo": {"kwargs": {key: "*"}}}}
    yield {"text": "foo(a key b KEY c <k> d & e)\n", "fmt": "page",
           "way": "call", "extra": {"foo": {"flags": [key]}}}


def gen(rng, idx, tier):
  text = fmt.make_text(rng, idx)
  if rng.random() < 0.5:
    for _ in range(rng.choice([1, 2, 5])):
      old = rng.choice(["a", "e", "-", "_", "1", "x", "t"])
      new = rng.choice(["<", ">", "&", "&lt;", "</span>", "<b>", "'", "é"])
      spots = [i for i, char in enumerate(text) if char == old]
      if spots:
        spot = rng.choice(spots)
        text = text[:spot] + new + text[spot + 1:]
  extra = {}
  if rng.random() < 0.2:
    try:
      cmds = reflex.commands(reflex.lex(text))
    except reflex.RefError:
      return None
    for cmd in cmds[:4]:
      if cmd.args is None or cmd.name.lower() in ("if", "elseif", "else"):
        continue
      words = [a[1] for a in cmd.args if a[0] == "uq"]
      if words and cmd.name.lower().isidentifier():
        extra[cmd.name.lower()] = {"kwargs": {rng.choice(words): "*"}}
  return {"text": text, "fmt": rng.choice(FORMATS),
          "way": rng.choice(WAYS), "extra": extra}


class Bad(Exception):
  pass


class Reader(HTMLParser):
  """-> leaves [(text, classes of the enclosing spans)]"""

  def __init__(self):
    HTMLParser.__init__(self, convert_charrefs=False)
    self.stack = []
    self.leaves = []
    self.text = []
    self.spans = []   # (class, begin, end, depth)
    self.pos = 0
    self.fresh = False

  def handle_starttag(self, tag, attrs):
    if tag != "span" or len(attrs) != 1 or attrs[0][0] != "class":
      raise Bad("unexpected tag %s %r" % (tag, attrs))
    cls = attrs[0][1]
    if not cls.startswith("cmf-"):
      raise Bad("unexpected class %r" % cls)
    self.stack.append((cls[4:], self.pos))

  def handle_startendtag(self, tag, attrs):
    raise Bad("unexpected tag %s" % tag)

  def handle_endtag(self, tag):
    if tag != "span" or not self.stack:
      raise Bad("unexpected end tag %s" % tag)
    cls, begin = self.stack.pop()
    self.spans.append((cls, begin, self.pos, len(self.stack)))

  def put(self, text):
    if not self.stack:
      raise Bad("text outside of the spans: %r" % text)
    self.leaves.append((text, tuple(c for c, _ in self.stack), self.pos))
    self.text.append(text)
    self.pos += len(text)

  def handle_data(self, data):
    if "<" in data or "&" in data:
      raise Bad("%r is not escaped" % data)
    self.put(data)

  def handle_entityref(self, name):
    known = {"lt": "<", "gt": ">", "amp": "&", "quot": '"'}
    if name not in known:
      raise Bad("unexpected entity %r" % name)
    self.put(known[name])

  def handle_charref(self, name):
    num = int(name[1:], 16) if name[:1] in "xX" else int(name)
    self.put(chr(num))

  def handle_comment(self, data):
    raise Bad("a comment")

  def handle_decl(self, decl):
    raise Bad("a declaration")

  def handle_pi(self, data):
    raise Bad("a processing instruction")

  def unknown_decl(self, data):
    raise Bad("a declaration")


def content_of(html, outfmt):
  """The markup in a page or an iframe"""
  if outfmt == "stub":
    return html
  if outfmt == "iframe":
    head, tail = '<template id="renderedcontent">', "</template>"
    if html.count(head) != 1 or not html.count(tail):
      raise Bad("no template element")
    html = html[html.index(head) + len(head):html.rindex(tail)]
  low = html.lower()
  for tag in ("html", "head", "body"):
    if low.count("<%s>" % tag) != 1 or low.count("</%s>" % tag) != 1:
      raise Bad("not exactly one <%s>" % tag)
  if not (low.index("<html>") < low.index("<head>") < low.index("<style")
          < low.index("</style>") < low.index("</head>")
          < low.index("<body>") < low.index("</body>")
          < low.index("</html>")):
    raise Bad("the elements of the page are out of order")
  style = html[html.index("<style"):html.index("</style>")]
  if ".cmf-" not in style or "{{" in style:
    raise Bad("no stylesheet")
  head, tail = '<div class="content">', "</div>"
  if html.count(head) != 1 or html.count(tail) != 1:
    raise Bad("no content element")
  return html[html.index(head) + len(head):html.rindex(tail)].strip("\n")


def tree_events(node, lex, out, pos):
  from cmakelang.parse.common import TreeNode
  if isinstance(node, TreeNode):
    begin = pos[0]
    for child in node.children:
      tree_events(child, lex, out, pos)
    out.append((node.node_type.name, begin, pos[0]))
  elif isinstance(node, lex.Token):
    begin = pos[0]
    pos[0] += len(node.spelling)
    out.append((node.type.name, begin, pos[0]))


def call(payload, tmp):
  """-> output of the tool for the case"""
  text, outfmt, way = payload["text"], payload["fmt"], payload["way"]
  if way == "call":
    import io
    from cmakelang import annotate
    config = fmt.make_config({"additional_commands": payload["extra"]}
                             if payload["extra"] else {})
    out = io.StringIO(newline="")
    annotate.annotate_file(config, io.StringIO(text, newline=""), out, outfmt)
    return out.getvalue()
  args = ["-f", outfmt] if outfmt != "stub" else []
  stdin = b""
  if payload["extra"]:
    cfg = tmp.write("conf.json", json.dumps(
        {"parse": {"additional_commands": payload["extra"]}}))
    args = args + ["-c", cfg]
  if way == "stdin":
    stdin = text.encode("utf-8")
    args.append("-")
  else:
    args.append(tmp.write("d/CMakeLists.txt", text))
  if way == "out":
    tmp.write("out.html", "x" * 100000)
    args = ["-o", tmp / "out.html"] + args
  res = cli.run("annotate", args, stdin=stdin, cwd=tmp.path)
  if res.code != 0:
    raise Bad("exit status %r: %s" % (
        res.code, res.err.decode("utf-8", "replace")[-500:]))
  if way == "out":
    if res.out:
      raise Bad("it also writes to standard output")
    return cli.read(tmp / "out.html").decode("utf-8")
  return res.out.decode("utf-8")


def reflex_rest(text):
  """Is there anything but white space and comments?"""
  try:
    return any(t.kind not in ("sp", "nl", "lc", "bc")
               for t in reflex.lex(text))
  except reflex.RefError:
    return True


CLASSES = {"lc": "COMMENT", "bc": "BRACKET_COMMENT", "(": "LEFT_PAREN",
           ")": "RIGHT_PAREN", "id": "WORD", "q": "QUOTED_LITERAL",
           "b": "BRACKET_ARGUMENT"}


def judge_refused(payload, obs):
  """No output file is written for an input that the tool refuses."""
  old = "what was there before\n"
  with cli.Scratch() as tmp:
    tmp.write("out.html", old)
    for out in ("out.html", "new.html"):
      res = cli.run("annotate", [
          "-f", payload["fmt"], "-o", tmp / out,
          tmp.write("CMakeLists.txt", payload["text"])], cwd=tmp.path)
    if res.code == 0:
      raise Skip("accepted")
    after = cli.snapshot(tmp.path)
  if after["out.html"][2] != old.encode():
    return "the input is refused, but the output file was changed"
  if "new.html" in after:
    return "the input is refused, but an output file was created"
  obs.hit("refused inputs")
  return None


def judge(payload, obs):
  text = payload["text"]
  if payload.get("refused"):
    return judge_refused(payload, obs)
  toks = fmt.need_valid(text)
  if fmt.squote_hazard(toks):
    raise Skip("single quotes")
  try:
    with cli.Scratch() as tmp:
      html = call(payload, tmp)
    markup = content_of(html, payload["fmt"])
    reader = Reader()
    reader.feed(markup)
    reader.close()
    if reader.stack:
      raise Bad("%d spans are not closed" % len(reader.stack))
  except Bad as ex:
    return "%s (%s): %s" % (payload["fmt"], payload["way"], ex)
  except UnicodeError as ex:
    return "%s (%s): %s" % (payload["fmt"], payload["way"], ex)
  except Exception as ex:  # pylint: disable=broad-except
    if type(ex).__module__.startswith("vlib"):
      raise
    return "%s (%s) raised %s: %s" % (
        payload["fmt"], payload["way"], type(ex).__name__, ex)
  want = text[1:] if text.startswith("\ufeff") else text
  got = "".join(reader.text)
  if got != want:
    at = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y),
              min(len(got), len(want)))
    return "%s (%s): the text of the markup differs from the listfile at %d: " \
        "%r instead of %r" % (payload["fmt"], payload["way"], at,
                              got[at:at + 30], want[at:at + 30])
  # the classes, against the independent lexer
  base = 1 if text.startswith("\ufeff") else 0
  spans = {}
  for cls, begin, end, _ in reader.spans:
    spans.setdefault((begin, end), set()).add(cls)
  off = False
  for num, tok in enumerate(toks):
    if tok.kind == "lc":
      match = canon.ONOFF.match(tok.text.rstrip())
      if match:
        off = match.group(1) == "off"
        continue
      if off or "\r" in tok.text.rstrip("\r"):
        continue
    if off or tok.kind in ("nl", "sp", "at"):
      continue
    begin = tok.pos - base
    size = len(tok.text)
    have = spans.get((begin, begin + size), set())
    if tok.kind == "lc" and text[tok.pos + size:][:1] == "\r":
      have = have | spans.get((begin, begin + size + 1), set())
    around = text[tok.pos - 1:tok.pos] + text[tok.pos + len(tok.text):][:1]
    cls = CLASSES.get(tok.kind)
    if tok.kind in ("q", "b", "uq") and (
        len(around) < 2 or around[0] not in " \t\n(" or
        around[1] not in " \t\n)\r"):
      continue
    if tok.kind == "uq":
      if tok.text.lstrip("-").isdigit() and tok.text.count("-") < 2 and \
          tok.text.isascii() and "NUMBER" not in have:
        return "%r (line %d) is not marked as a number but as %s" % (
            tok.text, tok.line, sorted(have))
      continue
    if cls not in have:
      return "%r (line %d) is marked as %s, not as %s" % (
          tok.text, tok.line, sorted(have), cls)
    if tok.kind == "id" and "FUNNAME" not in have:
      return "the command name %r (line %d) is marked as %s" % (
          tok.text, tok.line, sorted(have))
    obs.hit("tokens compared")
  # the nesting, against the parse tree
  from cmakelang import lex, parse
  config = fmt.make_config({"additional_commands": payload["extra"]}
                           if payload["extra"] else {})
  parse_db = parse.funs.get_parse_db()
  parse_db.update(parse.funs.get_funtree(config.parse.fn_spec))
  tree = parse.parse(lex.tokenize(text), parse.ParseContext(
      parse_db, config=config))
  events, pos = [], [0]
  tree_events(tree, lex, events, pos)
  if events != [s[:3] for s in reader.spans]:
    for one, two in zip(events, reader.spans):
      if one != two[:3]:
        return "the spans do not follow the parse tree: %r instead of %r" % (
            two[:3], one)
    return "the spans do not follow the parse tree: %d instead of %d" % (
        len(reader.spans), len(events))
  # statements
  ends = {}
  for cls, begin, end, _ in reader.spans:
    if cls == "STATEMENT":
      ends[begin] = end
  depth, start = 0, None
  for tok in ([] if "FORMAT_OFF" in "".join(s[0] for s in reader.spans)
              else toks):
    if tok.kind == "id" and depth == 0:
      start = tok
    depth += {"(": 1, ")": -1}.get(tok.kind, 0)
    if tok.kind == ")" and depth == 0:
      begin, end = start.pos - base, tok.pos + 1 - base
      if begin not in ends:
        return "no span of a statement begins at %r (line %d)" % (
            start.text, start.line)
      rest = got[end:ends[begin]]
      if ends[begin] < end or (rest and (
          "#" not in rest or reflex_rest(rest))):
        return "the span of %r (line %d) is %r" % (
            start.text, start.line, got[begin:ends[begin]])
      ends.pop(begin)
  if ends and depth == 0 and start is not None and "FORMAT_OFF" not in "".join(
      s[0] for s in reader.spans):
    return "a span of a statement begins at %d" % sorted(ends)[0]
  obs.hit("spans", len(reader.spans))
  classes = tuple(s[0] for s in reader.spans)
  if len(set(classes)) >= 4:
    obs.see(classes[:60], payload["fmt"], payload["way"])
  return None
