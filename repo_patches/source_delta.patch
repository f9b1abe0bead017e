From 036904d528b3d9c26a0637c5407af9e0e356445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 001/107] fix: lexer character classes [a-zA-z_] matched
 backslash and brackets

A backslash escape at the start of an unquoted argument, such as \( or \;, was
tokenized as a one character WORD, so the rest of the argument was split off.
---
 cmakelang/lex/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index f7ddcb9..c8bae80 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -147,14 +147,14 @@ def tokenize(contents):
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From 8e9f672d5aed687c0ba773f6890b0ac2d490774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 002/107] fix: a bracket comment was merged with the line
 comment that follows it

The merged comment lost the text of the bracket comment and was not recognized
as a line comment, so that later arguments were written into the comment. Also
accept a bracket comment in front of the closing parenthesis of a command with
an exact number of arguments.
---
 cmakelang/parse/simple_nodes.py   | 11 +++++++++--
 cmakelang/parse/statement_node.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index c971e19..2a6f25d 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -136,10 +136,15 @@ class CommentNode(TreeNode):
     node = cls()
     node.is_implicit_trailing = True
     parent.children.append(node)
-    comment_tokens = node.children
+
+    # Bracket comments get their own node, for the same reason as in `consume()`
+    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+      node.children.append(tokens.pop(0))
+      return
 
     comment_tokens = []
-    while tokens and is_valid_trailing_comment(tokens[0]):
+    while (tokens and tokens[0].type in COMMENT_TOKENS and
+           is_valid_trailing_comment(tokens[0])):
       if (comment_tokens and
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
@@ -152,6 +157,7 @@ class CommentNode(TreeNode):
       # a single block
       if (len(tokens) > 1 and
           tokens[0].type == lex.TokenType.NEWLINE and
+          tokens[1].type in COMMENT_TOKENS and
           is_valid_trailing_comment(tokens[1])):
         node.children.append(tokens.pop(0))
 
@@ -162,6 +168,7 @@ class CommentNode(TreeNode):
       elif (len(tokens) > 2 and
             tokens[0].type == lex.TokenType.NEWLINE and
             tokens[1].type == lex.TokenType.WHITESPACE and
+            tokens[2].type in COMMENT_TOKENS and
             is_valid_trailing_comment(tokens[2])):
         node.children.append(tokens.pop(0))
         node.children.append(tokens.pop(0))
diff --git a/cmakelang/parse/statement_node.py b/cmakelang/parse/statement_node.py
index 256e33f..b7b69b8 100644
--- a/cmakelang/parse/statement_node.py
+++ b/cmakelang/parse/statement_node.py
@@ -97,7 +97,7 @@ class StatementNode(TreeNode):
         node.children.append(tokens.pop(0))
         continue
 
-      if tokens[0].type in COMMENT_TOKENS:
+      if tokens[0].type in COMMENT_TOKENS + (lex.TokenType.BRACKET_COMMENT,):
         cnode = CommentNode.consume(ctx, tokens)
         node.children.append(cnode)
         continue
-- 
2.43.0


From f657f5c76ce731db1cd9d25412a0aa75efc972e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 003/107] fix: blank lines at the start of a file were dropped
 one pass at a time

Formatting a file starting with two or more blank lines left one blank line,
and formatting the result again removed that one too, so --check failed on the
output of --in-place.
---
 cmakelang/format/formatter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 06a345b..1de0c5f 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1773,6 +1773,11 @@ def layout_tree(parsetree_root, config, linewidth=None, first_token=None):
     linewidth = config.format.linewidth
 
   root_box = create_box_tree(parsetree_root)
+  # Blank lines at the start of the document are dropped, regardless of how
+  # many there are. Otherwise every pass would drop one more.
+  if (root_box.node_type == NodeType.BODY and root_box.children
+      and root_box.children[0].node_type == NodeType.WHITESPACE):
+    root_box.children.pop(0)
   root_box.lock(config)
   stack_context = StackContext(config, first_token)
   root_box.reflow(stack_context, Cursor(0, 0))
-- 
2.43.0


From 1457ae409ae75e4bbb34c1ffa4186ac44394814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 004/107] fix: reformatting a numbered list of ten or more
 items destroyed the list

---
 cmakelang/markup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1432ff1..7a3dfab 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -131,10 +131,12 @@ def parse(lines, config=None):
         obj_list[-1].indent = len(indent_str)
         state = CommentType.ENUM_LIST
 
-        # TODO(josh) We want to match lines with either the same number of
-        # spaces or with the colon in the same column
+        # Match lines with either the same number of spaces or with the
+        # punctuation in the same column (the numbers of lists with ten or more
+        # items are right-aligned in the output).
         bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, bullet_punctuation))
+            r'^(?:{0}\d+|(?=.{{{2}}}{1} )\s*\d+){1}( .*)$'.format(
+                indent_str, bullet_punctuation, match.start(2)))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0


From 5c807542fe3fee3dc5cd3f7ebc04ebd6f81991ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 005/107] fix: content following an unterminated or repeated
 'cmake-format: off' was dropped

---
 cmakelang/format/formatter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 1de0c5f..32ea285 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -780,6 +780,10 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
+      if not ctx.is_active():
+        # Already off, so this comment is part of the section which will be
+        # transcribed verbatim
+        return
       spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
@@ -2015,4 +2019,9 @@ def write_tree(root_box, config, infile_content):
     logging.warning("'# cmake-format: off' is never turned back 'on'"
                     "at %d:%d", ctx.offswitch_location.line,
                     ctx.offswitch_location.col)
+    # Transcribe the remainder of the file, excluding the final newline (which
+    # is provided by getvalue()).
+    ctx.infile.seek(ctx.offswitch_location.offset, 0)
+    copy_text = ctx.infile.read().decode('utf-8')
+    ctx.outfile.write(re.sub(r"\r?\n\Z", "", copy_text))
   return ctx.outfile.getvalue()
-- 
2.43.0


From 4819434e2c1fb54d8b4425adb8dfe11835b36588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 006/107] fix: byte-order mark shifted off/on sections and hid
 the first comment

---
 cmakelang/lex/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index c8bae80..5e20980 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -192,7 +192,7 @@ def tokenize(contents):
               spelling=contents[0],
               index=-1,
               begin=SourceLocation((0, 0, 0)),
-              end=SourceLocation((0, 0, 0)))]
+              end=SourceLocation((0, 0, len(bytearray(contents[0], 'utf-8')))))]
     contents = contents[1:]
 
   tokens, remainder = scanner.scan(contents)
@@ -205,7 +205,8 @@ def tokenize(contents):
   # inconsistent.
   lineno = 1
   col = 0
-  offset = 0
+  # Offsets are byte offsets into the file, including the byte-order mark
+  offset = tokens_return[-1].end.offset if tokens_return else 0
   for tok_index, (tok_type, spelling) in enumerate(tokens):
     if sys.version_info[0] < 3:
       assert isinstance(spelling, unicode)
@@ -252,6 +253,7 @@ def get_first_non_whitespace_token(tokens):
   Return the first token in the list that is not whitespace, or None
   """
   for token in tokens:
-    if token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE):
+    if token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE,
+                          TokenType.BYTEORDER_MARK):
       return token
   return None
-- 
2.43.0


From b2f8a329a5128400df7e8c37578fde5cbc112c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 007/107] fix: command line options were applied only to the
 first of several files

---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..17987ec 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -508,7 +508,9 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  # NOTE(josh): legacy_consume() pops items out of the dictionary, and there
+  # may be more files to format
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From edc88b3ecd7244b9061827604895afe8aceb3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 008/107] fix: cmake-lint crashed when line_ending is 'auto'

---
 cmakelang/lint/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..7b81bbb 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,7 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From 9c91a8b285d08202a07226629e7d7cf3efcddca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 009/107] fix: cmake-lint crashed when reading from stdin

---
 cmakelang/lint/__main__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 7b81bbb..8a81ce9 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -144,12 +144,10 @@ def inner_main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-    if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
-
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          os.dup(sys.stdin.fileno()) if infile_path == '-' else infile_path,
+          mode='r', encoding=cfg.encode.input_encoding, newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
-- 
2.43.0


From 4db43a6ce483ad465df3f99a5f1ce4e545b3a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 010/107] fix: cmake-genparsers crashed when line_ending is
 'auto'

---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 410f541..6a68aca 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -188,7 +188,7 @@ def process_file(config, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
-- 
2.43.0


From e7f088f9e4f347908ad1fa3350caa217dd7241e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 011/107] fix: cmake-genparsers printed the input path into its
 output

---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6a68aca..5ff749f 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -246,7 +246,7 @@ def main():
   returncode = 0
   outdict = collections.OrderedDict()
   for infile_path in args.infilepaths:
-    print(infile_path)
+    logger.debug("Processing %s", infile_path)
     cfg = configuration.Configuration()
     if infile_path == '-':
       infile_path = os.dup(sys.stdin.fileno())
-- 
2.43.0


From a93e6f68da8c1fbfd9870eb88d869f45d48f4f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 012/107] fix: cmake-genparsers processed the previous file
 again when one is unreadable

---
 cmakelang/genparsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 5ff749f..44d2dae 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -257,6 +257,7 @@ def main():
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
+      continue
 
     try:
       with infile:
@@ -264,6 +265,8 @@ def main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
+      returncode = 1
+      continue
 
     try:
       parse_tree = process_file(cfg, intext)
-- 
2.43.0


From e9a10551a18d689c4811e27d49f27e60f30bb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 013/107] fix: commands with a missing exact-count argument
 failed with an internal error

---
 cmakelang/parse/argument_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 7974758..3b94af9 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -153,6 +153,9 @@ class StandardArgTree(ArgGroupNode):
         # parser to consume a right parenthesis and will lead to parse errors
         # in the event of a missing positional argument. Such errors will be
         # difficult to debug for the user.
+        if tokens[0].type == lex.TokenType.RIGHT_PAREN:
+          break
+
         if pargspecs:
           pspec = pargspecs[0]
         else:
-- 
2.43.0


From ab0d6570b9cdacbbc55469b66a950d9ab72dd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 014/107] fix: add_library() without sources at the end of a
 file crashed

---
 cmakelang/parse/funs/add_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index bff1df7..0eb9012 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -264,7 +264,8 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or "${" in third_token.spelling:
+  if ("${" in second_token.spelling
+      or (third_token is not None and "${" in third_token.spelling)):
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
-- 
2.43.0


From 48cb830d295c3428bcf3c31245560e48c74b46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 015/107] fix: add_executable() ignored the 'cmake-format:
 sort' tag

---
 cmakelang/parse/funs/add_executable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 3a59c63..f1a356a 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -97,7 +97,7 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       if state_ > parsing_name:
         if get_tag(tokens[0]) in ("unsort", "unsortable"):
           sortable = False
-        elif get_tag(tokens[0]) in ("unsort", "unsortable"):
+        elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
-- 
2.43.0


From d869529165218ee7c761592de3182ff1628fd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 016/107] fix: bracket argument directly followed by a comment
 was not recognized

---
 cmakelang/lex/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 5e20980..3493cf7 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -142,7 +142,7 @@ def tokenize(contents):
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # bracket argument
-      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\](?![^\s\)])",
+      (r"(?<![^\s\(])\[(=*)\[(?:(?!\]\1\]).)*\]\1\](?![^\s\)#])",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
-- 
2.43.0


From a815fd90a50e40f10f4ba30b0e426eb88b9d9c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 017/107] fix: trailing whitespace was removed from within
 multi-line arguments

---
 cmakelang/format/formatter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 32ea285..680c368 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -110,6 +110,14 @@ def normalize_line_endings(instr):
   return re.sub('[ \t\f\v]*((\r?\n)|(\r\n?))', '\n', instr)
 
 
+def normalize_literal_line_endings(instr):
+  """
+  Replace line endings with unix line endings, but keep everything else because
+  trailing whitespace within a quoted or bracket argument is part of its value.
+  """
+  return instr.replace('\r\n', '\n')
+
+
 def count_indentation(linestr):
   """return the number of spaces at the start of the line"""
   for idx, char in enumerate(linestr):
@@ -659,7 +667,7 @@ class ScalarNode(LayoutNode):
 
     # This might be a multiline string or a multiline bracket argument. In
     # that case we need to normalize line endings and flow each line
-    lines = normalize_line_endings(token.spelling).split('\n')
+    lines = normalize_literal_line_endings(token.spelling).split('\n')
     line = lines.pop(0)
     cursor[1] += len(line)
     self._colextent = cursor[1]
@@ -698,7 +706,7 @@ class ScalarNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
-    spelling = normalize_line_endings(token.spelling)
+    spelling = normalize_literal_line_endings(token.spelling)
     if self.node_type == NodeType.FUNNAME:
       command_case = config.resolve_for_command(
           token.spelling, "format.command_case")
-- 
2.43.0


From 0bfb5fde4197856ba24520841716e0f2fffb6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 018/107] fix: use_tabchars rewrote the content of multi-line
 arguments and off/on sections

---
 cmakelang/format/__main__.py  |  1 -
 cmakelang/format/formatter.py | 55 +++++++++++++++--------------------
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 17987ec..cff6b5d 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -172,7 +172,6 @@ def process_file(config, infile_content, dump=None):
   if config.encode.emit_byteorder_mark:
     outstr = "\ufeff" + outstr
 
-  outstr = formatter.replace_with_tabs(outstr, config)
   return (outstr, box_tree.reflow_valid)
 
 
diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 680c368..9a0d261 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -118,40 +118,27 @@ def normalize_literal_line_endings(instr):
   return instr.replace('\r\n', '\n')
 
 
-def count_indentation(linestr):
-  """return the number of spaces at the start of the line"""
-  for idx, char in enumerate(linestr):
-    if char != ' ':
-      return idx
-  return 0
-
-
-def replace_with_tabs(content, config):
+def get_indentation(num_spaces, config):
   """
-  Apply the tab policy to `content`. If config.use_tabchars is true, then
-  replace spaces at the beginning of every line with tabs according to
+  Return the indentation string that is `num_spaces` columns wide. If
+  config.use_tabchars is true then it is composed of tabs according to
   config.tab_size and config.fractional_tab_policy.
   """
   if not config.format.use_tabchars:
-    return content
-
-  outlines = []
-  for inline in content.split("\n"):
-    num_spaces = count_indentation(inline)
-    num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
-    outline = "\t" * num_tabs
-    if fractional:
-      if config.format.fractional_tab_policy == "use-space":
-        outline += " " * fractional
-      elif config.format.fractional_tab_policy == "round-up":
-        outline += "\t"
-      else:
-        raise UserError(
-            "Invalid fractional_tab_policy='{}'"
-            .format(config.format.fractional_tab_policy))
-    outline += inline[num_spaces:]
-    outlines.append(outline)
-  return "\n".join(outlines)
+    return " " * num_spaces
+
+  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
+  indentation = "\t" * num_tabs
+  if fractional:
+    if config.format.fractional_tab_policy == "use-space":
+      indentation += " " * fractional
+    elif config.format.fractional_tab_policy == "round-up":
+      indentation += "\t"
+    else:
+      raise UserError(
+          "Invalid fractional_tab_policy='{}'"
+          .format(config.format.fractional_tab_policy))
+  return indentation
 
 
 def need_paren_space(spelling, config):
@@ -1964,7 +1951,13 @@ class CursorFile(object):
 
     cols = (cursor[1] - self._cursor[1])
     if cols:
-      self._fobj.write(' ' * cols)
+      # NOTE(josh): the tab policy applies only to the indentation that we
+      # generate. It must not apply to the content of multi-line arguments, nor
+      # to the content between off/on switches.
+      if self._cursor[1] == 0:
+        self._fobj.write(get_indentation(cols, self._config))
+      else:
+        self._fobj.write(' ' * cols)
       self._cursor[1] += cols
 
     lines = text.split('\n')
-- 
2.43.0


From fb86de2614ea61459195ddf5d04330a7c98c8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 019/107] fix: comment between a property and its value was
 moved behind the value

---
 cmakelang/parse/additional_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index d843353..57e986c 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -68,7 +68,11 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
         child = CommentNode()
-        tree.children.append(child)
+        if subtree is None:
+          tree.children.append(child)
+        else:
+          # The comment is in between the items of a tuple
+          subtree.children.append(child)
         child.children.append(token)
         continue
 
-- 
2.43.0


From c4f92b4b404743ae381301f7e867688d243d3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 020/107] fix: content around an off/on switch inside of an
 argument list was dropped or corrupted

---
 cmakelang/format/formatter.py          | 28 +++++++-------------------
 cmakelang/parse/additional_nodes.py    | 15 ++++++++------
 cmakelang/parse/funs/add_executable.py |  8 +++++++-
 cmakelang/parse/funs/add_library.py    |  7 ++++++-
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 9a0d261..36a0aa2 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -619,6 +619,9 @@ class ParenNode(LayoutNode):
     return cursor + (0, 1)
 
   def write(self, config, ctx):
+    if not ctx.is_active():
+      return
+
     if self.node_type == NodeType.LPAREN:
       ctx.outfile.write_at(self.position, '(')
     elif self.node_type == NodeType.RPAREN:
@@ -981,11 +984,6 @@ class StatementNode(LayoutNode):
     self._colextent = max(self._colextent, rparen.colextent)
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(StatementNode, self).write(config, ctx)
-
 
 class AtWordStatementNode(LayoutNode):
   """
@@ -1046,11 +1044,6 @@ class AtWordStatementNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(AtWordStatementNode, self).write(config, ctx)
-
 
 class KwargGroupNode(LayoutNode):
   """
@@ -1217,9 +1210,12 @@ class PargGroupNode(LayoutNode):
     return self.children[-1].has_terminal_comment()
 
   def lock(self, config, stmt_depth=0):
+    # NOTE(josh): arguments must not move across an off/on switch
+    has_switch = any(
+        child.node_type is NodeType.ONOFFSWITCH for child in self._children)
     if (config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
-        self.pnode.sortable):
+        self.pnode.sortable and not has_switch):
       self._children = sort_arguments(self._children)
 
     super(PargGroupNode, self).lock(config, stmt_depth)
@@ -1463,11 +1459,6 @@ class ArgGroupNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ArgGroupNode, self).write(config, ctx)
-
 
 class ParenGroupNode(LayoutNode):
   """
@@ -1571,11 +1562,6 @@ class ParenGroupNode(LayoutNode):
       column_cursor[0] = cursor[0]
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ParenGroupNode, self).write(config, ctx)
-
 
 class BodyNode(LayoutNode):
   """
diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index 57e986c..1d7bd2c 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -54,6 +54,15 @@ class TupleGroupNode(ArgGroupNode):
       if should_break(tokens[0], breakstack):
         break
 
+      # If it's a sentinel comment, then add it at the current depth
+      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                            lex.TokenType.FORMAT_ON):
+        if subtree is None:
+          tree.children.append(OnOffNode.consume(ctx, tokens))
+        else:
+          subtree.children.append(OnOffNode.consume(ctx, tokens))
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
@@ -76,12 +85,6 @@ class TupleGroupNode(ArgGroupNode):
         child.children.append(token)
         continue
 
-      # If it's a sentinel comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-                            lex.TokenType.FORMAT_ON):
-        tree.children.append(OnOffNode.consume(ctx, tokens))
-        continue
-
       if subtree is None:
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index f1a356a..8f773bf 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -4,7 +4,7 @@ from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
@@ -104,6 +104,12 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                          lex.TokenType.FORMAT_ON):
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 0eb9012..f7556cb 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -4,7 +4,7 @@ from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     get_tag,
@@ -78,6 +78,11 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in (TokenType.FORMAT_OFF, TokenType.FORMAT_ON):
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From d9a1b0601259dc9571c47c4ef401ef3ee3a30229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 021/107] fix: lists written with a configured
 bullet_char/enum_char were not recognized when formatted again

---
 cmakelang/markup.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 7a3dfab..1f48d8b 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -63,12 +63,25 @@ def parse(lines, config=None):
   state = None
   bullet_regex = None
 
+  bullet_item_re = BULLET_REGEX
+  enum_item_re = ENUM_REGEX
   if config is None:
     fence_re = FENCE_REGEX
     ruler_re = RULER_REGEX
   else:
     fence_re = re.compile(config.markup.fence_pattern)
     ruler_re = re.compile(config.markup.ruler_pattern)
+    # NOTE(josh): we must recognize the lists that we write
+    bullet_char = getattr(config.markup, "bullet_char", None)
+    enum_char = getattr(config.markup, "enum_char", None)
+    if bullet_char:
+      bullet_item_re = re.compile(
+          r'^(\s*)([\*-]|{})( .+)$'.format(
+              re.escape(bullet_char)))
+    if enum_char:
+      enum_item_re = re.compile(
+          r'^(\s*)\d+([.:]|{})( .+)$'.format(
+              re.escape(enum_char)))
 
   for line in lines:
     fence_match = fence_re.match(line)
@@ -107,7 +120,7 @@ def parse(lines, config=None):
       continue
 
     if state in (None, CommentType.SEPARATOR, CommentType.RULER):
-      match = BULLET_REGEX.match(line)
+      match = bullet_item_re.match(line)
       if match:
         obj_list.append(CommentItem(CommentType.BULLET_LIST))
         indent_str = match.group(1)
@@ -116,13 +129,11 @@ def parse(lines, config=None):
         obj_list[-1].indent = len(indent_str)
         state = CommentType.BULLET_LIST
 
-        if bullet_punctuation == '*':
-          bullet_punctuation = r'\*'
         bullet_regex = re.compile(
-            '^{}{}( .*)$'.format(indent_str, bullet_punctuation))
+            '^{}{}( .*)$'.format(indent_str, re.escape(bullet_punctuation)))
         continue
 
-      match = ENUM_REGEX.match(line)
+      match = enum_item_re.match(line)
       if match:
         obj_list.append(CommentItem(CommentType.ENUM_LIST))
         indent_str = match.group(1)
@@ -136,7 +147,7 @@ def parse(lines, config=None):
         # items are right-aligned in the output).
         bullet_regex = re.compile(
             r'^(?:{0}\d+|(?=.{{{2}}}{1} )\s*\d+){1}( .*)$'.format(
-                indent_str, bullet_punctuation, match.start(2)))
+                indent_str, re.escape(bullet_punctuation), match.start(2)))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0


From d59e8c4c5a58994e0183a764c53366c979c55a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 022/107] fix: line ending after 'cmake-format: off' was
 changed in files with windows line endings

---
 cmakelang/lex/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 3493cf7..00c2e4f 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,9 +172,9 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#\s*(cmake-format|cmf): off[^\n]*",
+      (r"#\s*(cmake-format|cmf): off[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
-      (r"#\s*(cmake-format|cmf): on[^\n]*",
+      (r"#\s*(cmake-format|cmf): on[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_ON, t)),
       # bracket comment
       (r"#\[(=*)\[.*?\]\1\]", lambda s, t: (TokenType.BRACKET_COMMENT, t)),
-- 
2.43.0


From f7e3b2a5c2cbddec502bab0201e5d21ff97d42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 023/107] fix: foreach() without items and set() without
 arguments crashed

---
 cmakelang/parse/funs/foreach.py | 10 ++++------
 cmakelang/parse/funs/set.py     |  2 --
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 17bf40f..ca8b4a0 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -38,16 +38,14 @@ def parse_foreach_standard(ctx, tokens, breakstack):
     continue
 
   # Consume the loop variable and any attached comments
-  ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(ctx, tokens, 1, [], breakstack)
-  assert len(tokens) < ntokens
   tree.children.append(subtree)
 
-  # Consume the items of iteration
+  # Consume the items of iteration, if there are any
   ntokens = len(tokens)
-  subtree = PositionalGroupNode.parse(ctx, tokens, '+', [], breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  subtree = PositionalGroupNode.parse(ctx, tokens, '*', [], breakstack)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
 
   return tree
 
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index c877bbe..480cac3 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -47,10 +47,8 @@ def parse_set(ctx, tokens, breakstack):
   kwarg_breakstack = breakstack + [KwargBreaker(list(kwargs.keys()) + flags)]
   positional_breakstack = breakstack + [KwargBreaker(list(kwargs.keys()))]
 
-  ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(
       ctx, tokens, 1, flags, positional_breakstack)
-  assert len(tokens) < ntokens
   tree.children.append(subtree)
   for token in subtree.get_semantic_tokens():
     tree.varname = token
-- 
2.43.0


From f23579a8ac2af550f05b910ad2ddb92806e9c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 024/107] fix: positional arguments of a command specified to
 take none crashed

---
 cmakelang/parse/argument_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 3b94af9..26279a3 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -174,6 +174,9 @@ class StandardArgTree(ArgGroupNode):
       else:
         if pargspecs:
           pspec = pargspecs.pop(0)
+          if pspec.nargs == 0:
+            # An argument where none is expected
+            continue
         else:
           pspec = default_spec
 
-- 
2.43.0


From 5247d65f3bb614058076a9192a5cc6a43dcf30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 025/107] fix: nargs of a positional group specification was
 ignored

---
 cmakelang/parse/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 2f060be..054755d 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -445,7 +445,7 @@ def parse_pspec(pargs, flags):
 
     if isinstance(pargdecl, dict):
         # A dictionary is interpreted as init kwargs
-      if "npargs" not in pargdecl:
+      if "nargs" not in pargdecl:
         pargdecl = dict(pargdecl)
         pargdecl["nargs"] = ZERO_OR_MORE
       out.append(PositionalSpec(**pargdecl))
-- 
2.43.0


From 119f37edce7386166774f1026ccf3e90b6a0d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 026/107] fix: cmake-lint exited with status 0 on invalid
 command lines

---
 cmakelang/lint/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 8a81ce9..23c8a48 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -182,7 +182,7 @@ def main():
   try:
     return inner_main()
   except SystemExit:
-    return 0
+    raise
   except common.UserError as ex:
     logger.fatal(ex.msg)
     return 1
-- 
2.43.0


From 4b019f49eac383b708b72c269ca67e23dd87da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 027/107] fix: cmake-annotate --config-file was taken for a
 list of characters

---
 cmakelang/annotate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..2d5f6e9 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -136,14 +136,16 @@ def main():
 
   argdict = __main__.get_argdict(args)
   output_format = argdict.pop("format")
+  config_file = argdict.pop("config_file", None)
+  config_files = None if config_file is None else [config_file]
 
   for infile_path in args.infilepaths:
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From 109a5c9949c19123e8851f2197aef5500f9afd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 028/107] fix: cmake-annotate did not escape html characters of
 the listfile

---
 cmakelang/render.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmakelang/render.py b/cmakelang/render.py
index a7f77fe..d95fec1 100644
--- a/cmakelang/render.py
+++ b/cmakelang/render.py
@@ -10,6 +10,11 @@ import io
 import logging
 import os
 
+try:
+  from html import escape
+except ImportError:
+  from cgi import escape
+
 from cmakelang import lex
 from cmakelang.parse.common import TreeNode
 
@@ -27,7 +32,7 @@ def dump_html(node, outfile):
     outfile.write('</span>')
   elif isinstance(node, lex.Token):
     outfile.write('<span class="cmf-{}">'.format(node.type.name))
-    outfile.write(node.spelling)
+    outfile.write(escape(node.spelling, quote=False))
     outfile.write('</span>')
 
 
-- 
2.43.0


From 36b93e49bf47149e376063da99836a9ef192a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 029/107] fix: cmake-annotate ignored its configuration when
 parsing comments and tags

---
 cmakelang/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 2d5f6e9..18db220 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -53,7 +53,7 @@ def annotate_file(config, infile, outfile, outfmt=None):
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
   parse_db.update(parse.funs.get_funtree(config.parse.fn_spec))
-  ctx = parse.ParseContext(parse_db)
+  ctx = parse.ParseContext(parse_db, config=config)
   parse_tree = parse.parse(tokens, ctx)
 
   if outfmt == "page":
-- 
2.43.0


From cb4b631c5c46b6a42026b432014483642f0bdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 030/107] fix: formatting in place left a temporary file behind
 and could truncate the file on failure

---
 cmakelang/format/__main__.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index cff6b5d..e8dee7a 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -559,12 +559,19 @@ def onefile_main(infile_path, args, argparse_dict):
           args.outfile_path, 'w', encoding=cfg.encode.output_encoding,
           newline='')
 
-  with outfile:
-    outfile.write(outtext)
-
-  if args.in_place:
-    shutil.copymode(infile_path, tempfile_path)
-    shutil.move(tempfile_path, infile_path)
+  try:
+    with outfile:
+      outfile.write(outtext)
+
+    if args.in_place:
+      shutil.copymode(infile_path, tempfile_path)
+      # NOTE: both are in the same directory. os.replace() is atomic, where
+      # shutil.move() falls back to overwriting the file if it cannot rename
+      getattr(os, "replace", os.rename)(tempfile_path, infile_path)
+  except:
+    if args.in_place and os.path.exists(tempfile_path):
+      os.remove(tempfile_path)
+    raise
 
 
 def inner_main():
-- 
2.43.0


From c3bf1f7ccdf55be691340896c960f5280a123779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 031/107] fix: python configuration file without extension was
 taken for yaml

---
 cmakelang/format/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index e8dee7a..9a4ac84 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -237,13 +237,18 @@ def try_get_configdict(configfile_path):
   """
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return json.load(config_file)
+      config_dict = json.load(config_file)
+    if isinstance(config_dict, dict):
+      return config_dict
   except:  # pylint: disable=bare-except
     pass
 
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return load_yaml(config_file)
+      config_dict = load_yaml(config_file)
+    # NOTE: most python files are valid yaml: a single string
+    if isinstance(config_dict, dict):
+      return config_dict
   except:  # pylint: disable=bare-except
     pass
 
-- 
2.43.0


From 3e7347cd0f097915d824b6930a3e889ab986092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 032/107] fix: --dump-config dropped per_command overrides of
 some commands

---
 cmakelang/format/__main__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 9a4ac84..477d2f6 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -39,7 +39,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -385,10 +384,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
-
   if outfmt == 'yaml':
     import yaml
     yaml_register_odict(yaml.SafeDumper)
-- 
2.43.0


From df871e98c9e210c70d94da3cfd559a83dbec5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 033/107] fix: keep the whitespace between the items of a tuple
 in order in the parse tree

---
 cmakelang/parse/additional_nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index 1d7bd2c..9b9932c 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -38,7 +38,6 @@ class TupleGroupNode(ArgGroupNode):
     tree = cls()
     tree.spec = PositionalSpec(ntup, flags=flags, legacy=True)
     subtree = None
-    active_depth = tree
 
     npargs_consumed = 0
     ntup_consumed = 0
@@ -69,7 +68,11 @@ class TupleGroupNode(ArgGroupNode):
       # If it is a whitespace token then put it directly in the parse tree at
       # the current depth
       if token.type in WHITESPACE_TOKENS:
-        active_depth.children.append(token)
+        if subtree is None:
+          tree.children.append(token)
+        else:
+          # The whitespace is in between the items of a tuple
+          subtree.children.append(token)
         continue
 
       # If it's a comment token not associated with an argument, then put it
-- 
2.43.0


From 27e7bc5b166ad459f0848d4ec48fe681dbf47f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 034/107] fix: match the keywords of a specification the same
 way in the breaker and in the parser

A keyword or flag of a user's specification which is not spelled in upper case,
or an argument that only upper() turns into a keyword, broke a positional group
without starting a keyword group and ended in an InternalError
---
 cmakelang/parse/argument_nodes.py |  8 ++++++--
 cmakelang/parse/common.py         | 11 ++++++++---
 cmakelang/parse/util.py           | 10 ++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 26279a3..5cb3670 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -12,6 +12,7 @@ from cmakelang.parse.util import (
     comment_belongs_up_tree,
     get_normalized_kwarg,
     get_tag,
+    normalize_kwarg,
     npargs_is_exact,
     pargs_are_full,
     IMPLICIT_PARG_TYPES,
@@ -258,7 +259,9 @@ class StandardParser2(object):
       funtree = {}
 
     self.cmdspec = cmdspec
-    self.funtree = funtree
+    self.funtree = {
+        normalize_kwarg(kwarg): subparser
+        for kwarg, subparser in funtree.items()}
     self.doc = doc
 
   @property
@@ -352,6 +355,7 @@ class PositionalGroupNode(TreeNode):
 
     tree = cls(sortable=spec.sortable, tags=spec.tags)
     tree.spec = spec
+    flags = [normalize_kwarg(flag) for flag in spec.flags]
     nconsumed = 0
 
     # Strip off any preceeding whitespace (note that in most cases this has
@@ -426,7 +430,7 @@ class PositionalGroupNode(TreeNode):
         continue
 
       # Otherwise is it is a positional argument, so add it to the tree as such
-      if get_normalized_kwarg(tokens[0]) in spec.flags:
+      if get_normalized_kwarg(tokens[0]) in flags:
         child = TreeNode(NodeType.FLAG)
       else:
         child = TreeNode(NodeType.ARGUMENT)
diff --git a/cmakelang/parse/common.py b/cmakelang/parse/common.py
index bbb9315..052bcb2 100644
--- a/cmakelang/parse/common.py
+++ b/cmakelang/parse/common.py
@@ -8,7 +8,12 @@ import logging
 from cmakelang import common
 from cmakelang import lex
 from cmakelang.parse.util import (
-    is_semantic_token, is_syntactic_token, is_whitespace_token, is_comment_token
+    get_normalized_kwarg,
+    is_comment_token,
+    is_semantic_token,
+    is_syntactic_token,
+    is_whitespace_token,
+    normalize_kwarg,
 )
 
 logger = logging.getLogger(__name__)
@@ -143,10 +148,10 @@ class KwargBreaker(object):
   """
 
   def __init__(self, kwargs):
-    self.kwargs = [kwarg.upper() for kwarg in kwargs]
+    self.kwargs = [normalize_kwarg(kwarg) for kwarg in kwargs]
 
   def __call__(self, token):
-    return token.spelling.upper() in self.kwargs
+    return get_normalized_kwarg(token) in self.kwargs
 
   def __repr__(self):
     return "KwargBreaker({})".format(",".join(self.kwargs))
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 054755d..5ff30b5 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -271,6 +271,16 @@ def get_tag(token):
   return None
 
 
+def normalize_kwarg(spelling):
+  """
+  Return the keyword or flag `spelling` in the form that
+  `get_normalized_kwarg` returns for a token which matches it.
+  """
+  if spelling.startswith('-'):
+    return spelling.lower()
+  return spelling.upper()
+
+
 def get_normalized_kwarg(token):
   """
   Return uppercase token spelling if it is a word, otherwise return None
-- 
2.43.0


From 8a2520c5197b7c78f47e2ded4d6935c00ea9811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 035/107] fix: recognize words, numbers and quoted strings
 directly in front of a line comment

A keyword with a comment attached, as in 'install(TARGETS a DESTINATION#c', was
not lexed as a word: set() and install() died with an AssertionError and if()
never came back
---
 cmakelang/lex/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 00c2e4f..b13663e 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -136,7 +136,7 @@ def tokenize(contents):
       # double quoted string
       # NOTE(josh): regex borrowed from
       # https://stackoverflow.com/a/37379449/141023
-      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)])',
+      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)#])',
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # single quoted string
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
@@ -144,17 +144,17 @@ def tokenize(contents):
       # bracket argument
       (r"(?<![^\s\(])\[(=*)\[(?:(?!\]\1\]).)*\]\1\](?![^\s\)#])",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
-      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
+      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(#])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(#])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(#])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)#])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From 8e080f5be8f1c6bc76564a27c63bcdeb8d3140fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 036/107] fix: recognize words, numbers and strings directly
 behind a bracket comment

'#[[c]]foo(a)' was refused and a keyword in 'foo(#[[c]]KEY a)' was not seen
---
 cmakelang/lex/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index b13663e..d39c6c8 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -136,25 +136,25 @@ def tokenize(contents):
       # double quoted string
       # NOTE(josh): regex borrowed from
       # https://stackoverflow.com/a/37379449/141023
-      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)#])',
+      (r'(?<![^\s\(\]])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)#])',
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # single quoted string
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # bracket argument
-      (r"(?<![^\s\(])\[(=*)\[(?:(?!\]\1\]).)*\]\1\](?![^\s\)#])",
+      (r"(?<![^\s\(\]])\[(=*)\[(?:(?!\]\1\]).)*\]\1\](?![^\s\)#])",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
-      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(#])",
+      (r"(?<![^\s\(\]])-?[0-9]+(?![^\s\)\(#])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(#])",
+      (r"(?<![^\s\(\]])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(#])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(#])",
+      (r"(?<![^\s\(\]])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(#])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)#])",
+      (r"(?<![^\s\(\]])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)#])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From 243c7e627cae230440d16146d117aeea4f285449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 037/107] fix: do not read the off and on comments across the
 end of a line

---
 cmakelang/lex/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index d39c6c8..eda1f26 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,9 +172,9 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#\s*(cmake-format|cmf): off[^\r\n]*",
+      (r"#[^\S\r\n]*(cmake-format|cmf): off[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
-      (r"#\s*(cmake-format|cmf): on[^\r\n]*",
+      (r"#[^\S\r\n]*(cmake-format|cmf): on[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_ON, t)),
       # bracket comment
       (r"#\[(=*)\[.*?\]\1\]", lambda s, t: (TokenType.BRACKET_COMMENT, t)),
-- 
2.43.0


From 52d02ad1eeb17f30183402845a9f7d2c9e9c3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 038/107] fix: cmake-lint crashed on set() and list() without a
 variable name

---
 cmakelang/lint/basic_checker.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..4a05639 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -104,7 +104,9 @@ def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
      variable name."""
-  semtoks = node.argtree.parg_groups[0].get_tokens(kind="semantic")
+  semtoks = node.argtree.get_tokens(kind="semantic")
+  if len(semtoks) < 2:
+    return None
   listcmd = semtoks[0].spelling
   if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
     return semtoks[-1]
@@ -607,7 +609,9 @@ class LintChecker(object):
     scope = get_scope_of_assignment(node)
 
     if node.get_funname() == "set":
-      varname = node.argtree.varname
+      varname = next(iter(node.argtree.get_tokens(kind="semantic")), None)
+      if varname is None:
+        return
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
       if varname is None:
@@ -706,11 +710,15 @@ class LintChecker(object):
     """
     for stmt in find_statements_in_subtree(tree, ["set", "list"]):
       if stmt.get_funname() == "set":
-        token = stmt.argtree.varname
+        tokens = stmt.argtree.get_tokens(kind="semantic")[:1]
       elif stmt.get_funname() == "list":
-        token = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")[1]
+        tokens = stmt.argtree.get_tokens(kind="semantic")[1:2]
       else:
         continue
+      if not tokens:
+        # There is no name, which is lint of its own (E1120)
+        continue
+      token = tokens[0]
       self.check_varname(token.spelling, token, "Assignment to")
 
   def check_variable_references(self, tree):
-- 
2.43.0


From 0f19dc7403bb4fc29b4b57211ad9e6be3fce6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 039/107] fix: cmake-lint crashed on if(arg) in a loop over
 ARGN

---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 4a05639..360f0a7 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -322,7 +322,7 @@ class LintChecker(object):
           tokens = conditional.get_semantic_tokens()
           if not tokens:
             continue
-          if tokens[0].spelling == loopvar.spelling:
+          if len(tokens) > 1 and tokens[0].spelling == loopvar.spelling:
             if tokens[1].spelling in ("STREQUAL", "MATCHES"):
               conditional_count += 1
         if conditional_count > cfg.lint.max_conditionals_custom_parser:
-- 
2.43.0


From 16f282239b876f1688ced77beffdf5eb309349ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 040/107] fix: cmake-lint crashed on an empty file

---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 360f0a7..585f9ce 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -545,8 +545,8 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
+      lineno = node.get_tokens()[-1].get_location().line
       local_ctx.unsuppress(lineno, suppressions)
 
   def check_arggroup(self, node):
-- 
2.43.0


From 6f1f8f56246f3bc127f70d78c650d0337cc67ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 041/107] fix: cmake-lint crashed on a variable reference
 without its closing brace

---
 cmakelang/lint/basic_checker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 585f9ce..6ce9ee7 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -294,6 +294,7 @@ class LintChecker(object):
 
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
+        catmatch = "".join(match.group(1, 2))
         local_ctx.record_lint(
             "W0106", "closing", catmatch, location=token.get_location())
         continue
-- 
2.43.0


From d3033b69e8d1cea4d44b1ccb17100b19a8e60bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 042/107] fix: cmake-lint crashed on build_command() and on
 extra arguments of add_custom_command()

The recorded codes did not fit the arguments of their messages
---
 cmakelang/parse/funs/add_xxx.py       | 2 +-
 cmakelang/parse/funs/miscellaneous.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2ab3e56..992c05a 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,9 +30,9 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper not in kwargs:
+  if second_token is not None and second_token.spelling.upper() not in kwargs:
     ctx.lint_ctx.record_lint(
-        "W0106", "build_command(<cachevariable> <makecommand>)",
+        "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
     return StandardArgTree.parse(ctx, tokens, "2", {}, [], breakstack)
 
-- 
2.43.0


From 658d6f3f6a9e94d1af97d2ca718ec8adb1f312a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 043/107] fix: parenthesized arguments of add_library,
 add_executable and set_target_properties

cmake accepts them, the parser raised an InternalError
---
 cmakelang/parse/additional_nodes.py    | 9 ++++++++-
 cmakelang/parse/funs/add_executable.py | 8 +++++++-
 cmakelang/parse/funs/add_library.py    | 8 +++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index 9b9932c..9a0cdcc 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -13,7 +13,8 @@ from cmakelang.parse.common import (
 )
 from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.argument_nodes import (
-    ArgGroupNode, PositionalGroupNode, PositionalParser, PositionalSpec,
+    ArgGroupNode, ParenGroupNode, PositionalGroupNode, PositionalParser,
+    PositionalSpec,
     StandardArgTree)
 
 logger = logging.getLogger(__name__)
@@ -62,6 +63,12 @@ class TupleGroupNode(ArgGroupNode):
           subtree.children.append(OnOffNode.consume(ctx, tokens))
         continue
 
+      # Parentheses are not expected here, but they are just arguments to cmake
+      if tokens[0].type is lex.TokenType.LEFT_PAREN:
+        parent = tree if subtree is None else subtree
+        parent.children.append(ParenGroupNode.parse(ctx, tokens, breakstack))
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 8f773bf..aa0047d 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -2,7 +2,7 @@ import logging
 
 from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
-    ArgGroupNode, PositionalGroupNode, StandardArgTree)
+    ArgGroupNode, ParenGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
@@ -110,6 +110,12 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       active_depth.children.append(OnOffNode.consume(ctx, tokens))
       continue
 
+    # Parentheses are not expected here, but they are just arguments to cmake
+    if tokens[0].type is lex.TokenType.LEFT_PAREN:
+      active_depth.children.append(
+          ParenGroupNode.parse(ctx, tokens, breakstack))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index f7556cb..7ecea50 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -2,7 +2,7 @@ import logging
 
 from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
-    ArgGroupNode, PositionalGroupNode, StandardArgTree)
+    ArgGroupNode, ParenGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
@@ -83,6 +83,12 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       active_depth.children.append(OnOffNode.consume(ctx, tokens))
       continue
 
+    # Parentheses are not expected here, but they are just arguments to cmake
+    if tokens[0].type is TokenType.LEFT_PAREN:
+      active_depth.children.append(
+          ParenGroupNode.parse(ctx, tokens, breakstack))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From 6511ebf6aa38651624e6dbd5744ab1fd7be64a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 044/107] fix: an optional positional group without arguments
 in front of a flag

The parser raised 'parsed an empty subtree'
---
 cmakelang/parse/argument_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 5cb3670..6d0d3e7 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -193,7 +193,10 @@ class StandardArgTree(ArgGroupNode):
         with ctx.pusharg(tree):
           subtree = PositionalGroupNode.parse2(
               ctx, tokens, pspec, positional_breakstack)
-          tree.parg_groups.append(subtree)
+        if len(tokens) >= ntokens and pspec is not default_spec:
+          # The next argument belongs to a later group, and none to this one
+          continue
+        tree.parg_groups.append(subtree)
 
       if len(tokens) >= ntokens:
         raise InternalError(
-- 
2.43.0


From 0320bd08d87f0475349d2cd4927bbd3823e5b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 045/107] fix: genparsers crashed on definitions without a name
 and on short calls

of cmake_parse_arguments() and set()
---
 cmakelang/genparsers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 44d2dae..e0d8f90 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -79,6 +79,8 @@ def process_set_statement(argtree, variables):
   """
   Process a set() statement, updating the variable assignments accordingly
   """
+  if not argtree.varname:
+    return
   varname = replace_varrefs(argtree.varname.spelling, variables)
   if not argtree.value_group:
     variables.pop(varname, None)
@@ -106,6 +108,9 @@ def process_defn_body(body, out):
 
       if child.get_funname() == "cmake_parse_arguments":
         pargs = child.argtree.get_tokens(kind="semantic")
+        if len(pargs) < 4:
+          # Not a call that cmake would accept
+          continue
         pargs.pop(0)
         kwvargs = replace_varrefs(
             pargs.pop(0).spelling.strip('"'), variables).split(";")
@@ -173,6 +178,9 @@ def process_tree(parse_tree):
   out = collections.OrderedDict()
   for statement in find_statements_in_subtree(
       parse_tree, ("function", "macro")):
+    if not statement.argtree.get_tokens(kind="semantic"):
+      # A definition without a name
+      continue
     fnname, spec = process_defn(statement)
     if fnname.startswith("_"):
       continue
-- 
2.43.0


From 13521ee921053804d4e2f0fd74908dfbc7524b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 046/107] fix: lint counted the carriage return of a line end
 as a character of the line

---
 cmakelang/lint/basic_checker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 6ce9ee7..b67366f 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -216,10 +216,6 @@ class LintChecker(object):
       # NOTE(josh): The tokenizer starts lineno at "1", so we must do the same
       # here in order to be consistent.
       lineno += 1
-      if len(line) > cfg.format.line_width:
-        local_ctx.record_lint(
-            "C0301", len(line), cfg.format.line_width, location=(lineno,))
-
       if line.endswith("\r"):
         if cfg.format.line_ending == "unix":
           local_ctx.record_lint(
@@ -230,6 +226,10 @@ class LintChecker(object):
           local_ctx.record_lint(
               "C0327", "unix", location=(lineno,))
 
+      if len(line) > cfg.format.line_width:
+        local_ctx.record_lint(
+            "C0301", len(line), cfg.format.line_width, location=(lineno,))
+
       if len(line.rstrip()) != len(line):
         local_ctx.record_lint("C0303", location=(lineno,))
 
-- 
2.43.0


From 7a9194ecc8d7be5438ad09d8c91d3794d7878a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 047/107] fix: lint ignored wrong line endings when the line
 ending is detected

---
 cmakelang/lint/basic_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index b67366f..1e7053a 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -217,12 +217,12 @@ class LintChecker(object):
       # here in order to be consistent.
       lineno += 1
       if line.endswith("\r"):
-        if cfg.format.line_ending == "unix":
+        if cfg.format.endl == "\n":
           local_ctx.record_lint(
               "C0327", "windows", location=(lineno,))
         line = line[:-1]
       else:
-        if cfg.format.line_ending == "windows":
+        if cfg.format.endl == "\r\n":
           local_ctx.record_lint(
               "C0327", "unix", location=(lineno,))
 
-- 
2.43.0


From 6984c1d586297e951fc96c3dfcadf0947c1b3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 048/107] fix: lint reported a wrong line ending behind the
 last line

---
 cmakelang/lint/basic_checker.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 1e7053a..2e83f2c 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -210,13 +210,20 @@ class LintChecker(object):
     """
     (cfg, local_ctx) = self.context
     lines = infile_content.split("\n")
+    ends_with_newline = infile_content.endswith("\n")
+    if ends_with_newline:
+      # There is no line after the last newline
+      lines.pop(-1)
     indent_regex = re.compile(r"([ \t]*)(.*)")
 
     for lineno, line in enumerate(lines):
       # NOTE(josh): The tokenizer starts lineno at "1", so we must do the same
       # here in order to be consistent.
       lineno += 1
-      if line.endswith("\r"):
+      if lineno == len(lines) and not ends_with_newline:
+        # The last line is not terminated, see C0304 below
+        pass
+      elif line.endswith("\r"):
         if cfg.format.endl == "\n":
           local_ctx.record_lint(
               "C0327", "windows", location=(lineno,))
@@ -253,7 +260,7 @@ class LintChecker(object):
               "C0306", "space", "tab", location=(lineno, colno))
 
     # check that the file ends with newline
-    if not infile_content.endswith("\n"):
+    if not ends_with_newline:
       local_ctx.record_lint("C0304", location=(len(lines),))
 
   def check_tokens(self, tokens):
-- 
2.43.0


From ce516182fda7b11971b0f63f252b99036a542a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 049/107] fix: lint suppressions did not cover the last line of
 their scope

---
 cmakelang/lint/basic_checker.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 2e83f2c..7a8eb1b 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -554,8 +554,19 @@ class LintChecker(object):
       prevchild[0] = child
 
     if suppressions:
-      lineno = node.get_tokens()[-1].get_location().line
-      local_ctx.unsuppress(lineno, suppressions)
+      # The suppressions apply up to and including the last line of the scope
+      local_ctx.unsuppress(self.get_lineno_after(node), suppressions)
+
+  def get_lineno_after(self, node):
+    """Return the number of the first line after a body node: the line of the
+       statement which closes the body, or the line after the end of file."""
+    if node.parent is not None:
+      siblings = node.parent.children
+      for prev, succ in zip(siblings, siblings[1:]):
+        if prev is node:
+          return succ.get_location().line
+    token = node.get_tokens()[-1]
+    return token.get_location().line + token.spelling.count("\n") + 1
 
   def check_arggroup(self, node):
     (_, local_ctx) = self.context
-- 
2.43.0


From 6923f28fd454cd2bfece1731dec14f5b4452e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 050/107] fix: lint suppressions in a nested scope had no
 effect if the outer scope has some

---
 cmakelang/lint/lint_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..cd8f8f5 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -101,8 +101,10 @@ class FileContext(object):
     # Remove any lint records that were suppressed at the line number where
     # they were recorded
     out = []
-    events = list(self._suppression_events)
-    active_suppressions = set()
+    # NOTE: the events of a body are registered before those of the bodies
+    # nested in it, and nested scopes may suppress the same id.
+    events = sorted(self._suppression_events, key=lambda event: event.lineno)
+    active_suppressions = collections.Counter()
 
     for record in records:
       if record.location:
@@ -110,13 +112,13 @@ class FileContext(object):
           event = events.pop(0)
           if event.mode == "add":
             for idstr in event.suppressions:
-              active_suppressions.add(idstr)
+              active_suppressions[idstr] += 1
           elif event.mode == "remove":
             for idstr in event.suppressions:
-              active_suppressions.discard(idstr)
+              active_suppressions[idstr] -= 1
           else:
             raise ValueError("Illegal suppression event {}".format(event.mode))
-      if record.spec.idstr in active_suppressions:
+      if active_suppressions[record.spec.idstr] > 0:
         continue
       out.append(record)
 
-- 
2.43.0


From 68afff569488a5b3d322b429049cb4b50c199438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 051/107] fix: lint suppressions applied to lines in front of
 the directive

---
 cmakelang/lint/basic_checker.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 7a8eb1b..4205b5a 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -477,8 +477,9 @@ class LintChecker(object):
 
   def parse_pragmas_from_comment(self, node):
     """Parse any cmake-lint directives (pragmas) from line comment tokens within
-      the comment node."""
-    suppressions = []
+      the comment node. Return a list of pairs: the line number of a directive,
+      and the suppressions it requests."""
+    requests = []
     for child in node.children:
       if not isinstance(child, Token):
         continue
@@ -492,9 +493,12 @@ class LintChecker(object):
       row, col, _ = token.get_location()
       content = token.spelling[len(pragma_prefix):]
       col += len(pragma_prefix)
+      suppressions = []
       self.parse_pragmas_from_token(content, row, col, suppressions)
+      if suppressions:
+        requests.append((row, suppressions))
 
-    return suppressions
+    return requests
 
   def check_body(self, node):
     """Perform checks on a body node."""
@@ -507,11 +511,8 @@ class LintChecker(object):
         continue
 
       if child.node_type is NodeType.COMMENT:
-        requested_suppressions = self.parse_pragmas_from_comment(child)
-        if requested_suppressions:
-          lineno = child.get_tokens()[0].get_location().line
-          new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-          suppressions.extend(new_suppressions)
+        for lineno, requested in self.parse_pragmas_from_comment(child):
+          suppressions.extend(local_ctx.suppress(lineno, requested))
 
       # Check for docstrings
       # TODO(josh): move into flow-control or fundef/macrodef checkers? Would
@@ -759,14 +760,10 @@ class LintChecker(object):
     if not self.am_in_statement():
       return
 
-    requested_suppressions = self.parse_pragmas_from_comment(node)
-    if not requested_suppressions:
-      return
-
     (_cfg, local_ctx) = self.context
-    lineno = node.get_tokens()[0].get_location().line
-    new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-    local_ctx.unsuppress(lineno + 1, new_suppressions)
+    for lineno, requested in self.parse_pragmas_from_comment(node):
+      new_suppressions = local_ctx.suppress(lineno, requested)
+      local_ctx.unsuppress(lineno + 1, new_suppressions)
 
   def am_in_statement(self):
     for node in self._node_stack:
-- 
2.43.0


From 19b86086c0f2e4c01ed147cac834b185dc7059d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 052/107] fix: lint took variables for a builtin whose name is
 only a prefix of theirs

---
 cmakelang/lint/basic_checker.py | 4 ++--
 cmakelang/parse/variables.py    | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 4205b5a..f3a1b4c 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -706,7 +706,7 @@ class LintChecker(object):
     """
     (_, local_ctx) = self.context
 
-    imatch = variables.CASE_INSENSITIVE_REGEX.match(varname)
+    imatch = variables.CASE_INSENSITIVE_NAME_REGEX.match(varname)
     if not imatch:
       # variable name isn't a match for any builtins
       return
@@ -717,7 +717,7 @@ class LintChecker(object):
         # yet to actually compare against these
         return
 
-    if not variables.CASE_SENSITIVE_REGEX.match(varname):
+    if not variables.CASE_SENSITIVE_NAME_REGEX.match(varname):
       # variable name is a match for a builtin except for case
       local_ctx.record_lint(
           "W0105", contextstr, varname,
diff --git a/cmakelang/parse/variables.py b/cmakelang/parse/variables.py
index 81a6a61..dd77acf 100644
--- a/cmakelang/parse/variables.py
+++ b/cmakelang/parse/variables.py
@@ -498,3 +498,9 @@ CASE_SENSITIVE_REGEX = re.compile(
     "|".join(stripped_patterns()))
 CASE_INSENSITIVE_REGEX = re.compile(
     "|".join(stripped_patterns()), re.IGNORECASE)
+
+# Match the whole of a name, as opposed to a prefix of it
+CASE_SENSITIVE_NAME_REGEX = re.compile(
+    r"(?:{})\Z".format("|".join(stripped_patterns())))
+CASE_INSENSITIVE_NAME_REGEX = re.compile(
+    r"(?:{})\Z".format("|".join(stripped_patterns())), re.IGNORECASE)
-- 
2.43.0


From 3d5ed8cde8cd3c3a1afefcf960ec6dccc62f03f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 053/107] fix: output files were truncated if the output cannot
 be encoded

---
 cmakelang/format/__main__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 477d2f6..8fc51f8 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -540,6 +540,12 @@ def onefile_main(infile_path, args, argparse_dict):
     if intext == outtext:
       logger.debug("No delta for %s", infile_path)
       return
+
+  # NOTE: if the text cannot be encoded then fail here, and not when the output
+  # file is already truncated
+  outtext.encode(cfg.encode.output_encoding)
+
+  if args.in_place:
     tempfile_path = infile_path + ".cmf-temp"
     outfile = io.open(
         tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')
-- 
2.43.0


From 3533e709a39ffbc6eafee0bb3610000b95ad5710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 054/107] fix: an argument behind a comment was taken for a
 keyword of an outer group

---
 cmakelang/parse/argument_nodes.py |  7 +++++--
 cmakelang/parse/util.py           | 11 ++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 6d0d3e7..3aad24e 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -129,7 +129,9 @@ class StandardArgTree(ArgGroupNode):
       # If it's a comment, then add it at the current depth
       if tokens[0].type in (lex.TokenType.COMMENT,
                             lex.TokenType.BRACKET_COMMENT):
-        if comment_belongs_up_tree(ctx, tokens, tree, breakstack):
+        pspec = pargspecs[0] if pargspecs else default_spec
+        if comment_belongs_up_tree(
+            ctx, tokens, tree, breakstack, pspec.nargs):
           break
         tree.children.append(CommentNode.consume(ctx, tokens))
         continue
@@ -419,7 +421,8 @@ class PositionalGroupNode(TreeNode):
       # directly into the parse tree at the current depth
       if tokens[0].type in (lex.TokenType.COMMENT,
                             lex.TokenType.BRACKET_COMMENT):
-        if comment_belongs_up_tree(ctx, tokens, tree, breakstack):
+        if comment_belongs_up_tree(
+            ctx, tokens, tree, breakstack, spec.nargs):
           break
 
         child = CommentNode.consume(ctx, tokens)
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 5ff30b5..41dd689 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -374,7 +374,7 @@ def get_first_semantic_token(tokens):
   return get_nth_semantic_token(tokens, 0)
 
 
-def comment_belongs_up_tree(ctx, tokens, node, breakstack):
+def comment_belongs_up_tree(ctx, tokens, node, breakstack, nargs=None):
   """
   Return true if the comment token at tokens[0] belongs to some parent in the
   ancestry of `node` rather than to `node` itself. We determine this if the
@@ -402,6 +402,9 @@ def comment_belongs_up_tree(ctx, tokens, node, breakstack):
   * comment 1 belongs to the positional group child of the keyword group
   * comment 2 belongs to the keyword group
   * comment 3 belongs to the statement
+
+  `nargs` is the specification of the positional group which gets the next
+  argument (if it doesn't break the scope).
   """
 
   next_semantic = get_first_semantic_token(tokens)
@@ -414,6 +417,12 @@ def comment_belongs_up_tree(ctx, tokens, node, breakstack):
     # The next token wouldn't break the current node
     return False
 
+  if (npargs_is_exact(nargs) and nargs != 0
+      and next_semantic.type != lex.TokenType.RIGHT_PAREN):
+    # The next token is an argument of the current node, even though it matches
+    # a keyword of some parent (see StandardArgTree.parse2)
+    return False
+
   if not ctx.argstack:
     # There is no parent node to assign the comment to, it must belong to the
     # current node
-- 
2.43.0


From bfb87df6d6252a5c3e06e62ec14682d651a057a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 055/107] fix: lint ignored directives inside of the arguments
 of some commands

---
 cmakelang/parse/funs/add_executable.py | 2 +-
 cmakelang/parse/funs/add_library.py    | 4 ++--
 cmakelang/parse/funs/add_xxx.py        | 5 +++--
 cmakelang/parse/funs/break.py          | 7 ++-----
 cmakelang/parse/funs/foreach.py        | 6 +++---
 cmakelang/parse/funs/set.py            | 5 +++--
 6 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index aa0047d..40e40af 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -99,7 +99,7 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
-      child = TreeNode(NodeType.COMMENT)
+      child = CommentNode()
       active_depth.children.append(child)
       child.children.append(tokens.pop(0))
       continue
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 7ecea50..a55007d 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -73,7 +73,7 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
-      child = TreeNode(NodeType.COMMENT)
+      child = CommentNode()
       active_depth.children.append(child)
       child.children.append(tokens.pop(0))
       continue
@@ -186,7 +186,7 @@ def parse_add_library_object(ctx, tokens, breakstack):
     if tokens[0].type in (TokenType.COMMENT,
                           TokenType.BRACKET_COMMENT):
       if not get_tag(tokens[0]) in ("sort", "sortable"):
-        child = TreeNode(NodeType.COMMENT)
+        child = CommentNode()
         tree.children.append(child)
         child.children.append(tokens.pop(0))
         continue
diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 20dcd1e..9e6449f 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -10,7 +10,8 @@ from cmakelang.parse.argument_nodes import (
     PositionalGroupNode,
     PositionalParser,
     StandardArgTree)
-from cmakelang.parse.common import KwargBreaker, NodeType, TreeNode
+from cmakelang.parse.common import KwargBreaker
+from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     get_first_semantic_token,
@@ -203,7 +204,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
     # If it's a comment, then add it at the current depth
     if tokens[0].type in (TokenType.COMMENT,
                           TokenType.BRACKET_COMMENT):
-      child = TreeNode(NodeType.COMMENT)
+      child = CommentNode()
       tree.children.append(child)
       child.children.append(tokens.pop(0))
       continue
diff --git a/cmakelang/parse/funs/break.py b/cmakelang/parse/funs/break.py
index 75ad3b5..d8e7f65 100644
--- a/cmakelang/parse/funs/break.py
+++ b/cmakelang/parse/funs/break.py
@@ -3,10 +3,7 @@ from cmakelang.parse.argument_nodes import (
     ArgGroupNode,
     PositionalGroupNode
 )
-from cmakelang.parse.common import (
-    TreeNode,
-    NodeType,
-)
+from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     should_break,
@@ -44,7 +41,7 @@ def parse_empty(ctx, tokens, breakstack):
     # If it's a comment, then add it at the current depth
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
-      child = TreeNode(NodeType.COMMENT)
+      child = CommentNode()
       tree.children.append(child)
       child.children.append(tokens.pop(0))
       continue
diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index ca8b4a0..930db1c 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -2,14 +2,14 @@
 import logging
 
 from cmakelang import lex
-from cmakelang.parse.common import KwargBreaker, NodeType
-from cmakelang.parse.common import TreeNode
+from cmakelang.parse.common import KwargBreaker
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode,
     PositionalParser,
     StandardArgTree,
     PositionalGroupNode,
     KeywordGroupNode)
+from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     get_normalized_kwarg,
@@ -111,7 +111,7 @@ def parse_foreach_in(ctx, tokens, breakstack):
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
       if not get_tag(tokens[0]) in ("sort", "sortable"):
-        child = TreeNode(NodeType.COMMENT)
+        child = CommentNode()
         tree.children.append(child)
         child.children.append(tokens.pop(0))
         continue
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index 480cac3..40b192d 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -1,9 +1,10 @@
 import collections
 
 from cmakelang import lex
-from cmakelang.parse.common import KwargBreaker, NodeType, TreeNode
+from cmakelang.parse.common import KwargBreaker
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, KeywordGroupNode, PositionalGroupNode, PositionalParser)
+from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     get_normalized_kwarg,
@@ -71,7 +72,7 @@ def parse_set(ctx, tokens, breakstack):
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
       if not get_tag(tokens[0]) in ("sort", "sortable"):
-        child = TreeNode(NodeType.COMMENT)
+        child = CommentNode()
         tree.children.append(child)
         child.children.append(tokens.pop(0))
         continue
-- 
2.43.0


From be0e78d798aa0e5b8e22088815660d960930a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 056/107] fix: labels of lists with ten items were not aligned

The number of digits was computed with a logarithm, which is one too few for
1, 10, 100... items, so that the labels were not right-aligned and wrapped
lines not aligned with the text of the item.
---
 cmakelang/markup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1f48d8b..b70e8bb 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -3,7 +3,6 @@
 Functions for parsing comments in markup
 """
 from __future__ import unicode_literals
-import math
 import textwrap
 import re
 from cmakelang import common
@@ -244,7 +243,7 @@ def format_item(config, line_width, item):
     outlines = []
     wrapper = textwrap.TextWrapper(width=line_width - 2, **COMMON_KWARGS)
 
-    digits = int(math.ceil(math.log(len(item.lines), 10)))
+    digits = len(str(len(item.lines)))
     fmt = '{:%dd}%s ' % (digits, config.markup.enum_char)
     indent = ' ' * (digits + 2)
 
-- 
2.43.0


From 87a769c3bac6e6b56ccd005ed87c14df5ab79246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 057/107] fix: comments of several lines were split in some
 commands

set(), add_library() and other parsers made a comment of each line, so that
paragraphs were not reflowed, and lists and fences were not recognised (the
fenced text was not preserved). Annotations remain comments of their own.
---
 cmakelang/parse/additional_nodes.py    | 11 +++++------
 cmakelang/parse/argument_nodes.py      |  3 +--
 cmakelang/parse/funs/add_executable.py |  3 +--
 cmakelang/parse/funs/add_library.py    |  6 ++----
 cmakelang/parse/funs/add_xxx.py        |  3 +--
 cmakelang/parse/funs/break.py          |  3 +--
 cmakelang/parse/funs/foreach.py        |  3 +--
 cmakelang/parse/funs/install.py        |  3 +--
 cmakelang/parse/funs/set.py            |  3 +--
 cmakelang/parse/simple_nodes.py        |  8 +++++++-
 10 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index 9a0cdcc..abb219a 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -70,29 +70,28 @@ class TupleGroupNode(ArgGroupNode):
         continue
 
       # Otherwise we will consume the token
-      token = tokens.pop(0)
+      token = tokens[0]
 
       # If it is a whitespace token then put it directly in the parse tree at
       # the current depth
       if token.type in WHITESPACE_TOKENS:
         if subtree is None:
-          tree.children.append(token)
+          tree.children.append(tokens.pop(0))
         else:
           # The whitespace is in between the items of a tuple
-          subtree.children.append(token)
+          subtree.children.append(tokens.pop(0))
         continue
 
       # If it's a comment token not associated with an argument, then put it
       # directly into the parse tree at the current depth
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
-        child = CommentNode()
+        child = CommentNode.consume(ctx, tokens)
         if subtree is None:
           tree.children.append(child)
         else:
           # The comment is in between the items of a tuple
           subtree.children.append(child)
-        child.children.append(token)
         continue
 
       if subtree is None:
@@ -107,7 +106,7 @@ class TupleGroupNode(ArgGroupNode):
       else:
         child = TreeNode(NodeType.ARGUMENT)
 
-      child.children.append(token)
+      child.children.append(tokens.pop(0))
       CommentNode.consume_trailing(ctx, tokens, child)
       subtree.children.append(child)
       ntup_consumed += 1
diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 3aad24e..44c764a 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -593,9 +593,8 @@ class ConditionalGroupNode(ArgGroupNode):
                             lex.TokenType.BRACKET_COMMENT):
         # TODO(josh): not sure if we should check comment_belongs_up_tree
         # here
-        child = CommentNode()
+        child = CommentNode.consume(ctx, tokens)
         tree.children.append(child)
-        child.children.append(tokens.pop(0))
         continue
 
       # If it's a sentinel comment, then add it at the current depth
diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 40e40af..e432cb4 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -99,9 +99,8 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
-      child = CommentNode()
+      child = CommentNode.consume(ctx, tokens)
       active_depth.children.append(child)
-      child.children.append(tokens.pop(0))
       continue
 
     # If it's a sentinel comment, then add it at the current depth
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index a55007d..2d165e9 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -73,9 +73,8 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
-      child = CommentNode()
+      child = CommentNode.consume(ctx, tokens)
       active_depth.children.append(child)
-      child.children.append(tokens.pop(0))
       continue
 
     # If it's a sentinel comment, then add it at the current depth
@@ -186,9 +185,8 @@ def parse_add_library_object(ctx, tokens, breakstack):
     if tokens[0].type in (TokenType.COMMENT,
                           TokenType.BRACKET_COMMENT):
       if not get_tag(tokens[0]) in ("sort", "sortable"):
-        child = CommentNode()
+        child = CommentNode.consume(ctx, tokens)
         tree.children.append(child)
-        child.children.append(tokens.pop(0))
         continue
 
     ntokens = len(tokens)
diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 9e6449f..4ae371e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -204,9 +204,8 @@ def parse_add_custom_target(ctx, tokens, breakstack):
     # If it's a comment, then add it at the current depth
     if tokens[0].type in (TokenType.COMMENT,
                           TokenType.BRACKET_COMMENT):
-      child = CommentNode()
+      child = CommentNode.consume(ctx, tokens)
       tree.children.append(child)
-      child.children.append(tokens.pop(0))
       continue
 
     ntokens = len(tokens)
diff --git a/cmakelang/parse/funs/break.py b/cmakelang/parse/funs/break.py
index d8e7f65..38a4eba 100644
--- a/cmakelang/parse/funs/break.py
+++ b/cmakelang/parse/funs/break.py
@@ -41,9 +41,8 @@ def parse_empty(ctx, tokens, breakstack):
     # If it's a comment, then add it at the current depth
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
-      child = CommentNode()
+      child = CommentNode.consume(ctx, tokens)
       tree.children.append(child)
-      child.children.append(tokens.pop(0))
       continue
 
     ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 930db1c..1d5e9c0 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -111,9 +111,8 @@ def parse_foreach_in(ctx, tokens, breakstack):
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
       if not get_tag(tokens[0]) in ("sort", "sortable"):
-        child = CommentNode()
+        child = CommentNode.consume(ctx, tokens)
         tree.children.append(child)
-        child.children.append(tokens.pop(0))
         continue
 
     ntokens = len(tokens)
diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index b91bb73..863f099 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -127,9 +127,8 @@ def parse_install_targets(ctx, tokens, breakstack):
     # If it's a comment, then add it at the current depth
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
-      child = CommentNode()
+      child = CommentNode.consume(ctx, tokens)
       tree.children.append(child)
-      child.children.append(tokens.pop(0))
       continue
 
     ntokens = len(tokens)
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index 40b192d..95b81c0 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -72,9 +72,8 @@ def parse_set(ctx, tokens, breakstack):
     if tokens[0].type in (lex.TokenType.COMMENT,
                           lex.TokenType.BRACKET_COMMENT):
       if not get_tag(tokens[0]) in ("sort", "sortable"):
-        child = CommentNode()
+        child = CommentNode.consume(ctx, tokens)
         tree.children.append(child)
-        child.children.append(tokens.pop(0))
         continue
 
     ntokens = len(tokens)
diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index 2a6f25d..471e567 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -8,7 +8,7 @@ import logging
 from cmakelang import lex
 from cmakelang.parse.util import (
     COMMENT_TOKENS, WHITESPACE_TOKENS,
-    are_column_aligned, next_is_trailing_comment,
+    are_column_aligned, get_tag, next_is_trailing_comment,
     next_is_explicit_trailing_comment,
     is_valid_trailing_comment
 )
@@ -80,6 +80,12 @@ class CommentNode(TreeNode):
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
 
+      # Annotations are not part of the text of a comment
+      if comment_tokens and (
+          get_tag(comment_tokens[-1]) is not None
+          or get_tag(tokens[0]) is not None):
+        break
+
       comment_token = tokens.pop(0)
       comment_tokens.append(comment_token)
       node.children.append(comment_token)
-- 
2.43.0


From 0b30a92925e9b941aa1526742c63699173203bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 058/107] fix: literal comments lost hash characters

The first comment (first_comment_is_literal), comments that start with a
hashbang, and comments that match literal_comment_pattern are to be preserved,
but '## foo' was changed to '# foo'.
---
 cmakelang/format/formatter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 36a0aa2..5e85e49 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -42,9 +42,9 @@ def clamp(value, min_value, max_value):
   return value
 
 
-def get_comment_lines(config, node):
+def get_comment_lines(config, node, literal=False):
   """Given a comment node, iterate through it's tokens and generate a list
-  of textual lines."""
+  of textual lines. If `literal` is true then preserve the entire lines."""
   inlines = []
   for token in node.children:
     assert isinstance(token, lex.Token), (
@@ -57,7 +57,7 @@ def get_comment_lines(config, node):
         inlines.append(inline[len(config.markup.explicit_trailing_pattern):])
         continue
 
-      if not config.markup.enable_markup:
+      if literal or not config.markup.enable_markup:
         # If markup processing is disabled, preserve the entire line regardless
         # of content
         inlines.append(inline[1:])
@@ -90,11 +90,13 @@ def format_comment_lines(node, stack_context, line_width):
   if config.markup.literal_comment_pattern is not None:
     literal_comment_regex = re.compile(config.markup.literal_comment_pattern)
     if literal_comment_regex.match('\n'.join(inlines)):
+      inlines = get_comment_lines(config, node, literal=True)
       return [prefix + line.rstrip() for line in inlines]
 
   if node.children[0] is stack_context.first_token and (
       config.markup.first_comment_is_literal
       or stack_context.first_token.spelling.startswith("#!")):
+    inlines = get_comment_lines(config, node, literal=True)
     return [prefix + line.rstrip() for line in inlines]
 
   items = markup.parse(inlines, config)
-- 
2.43.0


From 56d7fa2ca00eca4ffb44d4073d0fd76295e59df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 059/107] fix: the configured ruler pattern was ignored inside
 of paragraphs

A line that matches the configured pattern never gets here, but a line that
matches the default pattern was taken for a ruler if it followed other text.
---
 cmakelang/markup.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index b70e8bb..711da8f 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -169,9 +169,6 @@ def parse(lines, config=None):
       if NOTE_REGEX.match(line):
         obj_list.append(CommentItem(CommentType.NOTE))
         state = CommentType.NOTE
-      elif RULER_REGEX.match(line):
-        obj_list.append(CommentItem(CommentType.RULER))
-        state = CommentType.RULER
       obj_list[-1].lines.append(line.strip())
 
     elif state in (CommentType.BULLET_LIST, CommentType.ENUM_LIST):
-- 
2.43.0


From e8b827f6dfb67bcf2f71227edd926c69a81d4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 060/107] fix: adjacent comments in different columns were
 joined on one line

The newline after the comment was consumed even though the next comment does
not belong to it. The node did not look like a line comment any more, and the
next comment was written on the same line, e.g. 'foo(# a # b'.
---
 cmakelang/parse/simple_nodes.py | 45 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index 471e567..fd47611 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -72,40 +72,33 @@ class CommentNode(TreeNode):
       node.children.append(tokens.pop(0))
       return node
 
-    comment_tokens = []
     while tokens and tokens[0].type in COMMENT_TOKENS:
+      comment_token = tokens.pop(0)
+      node.children.append(comment_token)
+
+      # Multiple comments separated by only one newline and possibly some
+      # whitespace are joined together into a single block
+      nseparators = 0
+      if tokens and tokens[0].type == lex.TokenType.NEWLINE:
+        nseparators = 1
+        if len(tokens) > 1 and tokens[1].type == lex.TokenType.WHITESPACE:
+          nseparators = 2
+      if (len(tokens) <= nseparators
+          or tokens[nseparators].type not in COMMENT_TOKENS):
+        break
+      next_token = tokens[nseparators]
+
       # If the next comment token is not column-aligned, then we don't
       # merge it with the previous comment line
-      if (comment_tokens and
-          not are_column_aligned(comment_tokens[-1], tokens[0])):
+      if not are_column_aligned(comment_token, next_token):
         break
 
       # Annotations are not part of the text of a comment
-      if comment_tokens and (
-          get_tag(comment_tokens[-1]) is not None
-          or get_tag(tokens[0]) is not None):
+      if (get_tag(comment_token) is not None
+          or get_tag(next_token) is not None):
         break
 
-      comment_token = tokens.pop(0)
-      comment_tokens.append(comment_token)
-      node.children.append(comment_token)
-
-      # Multiple comments separated by only one newline are joined together into
-      # a single block
-      if (len(tokens) > 1
-          # pylint: disable=bad-continuation
-          and tokens[0].type == lex.TokenType.NEWLINE
-          and tokens[1].type in COMMENT_TOKENS):
-        node.children.append(tokens.pop(0))
-
-      # Multiple comments separated only by one newline and some whitespace are
-      # joined together into a single block
-      elif (len(tokens) > 2
-            # pylint: disable=bad-continuation
-            and tokens[0].type == lex.TokenType.NEWLINE
-            and tokens[1].type == lex.TokenType.WHITESPACE
-            and tokens[2].type in COMMENT_TOKENS):
-        node.children.append(tokens.pop(0))
+      for _ in range(nseparators):
         node.children.append(tokens.pop(0))
 
     assert len(tokens) < len_before, \
-- 
2.43.0


From c6b0fd316ba9effb810665f05e55e4778d7130af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 061/107] fix: sort annotations were ignored in groups of the
 standard parser

The annotation was consumed in front of the positional group, which never saw
it, e.g. in the keyword groups of custom commands.
---
 cmakelang/parse/argument_nodes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 44c764a..8f3e6ac 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -119,6 +119,9 @@ class StandardArgTree(ArgGroupNode):
     kwarg_breakstack = breakstack + [
         KwargBreaker(list(kwargs.keys()) + all_flags)]
 
+    # The sortability of the next group, if it is annotated
+    sortable = None
+
     while tokens:
       # If it is a whitespace token then put it directly in the parse tree at
       # the current depth
@@ -133,6 +136,10 @@ class StandardArgTree(ArgGroupNode):
         if comment_belongs_up_tree(
             ctx, tokens, tree, breakstack, pspec.nargs):
           break
+        if get_tag(tokens[0]) in ("sortable", "sort"):
+          sortable = True
+        elif get_tag(tokens[0]) in ("unsortable", "unsort"):
+          sortable = False
         tree.children.append(CommentNode.consume(ctx, tokens))
         continue
 
@@ -198,6 +205,8 @@ class StandardArgTree(ArgGroupNode):
         if len(tokens) >= ntokens and pspec is not default_spec:
           # The next argument belongs to a later group, and none to this one
           continue
+        if sortable is not None:
+          subtree.sortable = sortable
         tree.parg_groups.append(subtree)
 
       if len(tokens) >= ntokens:
@@ -205,6 +214,7 @@ class StandardArgTree(ArgGroupNode):
             "parsed an empty subtree at {}:\n  {}\n pspec: {}"
             .format(tokens[0], dump_tree_tostr([tree]), pspec))
       tree.children.append(subtree)
+      sortable = None
     return tree
 
   @classmethod
-- 
2.43.0


From 8c767ae0233fed747a7190963215ad73ca59dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 062/107] fix: sort annotations behind EXCLUDE_FROM_ALL were
 ignored

The group of the sources is created directly after the flag, before the
annotation is seen.
---
 cmakelang/parse/funs/add_executable.py | 2 ++
 cmakelang/parse/funs/add_library.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index e432cb4..677493a 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -99,6 +99,8 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
+        if src_group is not None and not src_group.get_semantic_tokens():
+          src_group.sortable = sortable
       child = CommentNode.consume(ctx, tokens)
       active_depth.children.append(child)
       continue
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 2d165e9..fb301bc 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -73,6 +73,8 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
+        if src_group is not None and not src_group.get_semantic_tokens():
+          src_group.sortable = sortable
       child = CommentNode.consume(ctx, tokens)
       active_depth.children.append(child)
       continue
-- 
2.43.0


From f735711bb4dd80cfd433bd17ce51f01ff18bf29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 063/107] fix: the text behind an off/on switch was dropped

'# cmake-format: off because of x' was replaced by '# cmake-format: off'.
---
 cmakelang/format/formatter.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 5e85e49..02aa920 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -741,6 +741,14 @@ class OnOffSwitchNode(LayoutNode):
   def has_terminal_comment(self):
     return True
 
+  def get_spelling(self):
+    """
+    Canonicalize the output. The input regex may be more generous than this
+    exact string. Any text behind the switch is preserved.
+    """
+    _, switch = self.pnode.children[0].spelling.split(": ", 1)
+    return "# cmake-format: " + switch.rstrip()
+
   def _reflow(self, stack_context, cursor, passno):
     """
     There is only one possible flow as this is a single-token
@@ -749,14 +757,7 @@ class OnOffSwitchNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
-    # Canonicalize the output. The input regex may be more generous than this
-    # exact string.
-    if token.type == TokenType.FORMAT_ON:
-      spelling = "# cmake-format: on"
-    elif token.type == TokenType.FORMAT_OFF:
-      spelling = "# cmake-format: off"
-
-    cursor = cursor + (0, len(spelling))
+    cursor = cursor + (0, len(self.get_spelling()))
     self._colextent = cursor[1]
     return cursor
 
@@ -766,7 +767,6 @@ class OnOffSwitchNode(LayoutNode):
     assert isinstance(token, lex.Token)
 
     if token.type == TokenType.FORMAT_ON:
-      spelling = "# cmake-format: on"
       if ctx.offswitch_location is None:
         logging.warning(
             "'#cmake-format: on' with no corresponding 'off' at %d:%d",
@@ -784,10 +784,9 @@ class OnOffSwitchNode(LayoutNode):
         # Already off, so this comment is part of the section which will be
         # transcribed verbatim
         return
-      spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
-    ctx.outfile.write_at(self.position, spelling)
+    ctx.outfile.write_at(self.position, self.get_spelling())
 
 
 class StatementNode(LayoutNode):
-- 
2.43.0


From 6c2c1f72edc77bebb84796fe9d7c2cfd57ae01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 064/107] fix: comments that only begin like an off/on switch
 were taken for one

e.g. '# cmake-format: offline' and '# cmf: only'.
---
 cmakelang/lex/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index eda1f26..e373ac0 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,9 +172,9 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#[^\S\r\n]*(cmake-format|cmf): off[^\r\n]*",
+      (r"#[^\S\r\n]*(cmake-format|cmf): off(?![\w-])[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
-      (r"#[^\S\r\n]*(cmake-format|cmf): on[^\r\n]*",
+      (r"#[^\S\r\n]*(cmake-format|cmf): on(?![\w-])[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_ON, t)),
       # bracket comment
       (r"#\[(=*)\[.*?\]\1\]", lambda s, t: (TokenType.BRACKET_COMMENT, t)),
-- 
2.43.0


From 50d2e3ce249c888d7867a18f2ac5d5e8c92a1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 065/107] fix: always_wrap had no effect inside of blocks

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 02aa920..4abd37b 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -184,7 +184,7 @@ def get_pathstr(node_path):
 
   pathcopy = []
   for node in node_path:
-    if isinstance(node, BodyNode):
+    if isinstance(node, (BodyNode, FlowControlNode)):
       continue
     if isinstance(node, ArgGroupNode):
       continue
-- 
2.43.0


From 8c63e5061093fe3993c154b6f6471492a254e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 066/107] fix: an empty line was inserted in front of a
 trailing comment moved below its command

---
 cmakelang/format/formatter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 4abd37b..0e0e941 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -955,7 +955,6 @@ class StatementNode(LayoutNode):
       assert child.node_type == NodeType.COMMENT, \
           "Expected COMMENT after RPAREN but got {}".format(child.node_type)
       assert not children
-      savecursor = cursor.clone()
       cursor = child.reflow(stack_context, cursor, passno)
 
       # If the statement trailing comment does not fit in the column after the
@@ -965,7 +964,6 @@ class StatementNode(LayoutNode):
         self._reflow_valid &= rparen.reflow_valid
         # NOTE(josh): don't max rparen.colextent here, since we may reverse our
         # dangle decision in the next if block
-        savecursor = cursor.clone()
         cursor = child.reflow(stack_context, cursor, passno)
 
       # If the statement trailing comment still does not fit in the current
@@ -976,7 +974,7 @@ class StatementNode(LayoutNode):
         # undangle it since the oversized comment didn't fit anyway.
         cursor = rparen.reflow(stack_context, initial_rparen_cursor, passno)
         cursor = child.reflow(
-            stack_context, Cursor(savecursor[0] + 1, start_cursor[1]),
+            stack_context, Cursor(cursor[0] + 1, start_cursor[1]),
             passno)
 
       self._reflow_valid &= child.reflow_valid
-- 
2.43.0


From 7b664129a61fe0b8ce3b29b028fba3f847fea5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 067/107] fix: no blank between a dangling parenthesis and the
 trailing comment

---
 cmakelang/format/formatter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 0e0e941..a9b6f68 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -964,6 +964,7 @@ class StatementNode(LayoutNode):
         self._reflow_valid &= rparen.reflow_valid
         # NOTE(josh): don't max rparen.colextent here, since we may reverse our
         # dangle decision in the next if block
+        cursor[1] += 1
         cursor = child.reflow(stack_context, cursor, passno)
 
       # If the statement trailing comment still does not fit in the current
-- 
2.43.0


From 191cad1e449486d266c17a23aa388ecbdc55bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 068/107] fix: an empty line was inserted between the
 parentheses of a long command

---
 cmakelang/format/formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index a9b6f68..5336bb6 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -878,7 +878,10 @@ class StatementNode(LayoutNode):
 
     if self._wrap:
       column_cursor = start_cursor + (1, config.format.tab_size)
-      cursor = Cursor(*column_cursor)
+      # NOTE: if there are no arguments then there is nothing to nest, and only
+      # the closing parenthesis may go to the next line
+      if children[0].children:
+        cursor = Cursor(*column_cursor)
     else:
       column_cursor = cursor.clone()
 
-- 
2.43.0


From aed3f086357aaca5d7da268f99903f1d1b78e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 069/107] fix: the value off of dangle_align raised a
 ValueError

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 5336bb6..de27bc4 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -929,7 +929,7 @@ class StatementNode(LayoutNode):
       dangle_parens = True
 
     column_cursor[0] += 1
-    if config.format.dangle_align == "prefix":
+    if config.format.dangle_align in ("prefix", "off"):
       dangle_cursor = Cursor(column_cursor[0], start_cursor[1])
     elif config.format.dangle_align == "prefix-indent":
       dangle_cursor = Cursor(
-- 
2.43.0


From a46db4d46248f7864d62638727a9d8ff586857d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 070/107] fix: ctest-to did not work with the current parser

---
 cmakelang/ctest_to.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9d93661..671c123 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -99,7 +99,7 @@ class ParseContext(object):
     self.tests = {}
 
   # pylint: disable=W0613
-  def parse_add_test(self, tokens, _breakstack):
+  def parse_add_test(self, _ctx, tokens, _breakstack):
     """Parse an add_test() statement. This statement contains the test name
        and the command for the test.
     """
@@ -124,7 +124,7 @@ class ParseContext(object):
     logger.debug("Adding test %s", test_name)
     self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
 
-  def parse_set_tests_properties(self, tokens, _breakstack):
+  def parse_set_tests_properties(self, _ctx, tokens, _breakstack):
     """Parse a set_tests_properties() statement. This statement can set
        properties (key/value strings) on one or more tests.
     """
@@ -169,7 +169,7 @@ class ParseContext(object):
       logger.debug("Updating properties for %s", test_name)
       self.tests[test_name].props.update(properties)
 
-  def parse_subdirs(self, tokens, _breakstack):
+  def parse_subdirs(self, _ctx, tokens, _breakstack):
     """Parse a subdirs() statement. This statement is actually deprecated in
        cmake but it appears it is still in use by ctest.
     """
@@ -203,7 +203,7 @@ class ParseContext(object):
     with io.open(filepath, "r", encoding="utf-8") as infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
-    _ = parse.parse(tokens, self.get_db())
+    _ = parse.parse(tokens, parse.ParseContext(parse_db=self.get_db()))
 
   def start(self, firstdir):
     """Main entry-point into the parse. Pushes the first directory onto the
@@ -235,6 +235,7 @@ def setup_argparse(argparser):
   argparser.add_argument(
       "--log-level", default="info",
       choices=["debug", "info", "warning", "error"])
+  argparser.set_defaults(out_type="json")
   mgroup = argparser.add_mutually_exclusive_group()
   mgroup.add_argument(
       "--json", action="store_const", dest="out_type", const="json")
@@ -252,10 +253,9 @@ def main():
   ctx = ParseContext()
   ctx.start(args.directory)
 
-  out_type = getattr(args, "out_type", "json")
-  if out_type == "json":
+  if args.out_type == "json":
     sys.stdout.write(ctx.get_json())
-  elif out_type == "xml":
+  elif args.out_type == "xml":
     xml_content = ctx.get_xml()
     try:
       import lxml.etree as etree
@@ -265,8 +265,6 @@ def main():
     except ImportError:
       logger.warning("No lxml, cannot pretty-print")
       sys.stdout.write(xml_content)
-  elif out_type is None:
-    logger.info("No output requested")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 11e182055237ddc30425ef48975e4bc2e41fa0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 071/107] fix: ctest-to did not evaluate quoted and bracket
 arguments

The values of arguments kept their escape sequences, and bracket arguments
(which is how cmake itself writes the names of tests) were an error.
---
 cmakelang/ctest_to.py | 100 ++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 58 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 671c123..5150480 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -11,12 +11,14 @@ import io
 import json
 import logging
 import os
+import re
 import sys
 from xml.etree import ElementTree as ET
 
 from cmakelang.format import __main__
 from cmakelang import lex
 from cmakelang import parse
+from cmakelang.parse.util import COMMENT_TOKENS, WHITESPACE_TOKENS
 
 
 logger = logging.getLogger(__name__)
@@ -88,6 +90,38 @@ class TestSpec(object):
     return elem
 
 
+def evaluate_escape(match):
+  """Return the character that is encoded by an escape sequence."""
+  char = match.group(1)
+  if char == ";":
+    # NOTE: stays as it is, so that it does not separate the items of a list
+    return match.group(0)
+  return {"t": "\t", "r": "\r", "n": "\n", "\n": ""}.get(char, char)
+
+
+def get_value(token):
+  """Return the value of an argument."""
+  if token.type == lex.TokenType.BRACKET_ARGUMENT:
+    length = token.spelling.index("[", 1) + 1
+    return re.sub(r"\A\r?\n", "", token.spelling[length:-length])
+  spelling = token.spelling
+  if token.type == lex.TokenType.QUOTED_LITERAL:
+    spelling = spelling[1:-1]
+  return re.sub(r"\\(.)", evaluate_escape, spelling, flags=re.DOTALL)
+
+
+def pop_arguments(tokens):
+  """Consume the arguments of a statement, and return a list of their values.
+  """
+  values = []
+  while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
+    token = tokens.pop(0)
+    if token.type not in WHITESPACE_TOKENS + COMMENT_TOKENS + (
+        lex.TokenType.BRACKET_COMMENT,):
+      values.append(get_value(token))
+  return values
+
+
 class ParseContext(object):
   """Persistent context for testfile parsing. Stores a queue of directories
      to process, and callbacks for each of the different cmake statements.
@@ -103,23 +137,10 @@ class ParseContext(object):
     """Parse an add_test() statement. This statement contains the test name
        and the command for the test.
     """
-    if not tokens:
+    test_argv = pop_arguments(tokens)
+    if not test_argv:
       raise RuntimeError("Ran out of tokens while processing add_test")
-    if tokens[0].type not in (
-        lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL):
-      raise RuntimeError("Expected a WORD token but got {}".format(tokens[0]))
-    test_name = tokens[0].spelling
-    tokens.pop(0)
-    test_argv = []
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        continue
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      test_argv.append(spelling)
+    test_name = test_argv.pop(0)
 
     logger.debug("Adding test %s", test_name)
     self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
@@ -128,42 +149,10 @@ class ParseContext(object):
     """Parse a set_tests_properties() statement. This statement can set
        properties (key/value strings) on one or more tests.
     """
-    test_names = []
-    properties = {}
-
-    while (tokens
-           and tokens[0].spelling != "PROPERTIES"
-           and tokens[0].type != lex.TokenType.RIGHT_PAREN):
-      token = tokens.pop(0)
-      if token.type == lex.TokenType.WHITESPACE:
-        continue
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      test_names.append(token.spelling)
-
-    token = tokens.pop(0)
-    assert token.spelling == "PROPERTIES"
-
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        token = tokens.pop(0)
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      key = token.spelling
-
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        token = tokens.pop(0)
-
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        value = token.spelling[1:-1]
-      else:
-        value = token.spelling
-
-      properties[key] = value
+    args = pop_arguments(tokens)
+    split = args.index("PROPERTIES")
+    test_names = args[:split]
+    properties = dict(zip(args[split + 1::2], args[split + 2::2]))
 
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
@@ -173,12 +162,7 @@ class ParseContext(object):
     """Parse a subdirs() statement. This statement is actually deprecated in
        cmake but it appears it is still in use by ctest.
     """
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
+    for spelling in pop_arguments(tokens):
       fullpath = os.path.join(self.cwd, spelling)
       logger.debug("pushing directory %s", fullpath)
       self.dirqueue.append(fullpath)
-- 
2.43.0


From 46d31dfdeaed4151f5904a615db27730b3e618ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 072/107] fix: ctest-to failed on a fractional TIMEOUT

---
 cmakelang/ctest_to.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 5150480..93d0717 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -44,7 +44,9 @@ class TestSpec(object):
       if key == "LABELS":
         value = value.split(";")
       if key == "TIMEOUT":
-        value = int(value)
+        value = float(value)
+        if value.is_integer():
+          value = int(value)
       if key.startswith("_"):
         continue
       props[key.lower()] = value
-- 
2.43.0


From 1520ac6b8cfa1f29a885bdf703d77c56fcaa6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 073/107] fix: ctest-to lost tests of the same name in
 different directories

---
 cmakelang/ctest_to.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 93d0717..be9fa2a 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -145,7 +145,8 @@ class ParseContext(object):
     test_name = test_argv.pop(0)
 
     logger.debug("Adding test %s", test_name)
-    self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    self.tests[test_name, self.cwd] = TestSpec(
+        test_name, test_argv, self.cwd)
 
   def parse_set_tests_properties(self, _ctx, tokens, _breakstack):
     """Parse a set_tests_properties() statement. This statement can set
@@ -158,7 +159,7 @@ class ParseContext(object):
 
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
-      self.tests[test_name].props.update(properties)
+      self.tests[test_name, self.cwd].props.update(properties)
 
   def parse_subdirs(self, _ctx, tokens, _breakstack):
     """Parse a subdirs() statement. This statement is actually deprecated in
-- 
2.43.0


From cb7a6d3800ab52491cf5e783eb502ddd124ef9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 074/107] fix: cmake-annotate changed the line endings of files

The text from standard input keeps them.
---
 cmakelang/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 18db220..5385df4 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -169,7 +169,8 @@ def main():
           os.dup(sys.stdin.fileno()),
           mode='r', encoding=cfg.encode.input_encoding, newline='')
     else:
-      infile = io.open(infile_path, 'r', encoding=cfg.encode.input_encoding)
+      infile = io.open(
+          infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
 
     try:
       with infile:
-- 
2.43.0


From 57b6bbd13abcff6c205e77bd2eb89dbebc6defe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 075/107] fix: cmake-annotate truncated its output file if the
 input is invalid

---
 cmakelang/annotate.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 5385df4..76162e7 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -149,21 +149,6 @@ def main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-    if args.outfile_path == '-':
-      # NOTE(josh): The behavior or sys.stdout is different in python2 and
-      # python3. sys.stdout is opened in 'w' mode which means that write()
-      # takes strings in python2 and python3 and, in particular, in python3
-      # it does not take byte arrays. io.StreamWriter will write to
-      # it with byte arrays (assuming it was opened with 'wb'). So we use
-      # io.open instead of open in this case
-      outfile = io.open(
-          os.dup(sys.stdout.fileno()),
-          mode='w', encoding=cfg.encode.output_encoding, newline='')
-    else:
-      outfile = io.open(
-          args.outfile_path, 'w', encoding=cfg.encode.output_encoding,
-          newline='')
-
     if infile_path == '-':
       infile = io.open(
           os.dup(sys.stdin.fileno()),
@@ -172,14 +157,22 @@ def main():
       infile = io.open(
           infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
 
+    buf = io.StringIO()
     try:
       with infile:
-        annotate_file(cfg, infile, outfile, output_format)
+        annotate_file(cfg, infile, buf, output_format)
+      # NOTE: encode before the output file is opened, which truncates it
+      content = buf.getvalue().encode(cfg.encode.output_encoding)
     except:
       sys.stderr.write('While processing {}\n'.format(infile_path))
       raise
-    finally:
-      outfile.close()
+
+    if args.outfile_path == '-':
+      outfile = io.open(os.dup(sys.stdout.fileno()), mode='wb')
+    else:
+      outfile = io.open(args.outfile_path, 'wb')
+    with outfile:
+      outfile.write(content)
 
   return 0
 
-- 
2.43.0


From 98073f029512b71132c00f2ce05b4e16d901f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 076/107] fix: genparsers did not process statements in the
 order of the file

Statements in blocks were processed after all the others, so that the
variables which they set were missing in cmake_parse_arguments().
---
 cmakelang/genparsers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index e0d8f90..6d3fcae 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -50,9 +50,9 @@ def find_statements_in_subtree(subtree, funnames):
         yield node
         continue
 
-    for child in node.children:
-      if isinstance(child, TreeNode):
-        queue.append(child)
+    # NOTE: depth first, so that statements come in the order of the file
+    queue[0:0] = [child for child in node.children
+                  if isinstance(child, TreeNode)]
 
 
 class VarSub(object):
-- 
2.43.0


From 5e5ab1e753748951cf2191114b4c87767434d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 077/107] fix: genparsers took the arguments of a nested
 function for those of the outer

---
 cmakelang/genparsers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6d3fcae..94c41ed 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -20,7 +20,7 @@ from cmakelang.format import __main__
 from cmakelang import configuration
 from cmakelang import lex
 from cmakelang import parse
-from cmakelang.parse.body_nodes import BodyNode
+from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
 from cmakelang.parse.common import TreeNode
 from cmakelang.parse.statement_node import StatementNode
 from cmakelang.parse.funs.set import SetFnNode
@@ -28,10 +28,11 @@ from cmakelang.parse.funs.set import SetFnNode
 logger = logging.getLogger(__name__)
 
 
-def find_statements_in_subtree(subtree, funnames):
+def find_statements_in_subtree(subtree, funnames, enter_defns=True):
   """
   Return a generator that yields all statements in the `subtree` which match
-  the provided set of `funnames`.
+  the provided set of `funnames`. If `enter_defns` is false, then function and
+  macro definitions within the subtree are skipped.
   """
   if isinstance(subtree, (list, tuple)):
     queue = subtree
@@ -50,6 +51,10 @@ def find_statements_in_subtree(subtree, funnames):
         yield node
         continue
 
+    if (not enter_defns and isinstance(node, FlowControlNode)
+        and node.children[0].get_funname() in ("function", "macro")):
+      continue
+
     # NOTE: depth first, so that statements come in the order of the file
     queue[0:0] = [child for child in node.children
                   if isinstance(child, TreeNode)]
@@ -95,7 +100,7 @@ def process_defn_body(body, out):
   assert isinstance(body, BodyNode)
   variables = {}
   for child in find_statements_in_subtree(
-      body, ["list", "cmake_parse_arguments", "set"]):
+      body, ["list", "cmake_parse_arguments", "set"], enter_defns=False):
 
     if isinstance(child, StatementNode):
       if child.get_funname() == "set":
-- 
2.43.0


From a307018476d4b8ad26533f4aa42dd90797cd8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 078/107] fix: genparsers did not know the form
 cmake_parse_arguments(PARSE_ARGV ...)

---
 cmakelang/genparsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 94c41ed..acbdd9b 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -113,6 +113,9 @@ def process_defn_body(body, out):
 
       if child.get_funname() == "cmake_parse_arguments":
         pargs = child.argtree.get_tokens(kind="semantic")
+        if pargs and pargs[0].spelling == "PARSE_ARGV":
+          # cmake_parse_arguments(PARSE_ARGV <N> <prefix> ...)
+          del pargs[:2]
         if len(pargs) < 4:
           # Not a call that cmake would accept
           continue
-- 
2.43.0


From 35f9a7aeac41ae175f563cc28ad4543c40eb5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 079/107] fix: extension substituted a wrong path if it
 contains a dollar sign

---
 cmakelang/vscode_extension/src/extension.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmakelang/vscode_extension/src/extension.ts b/cmakelang/vscode_extension/src/extension.ts
index 0d231c0..0d2936a 100644
--- a/cmakelang/vscode_extension/src/extension.ts
+++ b/cmakelang/vscode_extension/src/extension.ts
@@ -40,16 +40,19 @@ function getWorkspaceFolder(): string | undefined {
 }
 
 function varSub(value: string): string {
-  if (vscode.workspace.rootPath !== undefined) {
-    value = value.replace(/\${workspaceRoot}/g, vscode.workspace.rootPath)
+  // NOTE: the replacements are given as functions, because "$" is special in
+  // a replacement string, and it may be part of a path.
+  const rootPath = vscode.workspace.rootPath;
+  if (rootPath !== undefined) {
+    value = value.replace(/\${workspaceRoot}/g, () => rootPath);
   }
-  var workspaceFolder = getWorkspaceFolder();
+  const workspaceFolder = getWorkspaceFolder();
   if (workspaceFolder !== undefined) {
-    value = value.replace(/\${workspaceFolder}/g, workspaceFolder);
+    value = value.replace(/\${workspaceFolder}/g, () => workspaceFolder);
   }
 
   return value
-    .replace(/\${cwd}/g, process.cwd())
+    .replace(/\${cwd}/g, () => process.cwd())
     .replace(/\${env\.([^}]+)}/g, (sub: string, envName: string) => {
       var value = process.env[envName];
       if (value === undefined) {
-- 
2.43.0


From e0d2b26da9a550d15af697c353feb9e092ad2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 080/107] fix: extension failed to format a document of more
 than a megabyte

---
 cmakelang/vscode_extension/src/extension.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/vscode_extension/src/extension.ts b/cmakelang/vscode_extension/src/extension.ts
index 0d2936a..6888b03 100644
--- a/cmakelang/vscode_extension/src/extension.ts
+++ b/cmakelang/vscode_extension/src/extension.ts
@@ -92,7 +92,9 @@ export function activate(context: vscode.ExtensionContext) {
 
       var opts: any = {
         input: document.getText(),
-        encoding: 'utf-8'
+        encoding: 'utf-8',
+        // the default limits the size of the output to 1MB
+        maxBuffer: Infinity
       };
 
       var cwd = config.get<string>("cwd");
-- 
2.43.0


From 7cc9d24ef3ba0ab7484edca6af08d7d8694fa288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 081/107] fix: the form of a command was chosen by what follows
 its arguments

The search for the nth argument went beyond the closing parenthesis of the
statement, so that the documented forms build_command(<var>),
install_files(<dir> <regexp>), source_group(<name>) and ctest_sleep(<seconds>)
were taken for others, and reported as lint (E1120, W0104).
---
 cmakelang/parse/funs/miscellaneous.py |  3 ++-
 cmakelang/parse/funs/random.py        |  5 ++---
 cmakelang/parse/util.py               | 13 ++++++++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 992c05a..98383a4 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -7,6 +7,7 @@ from cmakelang.parse.additional_nodes import (
     TupleParser
 )
 from cmakelang.parse.util import (
+    get_first_semantic_token,
     get_nth_semantic_token
 )
 
@@ -73,7 +74,7 @@ def parse_cmake_policy(ctx, tokens, breakstack):
 
   :see: https://cmake.org/cmake/help/latest/command/cmake_policy.html
   """
-  first_token = get_nth_semantic_token(tokens, 0)
+  first_token = get_first_semantic_token(tokens)
   if first_token is None:
     return StandardArgTree.parse(ctx, tokens, "+", {}, [], breakstack)
 
diff --git a/cmakelang/parse/funs/random.py b/cmakelang/parse/funs/random.py
index 3ee54aa..dc9af8d 100644
--- a/cmakelang/parse/funs/random.py
+++ b/cmakelang/parse/funs/random.py
@@ -3,7 +3,7 @@ from cmakelang.parse.argument_nodes import (
     StandardArgTree,
 )
 from cmakelang.parse.util import (
-    iter_semantic_tokens,
+    get_nth_semantic_token,
 )
 
 
@@ -176,8 +176,7 @@ def parse_ctest_sleep(ctx, tokens, breakstack):
 
   :see: https://cmake.org/cmake/help/latest/command/ctest_sleep.html
   """
-  semantic_tokens = list(iter_semantic_tokens(tokens))
-  if len(semantic_tokens) == 1:
+  if get_nth_semantic_token(tokens, 1) is None:
     return StandardArgTree.parse(ctx, tokens, 1, {}, [], breakstack)
   return StandardArgTree.parse(ctx, tokens, 3, {}, [], breakstack)
 
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 41dd689..ec80abe 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -359,8 +359,19 @@ def iter_semantic_tokens(tokens):
 
 
 def get_nth_semantic_token(tokens, nth):
+  """
+  Return the `nth` token with semantic meaning of the current argument list, or
+  `None` if the list has fewer than that.
+  """
   idx = 0
+  depth = 0
   for token in iter_semantic_tokens(tokens):
+    if token.type is lex.TokenType.LEFT_PAREN:
+      depth += 1
+    elif token.type is lex.TokenType.RIGHT_PAREN:
+      depth -= 1
+      if depth < 0:
+        return None
     if idx == nth:
       return token
     idx += 1
@@ -371,7 +382,7 @@ def get_first_semantic_token(tokens):
   """
   Return the first token with semantic meaning
   """
-  return get_nth_semantic_token(tokens, 0)
+  return next(iter_semantic_tokens(tokens), None)
 
 
 def comment_belongs_up_tree(ctx, tokens, node, breakstack, nargs=None):
-- 
2.43.0


From 0f8f67e94cd46c45d6a7b06b9e61365365832128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 082/107] fix: lint took foreach(... RANGE) without a step for
 incomplete

E1120 was reported for the documented forms with one and two arguments.
---
 cmakelang/parse/funs/foreach.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 1d5e9c0..af4b577 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -54,6 +54,7 @@ def parse_foreach_range(ctx, tokens, breakstack):
   """
   ::
 
+    foreach(<loop_var> RANGE <stop>)
     foreach(<loop_var> RANGE <start> <stop> [<step>])
       <commands>
     endforeach()
@@ -62,7 +63,7 @@ def parse_foreach_range(ctx, tokens, breakstack):
   return StandardArgTree.parse(
       ctx, tokens,
       npargs=1,
-      kwargs={"RANGE": PositionalParser(3)},
+      kwargs={"RANGE": PositionalParser("+")},
       flags=[],
       breakstack=breakstack
   )
-- 
2.43.0


From 0e08395a11b04412ab5573f77340f0217247d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 083/107] fix: lint took separate_arguments(<variable>) for
 incomplete

---
 cmakelang/parse/funs/miscellaneous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 98383a4..590f2ae 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -392,9 +392,13 @@ def parse_separate_arguments(ctx, tokens, breakstack):
   ::
 
     separate_arguments(<variable> <mode> <args>)
+    separate_arguments(<variable>)
 
   :see: https://cmake.org/cmake/help/latest/command/separate_arguments.html
   """
+  if get_nth_semantic_token(tokens, 1) is None:
+    return StandardArgTree.parse(ctx, tokens, 1, {}, [], breakstack)
+
   flags = ["UNIX_COMMAND", "WINDOWS_COMMAND", "NATIVE_COMMAND"]
   return StandardArgTree.parse(ctx, tokens, 3, {}, flags, breakstack)
 
-- 
2.43.0


From f4c5cb89f752c4ad14fdae9162d3de79a53bddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 084/107] fix: lint took find_package_handle_standard_args(...
 REQUIRED_VARS) for incomplete

---
 cmakelang/parse/funs/standard_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/standard_modules.py b/cmakelang/parse/funs/standard_modules.py
index afa38a1..dc4d53e 100644
--- a/cmakelang/parse/funs/standard_modules.py
+++ b/cmakelang/parse/funs/standard_modules.py
@@ -1087,7 +1087,7 @@ FUNSPECS = {
         "CONFIG_MODE",
         "HANDLE_COMPONENTS"
       ],
-      "nargs": "2+"
+      "nargs": "+"
     }
   },
   "find_package_message": {
-- 
2.43.0


From 053f0ba62bcd13b7a2f500cb5743c49324e30d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 085/107] fix: lint demanded two arguments after the keywords
 of install_targets

Likewise for include_external_msproject.
---
 cmakelang/parse/funs/deprecated.py    | 3 ++-
 cmakelang/parse/funs/miscellaneous.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/deprecated.py b/cmakelang/parse/funs/deprecated.py
index c590604..b799c0e 100644
--- a/cmakelang/parse/funs/deprecated.py
+++ b/cmakelang/parse/funs/deprecated.py
@@ -93,7 +93,8 @@ def parse_install_targets(ctx, tokens, breakstack):
   kwargs = {
       "RUNTIME_DIRECTORY": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "2+", kwargs, [], breakstack)
+  # NOTE: the number applies to the arguments after the keywords as well
+  return StandardArgTree.parse(ctx, tokens, "+", kwargs, [], breakstack)
 
 
 def parse_make_directory(ctx, tokens, breakstack):
diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 590f2ae..ff9af1e 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -237,7 +237,8 @@ def parse_include_external_msproject(ctx, tokens, breakstack):
       "GUID": PositionalParser(1),
       "PLATFORM": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "2+", kwargs, [], breakstack)
+  # NOTE: the number applies to the arguments after the keywords as well
+  return StandardArgTree.parse(ctx, tokens, "+", kwargs, [], breakstack)
 
 
 def parse_include_guard(ctx, tokens, breakstack):
-- 
2.43.0


From c5f6c176655e82fb0879d4dd2bdf357f94b34f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 086/107] fix: the form cmake_parse_arguments(PARSE_ARGV ...)
 was not recognized

A missing argument of it was not reported (E1120).
---
 cmakelang/parse/funs/miscellaneous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index ff9af1e..2744db6 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -54,9 +54,9 @@ def parse_cmake_parse_arguments(ctx, tokens, breakstack):
   """
 
   first_token = get_nth_semantic_token(tokens, 0)
-  if first_token is not None and first_token.spelling.upper == "PARSE_ARGV":
+  if first_token is not None and first_token.spelling == "PARSE_ARGV":
     return StandardArgTree.parse(
-        ctx, tokens, "6", {}, ["PARSE_ARGV"], breakstack)
+        ctx, tokens, 6, {}, ["PARSE_ARGV"], breakstack)
   return StandardArgTree.parse(
       ctx, tokens, "5+", {}, [], breakstack)
 
-- 
2.43.0


From b8a363acfdd6c23b380eedac9fc46636fa5f1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 087/107] fix: lint overlooked the argument after FORCE in
 set(... CACHE ...)

and blamed FORCE if there was more than one.
---
 cmakelang/parse/funs/set.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index 95b81c0..af0d850 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -95,17 +95,14 @@ def parse_set(ctx, tokens, breakstack):
       elif len(cache_tokens) < 2:
         ctx.lint_ctx.record_lint(
             "E1120", "<value>", location=tokens[0].get_location())
-      elif len(cache_tokens) < 3:
-        pass
-      elif len(cache_tokens) > 4:
-        ctx.lint_ctx.record_lint(
-            "E1121", location=cache_tokens[2].get_location())
       else:
-        if cache_tokens[2].spelling.upper() == "FORCE":
+        extra_tokens = cache_tokens[2:]
+        if extra_tokens and extra_tokens[0].spelling.upper() == "FORCE":
           cache_args[2] = True
-        else:
+          extra_tokens.pop(0)
+        if extra_tokens:
           ctx.lint_ctx.record_lint(
-              "E1121", location=cache_tokens[2].get_location())
+              "E1121", location=extra_tokens[0].get_location())
       tree.cache = CacheTuple(*cache_args)
 
     elif word == "PARENT_SCOPE":
-- 
2.43.0


From 515d8f649ef4526dd07c2bec6912705fcdb4826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 088/107] fix: W0106 named the open brace where the closing
 brace is missing

The rule for the closing brace had never been reached, and an escaped reference
was reported too.
---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f3a1b4c..c1f0cb3 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -273,7 +273,7 @@ class LintChecker(object):
 
     missing_prefix = re.compile(
         r"(?<!\\)(?:\\\\)*"
-        r"(\$|\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
+        r"(\$|(?<!\$)\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
 
     match_types = (
         TokenType.QUOTED_LITERAL,
-- 
2.43.0


From 6cdeafe469e066d941c14aea8e8978951a580558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 089/107] fix: lint took a bracket comment in front of a
 statement for a statement

C0321 (multiple statements on a single line) was reported.
---
 cmakelang/lint/basic_checker.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index c1f0cb3..bc45e62 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -187,6 +187,23 @@ def mock_varrefs(tokenstr, repl=None):
   return tokenstr
 
 
+def shares_line_with_statement(node, prevchild, prevstmt):
+  """
+  Return true if the statement `node`, which isn't the first thing on it's line,
+  is on the same line as some other statement (as opposed to a bracket comment).
+
+  prevchild: the two nodes preceding `node`, nearest first
+  prevstmt: the statement preceding `node` in the same body, if any
+  """
+  if prevstmt is None:
+    for prevnode in prevchild:
+      if prevnode is not None and prevnode.node_type is NodeType.COMMENT:
+        return False
+    return True
+  last_token = prevstmt.get_semantic_tokens()[-1]
+  return last_token.get_location().line == node.get_location().line
+
+
 class LintChecker(object):
   def __init__(self, cfg, local_ctx):
     self.cfg = cfg
@@ -504,6 +521,7 @@ class LintChecker(object):
     """Perform checks on a body node."""
     (cfg, local_ctx) = self.context
     suppressions = []
+    prevstmt = None
     prevchild = [None, None]
     for idx, child in enumerate(node.children):
       if not isinstance(child, TreeNode):
@@ -534,16 +552,17 @@ class LintChecker(object):
       if child.node_type in (NodeType.FLOW_CONTROL, NodeType.STATEMENT):
         if prevchild[0] is None:
           pass
-        elif prevchild[0].node_type is not NodeType.WHITESPACE:
-          local_ctx.record_lint("C0321", location=child.get_location())
-        elif prevchild[0].count_newlines() < 1:
-          local_ctx.record_lint("C0321", location=child.get_location())
+        elif (prevchild[0].node_type is not NodeType.WHITESPACE
+              or prevchild[0].count_newlines() < 1):
+          if shares_line_with_statement(child, prevchild, prevstmt):
+            local_ctx.record_lint("C0321", location=child.get_location())
         elif prevchild[0].count_newlines() < cfg.lint.min_statement_spacing:
           local_ctx.record_lint(
               "C0305", "not enough", location=child.get_location())
         elif prevchild[0].count_newlines() > cfg.lint.max_statement_spacing:
           local_ctx.record_lint(
               "C0305", "too many", location=child.get_location())
+        prevstmt = child
 
       if (isinstance(child, StatementNode) and
           child.get_funname() in ("break", "continue", "return")):
-- 
2.43.0


From c661337a39e06ef72ac890a503a9a55e2d57fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 090/107] fix: formatting in place replaced a symbolic link
 with a file

---
 cmakelang/format/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 8fc51f8..f0ed7aa 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -546,7 +546,12 @@ def onefile_main(infile_path, args, argparse_dict):
   outtext.encode(cfg.encode.output_encoding)
 
   if args.in_place:
-    tempfile_path = infile_path + ".cmf-temp"
+    # NOTE: if it is a symlink, then write the file that it refers to, instead
+    # of replacing the link with a file
+    target_path = infile_path
+    if os.path.islink(infile_path):
+      target_path = os.path.realpath(infile_path)
+    tempfile_path = target_path + ".cmf-temp"
     outfile = io.open(
         tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')
   else:
@@ -573,7 +578,7 @@ def onefile_main(infile_path, args, argparse_dict):
       shutil.copymode(infile_path, tempfile_path)
       # NOTE: both are in the same directory. os.replace() is atomic, where
       # shutil.move() falls back to overwriting the file if it cannot rename
-      getattr(os, "replace", os.rename)(tempfile_path, infile_path)
+      getattr(os, "replace", os.rename)(tempfile_path, target_path)
   except:
     if args.in_place and os.path.exists(tempfile_path):
       os.remove(tempfile_path)
-- 
2.43.0


From 8c69ed8f7605bdfde31c07d2a6f1be3096ca2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:49 +0000
Subject: [PATCH 091/107] fix: the shorthand for the specification of a keyword
 was not understood

According to custom_parsers.rst a keyword with one group of positional
arguments can be given as the specification of that group. This raised a
TypeError for all keys but 'flags'.
---
 cmakelang/parse/util.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index ec80abe..da728b7 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -492,6 +492,16 @@ def parse_pspec(pargs, flags):
   return out
 
 
+def is_positional_spec(spec):
+  """
+  Return true if the dictionary is the specification of a group of positional
+  arguments, and not that of a command or keyword.
+  """
+  return "pargs" not in spec and "kwargs" not in spec and any(
+      key in spec
+      for key in ("nargs", "sortable", "tags", "legacy", "max_pargs_hwrap"))
+
+
 class CommandSpec(object):
   """
   A command specification is composed of a sequence of positional argument
@@ -537,6 +547,9 @@ class CommandSpec(object):
         elif isinstance(spec, CommandSpec):
           self.kwargs[keyword] = spec
         elif isinstance(spec, dict):
+          if is_positional_spec(spec):
+            # The shorthand for a keyword with one group of arguments
+            spec = {"pargs": [spec]}
           self.kwargs[keyword] = CommandSpec(name=keyword, **spec)
         else:
           raise ValueError("Unexpected type '{}' for kwargs"
-- 
2.43.0


From afcbf56963d10a04c27a3526ddccd7748997a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 092/107] fix: an override of the group behind the last one
 raised an IndexError

---
 cmakelang/parse/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index da728b7..4f7ea08 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -601,7 +601,7 @@ def apply_overrides(spectree, pathkeystr, value):
         raise UserError(
             "Invalid override key {} contains non-int pspec"
             .format(pathkeystr))
-      if idx > len(spectree.pargs):
+      if not 0 <= idx < len(spectree.pargs):
         raise UserError(
             "Invalid override key {} is out of bounds"
             .format(pathkeystr))
-- 
2.43.0


From 009d2cffd2aa9422a10fa2851a820d30cf842317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 093/107] fix: an explicit_trailing_pattern was written into
 the file instead of matched

---
 cmakelang/format/formatter.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index de27bc4..72a83ca 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -42,19 +42,44 @@ def clamp(value, min_value, max_value):
   return value
 
 
+def get_explicit_trailing_prefix(config, node):
+  """Return the characters with which each line of an explicit trailing comment
+  is written: those of its first line which match the configured pattern."""
+  pattern = config.markup.explicit_trailing_pattern
+  for token in node.children:
+    if token.type == TokenType.COMMENT:
+      spelling = token.spelling.strip()
+      if spelling.startswith(pattern.rstrip() or "#"):
+        return pattern.rstrip() or "#"
+      match = re.match(pattern, spelling)
+      if match and match.end() == len(spelling):
+        # The pattern isn't restricted to a prefix, leave the text alone
+        match = re.match(r"\W*", spelling)
+      if match and match.group(0).strip():
+        return match.group(0).rstrip()
+      break
+  return "#"
+
+
 def get_comment_lines(config, node, literal=False):
   """Given a comment node, iterate through it's tokens and generate a list
   of textual lines. If `literal` is true then preserve the entire lines."""
   inlines = []
+  trailing_prefix = None
+  if isinstance(node, simple_nodes.CommentNode) and node.is_explicit_trailing:
+    trailing_prefix = get_explicit_trailing_prefix(config, node)
+
   for token in node.children:
     assert isinstance(token, lex.Token), (
         "Unexpected object as child of comment node")
     if token.type == TokenType.COMMENT:
       inline = token.spelling.strip()
 
-      if (isinstance(node, simple_nodes.CommentNode) and
-          node.is_explicit_trailing):
-        inlines.append(inline[len(config.markup.explicit_trailing_pattern):])
+      if trailing_prefix is not None:
+        if inline.startswith(trailing_prefix):
+          inlines.append(inline[len(trailing_prefix):])
+        else:
+          inlines.append(inline[1:])
         continue
 
       if literal or not config.markup.enable_markup:
@@ -80,7 +105,7 @@ def format_comment_lines(node, stack_context, line_width):
   inlines = get_comment_lines(config, node)
 
   if (isinstance(node, simple_nodes.CommentNode) and node.is_explicit_trailing):
-    prefix = config.markup.explicit_trailing_pattern
+    prefix = get_explicit_trailing_prefix(config, node)
   else:
     prefix = "#"
 
-- 
2.43.0


From 0ccf325029d066fd25458203475cda7572e632d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 094/107] fix: the prefix of an explicit trailing comment was
 not part of its width

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 72a83ca..0c5ccc7 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -125,7 +125,8 @@ def format_comment_lines(node, stack_context, line_width):
     return [prefix + line.rstrip() for line in inlines]
 
   items = markup.parse(inlines, config)
-  markup_lines = markup.format_items(config, max(10, line_width - 2), items)
+  markup_lines = markup.format_items(
+      config, max(10, line_width - len(prefix) - 1), items)
   return [prefix + (" " * len(line[:1])) + line for line in markup_lines]
 
 
-- 
2.43.0


From f92e91876999c87f28f5216afa0d170f0a93c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:32 +0000
Subject: [PATCH 095/107] fix: lint looked only at the first suspicious
 reference of an argument

---
 cmakelang/lint/basic_checker.py | 34 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index bc45e62..c2ff962 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -302,26 +302,20 @@ class LintChecker(object):
       if token.type not in match_types:
         continue
 
-      resolved = mock_varrefs(token.spelling)
-
-      match = missing_prefix.search(resolved)
-      if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
-        catmatch = "".join(match.group(1, 2))
-        if catmatch == "$ENV":
-          # This is an environment variable reference, so we don't try to
-          # match it
-          continue
-
-        local_ctx.record_lint(
-            "W0106", "open", catmatch, location=token.get_location())
-        continue
-
-      match = missing_suffix.search(resolved)
-      if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
-        catmatch = "".join(match.group(1, 2))
-        local_ctx.record_lint(
-            "W0106", "closing", catmatch, location=token.get_location())
-        continue
+      # References like $ENV{name} are not references to a variable
+      resolved = re.sub(
+          r"\$(?:ENV|CACHE)\{[^{}$]*\}", "foo", mock_varrefs(token.spelling))
+
+      for regex, which in ((missing_prefix, "open"),
+                           (missing_suffix, "closing")):
+        suspects = [
+            "".join(match.group(1, 2)) for match in regex.finditer(resolved)
+            if variables.CASE_SENSITIVE_REGEX.match(match.group(2))
+            and match.group(1, 2) != ("$", "ENV")]
+        if suspects:
+          local_ctx.record_lint(
+              "W0106", which, suspects[0], location=token.get_location())
+          break
 
   def check_for_custom_parse_logic(self, stmt_node):
     """Ensure that a function or macro definition doesn't contain custom parser
-- 
2.43.0


From 92af5d25d18649a5d72535b9a15439248803cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 096/107] fix: options of a later configuration file did not
 win over flat ones of an earlier file

---
 cmakelang/format/__main__.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index f0ed7aa..4cb7299 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -319,7 +319,29 @@ def get_configdict(configfile_paths):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
       include_queue.append(include_path)
-    map_merge(config_dict, increment_dict)
+    map_merge(config_dict, move_into_sections(increment_dict))
+  return config_dict
+
+
+def move_into_sections(config_dict):
+  """
+  Return a copy of `config_dict` with all options in their sections, so that
+  it can be merged with that of another file, whichever way they are written.
+  """
+  config_dict = dict(config_dict)
+  defaults = configuration.Configuration()
+  for section in defaults.get_field_names():
+    found = {name: config_dict.pop(name)
+             for name in getattr(defaults, section).get_field_names()
+             if name in config_dict}
+    if not found:
+      continue
+    options = config_dict.get(section, {})
+    if isinstance(options, dict):
+      options = dict(options, **found)
+      config_dict[section] = options
+    else:
+      config_dict.update(found)
   return config_dict
 
 
-- 
2.43.0


From 07aed0d928ee82edd2033178eb72eaeba736677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 097/107] fix: cmake-lint ignored all but the last -c option

---
 cmakelang/lint/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 23c8a48..84a8100 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -48,6 +48,7 @@ def process_file(config, local_ctx, infile_content):
 
 
 def setup_argparse(argparser):
+  argparser.register('action', 'extend', __main__.ExtendAction)
   argparser.add_argument('-v', '--version', action='version',
                          version=cmakelang.__version__)
   argparser.add_argument(
@@ -79,7 +80,7 @@ def setup_argparse(argparser):
       help="Suppress the file title decoration and summary statistics")
 
   argparser.add_argument(
-      '-c', '--config-files', nargs='+',
+      '-c', '--config-files', nargs='+', action='extend',
       help='path to configuration file(s)')
   argparser.add_argument('infilepaths', nargs='*')
 
-- 
2.43.0


From ad4793834d640d2af89f611b2d5fbf4902169e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 098/107] fix: a python configuration with sections was read as
 yaml if it has no extension

---
 cmakelang/format/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 4cb7299..0c96f6a 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -245,8 +245,10 @@ def try_get_configdict(configfile_path):
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
       config_dict = load_yaml(config_file)
-    # NOTE: most python files are valid yaml: a single string
-    if isinstance(config_dict, dict):
+    # NOTE: most python files are valid yaml: a single string, or a dictionary
+    # with keys like `with section("format")`
+    if isinstance(config_dict, dict) and not any(
+        "section(" in str(key) for key in config_dict):
       return config_dict
   except:  # pylint: disable=bare-except
     pass
-- 
2.43.0


From c08922008ba610e9d9dc86f13dffcf22bd692713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:18 +0000
Subject: [PATCH 099/107] fix: lint reported the lines of a trailing comment as
 badly indented

---
 cmakelang/lint/basic_checker.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index c2ff962..1629fa9 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -790,6 +790,13 @@ class LintChecker(object):
         return True
     return False
 
+  def am_in_trailing_comment(self):
+    for node in self._node_stack:
+      if isinstance(node, CommentNode) and (
+          node.is_implicit_trailing or node.is_explicit_trailing):
+        return True
+    return False
+
   def get_scope_depth(self):
     depth = 0
     for node in self._node_stack:
@@ -816,7 +823,7 @@ class LintChecker(object):
           len(self._indent_token.spelling) +
           self._indent_token.spelling.count("\t") * (cfg.format.tab_size - 1))
 
-      if self.am_in_arggroup():
+      if self.am_in_arggroup() or self.am_in_trailing_comment():
         if actual_indentation < desired_indentation:
           local_ctx.record_lint(
               "C0307", self._indent_token.spelling, token.spelling,
-- 
2.43.0


From 4d1af98ee6d08ba817ec30583021438ce911b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:37 +0000
Subject: [PATCH 100/107] fix: NO_CMAKE_SYSTEM_PATH was not a keyword of
 find_library and find_path

---
 cmakelang/parse/funs/standard_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 8d9563c..d209ce6 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -125,7 +125,7 @@ FUNSPECS = {
       "NO_CMAKE_ENVIRONMENT_PATH",
       "NO_CMAKE_FIND_ROOT_PATH",
       "NO_CMAKE_PATH",
-      "NO_CMKE_SYSTEM_PATH",
+      "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
@@ -158,7 +158,7 @@ FUNSPECS = {
       "NO_CMAKE_ENVIRONMENT_PATH",
       "NO_CMAKE_FIND_ROOT_PATH",
       "NO_CMAKE_PATH",
-      "NO_CMKE_SYSTEM_PATH",
+      "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
-- 
2.43.0


From fa1830a583244a8a5476417a87fdb5a277310782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:37 +0000
Subject: [PATCH 101/107] fix: some documented keywords of install(DIRECTORY)
 and install(EXPORT) were not known

---
 cmakelang/parse/funs/install.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index 863f099..3437ea2 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -216,7 +216,8 @@ def parse_install_directory(ctx, tokens, breakstack):
           "REGEX": PatternNode.parse,
       },
       flags=[
-          "USER_SOURCE_PERMISSIONS",
+          "USE_SOURCE_PERMISSIONS",
+          "EXCLUDE_FROM_ALL",
           "OPTIONAL",
           "MESSAGE_NEVER",
           "FILES_MATCHING",
@@ -274,7 +275,8 @@ def parse_install_export(ctx, tokens, breakstack):
           "COMPONENT": PositionalParser(1),
       },
       flags=[
-          "EXCLUDE_FROM_ALL"
+          "EXCLUDE_FROM_ALL",
+          "EXPORT_LINK_INTERFACE_LIBRARIES",
       ],
       breakstack=breakstack)
 
-- 
2.43.0


From c523257ea4a24bcd536b097f72d82e6e44342922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:19 +0000
Subject: [PATCH 102/107] fix: CACHE was not a keyword of
 get_filename_component unless for PROGRAM

---
 cmakelang/parse/funs/miscellaneous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2744db6..bc580c2 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -183,6 +183,7 @@ def parse_get_filename_component(ctx, tokens, breakstack):
       "ABSOLUTE",
       "REALPATH",
       "PATH",
+      "CACHE",
   ]
   return StandardArgTree.parse(ctx, tokens, "3+", {}, flags, breakstack)
 
-- 
2.43.0


From 0d85a2d20094040e8cafb6cea0605ea35416581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:19 +0000
Subject: [PATCH 103/107] fix: include_guard had no keywords

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index bc580c2..b79d56d 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -250,7 +250,7 @@ def parse_include_guard(ctx, tokens, breakstack):
 
   :see: https://cmake.org/cmake/help/latest/command/include_guard.html
   """
-  return StandardArgTree.parse(ctx, tokens, "*", {}, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "*", {}, ["DIRECTORY", "GLOBAL"], breakstack)
 
 
 def parse_include_regular_expression(ctx, tokens, breakstack):
-- 
2.43.0


From ec22dc93382807ee94b4f8eb2dde24ff673cf18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:19 +0000
Subject: [PATCH 104/107] fix: EXPR was not a keyword of math

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index b79d56d..e2fedc7 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -330,7 +330,7 @@ def parse_math(ctx, tokens, breakstack):
   kwargs = {
       "OUTPUT_FORMAT": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "3", kwargs, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "3", kwargs, ["EXPR"], breakstack)
 
 
 def parse_option(ctx, tokens, breakstack):
-- 
2.43.0


From 80611d7f43af257c811a23c8704cdd0d01e8b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 105/107] fix: TREE was not a keyword of source_group

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index e2fedc7..e063db4 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -448,7 +448,7 @@ def parse_source_group(ctx, tokens, breakstack):
         "PREFIX": PositionalParser(1),
         "FILES": PositionalParser("+")
     }
-    return StandardArgTree.parse(ctx, tokens, 2, kwargs, [], breakstack)
+    return StandardArgTree.parse(ctx, tokens, 2, kwargs, ["TREE"], breakstack)
 
   kwargs = {
       "FILES": PositionalParser("+"),
-- 
2.43.0


From 3428083044a78d7c18c6acbdc6e2d46af6abf380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 106/107] fix: an explicit trailing comment lost the
 punctuation in front of its first word

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 0c5ccc7..732db2a 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -54,7 +54,7 @@ def get_explicit_trailing_prefix(config, node):
       match = re.match(pattern, spelling)
       if match and match.end() == len(spelling):
         # The pattern isn't restricted to a prefix, leave the text alone
-        match = re.match(r"\W*", spelling)
+        match = re.match(r"#[^\w\s]*(?=\s|$)|#[^\w\s]?", spelling)
       if match and match.group(0).strip():
         return match.group(0).rstrip()
       break
-- 
2.43.0


From 378958b86d9fc149533451f12495fff0aaeab465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:28 +0000
Subject: [PATCH 107/107] fix: a python configuration with a dictionary on one
 line was read as yaml if it has no extension

---
 cmakelang/format/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 0c96f6a..7b97dd4 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -246,9 +246,9 @@ def try_get_configdict(configfile_path):
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
       config_dict = load_yaml(config_file)
     # NOTE: most python files are valid yaml: a single string, or a dictionary
-    # with keys like `with section("format")`
+    # with keys like `with section("format")` or `format = {"tab_size"`
     if isinstance(config_dict, dict) and not any(
-        "section(" in str(key) for key in config_dict):
+        "section(" in str(key) or "=" in str(key) for key in config_dict):
       return config_dict
   except:  # pylint: disable=bare-except
     pass
-- 
2.43.0

