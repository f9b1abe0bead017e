"""The properties, and how each is decided. tools/meta.py writes the files."""

FMT = "cmakelang/format/formatter.py"
MAIN = "cmakelang/format/__main__.py"
LEX = "cmakelang/lex/__init__.py"

NOTES = """Every check imports the code under test from /repo and runs it;
./check ID quick|thorough [--seed N] [--replay FILE]. VERIF_SEED selects the
workload."""

NOT_APPLICABLE = {}

FMT_TRUST = """Held on the executions of this run. Trusts the reference lexer
in vlib/reflex.py (cross-checked with cmake itself) and, for the comparison,
that the random listfiles and the corpus represent real use."""

CLI_TRUST = """Held on the runs of this check. Trusts the library entry points
for the content (they are the subject of other properties) and the forked
harness, a sample of which is cross-checked with real processes."""

PROPERTIES = [
    dict(
        id="C01", title="Formatting preserves every command and argument",
        statement="""Formatting a listfile never changes what CMake would
        execute: the formatted text has the same commands, in the same order,
        each with exactly the same arguments, spelled and quoted as they were.
        Only command and keyword case, white space between arguments, and the
        order of arguments that were explicitly made sortable may differ.""",
        over=["inputs", "configurations"],
        text="""every listfile that CMake accepts, under every combination of
        formatting options""",
        tests="""The tests compare a few hundred hand-written snippets with
        fixed outputs, under few configurations; the guarantee is over every
        combination of lexical form, command grammar and layout.""",
        files=[LEX, FMT, MAIN, "cmakelang/parse"],
        mechanism=[("tokenize", LEX), ("parse tree to layout tree", FMT),
                   ("layout_passes and write", FMT)],
        observe=["return value of the formatter", "output files"],
        technique="differential monitor: command/argument streams of input "
                  "and output, read by an independent reference lexer",
        note=FMT_TRUST),
    dict(
        id="C02", title="Formatting never loses, invents or reorders comments",
        statement="""Every word of every comment of the input is in the output,
        once, and comments keep their order relative to each other and to the
        commands and arguments around them. Comments are only re-flowed,
        never dropped, duplicated, turned into code, or swallowing code.""",
        over=["inputs", "configurations"],
        text="""every listfile with line and bracket comments in every
        position, under every combination of formatting options""",
        tests="""Snippet tests place comments in a handful of positions;
        comments may occur between any two tokens of any command.""",
        files=[LEX, FMT, "cmakelang/markup.py", "cmakelang/parse"],
        mechanism=[("comment tokens and explicit trailing comments", LEX),
                   ("comment layout nodes", FMT),
                   ("markup parsing and re-flowing", "cmakelang/markup.py")],
        observe=["return value of the formatter"],
        technique="conservation monitor over the word streams of the comments "
                  "of input and output",
        note=FMT_TRUST),
    dict(
        id="C03", title="Formatting is idempotent",
        statement="""Formatting a text that was just formatted with the same
        configuration changes nothing, so that files settle after one pass and
        a check for formatted files accepts what the formatter has written.""",
        over=["inputs", "configurations"],
        text="""every listfile that CMake accepts, under every combination of
        formatting options""",
        tests="""A few tests format their own output; the property depends on
        the interplay of comment placement, wrapping thresholds and markup for
        all inputs.""",
        files=[FMT, "cmakelang/markup.py", LEX],
        mechanism=[("layout passes", FMT),
                   ("markup canonicalisation", "cmakelang/markup.py")],
        observe=["return value of the formatter on its own output"],
        technique="metamorphic monitor: second pass compared with the first, "
                  "byte for byte",
        note=FMT_TRUST + """ Five mechanisms by which it is broken are
        recorded as known findings and recognised by counterfactuals."""),
    dict(
        id="C04", title="Off/on sections are verbatim and the rest unaffected",
        statement="""Text between the switches that turn formatting off and on
        is reproduced byte for byte, wherever the switches are, also without a
        closing switch. The text outside is formatted the same as if the
        section held anything else.""",
        over=["inputs", "configurations"],
        text="""every listfile with any number of balanced, nested, repeated
        or unterminated switches at statement level or in argument lists""",
        tests="""The tests have one or two well-formed sections with simple
        contents.""",
        files=[LEX, FMT, "cmakelang/parse"],
        mechanism=[("off/on token handling in the lexer", LEX),
                   ("verbatim layout node", FMT)],
        observe=["return value of the formatter"],
        technique="byte-exact monitor of switched-off sections, plus a "
                  "metamorphic monitor that replaces their content",
        note=FMT_TRUST),
    dict(
        id="C05", title="The line width is honoured, and breaches are reported",
        statement="""When the formatter reports its layout as valid, no line of
        the output is wider than the configured width. A line may be wider
        only where a single argument, keyword with its value, or word cannot be
        broken, and the layout is then reported as not valid.""",
        over=["inputs", "configurations"],
        text="""every listfile, every line width and every setting of the
        wrapping thresholds""",
        tests="""The tests use widths of about 80 and texts that fit.""",
        files=[FMT, MAIN],
        mechanism=[("column accounting in the layout", FMT),
                   ("validity of the layout", FMT)],
        observe=["lines of the output", "validity flag"],
        technique="output monitor measuring every line and classifying the "
                  "tokens on lines that are too wide",
        note=FMT_TRUST + """ One mechanism (numbered lists) is recorded as a
        known finding."""),
    dict(
        id="C06", title="The result does not depend on white space of the input",
        statement="""How the input was laid out does not matter: two listfiles
        with the same commands, arguments and comments, that differ only in
        blanks, tabs, indentation, newlines inside of argument lists and the
        number of consecutive empty lines (one or more), are formatted to the
        same text.""",
        over=["inputs", "configurations"],
        text="""every listfile, every re-spacing of it that moves no comment to
        another token, every configuration""",
        tests="""Each test has one input layout; the property quantifies over
        pairs of layouts of the same tokens.""",
        files=[FMT, LEX, "cmakelang/parse"],
        mechanism=[("whitespace tokens are skipped by the parsers",
                    "cmakelang/parse/util.py"),
                   ("body nodes count newlines", FMT)],
        observe=["return value of the formatter"],
        technique="metamorphic monitor: the same tokens respaced at random, "
                  "results compared byte for byte",
        note=FMT_TRUST),
    dict(
        id="C07", title="Line endings, indentation characters, blanks and BOM",
        statement="""Outside of off/on sections and of multi-line arguments,
        every line of the output ends with the configured line ending (with
        "auto", the majority of those of the input), no line ends with a blank
        or tab, indentation is made of tabs only as the tab policy prescribes
        and of spaces otherwise; the file ends with exactly one newline; and
        there is a byte-order mark exactly if it is requested.""",
        over=["inputs", "configurations"],
        text="""every listfile with unix, windows and mixed line endings, with
        and without byte-order mark and final newline, and every combination
        of line_ending, use_tabchars, tab_size, fractional_tab_policy and
        emit_byteorder_mark""",
        tests="""The tests look at a few snippets with \\r\\n or tabs; the
        guarantee is about every line of every output.""",
        files=[FMT, MAIN],
        mechanism=[("detect_line_endings, process_file", MAIN),
                   ("CursorFile and tab handling", FMT)],
        observe=["characters of the output"],
        technique="output monitor over every line of the formatted text",
        note=FMT_TRUST),
    dict(
        id="C08", title="Names and keywords are cased as configured, nothing else",
        statement="""Every command name is spelled as command_case (or the
        per-command override) says: lower, upper, canonical or unchanged; a
        user specified command is canonically spelled as in its specification.
        The keywords and flags of a command are cased as keyword_case says;
        no other argument changes its spelling, whatever it looks like.""",
        over=["inputs", "configurations"],
        text="""every command, known, user-specified or unknown, with names and
        keywords in any case, under every case policy""",
        tests="""The tests have a handful of commands under each policy; there
        are several hundred command specifications.""",
        files=[FMT, "cmakelang/configuration.py", "cmakelang/parse"],
        mechanism=[("spelling of KeywordNode, FlagNode and FunctionNameNode",
                    FMT),
                   ("resolve_for_command", "cmakelang/configuration.py"),
                   ("keyword recognition", "cmakelang/parse")],
        observe=["return value of the formatter"],
        technique="differential monitor: spelling of every command and word "
                  "predicted by a reference model of the case policy",
        note=FMT_TRUST + """ Which words are keywords of the built-in commands
        is taken from a reviewed snapshot (vlib/cased.json)."""),
    dict(
        id="C18", title="All ways to run cmake-format agree; --check is truthful",
        statement="""Standard output, -o, -i and standard input give the same
        bytes for the same text and configuration wherever the options come
        from, each of several files is treated as if it was alone, and only -i
        changes input files, never ones that are already formatted. --check
        exits with 0 exactly if formatting would change none of the files,
        names those that it would change, and writes nothing. With
        require_valid_layout a file without a valid layout is not written and
        the exit status is not 0; with disable nothing is written.""",
        over=["inputs", "configurations", "histories"],
        text="""every set of listfiles, every mode of invocation, every
        configuration given in a file or on the command line""",
        tests="""The invocation tests run each mode on one file with one
        configuration, and never compare modes with each other.""",
        files=[MAIN],
        mechanism=[("inner_main and onefile_main", MAIN)],
        observe=["exit status", "standard output", "file system"],
        technique="differential monitor of real runs of main() in a scratch "
                  "directory against the library",
        note=CLI_TRUST),
    dict(
        id="C19", title="Formatting in place never damages a file",
        statement="""During and after a run with -i every file is at all times
        either its original or its completely formatted self, with its
        permission bits, whatever goes wrong: undecodable input, output that
        cannot be encoded, a syntax error, an invalid layout with
        require_valid_layout, an I/O error at any file system operation, a full
        disk, or a kill at any moment. A failure is reported by the exit
        status, touches no other file, and leaves no other files behind (unless
        killed); a symbolic link stays one, and the file behind it is
        formatted.""",
        over=["inputs", "crash_points", "fault_sequences"],
        text="""every set of files, every kind of failure, every point of the
        run at which the fault or kill may strike""",
        tests="""The tests never make a run fail in the middle.""",
        files=[MAIN],
        mechanism=[("temporary file, copymode and rename in onefile_main",
                    MAIN)],
        observe=["file contents at every file system operation", "exit status",
                 "directory after the run"],
        technique="fault injection (audit hooks, kernel file size limit, kill) "
                  "with an online monitor of the file contents",
        note="""Held on the fault points of this run. Trusts that python's
        audit events cover the file system operations, and the kernel's file
        size limit as a stand-in for a full disk. Crashes of the machine (no
        fsync) are not modelled."""),
    dict(
        id="C20", title="The right configuration applies to each file",
        statement="""The options that apply to a listfile are those of the
        nearest configuration file in its ancestry (for standard input: of the
        working directory), or, with -c, of the given files and only those;
        files named by "include" are found relative to the including file and
        merged; merging is latest-wins per option, with dictionaries merged;
        options on the command line override all. Other files of the tree and
        files given for other listfiles have no influence. This holds for
        cmake-format and cmake-lint alike.""",
        over=["inputs", "configurations"],
        text="""every directory tree, placement, name, format and nesting of
        configuration files, and every set of command line options""",
        tests="""The include tests do not run on current pythons, and no test
        has more than one candidate configuration file.""",
        files=[MAIN, "cmakelang/config_util.py", "cmakelang/lint/__main__.py"],
        mechanism=[("find_config_file, get_configdict, map_merge", MAIN),
                   ("ExecGlobal", "cmakelang/config_util.py")],
        observe=["formatted text of a probe that depends on every option",
                 "lint of the probe"],
        technique="differential monitor: real runs against a reference model "
                  "of discovery, inclusion and merging",
        note=CLI_TRUST + """ One mechanism (python sections in a file without
        extension) is recorded as a known finding."""),
    dict(
        id="C21", title="Configuration formats are equivalent, dumps round-trip",
        statement="""Options mean the same in yaml, json and python, flat or in
        sections, and on the command line. --dump-config shows exactly the
        active options over the defaults in a valid file of the requested
        format; --no-default leaves exactly the given options; reading a dump
        back gives the same configuration and the same dump.""",
        over=["configurations"],
        text="""every subset of the options with any values, every format and
        style of the configuration file, every dump format and variant""",
        tests="""The tests round-trip the default configuration and a few
        options.""",
        files=["cmakelang/config_util.py", "cmakelang/configuration.py", MAIN],
        mechanism=[("ConfigObject", "cmakelang/config_util.py"),
                   ("dump_config, get_argdict", MAIN)],
        observe=["standard output of --dump-config"],
        technique="round-trip monitor with independent readers of the dump",
        note=CLI_TRUST),
    dict(
        id="C22", title="Encodings: characters survive, failures are reported",
        statement="""Files are read in input_encoding and written in
        output_encoding: the result is the encoding of the formatted decoded
        text, independent of the locale and of the mode of invocation. Input
        that cannot be decoded and output that cannot be encoded are reported
        by the exit status, and the listfile is left alone. cmake-lint reports
        an undecodable file and goes on with the others.""",
        over=["inputs", "configurations"],
        text="""every listfile with characters of any script, every pair of
        encodings, every mode of invocation, every locale""",
        tests="""The tests have two non-ascii snippets, in utf-8.""",
        files=[MAIN, "cmakelang/lint/__main__.py"],
        mechanism=[("io.open with encodings in onefile_main", MAIN)],
        observe=["bytes of the output", "exit status"],
        technique="differential monitor of the bytes of real runs against the "
                  "library",
        note=CLI_TRUST),
    dict(
        id="C10", title="Every tool finishes on every valid listfile",
        statement="""For every listfile that CMake accepts and every valid
        configuration, the formatter, its debug dumps, the linter, the
        annotator and the spec generator end and raise nothing: no crash, no
        internal error, no endless loop, whatever the number, kind or position
        of the arguments of a command, builtin or user specified.""",
        over=["inputs", "configurations"],
        text="""every listfile that CMake accepts (parentheses nested up to four
        deep), every combination of valid options and user specifications""",
        tests="""The tests give well-formed calls of known commands; the
        guarantee is about any call of any command with any specification.""",
        files=["cmakelang/parse", FMT, "cmakelang/lint", "cmakelang/annotate.py",
               "cmakelang/genparsers.py"],
        mechanism=[("parsers of the commands", "cmakelang/parse/funs"),
                   ("parser for specifications",
                    "cmakelang/parse/argument_nodes.py"),
                   ("lint checks", "cmakelang/lint/basic_checker.py")],
        observe=["exceptions that leave a tool", "time and memory"],
        technique="robustness monitor: exceptions, time and memory of every "
                  "tool under random calls of every command",
        note=FMT_TRUST),
    dict(
        id="C15", title="The tokens tile the file with right positions and kinds",
        statement="""Tokenizing any text either fails with a reported error or
        gives tokens whose spellings, put together, are the text; the line,
        column and byte offset of both ends of each token are right. For a text
        that CMake accepts it never fails, and the extents of arguments,
        comments, parentheses, names and line ends and their kinds are those
        of CMake's lexical rules.""",
        over=["inputs"],
        text="""every string (up to 20000 characters), listfile or not""",
        tests="""The lexer tests compare about twenty short strings.""",
        files=[LEX],
        mechanism=[("tokenize", LEX)],
        observe=["token list"],
        technique="differential monitor against an independent lexer, plus "
                  "recomputed positions",
        note=FMT_TRUST),
    dict(
        id="C16", title="The parse tree holds every token once, in order",
        statement="""The leaves of the parse tree, from left to right, are the
        tokens of the file, each once. Its statements, their arguments, nested
        parentheses and the nesting of if/foreach/while/function/macro blocks
        are those of the file, and parent links are right.""",
        over=["inputs", "configurations"],
        text="""every listfile that CMake accepts, with and without user
        specified commands""",
        tests="""Tests compare trees for some dozens of snippets, mostly only
        the types of nodes.""",
        files=["cmakelang/parse"],
        mechanism=[("command parsers", "cmakelang/parse/funs"),
                   ("argument groups", "cmakelang/parse/argument_nodes.py"),
                   ("blocks", "cmakelang/parse/body_nodes.py")],
        observe=["parse tree"],
        technique="conservation and nesting monitor over the tree, against an "
                  "independent reader",
        note=FMT_TRUST),
    dict(
        id="C11", title="Malformed input is refused, and nothing is lost by it",
        statement="""A text which is not a listfile (unbalanced parentheses or
        blocks, unterminated strings, junk, cut off anywhere) or a configuration
        that cannot be used (missing, unparsable, of the wrong type, an unknown
        option value) never leads to silent damage: either the tool ends with
        an exit status other than 0 and a message, cmake-format has written
        nothing to standard output and every file is as it was, or the output
        has every character of the input which is not white space, in order;
        an opened block without its own end command is always refused. No tool
        hangs on any text.""",
        over=["inputs", "configurations"],
        text="""every text and every configuration file, valid or not, and every
        mode of invocation""",
        tests="""The tests have a handful of invalid files; damage can sit
        anywhere in any file.""",
        files=[LEX, "cmakelang/parse", MAIN, "cmakelang/lint/__main__.py",
               "cmakelang/annotate.py"],
        mechanism=[("errors of the parser", "cmakelang/parse/__init__.py"),
                   ("order of processing and opening files", MAIN)],
        observe=["exit status", "standard output and error",
                 "content of the directory"],
        technique="fault injection into listfiles and configurations with a "
                  "conservation monitor and a directory snapshot",
        note=CLI_TRUST),
    dict(
        id="C13", title="Results depend on file and configuration only",
        statement="""What the tools print for a file is a function of the text
        and the configuration: the same when repeated, behind any other files
        with other configurations and specifications of the same commands
        (malformed ones included), with one configuration object for many
        files, with any hash seed, locale, time zone or working directory.""",
        over=["inputs", "histories"],
        text="""every file, every sequence of files processed before it in the
        same process, every environment""",
        tests="""Tests run one file each in a new state; leaks between files
        need a history.""",
        files=["cmakelang/parse/funs", "cmakelang/configuration.py",
               "cmakelang/lint/lint_util.py", MAIN],
        mechanism=[("get_parse_db and get_funtree",
                    "cmakelang/parse/funs/__init__.py"),
                   ("specifications added to the configuration",
                    "cmakelang/configuration.py"),
                   ("contexts of the linter", "cmakelang/lint/lint_util.py")],
        observe=["output of each tool", "type of the exception"],
        technique="history differential monitor: fresh process against a "
                  "process with a history, and against another environment",
        note=CLI_TRUST),
    dict(
        id="C17", title="Arguments are grouped as the specification says",
        statement="""For a command with a specification (additional_commands),
        the parse tree has the positional groups, flags and keyword groups,
        nested to any depth, which the documentation of specifications implies
        for the arguments of a call; keywords match in any case, quoted and
        bracket arguments and variables never do, and comments and line breaks
        have no influence. cmake-lint reports missing positional arguments of a
        group and duplicate keywords accordingly. The same holds for each builtin
        command and module with the signature that its documentation gives.""",
        over=["inputs", "configurations"],
        text="""every specification of up to three levels in every documented
        spelling, every list of arguments; the keywords and flags of some 430
        builtin commands and forms""",
        tests="""The tests use a few specifications with well-formed calls.""",
        files=["cmakelang/parse/argument_nodes.py", "cmakelang/parse/util.py",
               "cmakelang/configuration.py", "cmakelang/doc/custom_parsers.rst"],
        mechanism=[("StandardArgTree.parse2, PositionalGroupNode.parse2",
                    "cmakelang/parse/argument_nodes.py"),
                   ("CommandSpec, parse_pspec, breakers",
                    "cmakelang/parse/util.py")],
        observe=["parse tree", "lint records E1120 and E1122"],
        technique="reference interpreter of specifications as the oracle of "
                  "observed parse trees",
        note=FMT_TRUST),
    dict(
        id="C23", title="Line level lint is exact",
        statement="""cmake-lint reports a line too long (C0301) exactly for the
        lines with more characters than line_width, with the number; trailing
        white space (C0303), a missing final newline (C0304), wrong indentation
        characters (C0306) and wrong line endings (C0327) exactly where they
        are, for every line_ending, tab policy and disabled_codes.""",
        over=["inputs", "configurations"],
        text="""every listfile with any line structure, every configuration""",
        tests="""One expected-output file, with unix line ends.""",
        files=["cmakelang/lint/basic_checker.py", "cmakelang/lint/__main__.py"],
        mechanism=[("check_basic_style", "cmakelang/lint/basic_checker.py")],
        observe=["lint records"],
        technique="online comparison of lint records with those derived from "
                  "the characters of the file",
        note=FMT_TRUST),
    dict(
        id="C24", title="Structural and naming lint is exact",
        statement="""The records of cmake-lint about names (C0103, C0111, C0112,
        C0201, C0202, E0103, W0105), unreachable code (W0101), duplicate and
        invalid arguments of definitions (E0108, E0109), spacing and
        indentation (C0305, C0307), and the complexity limits (R0911, R0912,
        R0913, R0915) are exactly those which the documented rule, applied to
        the blocks, scopes and positions of the file, implies.""",
        over=["inputs", "configurations"],
        text="""every listfile, every combination of patterns and limits""",
        tests="""Each code is tested with one or two snippets and default
        patterns.""",
        files=["cmakelang/lint/basic_checker.py", "cmakelang/lint/lintdb.py",
               "cmakelang/parse/variables.py"],
        mechanism=[("visitors of the nodes", "cmakelang/lint/basic_checker.py"),
                   ("descriptions of the codes", "cmakelang/lint/lintdb.py")],
        observe=["lint records: line, column, code, message"],
        technique="independent reference linter as the oracle of observed "
                  "records",
        note=FMT_TRUST),
    dict(
        id="C25", title="A suppression hides its codes in its scope only",
        statement="""A '# cmake-lint: disable=...' directive hides the named
        codes from its line to the end of the enclosing block (or of the line,
        when it stands in the arguments or behind a statement), however scopes
        nest and directives repeat, and hides nothing else. Unknown options
        and codes are reported (E0011, E0012).""",
        over=["inputs", "histories"],
        text="""every listfile with directives in any number and position""",
        tests="""Two snippets.""",
        files=["cmakelang/lint/basic_checker.py", "cmakelang/lint/lint_util.py"],
        mechanism=[("suppress and unsuppress", "cmakelang/lint/lint_util.py"),
                   ("check_body, check_comment",
                    "cmakelang/lint/basic_checker.py")],
        observe=["lint records with and without the directives"],
        technique="metamorphic monitor: records with directives against the "
                  "records without them and intervals of an independent reader",
        note=FMT_TRUST),
    dict(
        id="C26", title="The lint report and exit status agree with the lint",
        statement="""The report of cmake-lint has one block for each file, in
        the order of the arguments, with exactly the records of that file under
        its own configuration; the summary has the number of files and the
        totals by category; the exit status is 0 exactly if nothing was
        reported and every file could be read; -o and standard output get the
        same text.""",
        over=["inputs", "configurations", "histories"],
        text="""every set of files, configurations and output options""",
        tests="""One file with one configuration.""",
        files=["cmakelang/lint/__main__.py", "cmakelang/lint/lint_util.py"],
        mechanism=[("inner_main", "cmakelang/lint/__main__.py"),
                   ("write_summary, writeout", "cmakelang/lint/lint_util.py")],
        observe=["report", "exit status"],
        technique="monitor of real runs: report and exit status against the "
                  "records of each file alone",
        note=CLI_TRUST),
    dict(
        id="C27", title="Formatted files have no lint about their layout",
        statement="""cmake-lint with the same configuration finds nothing about
        layout in what cmake-format writes: no trailing white space, no wrong
        line ends or indentation characters, no missing final newline, no bad
        indentation, no excess blank lines, one statement per line, and no line
        too long if the layout was reported as valid; except in multi-line
        strings, brackets and off/on sections.""",
        over=["inputs", "configurations"],
        text="""every listfile under every configuration (indentation: without
        comments behind a statement)""",
        tests="""No test runs the linter on formatted text.""",
        files=[FMT, MAIN, "cmakelang/lint/basic_checker.py"],
        mechanism=[("write_tree", FMT),
                   ("checks of style", "cmakelang/lint/basic_checker.py")],
        observe=["lint records of formatted text"],
        technique="composition monitor: the linter as the oracle of the "
                  "formatter's output",
        note=FMT_TRUST),
    dict(
        id="C09", title="Sorting moves what was asked for and nothing else",
        statement="""With autosort on, the arguments of a list that the command
        sorts inherently (sources of add_library and add_executable), that a
        command specification calls sortable, or that is annotated as sortable,
        are in case-insensitive lexicographic order, equal spellings in their
        original order, each with its trailing comment. Lists annotated as
        unsortable, all other arguments, and everything when autosort is off
        keep their order.""",
        over=["inputs", "configurations"],
        text="""every list of arguments in every command, every documented form
        of the annotation, autosort on and off""",
        tests="""A handful of lists; which arguments move depends on the
        grammar of each command, the position of the annotation, and ties.""",
        files=[FMT, "cmakelang/parse/argument_nodes.py",
               "cmakelang/parse/funs"],
        mechanism=[("sort_arguments", FMT),
                   ("annotations of positional groups",
                    "cmakelang/parse/argument_nodes.py"),
                   ("inherently sortable lists",
                    "cmakelang/parse/funs/add_library.py")],
        observe=["return value of the formatter"],
        technique="monitor: order of the arguments of the real output against "
                  "the order computed from a description of the list",
        note=FMT_TRUST),
    dict(
        id="C14", title="Protected comment text stays, and markup is honoured",
        statement="""Comment text that the user protects is preserved line for
        line: between fences, in comments that match literal_comment_pattern,
        in the first comment (first_comment_is_literal or a hashbang), in
        bracket comments, and everywhere with enable_markup off. Elsewhere
        paragraphs are filled to the line width; rulers, notes and list items
        keep lines of their own; lists keep their items and nesting and get
        aligned, consecutive numbers or the configured bullet; and a comment
        that matches explicit_trailing_pattern begins on the line of the
        argument or statement in front of it, if it has room there.""",
        over=["inputs", "configurations"],
        text="""every comment built from any sequence of markup items, at any
        depth and between any arguments, under every markup option""",
        tests="""Snippets with one or two items; items interact with what
        precedes them, and comments in argument lists go through the parser of
        each command.""",
        files=["cmakelang/markup.py", FMT, "cmakelang/parse/simple_nodes.py"],
        mechanism=[("parse, format_items", "cmakelang/markup.py"),
                   ("format_comment_lines", FMT),
                   ("CommentNode.consume", "cmakelang/parse/simple_nodes.py")],
        observe=["comment lines of the formatted text"],
        technique="model-based monitor: comment lines of the real output "
                  "against an independent renderer of the description",
        note=FMT_TRUST),
    dict(
        id="C31", title="Blocks are indented by depth; statements stand alone",
        statement="""Every statement and comment of a block is indented by one
        tab size per level of nesting, and the opening, middle and closing
        commands of the block stand in the column of the block. How a statement
        or comment is formatted depends on nothing but itself, the
        configuration and the room that its indentation leaves; statements
        around it do not matter. The layout of a file is valid exactly if
        that of each of its statements is.""",
        over=["inputs", "configurations"],
        text="""every listfile with blocks of any kind nested to any depth,
        under every configuration""",
        tests="""The tests have one level of nesting, and do not compare a
        statement in a block with the same statement elsewhere.""",
        files=[FMT, "cmakelang/parse/body_nodes.py"],
        mechanism=[("BodyNode, FlowControlNode", FMT),
                   ("get_pathstr for always_wrap", FMT)],
        observe=["return value of the formatter", "validity of the layout"],
        technique="compositional monitor: every logical line is formatted "
                  "alone in the reduced width, and the pieces are compared "
                  "with the whole byte for byte",
        note=FMT_TRUST + """ Strings that go over several lines are compared
        in the same nesting instead, because their lines are not indented."""),
    dict(
        id="C32", title="Blank lines and the line structure are kept",
        statement="""Between two statements or comments the output has one
        empty line if the input has one or more there, and none otherwise
        (an empty block has one); there are none at the begin and end of the
        file, which ends with one newline. Every statement begins a line, and
        there are no empty lines in argument lists. Strings, brackets,
        comments and switched-off sections keep theirs.""",
        over=["inputs", "configurations"],
        text="""every listfile with any number of empty lines, with and without
        blanks on them, at any place""",
        tests="""Snippets with a single empty line between two statements.""",
        files=[FMT, "cmakelang/parse/body_nodes.py",
               "cmakelang/parse/simple_nodes.py"],
        mechanism=[("whitespace nodes", "cmakelang/parse/simple_nodes.py"),
                   ("create_box_tree, layout of bodies", FMT)],
        observe=["return value of the formatter"],
        technique="monitor that locates the empty lines of input and output "
                  "among the commands and words of comments",
        note=FMT_TRUST),
    dict(
        id="C33", title="The wrapping options do what they say",
        statement="""A statement that fits on one line and exceeds no limit is
        on one line. Otherwise it is filled behind its parenthesis, else below
        the command, else has one argument per line, whichever is the first
        that the line width, max_pargs_hwrap, max_subgroups_hwrap,
        max_lines_hwrap, min_prefix_chars, max_prefix_chars and always_wrap
        admit. The closing parenthesis dangles if and only if dangle_parens
        asks for it or it has no room, in the column that dangle_align names,
        and there is a blank in front of the opening parenthesis exactly if
        the option for its kind of command says so. A command line (a group
        tagged "cmdline" by a specification, override_spec or vartags) is
        filled and limited by max_rows_cmdline only; limits in the
        specification of a command replace the global ones for it alone.""",
        over=["inputs", "configurations"],
        text="""every list of arguments, every combination of the wrapping
        options, at any depth""",
        tests="""Some options have one snippet each, others none; each
        threshold has its own border cases.""",
        files=[FMT, "cmakelang/configuration.py"],
        mechanism=[("StatementNode._reflow", FMT),
                   ("PargGroupNode._reflow", FMT),
                   ("ArgGroupNode._reflow", FMT), ("need_paren_space", FMT)],
        observe=["lines of the output", "validity of the layout"],
        technique="reference model of the layout for commands with one group "
                  "of arguments, compared byte for byte; output monitors for "
                  "commands with keywords",
        note=FMT_TRUST + """ For commands with keywords the monitor states
        necessary conditions, not the exact layout."""),
    dict(
        id="C30", title="ctest-to reports exactly the tests of a build directory",
        statement="""For every tree of CTestTestfile.cmake files as cmake
        writes them, the JSON and the XML output contain each test exactly
        once, with its name, its directory, its argument vector and its
        properties, with the values that ctest itself sees (quoted, unquoted
        and bracket arguments, escape sequences, comments). Private properties
        are left out, labels are split, and the timeout is a number.""",
        over=["inputs"],
        text="""every tree of test files, with any names, arguments and
        properties, in any spelling of the arguments""",
        tests="""There are no tests of ctest-to.""",
        files=["cmakelang/ctest_to.py", "cmakelang/lex.py",
               "cmakelang/parse/statement_node.py"],
        mechanism=[("ParseContext, get_value", "cmakelang/ctest_to.py")],
        observe=["standard output", "exit status"],
        technique="generated build directories with known content; the output "
                  "of the real main() is compared with it, and the real ctest "
                  "checks the monitor's own view in a sample",
        note="""Trusts json and ElementTree of the standard library. Values with
        variable references and conditional tests (multi-configuration
        generators) are not generated."""),
    dict(
        id="C28", title="cmake-annotate marks the listfile up without changing it",
        statement="""The HTML of cmake-annotate consists of properly nested
        spans whose text, unescaped, is the listfile (without its byte-order
        mark). Each token has a span with the class of its kind (comment,
        string, bracket, number, command name, parenthesis), the other spans
        are the nodes of the parse tree under the given configuration, and
        page and iframe embed this markup in one document. Standard input,
        output files and standard output give the same, and no output file is
        touched if the input is refused.""",
        over=["inputs", "configurations"],
        text="""every valid listfile, with any characters that mean something
        in HTML, every output format, every way to call the tool""",
        tests="""There are no tests of cmake-annotate.""",
        files=["cmakelang/annotate.py", "cmakelang/render.py",
               "cmakelang/templates/layout.html.tpl"],
        mechanism=[("dump_html, get_html", "cmakelang/render.py"),
                   ("annotate_file, main", "cmakelang/annotate.py")],
        observe=["standard output", "output file", "exit status"],
        technique="the output is read with an HTML parser; text, classes and "
                  "nesting are compared with the source, an independent lexer "
                  "and the parse tree",
        note="""Trusts html.parser of the standard library. Texts with single
        quoted strings are left out (C01-single-quoted-text)."""),
    dict(
        id="C29", title="genparsers reports the signature of each function",
        statement="""genparsers reports every function and macro definition
        of its inputs whose name has no leading underscore, the later one of
        two with the same name, with its number of positional arguments, the
        flags, one-value and multi-value keywords of its (own, first)
        cmake_parse_arguments() call, resolved through the variables that were
        set before, and its spelling if that is in mixed case. JSON, YAML and
        Python output are the same data, and given to cmake-format as
        additional_commands, exactly these keywords are keywords.""",
        over=["programs", "configurations"],
        text="""every listfile with definitions, nested in blocks or in each
        other, however their keyword lists are spelled""",
        tests="""There are no tests of genparsers.""",
        files=["cmakelang/genparsers.py",
               "cmakelang/parse/additional_nodes.py"],
        mechanism=[("process_defn_body, replace_varrefs",
                    "cmakelang/genparsers.py"),
                   ("get_funtree", "cmakelang/parse/funs/__init__.py")],
        observe=["standard output", "output file", "exit status",
                 "case of the keywords of a formatted call"],
        technique="generated definitions with known signatures; the output of "
                  "the real main() is compared with them and used as "
                  "configuration of the real formatter",
        note="""list(), unset(), cache variables and bracket arguments in the
        computation of keyword lists are not generated (the tool documents
        that it does not interpret list())."""),
    dict(
        id="C35", title="The editor extension formats as its settings say",
        statement="""Formatting a cmake document in the editor runs the
        configured program exactly once: with the configured arguments, "--"
        unless they end with it, and "-"; in the configured directory or that
        of the document; in the configured environment, merged with that of
        the editor unless told otherwise, path lists first; and with the text
        of the document as input. The variables workspaceRoot,
        workspaceFolder, cwd and env.NAME in arguments and directory stand
        for their values, whatever characters these have. The whole document,
        of any size, becomes the output of the program; if it fails, the
        document stays as it is and the failure is shown.""",
        over=["inputs", "configurations", "fault_sequences"],
        text="""every document, workspace, environment and combination of
        settings of the extension, and every answer of the program""",
        tests="""There are no tests of the extension.""",
        files=["cmakelang/vscode_extension/src/extension.ts",
               "cmakelang/vscode_extension/package.json"],
        mechanism=[("varSub, activate",
                    "cmakelang/vscode_extension/src/extension.ts")],
        observe=["arguments, directory, environment and input of the process",
                 "edits, messages and errors of the provider"],
        technique="the transpiled extension runs in a stand-in for the editor "
                  "and calls a recording program, or the real cmake-format; "
                  "both sides are compared with the meaning of the settings",
        note="""Trusts the stand-in (vlib/vscode_host.js) to behave as the
        editor does. Directories that do not exist, a verbatim environment
        without entries and an active editor in another workspace folder than
        the document are not generated."""),
    dict(
        id="C36", title="Wrong arguments of builtin commands are reported",
        statement="""cmake-lint reports missing, superfluous and repeated
        arguments of builtin commands (E1120, E1121, E1122, E1125, C0113),
        selectors that are unknown or hidden in a variable (E1126, C0114),
        deprecated forms (W0104), references to builtin variables that lack a
        brace (W0106) and statements that share a line (C0321), each at its
        argument, and reports none of these for a call in a documented form,
        whatever its layout, comments, case and the statements around it.""",
        over=["inputs", "programs"],
        text="""every call of list, file, cmake_policy, set, build_command,
        add_custom_command, add_custom_target, break and the like, and the
        documented forms of some 300 builtin commands and modules""",
        tests="""The tests have one or two calls per code.""",
        files=["cmakelang/lint/basic_checker.py", "cmakelang/parse/funs/set.py",
               "cmakelang/parse/funs/add_xxx.py", "cmakelang/parse/funs/file.py",
               "cmakelang/parse/funs/list.py", "cmakelang/parse/funs/break.py",
               "cmakelang/parse/funs/miscellaneous.py"],
        mechanism=[("LintChecker.check_arggroup, check_tokens, check_body",
                    "cmakelang/lint/basic_checker.py"),
                   ("parse_add_custom_command, parse_add_custom_target",
                    "cmakelang/parse/funs/add_xxx.py")],
        observe=["bag of (code, position, name) of the real linter"],
        technique="records compared with those derived from the signatures by "
                  "an independent reading; documented forms must have none",
        note="""A keyword without any argument, sub-commands with keywords of
        their own and calls of which the arguments come from a variable are
        left open."""),
]
