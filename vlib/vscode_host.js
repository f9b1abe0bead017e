// Runs the editor extension, transpiled from its source, in a stand-in for the
// editor. Reads one JSON case per line and writes one JSON report per line.
'use strict';
const fs = require('fs');
const path = require('path');
const Module = require('module');
const readline = require('readline');

const root = process.argv[2];
const modules = process.argv[3];
const ts = require(path.join(modules, 'typescript'));

let state = null;

class Position {
  constructor(line, character) { this.line = line; this.character = character; }
}
class Range {
  constructor(a, b, c, d) {
    if (a instanceof Position) { this.start = a; this.end = b; }
    else { this.start = new Position(a, b); this.end = new Position(c, d); }
  }
}
class TextEdit {
  constructor(range, newText) { this.range = range; this.newText = newText; }
  static replace(range, text) { return new TextEdit(range, text); }
  static insert(pos, text) { return new TextEdit(new Range(pos, pos), text); }
  static delete(range) { return new TextEdit(range, ''); }
}
class Uri {
  constructor(p) { this.scheme = 'file'; this.path = p; this.fsPath = p; }
  static file(p) { return new Uri(p); }
  toString() { return 'file://' + this.path; }
}

const manifest = JSON.parse(
  fs.readFileSync(path.join(root, 'package.json'), 'utf-8'));
const contributed = manifest.contributes.configuration.properties;

function setting(section, key, dflt) {
  const full = section ? section + '.' + key : key;
  if (full in state.settings) { return state.settings[full]; }
  if (full in contributed && contributed[full].default !== undefined) {
    return JSON.parse(JSON.stringify(contributed[full].default));
  }
  return dflt;
}

function folderOf(uri) {
  let best;
  for (const f of state.folders || []) {
    const base = f.uri.fsPath;
    if (uri.fsPath === base || uri.fsPath.startsWith(base + '/')) {
      if (!best || base.length > best.uri.fsPath.length) { best = f; }
    }
  }
  return best;
}

function note(kind) {
  return (msg) => {
    state.messages.push([kind, String(msg)]);
    return Promise.resolve(undefined);
  };
}

const vscode = {
  Position, Range, TextEdit, Uri,
  EndOfLine: { LF: 1, CRLF: 2 },
  window: {
    get activeTextEditor() { return state.editor; },
    get visibleTextEditors() { return state.editor ? [state.editor] : []; },
    showErrorMessage: note('error'),
    showWarningMessage: note('warning'),
    showInformationMessage: note('info'),
    createOutputChannel() {
      return { appendLine() {}, append() {}, show() {}, dispose() {} };
    },
  },
  workspace: {
    get workspaceFolders() { return state.folders; },
    get rootPath() { return state.folders && state.folders[0].uri.fsPath; },
    getWorkspaceFolder: folderOf,
    getConfiguration(section) {
      return {
        get(key, dflt) { return setting(section, key, dflt); },
        has(key) { return setting(section, key, undefined) !== undefined; },
      };
    },
  },
  languages: {
    registerDocumentFormattingEditProvider(selector, provider) {
      state.providers.push({ selector, provider });
      return { dispose() {} };
    },
  },
};

const original = Module._load;
Module._load = function (request, ...rest) {
  return request === 'vscode' ? vscode : original.call(this, request, ...rest);
};

const config = ts.readConfigFile(
  path.join(root, 'tsconfig.json'), ts.sys.readFile).config || {};
const options = ts.convertCompilerOptionsFromJson(
  config.compilerOptions || {}, root).options;
options.module = ts.ModuleKind.CommonJS;
require.extensions['.ts'] = (mod, filename) => {
  const out = ts.transpileModule(fs.readFileSync(filename, 'utf-8'),
    { compilerOptions: options, fileName: filename });
  mod._compile(out.outputText, filename);
};

// the file that the manifest names, in the source tree
const entry = path.join(
  root, path.normalize(manifest.main).replace(/^out/, 'src'));
console.log = () => {};

function makeDocument(text, file) {
  // the editor shows the lines without their ends
  const lines = text.split(/\r\n|\r|\n/);
  const starts = [];
  const finder = /\r\n|\r|\n/g;
  starts.push(0);
  for (let m = finder.exec(text); m; m = finder.exec(text)) {
    starts.push(m.index + m[0].length);
  }
  const doc = {
    uri: new Uri(file), fileName: file, languageId: 'cmake', version: 1,
    isDirty: true, isUntitled: false, isClosed: false,
    eol: text.includes('\r\n') ? 2 : 1,
    lineCount: lines.length,
    getText(range) {
      return range === undefined ? text
        : text.slice(doc.offsetAt(range.start), doc.offsetAt(range.end));
    },
    lineAt(n) {
      const num = typeof n === 'number' ? n : n.line;
      if (num < 0 || num >= lines.length) {
        throw new Error('Illegal value for `line`');
      }
      const range = new Range(num, 0, num, lines[num].length);
      return { lineNumber: num, text: lines[num], range,
               rangeIncludingLineBreak: range };
    },
    offsetAt(pos) {
      const num = Math.min(pos.line, lines.length - 1);
      if (pos.line > num) { return text.length; }
      return starts[num] + Math.min(pos.character, lines[num].length);
    },
    positionAt(off) {
      let num = 0;
      while (num + 1 < starts.length && starts[num + 1] <= off) { num++; }
      return new Position(num, Math.min(off - starts[num], lines[num].length));
    },
    validateRange(r) { return r; },
  };
  return doc;
}

function apply(doc, edits) {
  let text = doc.getText();
  const spans = edits.map((e) => [doc.offsetAt(e.range.start),
                                  doc.offsetAt(e.range.end), e.newText]);
  spans.sort((a, b) => b[0] - a[0]);
  for (const [a, b, t] of spans) {
    text = text.slice(0, a) + t + text.slice(b);
  }
  return text;
}

async function run(job) {
  for (const key of Object.keys(process.env)) { delete process.env[key]; }
  Object.assign(process.env, job.env);
  process.chdir(job.cwd);
  state = { settings: job.settings, messages: [], providers: [] };
  if (job.folders) {
    state.folders = job.folders.map((p, index) => ({
      uri: new Uri(p), name: path.basename(p), index }));
  }
  const doc = makeDocument(job.text, job.file);
  if (job.editor) {
    state.editor = { document: job.editor === job.file
      ? doc : makeDocument('', job.editor) };
  }
  delete require.cache[entry];
  const extension = require(entry);
  const context = { subscriptions: [], extensionPath: root };
  await extension.activate(context);
  const report = {
    selectors: state.providers.map((p) => p.selector),
    subscriptions: context.subscriptions.length,
  };
  if (state.providers.length === 1) {
    try {
      const edits = await state.providers[0].provider
        .provideDocumentFormattingEdits(
          doc, { tabSize: 4, insertSpaces: true },
          { isCancellationRequested: false,
            onCancellationRequested() { return { dispose() {} }; } });
      report.edits = (edits || []).length;
      report.text = apply(doc, edits || []);
    } catch (ex) {
      report.error = String(ex && ex.message || ex);
    }
  }
  report.messages = state.messages;
  if (extension.deactivate) { await extension.deactivate(); }
  return report;
}

(async () => {
  const reader = readline.createInterface({ input: process.stdin });
  for await (const line of reader) {
    let out;
    try {
      out = await run(JSON.parse(line));
    } catch (ex) {
      out = { crash: String(ex && ex.stack || ex) };
    }
    const data = Buffer.from(JSON.stringify(out) + '\n', 'utf-8');
    for (let at = 0; at < data.length;) { at += fs.writeSync(1, data, at); }
  }
})();
