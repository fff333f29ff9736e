// A stand-in for VS Code: the main process with the real documents, the extension host with
// copies of them, and messages between the two which arrive when the scheduler says so.

export class Position {
    constructor(line, character) {
        if (line < 0 || character < 0) throw new Error("illegal argument")
        this.line = line
        this.character = character
    }
    compareTo(o) {
        return this.line - o.line || this.character - o.character
    }
    isEqual(o) {
        return this.compareTo(o) === 0
    }
    isBefore(o) {
        return this.compareTo(o) < 0
    }
    isBeforeOrEqual(o) {
        return this.compareTo(o) <= 0
    }
    isAfter(o) {
        return this.compareTo(o) > 0
    }
    isAfterOrEqual(o) {
        return this.compareTo(o) >= 0
    }
    translate(a = 0, b = 0) {
        return typeof a === "object"
            ? new Position(this.line + (a.lineDelta ?? 0), this.character + (a.characterDelta ?? 0))
            : new Position(this.line + a, this.character + b)
    }
    with(a = this.line, b = this.character) {
        return typeof a === "object" ? new Position(a.line ?? this.line, a.character ?? this.character) : new Position(a, b)
    }
}

export class Range {
    constructor(a, b, c, d) {
        let start = typeof a === "number" ? new Position(a, b) : a
        let end = typeof a === "number" ? new Position(c, d) : b
        if (end.compareTo(start) < 0) [start, end] = [end, start]
        this.start = start
        this.end = end
    }
    get isEmpty() {
        return this.start.isEqual(this.end)
    }
    get isSingleLine() {
        return this.start.line === this.end.line
    }
    isEqual(o) {
        return this.start.isEqual(o.start) && this.end.isEqual(o.end)
    }
    contains(x) {
        return x instanceof Range
            ? this.contains(x.start) && this.contains(x.end)
            : this.start.compareTo(x) <= 0 && x.compareTo(this.end) <= 0
    }
    intersection(o) {
        const start = this.start.isAfter(o.start) ? this.start : o.start
        const end = this.end.isBefore(o.end) ? this.end : o.end
        return start.isAfter(end) ? undefined : new Range(start, end)
    }
    union(o) {
        return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isAfter(o.end) ? this.end : o.end)
    }
    with(a = this.start, b = this.end) {
        return a instanceof Position ? new Range(a, b) : new Range(a.start ?? this.start, a.end ?? this.end)
    }
}

export class Selection extends Range {
    constructor(a, b, c, d) {
        super(a, b, c, d)
        this.anchor = typeof a === "number" ? new Position(a, b) : a
        this.active = typeof a === "number" ? new Position(c, d) : b
    }
    get isReversed() {
        return this.anchor.isAfter(this.active)
    }
}

export class TextEdit {
    constructor(range, newText) {
        this.range = range
        this.newText = newText
    }
    static replace(range, newText) {
        return new TextEdit(range, newText)
    }
    static insert(position, newText) {
        return new TextEdit(new Range(position, position), newText)
    }
    static delete(range) {
        return new TextEdit(range, "")
    }
}

export class Uri {
    constructor(path) {
        this.scheme = "file"
        this.authority = ""
        this.path = path
        this.query = ""
        this.fragment = ""
    }
    static file(path) {
        return new Uri(path)
    }
    static parse(text) {
        return new Uri(decodeURIComponent(text.replace(/^file:\/\//, "")))
    }
    get fsPath() {
        return this.path
    }
    toString() {
        return "file://" + this.path.split("/").map(encodeURIComponent).join("/")
    }
}

export class WorkspaceEdit {
    constructor() {
        this.list = []
    }
    of(uri) {
        let e = this.list.find((x) => x[0].toString() === uri.toString())
        if (!e) this.list.push((e = [uri, []]))
        return e[1]
    }
    set(uri, edits) {
        this.list = this.list.filter((x) => x[0].toString() !== uri.toString())
        this.of(uri).push(...(edits ?? []))
    }
    replace(uri, range, text) {
        this.of(uri).push(new TextEdit(range, text))
    }
    insert(uri, position, text) {
        this.of(uri).push(TextEdit.insert(position, text))
    }
    delete(uri, range) {
        this.of(uri).push(TextEdit.delete(range))
    }
    has(uri) {
        return this.list.some((x) => x[0].toString() === uri.toString())
    }
    get(uri) {
        return this.list.find((x) => x[0].toString() === uri.toString())?.[1] ?? []
    }
    get size() {
        return this.list.length
    }
    entries() {
        return this.list
    }
}

export function offsetIn(text, pos) {
    const lines = text.split("\n")
    let o = 0
    for (let i = 0; i < pos.line && i < lines.length; i++) o += lines[i].length + 1
    if (pos.line >= lines.length) return text.length
    return o + Math.min(pos.character, lines[pos.line].length)
}

export function positionIn(text, offset) {
    const before = text.slice(0, offset)
    const line = before.split("\n").length - 1
    return new Position(line, offset - (before.lastIndexOf("\n") + 1))
}

// All ranges refer to the text before the change; sorted from the end to the beginning.
export function change(text, changes) {
    for (const c of changes) {
        const a = offsetIn(text, c.range.start)
        const b = offsetIn(text, c.range.end)
        text = text.slice(0, a) + c.text + text.slice(b)
    }
    return text
}

// The copy of a document in the extension host.
class TextDocument {
    constructor(code, path, text) {
        this.code = code
        this.uri = Uri.file(path)
        this.fileName = path
        this.text = text
        this.version = 1
        this.isDirty = false
        this.isClosed = false
        this.isUntitled = false
        this.languageId = "plaintext"
        this.eol = 1
    }
    get lineCount() {
        return this.text.split("\n").length
    }
    lineAt(x) {
        const line = typeof x === "number" ? x : x.line
        const lines = this.text.split("\n")
        if (!Number.isInteger(line) || line < 0 || line >= lines.length) throw new Error("Illegal value for `line`")
        const text = lines[line]
        const range = new Range(line, 0, line, text.length)
        const last = line + 1 >= lines.length
        return {
            lineNumber: line,
            text,
            range,
            rangeIncludingLineBreak: last ? range : new Range(line, 0, line + 1, 0),
            firstNonWhitespaceCharacterIndex: /^\s*/.exec(text)[0].length,
            isEmptyOrWhitespace: text.trim() === "",
        }
    }
    getText(range) {
        if (!range) return this.text
        return this.text.slice(this.offsetAt(range.start), this.offsetAt(range.end))
    }
    offsetAt(p) {
        return offsetIn(this.text, p)
    }
    positionAt(o) {
        return positionIn(this.text, Math.max(0, Math.min(o, this.text.length)))
    }
    validatePosition(p) {
        return positionIn(this.text, offsetIn(this.text, p))
    }
    validateRange(r) {
        return new Range(this.validatePosition(r.start), this.validatePosition(r.end))
    }
    save() {
        return new Promise((done) => this.code.toMain.push({kind: "save", path: this.fileName, done}))
    }
}

class Emitter {
    constructor() {
        this.list = []
        this.event = (f, self) => {
            this.list.push(self ? f.bind(self) : f)
            return {dispose: () => {}}
        }
    }
    fire(x, onError) {
        for (const f of this.list) {
            try {
                f(x)
            } catch (e) {
                onError(e)
            }
        }
    }
}

export class Code {
    constructor(note) {
        this.note = note
        // In the main process: path -> text, version.
        this.main = new Map()
        this.documents = []
        this.toMain = []
        this.toHost = []
        // Answers that the main process is not done with yet.
        this.late = []
        this.errors = []
        this.changed = new Emitter()
        this.opened = new Emitter()
        this.closed = new Emitter()
        this.selected = new Emitter()
        this.api = this.makeApi()
    }

    makeApi() {
        const code = this
        const nothing = () => ({dispose: () => {}})
        const message = (t) => {
            code.errors.push(String(t))
            return Promise.resolve(undefined)
        }
        return {
            Position,
            Range,
            Selection,
            TextEdit,
            Uri,
            WorkspaceEdit,
            EndOfLine: {LF: 1, CRLF: 2},
            DecorationRangeBehavior: {OpenOpen: 0, ClosedClosed: 1, OpenClosed: 2, ClosedOpen: 3},
            TextDocumentChangeReason: {Undo: 1, Redo: 2},
            EventEmitter: class {
                constructor() {
                    const e = new Emitter()
                    this.event = e.event
                    this.fire = (x) => e.fire(x, () => {})
                }
                dispose() {}
            },
            workspace: {
                get textDocuments() {
                    return code.documents.slice()
                },
                onDidChangeTextDocument: code.changed.event,
                onDidOpenTextDocument: code.opened.event,
                onDidCloseTextDocument: code.closed.event,
                onDidSaveTextDocument: nothing,
                onWillSaveTextDocument: nothing,
                applyEdit: (edit) => code.applyEdit(edit),
                getConfiguration: () => ({get: (_k, d) => d}),
                workspaceFolders: [{uri: Uri.file("/project"), name: "project", index: 0}],
            },
            window: {
                showErrorMessage: message,
                showWarningMessage: message,
                showInformationMessage: () => Promise.resolve(undefined),
                createTextEditorDecorationType: () => ({dispose: () => {}}),
                createOutputChannel: () => ({appendLine: () => {}, append: () => {}, show: () => {}, dispose: () => {}}),
                onDidChangeTextEditorSelection: code.selected.event,
                onDidChangeActiveTextEditor: nothing,
                onDidChangeVisibleTextEditors: nothing,
                get visibleTextEditors() {
                    return code.documents.map((document) => ({document, setDecorations: () => {}, selections: []}))
                },
                activeTextEditor: undefined,
            },
            commands: {registerCommand: nothing, executeCommand: () => Promise.resolve(undefined)},
        }
    }

    // ---------------------------------------------------------- extension host

    applyEdit(edit) {
        return new Promise((done) => {
            const parts = edit.entries().map(([uri, edits]) => {
                const d = this.documents.find((x) => x.uri.toString() === uri.toString())
                return {path: uri.path, version: d?.version, edits: edits.map((e) => ({range: e.range, text: e.newText}))}
            })
            this.toMain.push({kind: "apply", parts, done})
        })
    }

    // The next message from the main process arrives in the extension host.
    deliverToHost() {
        const m = this.toHost.shift()
        if (!m) return false
        const d = this.documents.find((x) => x.fileName === m.path)
        if (m.kind === "open") {
            const nd = new TextDocument(this, m.path, m.text)
            this.documents.push(nd)
            this.note(`host: ${m.path} is open`)
            this.opened.fire(nd, (e) => this.errors.push(String(e)))
        } else if (m.kind === "close") {
            if (d) {
                d.isClosed = true
                this.documents = this.documents.filter((x) => x !== d)
                this.note(`host: ${m.path} is closed`)
                this.closed.fire(d, (e) => this.errors.push(String(e)))
            }
        } else if (m.kind === "change") {
            d.text = m.text
            d.version = m.version
            d.isDirty = m.dirty
            this.note(`host: change event ${JSON.stringify(m.changes.map((c) => [c.range, c.text]))}`)
            this.changed.fire({document: d, contentChanges: m.changes, reason: undefined}, (e) => this.errors.push(String(e)))
        } else if (m.kind === "select") {
            const editor = {document: d, selections: m.selections, setDecorations: () => {}}
            this.selected.fire({textEditor: editor, selections: m.selections, kind: 1}, (e) => this.errors.push(String(e)))
        } else if (m.kind === "answer") {
            this.note(`host: answer ${m.value}`)
            m.done(m.value)
        }
        return true
    }

    // ------------------------------------------------------------ main process

    deliverToMain() {
        const m = this.toMain.shift()
        if (!m) return false
        if (m.kind === "save") {
            const d = this.main.get(m.path)
            if (d && d.dirty) {
                d.dirty = false
                this.toHost.push({kind: "change", path: m.path, text: d.text, version: d.version, dirty: false, changes: []})
            }
            this.late.push({kind: "answer", done: m.done, value: true})
        } else if (m.kind === "apply") {
            const fine = m.parts.every((p) => p.edits.length === 0 || this.main.get(p.path)?.version === p.version)
            this.note(`main: edit ${fine ? "is applied" : "is refused, the document has changed"}`)
            if (fine) {
                for (const p of m.parts) this.changeMain(p.path, p.edits)
            }
            this.late.push({kind: "answer", done: m.done, value: fine})
        }
        return true
    }

    // An answer gets on its way.
    release() {
        const m = this.late.shift()
        if (m) this.toHost.push(m)
        return !!m
    }

    // Edits refer to the same text. The event lists them from the end of the text to its beginning.
    changeMain(path, edits) {
        const d = this.main.get(path)
        if (!d) return false
        const valid = (p) => positionIn(d.text, offsetIn(d.text, p))
        const changes = edits
            .map((e, i) => ({range: new Range(valid(e.range.start), valid(e.range.end)), text: e.text, i}))
            .sort((a, b) => b.range.end.compareTo(a.range.end) || b.range.start.compareTo(a.range.start) || b.i - a.i)
            .filter((c) => c.text !== "" || !c.range.isEmpty)
            .map(({range, text}) => ({
                range,
                rangeOffset: offsetIn(d.text, range.start),
                rangeLength: offsetIn(d.text, range.end) - offsetIn(d.text, range.start),
                text,
            }))
        if (changes.length === 0) return false
        d.text = change(d.text, changes)
        d.version++
        d.dirty = true
        this.toHost.push({kind: "change", path, text: d.text, version: d.version, dirty: true, changes})
        return true
    }

    openMain(path, text) {
        this.main.set(path, {text, version: 1, dirty: false})
        this.toHost.push({kind: "open", path, text})
    }

    closeMain(path) {
        this.main.delete(path)
        this.toHost.push({kind: "close", path})
    }

    selectMain(path, a, b) {
        const d = this.main.get(path)
        this.toHost.push({kind: "select", path, selections: [new Selection(positionIn(d.text, a), positionIn(d.text, b))]})
    }
}
