// The VS Code plugin between a simulated VS Code and a daemon (P17).
import {createRequire} from "node:module"
import {Rng, Hash} from "./rng.mjs"
import {chars, OpenFile, operations} from "./daemon.mjs"
import {Code, positionIn, Range} from "./vscode.mjs"

const FILES = ["/project/a", "/project/sub dir/b ü"]
const ALPHABET = ["a", "b", "a", "b", "ü", "漢", "🥕", "𝒳", "\n", "\n", " "]

let bundle
export async function prepare(repo) {
    const require = createRequire("/opt/veriftools/node/node_modules/")
    const esbuild = require("esbuild")
    const r = await esbuild.build({
        entryPoints: [`${repo}/vscode-plugin/src/extension.ts`],
        bundle: true,
        write: false,
        format: "cjs",
        platform: "node",
        target: "node22",
        external: ["vscode", "vscode-jsonrpc", "vscode-jsonrpc/*", "async-mutex"],
        logLevel: "error",
    })
    bundle = new Function(
        "require", "module", "exports", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "console", "Date",
        r.outputFiles[0].text,
    )
}

export function generate(seed) {
    const g = new Rng(seed)
    const text = () => Array.from({length: g.below(12)}, () => g.pick(ALPHABET)).join("")
    const files = FILES.slice(0, g.chance(700) ? 1 : 2)
    const plan = {property: "P17", seed, scenario: "", files: files.map((f) => [f, text()]), steps: []}
    const say = (what, r = g.u32()) => plan.steps.push({do: what, r})
    const lazy = g.pick([1, 3, 8])
    const user = g.pick([2, 6, 12])
    const peer = g.pick([2, 6, 12])
    const actions = [
        ["user", user], ["peer", peer], ["to host", 8 * lazy], ["to main", 5 * lazy], ["release", 4 * lazy],
        ["to daemon", 6 * lazy], ["to plugin", 6 * lazy], ["burst", 2], ["cursor", 1], ["select", 1], ["quiet", g.pick([0, 1, 3])],
        ["reopen", g.chance(200) ? 1 : 0], ["same", g.chance(500) ? 3 : 0], ["undo", 1], ["look", 2],
    ]
    const total = actions.reduce((n, a) => n + a[1], 0)
    const n = g.range(5, g.chance(300) ? 150 : 50)
    for (let i = 0; i < n; i++) {
        let k = g.below(total)
        for (const [what, weight] of actions) {
            if (k < weight) {
                say(what)
                break
            }
            k -= weight
        }
    }
    return plan
}

// As far as the plugin is concerned: does things one after the other.
class Mutex {
    constructor() {
        this.tail = Promise.resolve()
        this.count = 0
    }
    acquire() {
        let release
        const held = new Promise((r) => (release = r))
        const mine = this.tail
        this.tail = this.tail.then(() => held)
        this.count++
        return mine.then(() => () => {
            this.count--
            release()
        })
    }
    async runExclusive(f) {
        const release = await this.acquire()
        try {
            return await f(release)
        } finally {
            release()
        }
    }
    isLocked() {
        return this.count > 0
    }
    async waitForUnlock() {
        ;(await this.acquire())()
    }
    cancel() {}
}
class Semaphore extends Mutex {}

class Daemon {
    constructor(world) {
        this.world = world
        this.files = new Map() // path -> text, or OpenFile while open
        this.inbox = []
        this.outbox = []
        this.handlers = new Map()
        this.waiting = new Map()
        this.id = 0
    }

    connection() {
        const d = this
        const name = (t) => (typeof t === "string" ? t : t.method)
        return {
            onNotification: (t, f) => {
                d.handlers.set(name(t), f)
                return {dispose: () => {}}
            },
            onRequest: () => ({dispose: () => {}}),
            onError: () => ({dispose: () => {}}),
            onClose: () => ({dispose: () => {}}),
            onDispose: () => ({dispose: () => {}}),
            sendRequest: (t, params) =>
                new Promise((ok, fail) => {
                    const id = ++d.id
                    d.waiting.set(id, [ok, fail])
                    d.inbox.push({id, method: name(t), params: JSON.parse(JSON.stringify(params))})
                }),
            sendNotification: (t, params) => {
                d.inbox.push({method: name(t), params: JSON.parse(JSON.stringify(params))})
                return Promise.resolve()
            },
            listen: () => {},
            end: () => {},
            dispose: () => {},
        }
    }

    // The daemon reads its next message.
    read() {
        const m = this.inbox.shift()
        if (!m) return false
        const path = String(m.params?.uri ?? "").replace(/^file:\/\//, "")
        const w = this.world
        const f = this.files.get(path)
        let error
        let news = []
        if (m.method === "open") {
            if (f === undefined) error = "no such file"
            else this.files.set(path, new OpenFile(f instanceof OpenFile ? f.current : f))
        } else if (m.method === "close") {
            if (f instanceof OpenFile) this.files.set(path, f.current)
            else error = "file is not open"
        } else if (m.method === "edit") {
            if (!(f instanceof OpenFile)) error = "file is not open"
            else {
                const r = f.edit(m.params.revision, m.params.delta)
                w.note(`daemon: edit ${JSON.stringify(m.params)}`)
                if (typeof r === "string") {
                    error = r
                    w.violation("impossible", `the plugin sends an edit that makes no sense: ${r}; it was ${JSON.stringify(m.params)}`)
                } else news = r
            }
        }
        if (m.id !== undefined) this.outbox.push(error ? {id: m.id, error} : {id: m.id, result: "success"})
        for (const x of news) this.outbox.push({method: "edit", params: {uri: "file://" + path, ...x}})
        return true
    }

    // The plugin reads its next message.
    write() {
        const m = this.outbox.shift()
        if (!m) return false
        if (m.id !== undefined) {
            const [ok, fail] = this.waiting.get(m.id)
            this.waiting.delete(m.id)
            if (m.error) fail(new Error(m.error))
            else ok(m.result)
        } else {
            this.world.note(`plugin: reads ${m.method} ${JSON.stringify(m.params)}`)
            this.handlers.get(m.method)?.(JSON.parse(JSON.stringify(m.params)))
        }
        return true
    }

    // Somebody else changes a file.
    change(path, list) {
        const f = this.files.get(path)
        if (!(f instanceof OpenFile)) return
        const e = f.change(operations(list))
        this.world.note(`daemon: somebody changes ${path}: ${JSON.stringify(e)}`)
        this.outbox.push({method: "edit", params: {uri: "file://" + path, ...e}})
    }
}

export async function run(plan, keep = false) {
    const hash = new Hash()
    const shape = new Hash()
    const hist = []
    const counters = {}
    const count = (k) => (counters[k] = (counters[k] ?? 0) + 1)
    const violations = []
    const world = {
        note: (t) => {
            hash.add(t)
            if (keep) hist.push(t)
        },
        violation: (kind, text) => {
            if (violations.length < 5) violations.push([kind, text])
            world.note(`!! ${kind}: ${text}`)
        },
    }
    const code = new Code(world.note)
    const daemon = new Daemon(world)
    const timers = []
    const noticeTimer = (f, ms, ...a) => timers.push(() => f(...a))
    const quietly = () => {}
    const stubs = {
        vscode: code.api,
        "async-mutex": {Mutex, Semaphore},
        child_process: {
            spawn: () => ({on: quietly, once: quietly, kill: quietly, stdout: {on: quietly}, stdin: {on: quietly, write: quietly}, stderr: {on: quietly}}),
        },
        fs: {
            existsSync: (p) => p === "/project/.ethersync" || p === "/project",
            statSync: () => ({isDirectory: () => true, isFile: () => true}),
            readFileSync: (p) => {
                const f = daemon.files.get(p)
                return f instanceof OpenFile ? f.current.join("") : (f ?? []).join("")
            },
        },
    }
    class RequestType {
        constructor(method) {
            this.method = method
        }
    }
    const rpc = {
        RequestType, RequestType0: RequestType, RequestType1: RequestType, NotificationType: RequestType, NotificationType0: RequestType,
        StreamMessageReader: class {}, StreamMessageWriter: class {},
        createMessageConnection: () => daemon.connection(),
    }
    const node = createRequire(import.meta.url)
    const req = (name) => {
        const n = name.replace(/^node:/, "")
        if (n.startsWith("vscode-jsonrpc")) return rpc
        return stubs[n] ?? node(name)
    }
    const tick = () => new Promise((r) => setImmediate(r))
    const mod = {exports: {}}
    const silent = {log: quietly, error: quietly, warn: quietly, info: quietly, debug: quietly}
    class FixedDate extends Date {
        static now() {
            return 0
        }
    }
    let failed
    const onRejection = (e) => {
        failed = e
    }
    process.on("unhandledRejection", onRejection)
    try {
        for (const [f, t] of plan.files) {
            daemon.files.set(f, chars(t))
            code.openMain(f, t)
        }
        while (code.deliverToHost());
        bundle(req, mod, mod.exports, noticeTimer, quietly, noticeTimer, quietly, noticeTimer, silent, FixedDate)
        mod.exports.activate({subscriptions: [], extensionPath: "/ext", globalState: {get: quietly, update: quietly}})
        const drain = async () => {
            for (let i = 0; i < 5000; i++) {
                await tick()
                if (timers.length) timers.shift()()
                else if (!code.deliverToHost() && !daemon.write() && !code.deliverToMain() && !code.release() && !daemon.read()) {
                    await tick()
                    if (!timers.length && !code.toHost.length && !code.toMain.length && !daemon.inbox.length && !daemon.outbox.length) return
                }
            }
            world.violation("endless", "messages go back and forth without an end")
        }
        const look = () => {
            for (const [path, f] of daemon.files) {
                if (!(f instanceof OpenFile)) continue
                const d = code.main.get(path)
                if (!d) continue
                const theirs = f.current.join("")
                if (d.text !== theirs) {
                    world.violation("out of step", `the document ${path} reads ${JSON.stringify(d.text)}, the daemon has ${JSON.stringify(theirs)}`)
                } else count("texts compared")
            }
        }
        await drain()
        let last
        let undo = []
        for (const [si, step] of plan.steps.entries()) {
            const g = new Rng(step.r)
            const path = g.pick(plan.files)[0]
            const d = code.main.get(path)
            switch (step.do) {
                case "user":
                case "same": {
                    if (!d) break
                    const n = d.text.length
                    const before = d.text
                    let edits = []
                    const snap = (o) => (o > 0 && o < n && d.text.charCodeAt(o) >= 0xdc00 && d.text.charCodeAt(o) < 0xe000 ? o - 1 : o)
                    if (step.do === "same" && last) {
                        // The user does the very same as somebody else.
                        const t = chars(d.text)
                        for (const [a, b, c] of last) {
                            if (b > t.length) continue
                            const from = t.slice(0, a).join("").length
                            const to = t.slice(0, b).join("").length
                            edits.push({range: new Range(positionIn(d.text, from), positionIn(d.text, to)), text: c.join("")})
                        }
                        count("same edit by user")
                    } else {
                        let p = 0
                        for (let k = g.chance(750) ? 1 : g.range(2, 3); k > 0 && p <= n; k--) {
                            const a = snap(g.range(p, n))
                            const b = g.chance(550) ? a : snap(Math.min(n, a + g.range(1, g.chance(200) ? n : 4)))
                            if (a < p || b < a) continue
                            const t = a !== b && g.chance(600) ? "" : Array.from({length: g.chance(800) ? 1 : g.range(1, 4)}, () => g.pick(ALPHABET)).join("")
                            edits.push({range: new Range(positionIn(d.text, a), positionIn(d.text, b)), text: t})
                            p = b + 1
                        }
                        if (edits.length > 1) count("several places at once")
                    }
                    if (code.changeMain(path, edits)) {
                        world.note(`user: changes ${path} at ${JSON.stringify(edits.map((e) => [e.range, e.text]))}`)
                        shape.add(`u${edits.length}`)
                        count("user edits")
                        undo = [path, before]
                    }
                    break
                }
                case "undo": {
                    if (!d || undo[0] !== path || d.text === undo[1]) break
                    const all = new Range(positionIn(d.text, 0), positionIn(d.text, d.text.length))
                    code.changeMain(path, [{range: all, text: undo[1]}])
                    world.note(`user: sets ${path} to ${JSON.stringify(undo[1])}`)
                    shape.add("r")
                    break
                }
                case "peer": {
                    const f = daemon.files.get(path)
                    if (!(f instanceof OpenFile)) break
                    const n = f.current.length
                    const list = []
                    let p = 0
                    for (let k = g.chance(700) ? 1 : g.range(2, 3); k > 0 && p <= n; k--) {
                        const a = g.range(p, n)
                        const b = g.chance(550) ? a : Math.min(n, a + g.range(1, g.chance(200) ? n + 1 : 4))
                        const t = a !== b && g.chance(600) ? [] : Array.from({length: g.chance(800) ? 1 : g.range(1, 4)}, () => g.pick(ALPHABET))
                        list.push([a, b, t])
                        p = b + 1
                    }
                    last = list
                    daemon.change(path, list)
                    shape.add(`p${list.length}`)
                    count("edits by others")
                    break
                }
                case "to host":
                    if (code.deliverToHost()) shape.add("h")
                    break
                case "burst":
                    // Several messages are handled before anything else gets its turn.
                    for (let k = g.range(2, 4); k > 0; k--) if (code.deliverToHost()) shape.add("H")
                    count("bursts")
                    break
                case "to main":
                    if (code.deliverToMain()) shape.add("m")
                    break
                case "release":
                    if (code.release()) shape.add("a")
                    break
                case "to daemon":
                    if (daemon.read()) shape.add("d")
                    break
                case "to plugin":
                    if (daemon.write()) shape.add("e")
                    break
                case "cursor":
                    daemon.outbox.push({
                        method: "cursor",
                        params: {userid: "x", name: "x", uri: "file://" + path, ranges: [{start: {line: g.below(4), character: g.below(6)}, end: {line: 0, character: 0}}]},
                    })
                    break
                case "select":
                    if (d) code.selectMain(path, g.range(0, d.text.length), g.range(0, d.text.length))
                    break
                case "reopen": {
                    if (!d) break
                    await drain()
                    look()
                    code.closeMain(path)
                    await drain()
                    const t = daemon.files.get(path)
                    if (t instanceof OpenFile) {
                        world.violation("not closed", `the daemon was not told that ${path} was closed`)
                        break
                    }
                    code.openMain(path, t.join(""))
                    // Nothing is typed until the daemon knows about it.
                    await drain()
                    count("reopened")
                    shape.add("o")
                    break
                }
                case "quiet":
                    await drain()
                    look()
                    shape.add("q")
                    break
            }
            await tick()
            if (violations.length) break
        }
        if (!violations.length) {
            await drain()
            look()
            // What comes after shows whether both still agree on what was counted.
            for (const [path] of plan.files) {
                const f = daemon.files.get(path)
                if (f instanceof OpenFile && !violations.length) {
                    daemon.change(path, [[f.current.length, f.current.length, ["z"]]])
                    await drain()
                    const d = code.main.get(path)
                    code.changeMain(path, [{range: new Range(positionIn(d.text, 0), positionIn(d.text, 0)), text: "y"}])
                    await drain()
                    look()
                }
            }
        }
    } finally {
        process.removeListener("unhandledRejection", onRejection)
    }
    if (failed) count("unhandled rejections")
    for (const _ of code.errors) count("messages to the user")
    return {violations, hash: hash.hex(), shape: shape.hex(), steps: plan.steps.length, counters, hist}
}

export const budget = (tier) => (tier === "thorough" ? [2_000_000, 1800] : [60_000, 150])
export const real = ["vscode-plugin/src, bundled from the working tree"]
export const stubs = [
    "VS Code: main process, extension host and the messages between them",
    "vscode-jsonrpc and async-mutex",
    "the daemon: a model of its side of the editor protocol",
]
export const assumptions = [
    "VS Code refuses an edit made for an older version of a document, reports changes from the end of the text to its beginning and in the order in which they happened",
    "nothing is typed into a document between opening it and the daemon's answer",
    "lines end with a line feed only",
]
