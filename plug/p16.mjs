// The Neovim plugin in a real Neovim, with a daemon (P16).
import {spawn} from "node:child_process"
import fs from "node:fs"
import os from "node:os"
import path from "node:path"
import {fileURLToPath} from "node:url"
import {Rng, Hash} from "./rng.mjs"
import {chars, OpenFile, operations} from "./daemon.mjs"

const here = path.dirname(fileURLToPath(import.meta.url))
const ALPHABET = ["a", "b", "a", "b", "ü", "漢", "🥕", "𝒳", "\n", "\n", " "]
const TYPED = ["a", "b", "ü", "漢", "🥕", "<CR>", "<CR>", "<BS>", "<BS>", "<Del>", "<Left>", "<C-w>", " "]

// Editing commands. {} stands for some text that is typed.
const COMMANDS = [
    "i{}<Esc>", "a{}<Esc>", "A{}<Esc>", "I{}<Esc>", "o{}<Esc>", "O{}<Esc>", "o<Esc>", "O<Esc>", "x", "X", "dd", "dd", "dj", "dk", "dG", "dgg", "D", "C{}<Esc>",
    "cc{}<Esc>", "s{}<Esc>", "yyp", "yyP", "p", "P", "J", "gJ", "rb", "r<CR>", "~", "vd", "vjd", "vlly", "Vd", "Vjd", "Vjy", "u", "u", "<C-r>", ".", ">>",
    "gUU", "ddp", "ggdG", "ggVGd", "G", "gg", "j", "k", "l", "$", "w", "G$", "i<CR><Esc>", "A<CR><Esc>", "A<CR>{}<Esc>", "I<CR><Esc>", "R{}<Esc>", "yiw", "diw", "cw{}<Esc>",
    "<C-v>jd", "<C-v>jIx<Esc>", "5x", "3dd", "2o{}<Esc>", "3ia<Esc>", "GA<CR>{}<Esc>", "Go{}<Esc>", "Gdd", "GO{}<Esc>", "ggO{}<Esc>", "vjc{}<Esc>", "vjp", "Vp", "d$", "d0", "ylp", "g~~",
]
const EX = ["%s/a/b/g", "%s/b/aa/g", "s/a/ü/", "%d", "$d", "1d", "1m$", "$m0", "1t.", "1t$", "%j", "sort", "sort!", "%s/$/x/", "%s/^/x/", "g/a/d", "v/a/d", "g/b/normal Ax", "%s/\\n//", "%s/a/\\r/g", "undo", "redo", "normal ggyyG3p", "put =['x','y']", "0put ='x'", "%retab", "left", "right 5"]

let nvim
let dir
let repo
let queue = []

function start() {
    nvim = spawn("nvim", ["--headless", "-u", "NONE", "-i", "NONE", "-n", "-l", path.join(here, "driver.lua")], {
        env: {...process.env, PLUG_REPO: repo, HOME: dir, XDG_CONFIG_HOME: dir, XDG_DATA_HOME: dir, XDG_STATE_HOME: dir, XDG_CACHE_HOME: dir, XDG_RUNTIME_DIR: dir, LC_ALL: "C.UTF-8"},
        stdio: ["pipe", "pipe", "ignore"],
        cwd: dir,
    })
    let rest = ""
    nvim.stdout.setEncoding("utf8")
    nvim.stdout.on("data", (d) => {
        rest += d
        for (let i = rest.indexOf("\n"); i >= 0; i = rest.indexOf("\n")) {
            const line = rest.slice(0, i)
            rest = rest.slice(i + 1)
            const f = queue.shift()
            try {
                f?.[0](JSON.parse(line))
            } catch (e) {
                f?.[1](new Error(`Neovim says ${line}`))
            }
        }
    })
    const me = nvim
    nvim.on("exit", (code) => {
        if (me !== nvim) return
        nvim = undefined
        for (const f of queue.splice(0)) f[1](new Error(`Neovim ended with ${code}`))
    })
}

function tell(command) {
    if (!nvim) start()
    return new Promise((ok, fail) => {
        const t = setTimeout(() => {
            nvim?.kill("SIGKILL")
        }, 20_000)
        queue.push([
            (x) => {
                clearTimeout(t)
                ok(x)
            },
            (e) => {
                clearTimeout(t)
                fail(e)
            },
        ])
        nvim.stdin.write(JSON.stringify(command) + "\n")
    })
}

// JSON with the keys in order: Lua's order is not repeatable.
const sorted = (x) => JSON.stringify(x, (_, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v))

export async function prepare(r) {
    repo = r
    dir = fs.mkdtempSync(path.join(os.tmpdir(), "plugsim-"))
    fs.mkdirSync(`${dir}/project/.ethersync`, {recursive: true})
    process.on("exit", () => fs.rmSync(dir, {recursive: true, force: true}))
    process.on("SIGTERM", () => process.exit(0))
}

function end() {
    const old = nvim
    nvim = undefined
    queue = []
    old?.kill("SIGKILL")
}

export async function finish() {
    end()
    fs.rmSync(dir, {recursive: true, force: true})
}

export function generate(seed) {
    const g = new Rng(seed)
    const text = () => Array.from({length: g.below(14)}, () => g.pick(ALPHABET)).join("") + (g.chance(500) ? "\n" : "")
    const plan = {property: "P16", seed, scenario: "", texts: Array.from({length: g.pick([1, 1, 2, 3])}, text), slow: g.chance(300), steps: []}
    const n = plan.texts.length
    const typed = () => Array.from({length: g.range(1, 4)}, () => g.pick(TYPED)).join(g.chance(200) ? "\x01" : "")
    const peers = g.pick([0, 4, 12])
    const lazy = g.pick([2, 6, 14])
    for (let k = g.range(3, g.chance(200) ? 60 : 20); k > 0; k--) {
        const x = g.below(22 + peers + 2 * lazy)
        if (x < 16) plan.steps.push({do: "keys", keys: g.pick(COMMANDS).replaceAll("{}", typed)})
        else if (x < 19) plan.steps.push({do: "ex", command: g.pick(EX)})
        else if (x < 20) plan.steps.push({do: g.pick(["quiet", "cursor", "reopen", "reopen"]), file: g.below(n), r: g.u32()})
        else if (x < 22) plan.steps.push({do: "switch", file: g.below(n)})
        else if (x < 22 + peers) plan.steps.push({do: "peer", file: g.below(n), r: g.u32()})
        else if (x < 22 + peers + lazy) plan.steps.push({do: "to daemon", r: g.range(1, 6)})
        else plan.steps.push({do: "to plugin", r: g.range(1, 4)})
    }
    return plan
}

export async function run(plan, keep = false) {
    const hash = new Hash()
    const shape = new Hash()
    const hist = []
    const counters = {}
    const count = (k) => (counters[k] = (counters[k] ?? 0) + 1)
    const violations = []
    const note = (t) => {
        hash.add(t)
        if (keep) hist.push(t)
    }
    const violation = (kind, t) => {
        if (violations.length < 5) violations.push([kind, t])
        note(`!! ${kind}: ${t}`)
    }
    const files = plan.texts.map((t, i) => {
        const path = `${dir}/project/f${i}`
        fs.writeFileSync(path, t)
        return {i, path, uri: "file://" + path, text: chars(t), open: undefined, buffer: undefined}
    })
    const paths = files.map((f) => f.path)
    const inbox = []
    const outbox = []
    const show = (t) => t.replaceAll("file://" + dir, "").replaceAll(dir, "")
    const act = async (command) => {
        const a = await tell({...command, paths})
        for (const m of Object.values(a.sent)) inbox.push(m)
        for (const f of files) f.buffer = a.texts[f.path]
        for (const e of Object.values(a.errors)) {
            note(`message: ${show(e)}`)
            count("messages to the user")
        }
        if (a.failed) violation("fails", show(a.failed).slice(0, 300))
    }
    const read = () => {
        const m = inbox.shift()
        if (!m) return false
        const f = files.find((f) => f.uri === m.params?.uri)
        let error
        let news = []
        if (!f) {
            violation("impossible", `the plugin sends ${show(sorted(m))}`)
            return true
        }
        if (m.method === "open") {
            note(`daemon: open ${f.i}`)
            f.open = new OpenFile(f.text)
        } else if (m.method === "close") {
            note(`daemon: close ${f.i}`)
            if (f.open) f.text = f.open.current
            f.open = undefined
        } else if (m.method === "edit") {
            note(`daemon: edit ${show(sorted(m.params))}`)
            const delta = Array.isArray(m.params.delta) ? m.params.delta : Object.values(m.params.delta ?? {})
            const r = f.open ? f.open.edit(m.params.revision, delta) : "the file is not open"
            if (typeof r === "string") {
                error = r
                violation("impossible", `the plugin sends an edit that makes no sense: ${show(r)}; it was ${show(sorted(m.params))}`)
            } else news = r
            count("edits by the user")
        }
        if (m.id !== undefined) outbox.push(error ? {id: m.id, error} : {id: m.id, result: "success"})
        for (const x of news) outbox.push({method: "edit", params: {uri: f.uri, ...x}})
        return true
    }
    const some = (n) => {
        const l = outbox.splice(0, n)
        for (const m of l) if (m.method === "edit") note(`plugin: reads ${show(JSON.stringify(m.params))}`)
        return l
    }
    const write = async (n) => {
        const l = some(n)
        if (l.length === 0) return false
        await act({op: "deliver", messages: l})
        return true
    }
    const drain = async () => {
        for (let i = 0; i < 500; i++) {
            if (violations.length) return
            if (!(await write(100)) && !read()) return
        }
        violation("endless", "messages go back and forth without an end")
    }
    const look = () => {
        for (const f of files) {
            if (!f.open || violations.length) continue
            const theirs = f.open.current.join("")
            if (f.buffer !== theirs) violation("out of step", `the buffer of file ${f.i} reads ${JSON.stringify(f.buffer)}, the daemon has ${JSON.stringify(theirs)}`)
            else count("texts compared")
        }
    }
    const where = () => note(`buffers ${JSON.stringify(files.map((f) => f.buffer))}`)
    // Nothing of an earlier run must be left in the editor.
    end()
    await act({op: "fresh"})
    for (const f of files) {
        note(`open ${f.i}: ${JSON.stringify(f.text.join(""))}`)
        await act({op: "open", path: f.path})
        if (!plan.slow) await drain()
    }
    await drain()
    for (const s of plan.steps) {
        const g = new Rng(s.r ?? 0)
        const f = files[s.file ?? 0]
        switch (s.do) {
            case "keys": {
                const marks = s.keys.split("\x01").length - 1
                note(`keys ${s.keys.replaceAll("\x01", "|")}`)
                const deliver = Array.from({length: marks}, () => some(2))
                await act({op: "keys", keys: s.keys, deliver})
                where()
                shape.add("k" + s.keys.replace(/[^a-zA-Z<>\x01]/g, ""))
                if (deliver.some((l) => l.length)) count("messages arriving in insert mode")
                break
            }
            case "ex":
                note(`command ${s.command}`)
                await act({op: "ex", command: s.command})
                where()
                shape.add(s.command)
                break
            case "switch":
                note(`switch to ${f.i}`)
                await act({op: "switch", path: f.path})
                shape.add("s" + f.i)
                break
            case "peer": {
                if (!f.open) break
                const n = f.open.current.length
                const list = []
                let p = 0
                for (let k = g.chance(700) ? 1 : g.range(2, 3); k > 0 && p <= n; k--) {
                    const a = g.chance(150) ? n : g.range(p, n)
                    const b = g.chance(550) ? a : Math.min(n, a + g.range(1, g.chance(200) ? n + 1 : 4))
                    const t = a !== b && g.chance(600) ? [] : Array.from({length: g.chance(800) ? 1 : g.range(1, 4)}, () => g.pick(ALPHABET))
                    list.push([a, b, t])
                    p = b + 1
                }
                const e = f.open.change(operations(list))
                note(`somebody, file ${f.i}: ${JSON.stringify(e)}`)
                outbox.push({method: "edit", params: {uri: f.uri, ...e}})
                shape.add("p" + list.length)
                count("edits by others")
                break
            }
            case "to daemon":
                for (let k = 0; k < s.r; k++) if (read()) shape.add("d")
                break
            case "to plugin":
                if (await write(s.r)) shape.add("e")
                break
            case "cursor": {
                const p = () => ({line: g.below(4), character: g.below(6)})
                outbox.push({method: "cursor", params: {userid: `u${g.below(2)}`, name: "x", uri: f.uri, ranges: Array.from({length: g.range(1, 2)}, () => ({start: p(), end: p()}))}})
                count("cursors of others")
                break
            }
            case "quiet":
                await drain()
                look()
                shape.add("q")
                break
            case "reopen":
                // Closed while messages are on their way; when all is settled, it's opened again.
                if (g.chance(500)) await drain()
                if (violations.length) break
                note(`close ${f.i}`)
                await act({op: "close", path: f.path, unload: g.chance(500)})
                await drain()
                look()
                if (violations.length) break
                fs.writeFileSync(f.path, f.text.join(""))
                note(`open ${f.i} again`)
                await act({op: "open", path: f.path})
                await drain()
                look()
                shape.add("o")
                count("files opened again")
                break
        }
        if (violations.length) break
    }
    if (!violations.length) {
        await drain()
        look()
    }
    return {violations, hash: hash.hex(), shape: shape.hex(), steps: plan.steps.length, counters, hist}
}

export const budget = (tier) => (tier === "thorough" ? [400_000, 1800] : [12_000, 150])
export const real = ["vim-plugin from the working tree, in a real Neovim 0.9.5"]
export const stubs = ["the connection (vim.lsp.rpc)", "the daemon: a model of its side of the editor protocol"]
export const assumptions = [
    "nothing is typed into a buffer between opening it and the daemon's answer",
    "lines end with a line feed only",
]
