// What a daemon does towards one editor, written down from the protocol: it keeps the text of
// each open file, lets others change it, and takes edits which are based on an earlier text.
// Texts are arrays of characters (code points).

export const chars = (t) => Array.from(t)

// An operation is a list of [n] (keep), [-n] (delete) and [0, characters] (insert).
const keep = (op, n) => {
    if (n <= 0) return
    const l = op[op.length - 1]
    if (l && l[0] > 0) l[0] += n
    else op.push([n])
}
const ins = (op, c) => {
    if (c.length === 0) return
    const l = op[op.length - 1]
    if (l && l[0] === 0) l[1] = l[1].concat(c)
    else if (l && l[0] < 0) {
        // Insertions come before deletions.
        const d = op.pop()
        ins(op, c)
        op.push(d)
    } else op.push([0, c])
}
const del = (op, n) => {
    if (n <= 0) return
    const l = op[op.length - 1]
    if (l && l[0] < 0) l[0] -= n
    else op.push([-n])
}

export function apply(op, text) {
    const out = []
    let p = 0
    for (const o of op) {
        if (o[0] > 0) {
            for (let i = 0; i < o[0]; i++) out.push(text[p++])
        } else if (o[0] < 0) p -= o[0]
        else out.push(...o[1])
    }
    while (p < text.length) out.push(text[p++])
    if (p > text.length) throw new Error("operation is longer than the text")
    return out
}

// a and b start from the same text; returns [a', b'] with b' after a = a' after b.
export function transform(a, b) {
    const x = a.map((o) => o.slice())
    const y = b.map((o) => o.slice())
    const a2 = []
    const b2 = []
    let i = 0
    let j = 0
    const big = 1e9
    let o = x[i++]
    let q = y[j++]
    while (o || q) {
        if (o && o[0] === 0) {
            ins(a2, o[1])
            keep(b2, o[1].length)
            o = x[i++]
            continue
        }
        if (q && q[0] === 0) {
            keep(a2, q[1].length)
            ins(b2, q[1])
            q = y[j++]
            continue
        }
        // Whatever is not mentioned at the end is kept.
        const m = o ? o[0] : big
        const n = q ? q[0] : big
        const k = Math.min(Math.abs(m), Math.abs(n))
        if (m > 0 && n > 0) {
            keep(a2, k)
            keep(b2, k)
        } else if (m < 0 && n > 0) del(a2, k)
        else if (m > 0 && n < 0) del(b2, k)
        if (o) {
            o = [m > 0 ? m - k : m + k]
            if (o[0] === 0) o = x[i++]
        }
        if (q) {
            q = [n > 0 ? n - k : n + k]
            if (q[0] === 0) q = y[j++]
        }
    }
    return [a2, b2]
}

export function position(offset, text) {
    let line = 0
    let start = 0
    for (let i = 0; i < offset; i++) {
        if (text[i] === "\n") {
            line++
            start = i + 1
        }
    }
    return {line, character: offset - start}
}

// undefined if there is no such place.
export function offset(pos, text) {
    if (!Number.isInteger(pos?.line) || !Number.isInteger(pos?.character) || pos.line < 0 || pos.character < 0) return undefined
    let line = 0
    let i = 0
    while (line < pos.line) {
        while (i < text.length && text[i] !== "\n") i++
        if (i >= text.length) return undefined
        i++
        line++
    }
    let end = i
    while (end < text.length && text[end] !== "\n") end++
    return pos.character <= end - i ? i + pos.character : undefined
}

export function operation(from, to, inserted) {
    const op = []
    keep(op, from)
    ins(op, inserted)
    del(op, to - from)
    return op
}

// Several replacements at once, sorted and apart from each other, all relative to the same text.
export function operations(list) {
    const op = []
    let p = 0
    for (const [from, to, inserted] of list) {
        keep(op, from - p)
        ins(op, inserted)
        del(op, to - from)
        p = to
    }
    return op
}

function deltaFor(op, text) {
    const out = []
    let p = 0
    for (const o of op) {
        if (o[0] > 0) p += o[0]
        else if (o[0] < 0) {
            out.push({range: {start: position(p, text), end: position(p - o[0], text)}, replacement: ""})
            p -= o[0]
        } else out.push({range: {start: position(p, text), end: position(p, text)}, replacement: o[1].join("")})
    }
    return out
}

export class OpenFile {
    constructor(text) {
        this.current = text
        this.confirmed = text
        this.queue = []
        this.daemonRevision = 0
        this.editorRevision = 0
    }

    // Somebody else changes the text. Returns what the editor is told.
    change(op) {
        const delta = deltaFor(op, this.current)
        this.queue.push(op)
        this.daemonRevision++
        this.current = apply(op, this.current)
        return {revision: this.editorRevision, delta}
    }

    // The editor changes the text. Returns what it is told, or why its edit makes no sense.
    edit(revision, delta) {
        if (!Number.isInteger(revision) || revision < 0) return `the revision is ${revision}`
        const unseen = this.daemonRevision - revision
        if (unseen < 0) return `revision ${revision} does not exist yet`
        const seen = this.queue.length - unseen
        if (seen < 0) return `revision ${revision} was left behind by an earlier edit`
        if (!Array.isArray(delta) || delta.length > 1) return `an edit has ${delta?.length} parts`
        let text = this.confirmed
        for (const o of this.queue.slice(0, seen)) text = apply(o, text)
        let op = []
        if (delta.length === 1) {
            const from = offset(delta[0].range?.start, text)
            const to = offset(delta[0].range?.end, text)
            if (from === undefined || to === undefined || to < from || typeof delta[0].replacement !== "string") {
                return `there is no ${JSON.stringify(delta[0].range)} in ${JSON.stringify(text.join(""))}`
            }
            op = operation(from, to, chars(delta[0].replacement))
        }
        this.queue.splice(0, seen)
        this.editorRevision++
        this.confirmed = apply(op, text)
        const queue = []
        for (const q of this.queue) {
            const [o2, q2] = transform(op, q)
            queue.push(q2)
            op = o2
        }
        this.queue = queue
        this.current = apply(op, this.current)
        const out = []
        text = this.confirmed
        for (const q of this.queue) {
            out.push({revision: this.editorRevision, delta: deltaFor(q, text)})
            text = apply(q, text)
        }
        return out
    }
}
