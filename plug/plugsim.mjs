// Usage: node plugsim.mjs check --property P17 [--tier quick|thorough] [--seed N] [--runs N]
//        node plugsim.mjs run --property P17 --seed N --index N [--minimise]
//        node plugsim.mjs replay FILE
import {fork} from "node:child_process"
import fs from "node:fs"
import path from "node:path"
import {fileURLToPath} from "node:url"

const here = path.dirname(fileURLToPath(import.meta.url))
const verif = process.env.VERIF_DIR ?? path.dirname(here)
const repo = process.env.VERIF_REPO ?? "/repo"
const PAR = 8

const args = process.argv.slice(2)
const opt = (k, d) => {
    const i = args.indexOf(k)
    return i >= 0 ? args[i + 1] : d
}
const num = (k, d) => Number(opt(k, d))
const seedOf = (base, i) => base * 1_000_000 + i

async function machine(property) {
    const m = property === "P17" ? await import("./p17.mjs") : await import("./p16.mjs")
    await m.prepare(repo)
    return m
}

async function minimise(m, plan, kind, seconds) {
    const t0 = Date.now()
    let best = plan
    const fails = async (p) => (await m.run(p)).violations[0]?.[0] === kind
    for (let k = Math.ceil(best.steps.length / 2); k >= 1 && Date.now() - t0 < seconds * 1000; ) {
        let any = false
        for (let i = 0; i < best.steps.length && Date.now() - t0 < seconds * 1000; ) {
            const p = {...best, steps: [...best.steps.slice(0, i), ...best.steps.slice(i + k)]}
            if (await fails(p)) {
                best = p
                any = true
            } else i += k
        }
        if (k === 1 && !any) break
        if (!any || k > 1) k = Math.max(1, Math.floor(k / 2))
    }
    return [best, await m.run(best, true)]
}

async function worker() {
    const property = opt("--property")
    const m = await machine(property)
    const [base, from, step, runs] = [num("--seed"), num("--from"), num("--step"), num("--runs")]
    const until = Date.now() + num("--seconds") * 1000
    let batch = []
    for (let i = from; i < runs && Date.now() < until; i += step) {
        const plan = m.generate(seedOf(base, i))
        let o
        try {
            o = await m.run(plan)
        } catch (e) {
            o = {broken: String(e?.stack ?? e)}
        }
        delete o.hist
        batch.push({i, ...o})
        if (batch.length >= 50) {
            process.send(batch)
            batch = []
        }
    }
    if (batch.length) process.send(batch)
    await m.finish?.()
    process.disconnect()
}

function search(property, base, runs, seconds, onResult) {
    const kids = []
    let stop = false
    return Promise.all(
        Array.from({length: PAR}, (_, k) =>
            new Promise((done) => {
                const kid = fork(fileURLToPath(import.meta.url), [
                    "worker", "--property", property, "--seed", base, "--from", k, "--step", PAR, "--runs", runs, "--seconds", seconds,
                ].map(String))
                kids.push(kid)
                kid.on("message", (batch) => {
                    for (const r of batch) {
                        if (!onResult(r) && !stop) {
                            stop = true
                            for (const x of kids) x.kill()
                        }
                    }
                })
                kid.on("exit", (code) => done(stop ? 0 : code))
            }),
        ),
    )
}

async function check() {
    const t0 = Date.now()
    const property = opt("--property")
    const tier = opt("--tier", "quick")
    const base = num("--seed", 1)
    const m = await machine(property)
    const [dr, ds] = m.budget(tier)
    const runs = num("--runs", dr)
    const keepGoing = args.includes("--keep-going")
    const totals = {n: 0, steps: 0, shapes: new Set(), hashes: new Map(), counters: {}, samples: []}
    const kinds = new Map()
    let failure
    const broken = []
    const codes = await search(property, base, runs, num("--seconds", ds), (r) => {
        if (r.broken) {
            broken.push(r)
            return broken.length < 20
        }
        totals.n++
        totals.steps += r.steps
        totals.shapes.add(r.shape)
        totals.hashes.set(r.i, r.hash)
        for (const [k, v] of Object.entries(r.counters)) totals.counters[k] = (totals.counters[k] ?? 0) + v
        if (totals.samples.length < 5) totals.samples.push({run: r.i, hash: r.hash, steps: r.steps})
        if (r.violations.length) {
            const k = r.violations[0][0]
            kinds.set(k, [...(kinds.get(k) ?? []), r.i])
            if (!failure || r.i < failure.i) failure = r
            return keepGoing
        }
        return true
    })
    const wall = (Date.now() - t0) / 1000
    let code = 0
    if (codes.some((c) => c !== 0)) broken.push({i: -1, broken: `a search process ended with ${codes}`})
    // A sample of runs again: the same seed must give the same execution.
    let diverged = 0
    const again = [...totals.hashes.keys()].sort((a, b) => a - b).slice(0, 16)
    for (const i of again) {
        const o = await m.run(m.generate(seedOf(base, i)))
        if (o.hash !== totals.hashes.get(i)) diverged++
    }
    if (keepGoing) for (const [k, v] of kinds) console.log(`${k}: ${v.length} runs, first ${v.sort((a, b) => a - b).slice(0, 8)}`)
    let replay = ""
    let minInfo = null
    if (failure) {
        const plan = m.generate(seedOf(base, failure.i))
        const [kind, text] = failure.violations[0]
        console.log(`run ${failure.i} (seed ${plan.seed}): [${kind}] ${text}`)
        const [p, o] = args.includes("--no-minimise") ? [plan, await m.run(plan, true)] : await minimise(m, plan, kind, 60)
        fs.mkdirSync(`${verif}/replays`, {recursive: true})
        replay = `${verif}/replays/${property}-${plan.seed}.json`
        const first = o.violations[0] ?? [kind, text]
        fs.writeFileSync(replay, JSON.stringify({property, kind, violation: first[1], hash: o.hash, plan: p, history: o.hist}, null, 1))
        minInfo = {steps_before: plan.steps.length, steps_after: p.steps.length, kind}
        console.log(`minimised from ${plan.steps.length} to ${p.steps.length} steps:`)
        for (const l of o.hist) console.log("  " + l)
        console.log(`VIOLATION property=${property} replay=${replay}`)
        code = 1
    } else if (broken.length > 3 || totals.n === 0) {
        console.log(`${broken.length} runs ended without a result, e.g. run ${broken[0]?.i}: ${broken[0]?.broken}`)
        code = 2
    }
    fs.mkdirSync(`${verif}/evidence`, {recursive: true})
    fs.writeFileSync(
        `${verif}/evidence/${property}.json`,
        JSON.stringify(
            {
                property,
                tier,
                seed: base,
                level: "exploration",
                coverage: {
                    evaluations: totals.n,
                    distinct_nontrivial: totals.shapes.size,
                    rule: "one evaluation is one complete simulated execution judged by the property's oracle; two executions count as distinct when their sequences of actions and message deliveries (contents left out) differ",
                    samples: totals.samples,
                    distinct_executions: new Set(totals.hashes.values()).size,
                    scheduling_decisions: totals.steps,
                    simulated_time: "this component has no clock: time is the order of deliveries, counted as scheduling decisions",
                    runs_per_hour: Math.round((totals.n / wall) * 3600),
                    faults_injected: totals.counters,
                    repeated_runs: again.length,
                    repeated_runs_that_differed: diverged,
                    runs_without_result: broken.length,
                    minimisation: minInfo,
                    replay,
                    real_components: m.real,
                    stubbed_components: m.stubs,
                },
                assumptions: m.assumptions,
                wall_s: (Date.now() - t0) / 1000,
                violations: failure ? 1 : 0,
            },
            null,
            1,
        ),
    )
    console.log(`${property}: ${totals.n} runs, ${totals.shapes.size} distinct, ${((Date.now() - t0) / 1000).toFixed(1)} s, ${diverged} diverged on repetition, ${broken.length} broken`)
    await m.finish?.()
    return code
}

async function one() {
    const property = opt("--property")
    const m = await machine(property)
    let plan = m.generate(seedOf(num("--seed", 1), num("--index", 0)))
    let o = await m.run(plan, true)
    if (o.violations.length && args.includes("--minimise")) [plan, o] = await minimise(m, plan, o.violations[0][0], 60)
    for (const l of o.hist) console.log(l)
    if (args.includes("--plan")) console.log(JSON.stringify(plan))
    console.log(o.violations, o.hash, o.counters)
    await m.finish?.()
    return o.violations.length ? 1 : 0
}

async function replay() {
    const r = JSON.parse(fs.readFileSync(args[1], "utf8"))
    const m = await machine(r.property)
    const o = await m.run(r.plan, true)
    for (const l of o.hist) console.log(l)
    await m.finish?.()
    if (!o.violations.length) {
        console.log("no violation")
        return 0
    }
    console.log(o.hash === r.hash ? "reproduced exactly" : "a violation, but not the recorded execution (the code differs)")
    console.log(`VIOLATION property=${r.property} replay=${args[1]}`)
    return 1
}

const commands = {check, run: one, replay, worker}
const f = commands[args[0]]
if (!f) {
    console.error("unknown command")
    process.exit(2)
}
try {
    const code = await f()
    if (args[0] !== "worker") process.exit(code)
} catch (e) {
    console.error(e)
    process.exit(2)
}
