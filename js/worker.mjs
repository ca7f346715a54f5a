// Worker process of the page simulations (JSON lines on stdin/stdout, same protocol as sim/worker.py).
// The main thread owns the protocol, the page server and the watchdog; runs execute in a worker thread so
// that a page stuck in an endless loop can be ended and reported.
import { Worker, isMainThread, parentPort, workerData } from "node:worker_threads";
import { spawn } from "node:child_process";
import readline from "node:readline";
import path from "node:path";
import { fileURLToPath } from "node:url";

const here = path.dirname(fileURLToPath(import.meta.url));
const LIMIT_S = 60;
const RECYCLE = 120; // runs per thread: contexts of finished pages are only released with the thread

if (!isMainThread) {
  const prop = await import(path.join(here, "props", workerData.prop.toLowerCase() + ".mjs"));
  const { runPlan } = await import(path.join(here, "run.mjs"));
  parentPort.on("message", async m => {
    let out;
    try { out = await runPlan(prop, m.plan, m.page); } catch (e) { out = { harness_error: String(e?.stack || e) }; }
    parentPort.postMessage(out);
  });
  parentPort.postMessage({ ready: true });
} else {
  const [, , propName, tier, python] = process.argv;
  const say = o => process.stdout.write(JSON.stringify(o) + "\n");
  let prop, Rng;
  try {
    prop = await import(path.join(here, "props", propName.toLowerCase() + ".mjs"));
    ({ Rng } = await import(path.join(here, "prng.mjs")));
  } catch (e) { say({ ready: false, error: String(e.stack) }); process.exit(2); }

  const server = spawn(python, ["-W", "ignore", "-m", "sim.pageserver"], { cwd: path.dirname(here), stdio: ["pipe", "pipe", "inherit"] });
  const waiting = [];
  readline.createInterface({ input: server.stdout }).on("line", l => waiting.shift()?.(JSON.parse(l)));
  server.on("exit", () => { for (const w of waiting.splice(0)) w({ server_gone: true }); });
  const reply = () => new Promise(r => waiting.push(r));
  const hello = await reply();
  if (!hello.ready) { say({ ready: false, error: hello.error || "page server died" }); process.exit(2); }
  const pages = new Map();
  async function pageFor(spec) {
    const k = JSON.stringify(spec);
    if (!pages.has(k)) {
      if (pages.size > 300) pages.delete(pages.keys().next().value);
      const r = reply();
      server.stdin.write(k + "\n");
      pages.set(k, await r);
    }
    return pages.get(k);
  }

  let thread = null, used = 0;
  async function fresh() {
    if (thread) await thread.terminate();
    thread = new Worker(new URL(import.meta.url), { workerData: { prop: propName }, resourceLimits: { maxOldGenerationSizeMb: 2500 } });
    used = 0;
    await new Promise((res, rej) => { thread.once("message", res); thread.once("error", rej); });
  }
  async function execute(plan, page, limit) {
    if (!thread || used >= RECYCLE) await fresh();
    used++;
    return await new Promise(res => {
      const done = o => { clearTimeout(t); thread.off("message", done); thread.off("error", fail); res(o); };
      const fail = e => { thread = null; done0(e?.code === "ERR_WORKER_OUT_OF_MEMORY" ? { died: "out of memory" } : { harness_error: `worker thread: ${e?.stack || e}` }); };
      const done0 = o => { clearTimeout(t); res(o); };
      const t = setTimeout(async () => { const w = thread; thread = null; w.off("message", done); w.off("error", fail); await w.terminate(); res({ hang: true, limit }); }, limit * 1000);
      thread.once("message", done);
      thread.once("error", fail);
      thread.postMessage({ plan, page });
    });
  }

  say({ ready: true });
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const req = JSON.parse(line);
    let out, plan;
    try {
      plan = req.cmd !== "plan" ? prop.gen(new Rng(propName, req.seed, req.index), req) : req.plan;
      if (req.cmd === "gen") out = { plan };
      else {
        const page = await pageFor(plan.page);
        if (page.server_gone) throw new Error("page server died");
        if (page.error) out = { violation: null, nontrivial: false, sig: "unbuilt", stats: { unbuilt_pages: 1 }, sample: {}, events: [], sim_ms: 0 };
        else {
          out = await execute(plan, page, req.limit || LIMIT_S);
          if (out.violation || req.cmd === "plan") out.plan = { ...plan, page: page.spec || { doc: page.doc } };
        }
      }
    } catch (e) { out = { harness_error: String(e?.stack || e) }; }
    out.index = req.index;
    say(out);
  }
  server.stdin.end();
  if (thread) await thread.terminate();
  process.exit(0);
}
