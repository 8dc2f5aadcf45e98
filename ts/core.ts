// The TypeScript half of the framework: like the Go half, a property is a set of
// searches, each an arbitrary producing a JSON-serialisable case and a judge.
import fc from "fast-check";
import * as fs from "fs";
import * as path from "path";
import * as readline from "readline";
import { createHash } from "crypto";
import { spawn, ChildProcess } from "child_process";
import { Worker } from "worker_threads";

export class HarnessError extends Error {}

export class Ctx {
  labels = new Set<string>();
  nontrivial = false;
  label(s: string, cond = true) {
    if (cond) this.labels.add(s);
  }
  nt(cond: boolean) {
    if (cond) this.nontrivial = true;
  }
}

export function fail(msg: string): never {
  throw new Error(msg);
}

export type Sub = {
  name: string;
  quick: number;
  thorough: number;
  arb?: fc.Arbitrary<any>;
  judge: (c: any, ctx: Ctx) => Promise<void>;
  finding?: boolean;
};

export function sub<C>(
  name: string,
  quick: number,
  thorough: number,
  arb: fc.Arbitrary<C>,
  judge: (c: C, ctx: Ctx) => Promise<void>,
): Sub {
  return { name, quick, thorough, arb, judge };
}

// finding is a fixed history that fails because of a recorded genuine defect.
export function finding(key: string, f: (ctx: Ctx) => Promise<void>): Sub {
  return { name: "finding-" + key, quick: 0, thorough: 0, judge: (_c, ctx) => f(ctx), finding: true };
}

const registry = new Map<string, { rule: string; subs: Sub[] }>();
export function register(id: string, rule: string, ...subs: Sub[]) {
  registry.set(id, { rule, subs });
}

// ---- the Go side ----

export class Go {
  static path = "";
  private static proc: ChildProcess | null = null;
  private static waiting: { ok: (x: any) => void; no: (e: Error) => void }[] = [];

  private static start() {
    const p = spawn(Go.path, ["-serve"], { stdio: ["pipe", "pipe", "inherit"] });
    Go.proc = p;
    const rl = readline.createInterface({ input: p.stdout! });
    rl.on("line", (l) => {
      const w = Go.waiting.shift();
      if (w) w.ok(JSON.parse(l));
    });
    p.on("exit", (code) => {
      Go.proc = null;
      const ws = Go.waiting;
      Go.waiting = [];
      ws.forEach((w) => w.no(new Error(`the indexer process died (${code})`)));
    });
    p.stdin!.on("error", () => {});
  }

  static ask(q: any): Promise<any> {
    if (!Go.proc) Go.start();
    return new Promise((ok, no) => {
      Go.waiting.push({ ok, no });
      Go.proc!.stdin!.write(JSON.stringify(q) + "\n");
    });
  }

  static stop() {
    Go.proc?.removeAllListeners("exit");
    Go.proc?.kill("SIGKILL");
    Go.proc = null;
  }
}

export function b64(b: Uint8Array | string): string {
  return Buffer.from(b as any).toString("base64");
}
export function unb64(s: string | undefined): Uint8Array {
  return new Uint8Array(Buffer.from(s ?? "", "base64"));
}
// a copy in its own ArrayBuffer
export function ab(u: Uint8Array): ArrayBuffer {
  return u.slice().buffer as ArrayBuffer;
}

// Bytes is the content of a file; a gap of zeros is left out of a file far larger than memory.
export class Far {
  constructor(
    readonly buf: Uint8Array,
    readonly at: number,
    readonly gap: number,
  ) {}
  get length(): number {
    return this.buf.length + this.gap;
  }
  slice(start: number, end: number): Uint8Array {
    end = Math.min(end, this.length);
    const out = new Uint8Array(end - start);
    if (start < this.at) out.set(this.buf.subarray(start, Math.min(end, this.at)));
    const far = this.at + this.gap;
    if (end > far) out.set(this.buf.subarray(Math.max(start, far) - this.gap, end - this.gap), Math.max(0, far - start));
    return out;
  }
}
export type Bytes = Uint8Array | Far;

// memResolver serves ranges (inclusive) from memory, like a server honouring each range.
export function memResolver(buf: Bytes) {
  return async (ranges: { start: number; end: number }[]) =>
    ranges.map(({ start, end }) => {
      if (!(start >= 0 && end >= start && start < buf.length)) {
        throw new Error(`range ${start}-${end} of ${buf.length} bytes requested`);
      }
      if (end - start > 1 << 26) throw new Error(`range ${start}-${end} requested`);
      return { data: buf.slice(start, end + 1).buffer as ArrayBuffer, totalLength: buf.length };
    });
}

// withServer runs f while fetch answers byte-range requests for the given resources.
export async function withServer<T>(files: Record<string, Bytes>, style: number, f: () => Promise<T>): Promise<T> {
  const old = globalThis.fetch;
  globalThis.fetch = (async (url: any, opts: any) => {
    const buf = files[String(url)];
    if (!buf) return new Response("no such file", { status: 404 });
    const ranges = String(new Headers(opts?.headers).get("Range"))
      .replace("bytes=", "")
      .split(",")
      .map((s) => s.split("-").map(Number));
    if (ranges.some(([a, b]) => !(a >= 0 && b >= a && a < buf.length))) return new Response("out of range", { status: 416, headers: { "Content-Range": `bytes */${buf.length}` } });
    const cr = ([a, b]: number[]) => `bytes ${a}-${Math.min(b, buf.length - 1)}/${buf.length}`;
    const stream = (b: Uint8Array) => {
      let pos = 0;
      const step = [b.length, 1000, 4096, 5000][style % 4];
      return new ReadableStream({
        pull(ctl) {
          if (pos >= b.length) return ctl.close();
          ctl.enqueue(b.slice(pos, pos + step));
          pos += step;
        },
      });
    };
    if (ranges.length === 1) {
      return new Response(stream(buf.slice(ranges[0][0], ranges[0][1] + 1)), { status: 206, headers: { "Content-Range": cr(ranges[0]), "Content-Type": "application/octet-stream" } });
    }
    const parts: Buffer[] = [];
    ranges.forEach((r, i) => parts.push(Buffer.from(`${i ? "\r\n" : ""}--b0undary\r\nContent-Type: application/octet-stream\r\nContent-Range: ${cr(r)}\r\n\r\n`), Buffer.from(buf.slice(r[0], r[1] + 1))));
    parts.push(Buffer.from("\r\n--b0undary--\r\n"));
    return new Response(stream(new Uint8Array(Buffer.concat(parts))), { status: 206, headers: { "Content-Type": "multipart/byteranges; boundary=b0undary" } });
  }) as any;
  try {
    return await f();
  } finally {
    globalThis.fetch = old;
  }
}

// a small deterministic generator for bulk data
export function prng(seed: number) {
  let a = seed >>> 0;
  return (n: number) => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = a;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) % n;
  };
}

// ---- the driver ----

const STUCK_MS = 60000;

function hash(s: string): number {
  return createHash("sha256").update(s).digest().readUInt32BE(0);
}

export async function main() {
  const opt: Record<string, string> = {};
  for (let i = 2; i < process.argv.length; i++) {
    const a = process.argv[i].replace(/^--/, "");
    if (a === "trace") opt.trace = "1";
    else opt[a] = process.argv[++i];
  }
  Go.path = opt.go;
  const out = opt.out ?? ".";
  fs.mkdirSync(out, { recursive: true });
  const log = console.error.bind(console);
  const say = console.log.bind(console);
  console.log = console.warn = console.error = () => {};
  process.on("unhandledRejection", () => {});
  const die = (msg: string): never => {
    log("ERROR: " + msg);
    Go.stop();
    process.exit(2);
  };

  // the watchdog thread: a case that never yields, or never ends, is recorded and the
  // process ended; the driver then judges that case alone before anything is reported
  const shared = new SharedArrayBuffer(16 + (8 << 20));
  const beat = new Float64Array(shared, 0, 1);
  const len = new Int32Array(shared, 8, 1);
  const text = Buffer.from(shared as any, 16);
  new Worker(
    `const {workerData:{s,file,ms}}=require("worker_threads");const fs=require("fs");
     const beat=new Float64Array(s,0,1),len=new Int32Array(s,8,1),text=Buffer.from(s,16);
     setInterval(()=>{ if(len[0]>0 && Date.now()-beat[0]>ms){ fs.writeFileSync(file,text.subarray(0,len[0])); process.kill(process.pid,"SIGKILL"); } },500);`,
    { eval: true, workerData: { s: shared, file: path.join(out, "stuck.json"), ms: opt.replay ? 2 * STUCK_MS : STUCK_MS } },
  ).unref();

  const judge = async (prop: string, s: Sub, raw: string, ctx: Ctx): Promise<Error | null> => {
    const rf = `{"property":${JSON.stringify(prop)},"sub":${JSON.stringify(s.name)},"error":"a case does not finish","case":${raw}}`;
    beat[0] = Date.now();
    len[0] = text.write(rf, "utf8");
    if (opt.trace) fs.writeFileSync(path.join(out, "trace.json"), rf);
    try {
      await s.judge(JSON.parse(raw), ctx);
      return null;
    } catch (e: any) {
      if (e instanceof HarnessError) die(e.stack ?? String(e));
      return e instanceof Error ? e : new Error(String(e));
    } finally {
      len[0] = 0;
    }
  };

  if (opt.replay) {
    const rf = JSON.parse(fs.readFileSync(opt.replay, "utf8"));
    const s = registry.get(rf.property)?.subs.find((x) => x.name === rf.sub);
    if (!s) return die("unknown sub " + rf.sub);
    const ctx = new Ctx();
    const err = await judge(rf.property, s, JSON.stringify(rf.case), ctx);
    Go.stop();
    say("labels:", [...ctx.labels].sort().join(" "));
    if (err) {
      say("REPLAY FAILS:", err.stack ?? err.message);
      process.exit(1);
    }
    say("REPLAY PASSES");
    process.exit(0);
  }

  const p = registry.get(opt.prop);
  if (!p) return die("unknown property " + opt.prop);
  const shard = Number(opt.shard ?? 0);
  const shards = Number(opt.shards ?? 1);
  const known = loadKnown(opt.known);
  const res = {
    property: opt.prop,
    evaluations: 0,
    nontrivial: [] as string[],
    labels: {} as Record<string, number>,
    per_sub: {} as Record<string, number>,
    samples: [] as any[],
    rule: p.rule,
    violations: [] as any[],
    findings: [] as any[],
    stale: [] as string[],
  };
  const nt = new Set<string>();
  const violated = (s: Sub, raw: string, err: Error) => {
    const file = path.join(out, `${opt.prop}-${s.name}.json`);
    const error = (err.stack ?? err.message).slice(0, 4000);
    fs.writeFileSync(file, JSON.stringify({ property: opt.prop, sub: s.name, error, case: JSON.parse(raw) }, null, 1));
    res.violations.push({ sub: s.name, replay: file, error });
  };

  for (const s of p.subs) {
    if (opt.sub && opt.sub !== s.name) continue;
    res.per_sub[s.name] ??= 0;
    if (s.finding) {
      if (shard !== 0) continue;
      const key = s.name.slice("finding-".length);
      const err = await judge(opt.prop, s, "null", new Ctx());
      const text = known.get(opt.prop + "/" + key);
      if (err && text !== undefined) res.findings.push({ key, text, observed: err.message.split("\n")[0] });
      else if (err) violated(s, "null", err);
      else if (text !== undefined) res.stale.push(key);
      res.evaluations++;
      res.per_sub[s.name]++;
      continue;
    }
    const n = opt.tier === "thorough" ? s.thorough : s.quick;
    const mine = Math.floor(n / shards) + (shard < n % shards ? 1 : 0);
    if (mine === 0) continue;
    let lastFail = "";
    let lastErr: Error | null = null;
    let deadline = Infinity;
    let samples = 0;
    const r = await fc.check(
      fc.asyncProperty(s.arb!, async (c) => {
        if (Date.now() > deadline) return true; // stop shrinking
        const raw = JSON.stringify(c);
        const ctx = new Ctx();
        const err = await judge(opt.prop, s, raw, ctx);
        res.evaluations++;
        res.per_sub[s.name]++;
        for (const l of ctx.labels) res.labels[s.name + ":" + l] = (res.labels[s.name + ":" + l] ?? 0) + 1;
        if (ctx.nontrivial) {
          const h = hash(s.name + raw).toString(36);
          if (!nt.has(h)) {
            nt.add(h);
            if (raw.length < 6000 && samples < 2) {
              samples++;
              res.samples.push({ sub: s.name, labels: [...ctx.labels].sort(), case: c });
            }
          }
        }
        if (err) {
          lastFail = raw;
          lastErr = err;
          if (deadline === Infinity) deadline = Date.now() + 25000;
          return false;
        }
        return true;
      }),
      { numRuns: mine, seed: hash(`${opt.prop}/${s.name}/${opt.seed}/${shard}`) | 0, verbose: 0, ignoreEqualValues: false },
    );
    if (lastErr) violated(s, lastFail, lastErr);
    else if (r.failed) die(`generator problem in ${s.name}: ${r.errorInstance ?? JSON.stringify(r.counterexample)}`);
  }
  res.nontrivial = [...nt];
  fs.writeFileSync(path.join(out, "result.json"), JSON.stringify(res));
  Go.stop();
  process.exit(0);
}

function loadKnown(file: string | undefined) {
  const m = new Map<string, string>();
  if (!file || !fs.existsSync(file)) return m;
  for (const l of fs.readFileSync(file, "utf8").split("\n")) {
    const x = /^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$/.exec(l);
    if (x) m.set(x[1] + "/" + x[2], x[3]);
  }
  return m;
}
