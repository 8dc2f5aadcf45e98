// C37: queries on one database, run at once, given up halfway, or hit by failing requests.
import fc from "fast-check";
import { BPTree, ReferencedValue } from "@repo/bptree/bptree";
import { ReadMultiBPTree } from "@repo/file/multi";
import { init } from "@repo/index";
import { cache } from "@repo/resolver/cache";
import { Ctx, ab, fail, memResolver, prng, register, sub, unb64 } from "./core";
import { DataCase, bytesOf, columnsArb, cutsOf, dataArb, linesOf, occurrences, textArb } from "./data";
import { QuerySpec, buildIndex, collect, deepSet, near, ops, queryArb } from "./query";

// Line answers requests one at a time, in an order of its choosing; requests that are
// numbered as faults fail. It counts what is outstanding.
class Line {
  private waiting: (() => void)[] = [];
  private running = true;
  count = 0;
  failed = 0;
  most = 0;
  faults = new Set<number>();

  constructor(
    private readonly r: (n: number) => number,
    private readonly order: number,
  ) {
    void this.pump();
  }

  resolver(buf: Uint8Array) {
    const mem = memResolver(buf);
    return (ranges: { start: number; end: number }[]): Promise<any> =>
      new Promise((ok, no) => {
        const k = this.count++;
        this.waiting.push(() => {
          if (this.faults.has(k)) {
            this.failed++;
            no(new Error("the network is down"));
          } else mem(ranges).then(ok, no);
        });
        this.most = Math.max(this.most, this.waiting.length);
      });
  }

  private async pump() {
    while (this.running) {
      await new Promise((f) => setImmediate(f));
      const n = this.waiting.length;
      if (n === 0) continue;
      const i = this.order === 0 ? 0 : this.order === 1 ? n - 1 : this.r(n);
      this.waiting.splice(i, 1)[0]();
    }
  }

  stop() {
    this.running = false;
  }
}

type Ask = { search: string | null; spec: QuerySpec; stop: number | null; fields: boolean };
type C37 = { data: DataCase; asks: Ask[]; seed: number; order: number; cached: boolean; faults: { at: number; n: number }[] };

type Result = { rows: any[]; error: Error | null; stopped: boolean };

async function consume(it: AsyncIterable<any>, stop: number | null): Promise<Result> {
  const rows: any[] = [];
  try {
    for await (const x of it) {
      rows.push(x);
      if (rows.length > 100000) fail("a query yields without end");
      if (stop !== null && rows.length >= stop) return { rows, error: null, stopped: true };
    }
    return { rows, error: null, stopped: false };
  } catch (e: any) {
    return { rows, error: e instanceof Error ? e : new Error(String(e)), stopped: false };
  }
}

async function judgeTogether(c: C37, ctx: Ctx) {
  const lines = linesOf(c.data);
  const data = bytesOf(c.data, lines);
  if (data.length > 30000) return ctx.label("large"); // every entry is a request of its own
  const key = c.data.names[0];
  const built = await buildIndex(data, [key], cutsOf(c.data, data.length));
  const index = unb64(built.index);
  const values = new Map<string, any[]>();
  for (const l of lines) {
    for (const [p, v] of occurrences(JSON.parse(l))) {
      if (!values.has(p)) values.set(p, []);
      values.get(p)!.push(v);
    }
  }
  const paths = [...values.keys()];
  if (paths.length === 0) return ctx.label("no-fields");

  const start = (db: any, a: Ask): AsyncIterable<any> => {
    if (a.fields) {
      return (async function* () {
        yield* await db.fields();
      })();
    }
    if (a.search !== null) return db.search(key, a.search);
    const path = paths[a.spec.field % paths.length];
    const vals = values.get(path)!;
    const v = a.spec.val;
    const value = v.k === "stored" ? near(vals[v.i % vals.length], v.d) : v.k === "str" ? v.s : v.k === "num" ? v.n : v.k === "bool" ? v.b : null;
    const q: any = { where: [{ key: path, operation: ops[a.spec.op], value }] };
    if (a.spec.dir) q.orderBy = [{ key: path, direction: a.spec.dir }];
    if (a.spec.limit !== null) q.limit = a.spec.limit;
    return db.query(q);
  };
  // results of a search with equal scores come in any order
  const isSearch = (a: Ask) => !a.fields && a.search !== null;
  const text = (a: Ask, x: any) => (isSearch(a) ? JSON.stringify(x.data) : JSON.stringify(x));
  const sorted = (rows: any[]) => [...rows].sort((p, q) => (p.data < q.data ? -1 : p.data > q.data ? 1 : p.score - q.score));
  const check = (what: string, a: Ask, got: Result, want: Result) => {
    const name = a.fields ? "the list of fields" : a.search !== null ? `the search for ${JSON.stringify(a.search)}` : `the query ${JSON.stringify(a.spec)}`;
    if (want.error) {
      // such a query is refused by itself; it may also fail for another reason
      if (!got.error && !(got.stopped && got.rows.length <= want.rows.length)) fail(`${what}, ${name} succeeds, alone it fails: ${want.error.message}`);
      return;
    }
    const whole = !got.error && !got.stopped;
    if (whole ? got.rows.length !== want.rows.length : got.rows.length > want.rows.length) fail(`${what}, ${name} gives ${got.rows.length} rows, alone ${want.rows.length}`);
    if (!isSearch(a)) {
      got.rows.forEach((x, i) => {
        if (text(a, x) !== text(a, want.rows[i])) fail(`${what}, row ${i} of ${name} is ${text(a, x)}, alone ${text(a, want.rows[i])}`);
      });
    } else if (whole) {
      const g = sorted(got.rows);
      const w = sorted(want.rows);
      g.forEach((x, i) => {
        if (text(a, x) !== text(a, w[i]) || Math.abs(x.score - w[i].score) > 1e-9 * (1 + Math.abs(x.score))) fail(`${what}, ${name} finds ${JSON.stringify(x)}, alone ${JSON.stringify(w[i])}`);
      });
    }
  };

  const alone: Result[] = [];
  for (const a of c.asks) alone.push(await consume(start(await init(memResolver(data), memResolver(index)), a), null));
  const big = alone.filter((r) => r.rows.length >= 2).length;

  const line = new Line(prng(c.seed), c.order);
  try {
    for (const f of c.faults) for (let k = 0; k < f.n; k++) line.faults.add(f.at + k);
    const wrap: (r: any) => any = c.cached ? cache : (r) => r;
    const db = await init(wrap(line.resolver(data)), wrap(line.resolver(index)));
    const got = await Promise.all(c.asks.map((a) => consume(start(db, a), a.stop)));
    c.asks.forEach((a, i) => {
      if (got[i].error && !alone[i].error && line.failed === 0) fail(`run at once, ${JSON.stringify(a)} fails: ${got[i].error!.message}`);
      check("run at once", a, got[i], alone[i]);
    });
    const broken = got.filter((g, i) => g.error && !alone[i].error).length;
    ctx.label("at-once:" + (line.most >= 3 ? "3+" : line.most));
    ctx.label("given-up", got.some((g) => g.stopped));
    ctx.label("failed", line.failed > 0);
    ctx.label("cached", c.cached);
    ctx.label("search", c.asks.some((a) => isSearch(a)));
    if (line.failed > 0 && broken === 0 && !got.some((g, i) => g.stopped || alone[i].error)) fail(`${line.failed} requests failed, but every query succeeds`);
    ctx.nt(c.faults.length ? broken > 0 && big >= 1 : big >= 2 && line.most >= 2);
    // the failures are over: the same database answers everything
    line.faults.clear();
    for (const [i, a] of c.asks.entries()) {
      const again = await consume(start(db, a), null);
      if (again.error && !alone[i].error) fail(`after ${line.failed} failed requests, ${JSON.stringify(a)} still fails: ${again.error.message}`);
      check(`after ${line.failed} failed requests`, a, again, alone[i]);
    }
  } finally {
    line.stop();
  }
}

type TreeCase = { set: number; n: number; seed: number; order: number; walks: { at: number; steps: number[] }[]; faults: { at: number; n: number }[] };

// Several walks over one tree object at once.
async function judgeTree(c: TreeCase, ctx: Ctx) {
  const s = await deepSet(c.set, c.n);
  const keys = s.keys;
  const line = new Line(prng(c.seed), c.order);
  const value = (x: number) => {
    const b = Buffer.alloc(8);
    b.writeDoubleBE(x);
    return ab(b);
  };
  try {
    for (const f of c.faults) for (let k = 0; k < f.n; k++) line.faults.add(f.at + k);
    const slot: any = await ReadMultiBPTree(memResolver(s.index), 0).next();
    const tree = new BPTree(line.resolver(s.index), slot, line.resolver(s.data), 0 as any, 3 as any, 9, keys.length);
    const walk = async (w: { at: number; steps: number[] }): Promise<number> => {
      let at = w.at % keys.length;
      const k = keys[at];
      const it = tree.iter(new ReferencedValue({ offset: k.o, length: k.l }, value(k.v)));
      let seen = 0;
      for (const [i, st] of [1, ...w.steps].entries()) {
        for (let n = Math.abs(st); n > 0; n--) {
          const to = i === 0 ? at : at + Math.sign(st);
          const ok = await (st > 0 ? it.next() : it.prev());
          if (ok !== (to >= 0 && to < keys.length)) throw new Wrong(`a walk from entry ${w.at % keys.length} of ${keys.length}: the step to entry ${to} gives ${ok}`);
          if (!ok) return seen;
          at = to;
          seen++;
          const g = it.getKey();
          const p = it.getPointer();
          if (g.dataPointer.offset !== keys[at].o || p.offset !== keys[at].ro || p.length !== keys[at].rl) throw new Wrong(`a walk from entry ${w.at % keys.length} of ${keys.length} finds ${g.dataPointer.offset} in row ${p.offset}+${p.length} at entry ${at}, want ${keys[at].o} in ${keys[at].ro}+${keys[at].rl}`);
        }
      }
      return seen;
    };
    let broken = 0;
    const seen = await Promise.all(
      c.walks.map((w) =>
        walk(w).catch((e) => {
          if (e instanceof Wrong) throw e;
          if (line.failed === 0) fail("a walk fails: " + e.message);
          broken++;
          return 0;
        }),
      ),
    );
    ctx.label("failed", line.failed > 0);
    ctx.label("height:" + s.height);
    if (line.failed > 0 && broken === 0) fail(`${line.failed} requests failed, but every walk succeeds`);
    ctx.nt(c.faults.length ? broken > 0 : line.most >= 2 && seen.filter((n) => n > 2).length >= 2);
    line.faults.clear();
    for (const w of c.walks) await walk(w);
  } finally {
    line.stop();
  }
}

class Wrong extends Error {}

const faultsArb = fc.array(fc.record({ at: fc.oneof(fc.nat(6), fc.nat(60)), n: fc.oneof({ weight: 3, arbitrary: fc.constant(1) }, { weight: 1, arbitrary: fc.nat(8) }) }), { minLength: 1, maxLength: 3 });
const askArb: fc.Arbitrary<Ask> = fc.record({
  search: fc.oneof({ weight: 4, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.oneof(textArb.map((s) => s.slice(0, 12).toWellFormed()), fc.constantFrom("a", "abc", "ab", "zz")) }),
  spec: queryArb,
  stop: fc.option(fc.integer({ min: 1, max: 5 }), { freq: 4 }),
  fields: fc.nat(7).map((x) => x === 0),
});
const together = (faulty: boolean): fc.Arbitrary<C37> =>
  fc.record({
    data: fc.oneof({ weight: 3, arbitrary: columnsArb() }, { weight: 1, arbitrary: dataArb(false, 150, 6) }),
    asks: fc.array(askArb, { minLength: 3, maxLength: 6 }),
    seed: fc.nat(1 << 30),
    order: fc.nat(3),
    cached: fc.nat(3).map((x) => x === 0),
    faults: faulty ? faultsArb : fc.constant([]),
  });
const treeArb = (faulty: boolean): fc.Arbitrary<TreeCase> =>
  fc.record({
    set: fc.nat(3),
    n: fc.constantFrom(2, 400, 3000, 3000, 60000),
    seed: fc.nat(1 << 30),
    order: fc.nat(3),
    walks: fc.array(fc.record({ at: fc.noBias(fc.nat(1 << 20)), steps: fc.array(fc.oneof(fc.integer({ min: -5, max: 5 }), fc.integer({ min: -300, max: 300 })), { maxLength: 3 }) }), { minLength: 2, maxLength: 5 }),
    faults: faulty ? faultsArb : fc.constant([]),
  });

register(
  "C37",
  "without faults: at least 2 queries with at least 2 rows each (walks with at least 3 steps) and at least 2 requests outstanding at once; with faults: a query (walk) fails because a request failed",
  sub("together", 2400, 60000, together(false), judgeTogether),
  sub("faults", 3200, 80000, together(true), judgeTogether),
  sub("walks", 800, 16000, treeArb(false), judgeTree),
  sub("walk-faults", 800, 16000, treeArb(true), judgeTree),
);
