// C38: what the client requests follows what it gives, not what is indexed.
import fc from "fast-check";
import { BPTreeNode } from "@repo/bptree/node";
import { readIndexMeta } from "@repo/file/meta";
import { ReadMultiBPTree } from "@repo/file/multi";
import { init } from "@repo/index";
import { cache } from "@repo/resolver/cache";
import { Ctx, fail, memResolver, prng, register, sub, unb64, withServer } from "./core";
import { bytesOf, typeOf } from "./data";
import { buildIndex, canon, gramsInOrder, near, ops } from "./query";

// the shape of one tree of an index
type Shape = { height: number; fill: number; most: number; pages: number };
type Set_ = {
  rows: any[];
  data: Uint8Array;
  index: Uint8Array;
  starts: Map<number, number>;
  slots: number;
  shapes: Map<string, Shape>;
  longest: number;
  grams: Map<string, number>;
};

const words = "the quick brown fox jumps over lazy dogs while some other animals watch from a hill nearby at noon".split(" ");
const kinds = ["ascending", "random", "text", "few-texts", "boolean", "many-fields", "search"] as const;

function rowOf(kind: string, i: number, n: number, r: (n: number) => number): any {
  switch (kind) {
    case "ascending":
      return { a: i * 2 };
    case "random":
      return { a: r(n) };
    case "text":
      return { a: words[r(words.length)] + r(n) };
    case "few-texts":
      return { a: words[r(5)] };
    case "boolean":
      return { a: r(3) === 0 };
    case "many-fields":
      return { ["field" + (i % 70)]: i, a: r(n), ["other" + (i % 70)]: String(i) };
    default: {
      const t: string[] = [];
      for (let k = 1 + r(4); k > 0; k--) t.push(words[r(3) ? r(3) : r(words.length)]);
      return { n: i, a: t.join(" ") };
    }
  }
}

const sets = new Map<string, Promise<Set_>>();

function costSet(kind: string, n: number): Promise<Set_> {
  const key = kind + n;
  if (!sets.has(key)) sets.set(key, makeSet(kind, n));
  return sets.get(key)!;
}

async function makeSet(kind: string, n: number): Promise<Set_> {
  const r = prng(n * 31 + kind.length);
  const rows: any[] = [];
  for (let i = 0; i < n; i++) rows.push(rowOf(kind, i, n, r));
  const lines = rows.map((x) => JSON.stringify(x));
  const data = bytesOf({ tail: "" }, lines);
  const index = unb64((await buildIndex(data, kind === "search" ? ["a"] : [], [])).index);
  const starts = new Map<number, number>();
  let pos = 0;
  for (const l of lines) {
    starts.set(pos, l.length);
    pos += l.length + 1;
  }
  const shapes = new Map<string, Shape>();
  const pages = new Set<number>();
  const mem = memResolver(index);
  let slot: any = ReadMultiBPTree(mem, 0);
  pages.add(Number(slot.offset));
  for (slot = await slot.next(); slot; slot = await slot.next()) {
    pages.add(Number(slot.offset));
    const m = readIndexMeta(await slot.metadata());
    const s: Shape = { height: 0, fill: Infinity, most: 0, pages: 0 };
    const walk = async (at: any, depth: number): Promise<void> => {
      const { node } = await BPTreeNode.fromMemoryPointer(at, mem, memResolver(data), 0 as any, m.fieldType, m.width);
      s.pages++;
      s.height = Math.max(s.height, depth);
      s.most = Math.max(s.most, node.keys.length);
      if (depth > 1) s.fill = Math.min(s.fill, node.numPointers());
      if (!node.leaf()) for (let i = 0; i < node.numPointers(); i++) await walk(node.pointer(i), depth + 1);
    };
    await walk(await slot.root(), 1);
    shapes.set(m.fieldName + "/" + m.fieldType, s);
  }
  const grams = new Map<string, number>();
  if (kind === "search") for (const x of rows) for (const g of gramsInOrder(x.a, 1, 3)) grams.set(g, (grams.get(g) ?? 0) + 1);
  return { rows, data, index, starts, slots: pages.size, shapes, longest: Math.max(...rows.map((x) => JSON.stringify(x.a).length)), grams };
}

// what a client requested
class Log {
  calls: { index: boolean; ranges: [number, number][] }[] = [];
  indexPages = 0;
  rows = 0;
  nodes = 0;
  keys = 0;

  constructor(private readonly s: Set_) {}

  resolver(index: boolean) {
    const mem = memResolver(index ? this.s.index : this.s.data);
    return (ranges: { start: number; end: number }[]) => {
      this.note(
        index,
        ranges.map(({ start, end }) => [start, end]),
      );
      return mem(ranges);
    };
  }

  note(index: boolean, ranges: [number, number][]) {
    let keys = 0;
    for (const [a, b] of ranges) {
      if (index) {
        if (b - a >= 4096) fail(`${b - a + 1} bytes of the index file are requested at once`);
        this.indexPages++;
        continue;
      }
      const row = this.s.starts.get(a);
      if (row !== undefined) {
        if (b - a + 1 > row + 1) fail(`${b - a + 1} bytes are requested for a row of ${row}`);
        this.rows++;
      } else {
        if (b - a + 1 > this.s.longest) fail(`${b - a + 1} bytes of the data file are requested for a key of at most ${this.s.longest}`);
        keys++;
      }
    }
    this.keys += keys;
    if (keys > 0) this.nodes++;
  }
}

type Ask38 = { at: number; d: number; op: number; dir: "" | "ASC" | "DESC"; limit: number | null; stop: number | null; phrase: number[]; min: number; max: number; fields: boolean; builder: boolean };
type C38 = { kind: number; n: number; via: number; asks: Ask38[] };

async function judgeCost(c: C38, ctx: Ctx) {
  const kind = kinds[c.kind];
  const s = await costSet(kind, Math.min(c.n, kind === "search" ? 3000 : kind === "ascending" ? 60000 : 12000));
  const log = new Log(s);
  const run = async (f: (db: any) => Promise<void>) => {
    if (c.via === 0) return f(await init(log.resolver(false) as any, log.resolver(true) as any));
    if (c.via === 1) return f(await init(cache(log.resolver(false) as any), cache(log.resolver(true) as any)));
    return withServer({ "http://host/data": s.data, "http://host/index": s.index }, c.via, async () => {
      const inner = globalThis.fetch;
      globalThis.fetch = ((url: any, opts: any) => {
        const ranges = String(new Headers(opts?.headers).get("Range"))
          .replace("bytes=", "")
          .split(",")
          .map((x) => x.split("-").map(Number) as [number, number]);
        log.note(String(url).endsWith("index"), ranges);
        return inner(url, opts);
      }) as any;
      await f(await init("http://host/data", "http://host/index", [undefined, {}, { useMultipartByteRanges: true }, { useMultipartByteRanges: false }][c.via % 4] as any));
    });
  };
  ctx.label(kind);
  ctx.label(["memory", "cache", "http"][Math.min(c.via, 2)]);
  await run(async (db) => {
    for (const a of c.asks) {
      const [p0, r0, n0, k0] = [log.indexPages, log.rows, log.nodes, log.keys];
      let it: AsyncIterable<any>;
      let what: string;
      // pages of slots are read for the file's own record, the list of fields, and to find an index
      let pages = 2 + 2 * s.slots;
      let reads: { shape: Shape; entries: number }[] = [];
      let shape: Shape | undefined;
      if (a.fields) {
        what = "the list of fields";
        it = (async function* () {
          yield* await db.fields();
        })();
      } else if (kind === "search") {
        const phrase = a.phrase.map((i) => words[i % words.length]).join(" ");
        const [min, max] = [Math.min(a.min, a.max), Math.max(a.min, a.max)];
        what = `a search for ${JSON.stringify(phrase)} (${min}..${max})`;
        it = a.limit === null ? db.search("a", phrase, { minGram: min, maxGram: max }) : db.query({ search: { key: "a", like: phrase, config: { minGram: min, maxGram: max } }, limit: a.limit });
        pages += 3 * s.slots;
        for (const g of gramsInOrder(phrase, min, max)) reads.push({ shape: s.shapes.get("a/" + [0, 10, 9, 8][g.length])!, entries: s.grams.get(g) ?? 0 });
      } else {
        const v = near(s.rows[a.at % s.rows.length].a, a.d);
        shape = [...s.shapes].find(([k]) => k === "a/" + { number: 3, string: 0, boolean: 6, null: 7 }[typeOf(v) as string])?.[1] ?? [...s.shapes].find(([k]) => k.startsWith("a/"))![1];
        what = `a ${ops[a.op]} ${JSON.stringify(v)} ${a.dir}`;
        const q: any = { where: [{ key: "a", operation: ops[a.op], value: v }] };
        if (a.dir) q.orderBy = [{ key: "a", direction: a.dir }];
        if (a.limit !== null) q.limit = a.limit;
        if (a.builder) {
          let b = db.where("a", ops[a.op], v);
          if (a.dir) b = b.orderBy("a", a.dir);
          if (a.limit !== null) b = b.limit(a.limit);
          it = b.get();
        } else it = db.query(q);
        // a descent to the first or last key, another to the start, and the way up to a neighbour
        pages += 2 * shape.height + 2;
      }
      const stop = a.stop ?? 500;
      let given = 0;
      for await (const x of it) {
        given++;
        if (!a.fields && kind !== "search" && given === 1) canon(x);
        if (given > 200000) fail(what + ": yields without end");
        if (given >= stop) break;
      }
      if (shape) reads = [{ shape, entries: given }];
      let most = 0;
      for (const r of reads) {
        if (!r.shape) continue;
        pages += r.shape.height + 1 + Math.ceil(r.entries / r.shape.fill);
        most = Math.max(most, r.shape.most);
      }
      const rows = a.fields ? 0 : given + 2;
      const used = log.indexPages - p0;
      const show = `${what} over ${c.n} rows gives ${given}${stop === given ? " (taking no more)" : ""}`;
      if (used > pages) fail(`${show} and requests ${used} pages of the index; ${pages} are enough`);
      if (log.rows - r0 > rows) fail(`${show} and requests ${log.rows - r0} rows of the data file`);
      // the keys of a page of texts are requested together
      const nodes = kind === "text" || kind === "few-texts" || kind === "many-fields" ? pages : 0;
      if (c.via % 4 !== 3 && log.nodes - n0 > nodes) fail(`${show} and requests keys ${log.nodes - n0} times; ${nodes} are enough`);
      if (log.keys - k0 > nodes * most) fail(`${show} and requests ${log.keys - k0} keys; ${nodes * most} are enough`);
      const total = shape?.pages ?? reads.reduce((x, r) => x + (r.shape?.pages ?? 0), 0);
      ctx.label("height:" + (shape?.height ?? 0), !!shape);
      ctx.label("stopped", stop === given);
      ctx.label("limited", a.limit === given);
      ctx.label("fields", a.fields);
      ctx.nt(given > 0 && given * 4 < c.n && total > 2 * pages);
    }
  });
}

const ask38: fc.Arbitrary<Ask38> = fc.record({
  at: fc.noBias(fc.nat(1 << 20)),
  d: fc.constantFrom(0, 0, 0, 1, -1, 2),
  op: fc.nat(4),
  dir: fc.constantFrom("", "ASC", "DESC"),
  limit: fc.option(fc.oneof(fc.nat(5), fc.nat(300)), { freq: 1 }),
  stop: fc.option(fc.oneof(fc.integer({ min: 1, max: 5 }), fc.integer({ min: 1, max: 300 })), { freq: 2 }),
  phrase: fc.array(fc.nat(words.length - 1), { maxLength: 4 }),
  min: fc.integer({ min: 1, max: 3 }),
  max: fc.integer({ min: 1, max: 3 }),
  fields: fc.nat(15).map((x) => x === 0),
  builder: fc.boolean(),
});

register(
  "C38",
  "some query gives between one row and a quarter of the rows, and its tree has more than twice as many pages as it may request",
  sub(
    "queries",
    1600,
    40000,
    fc.record({
      kind: fc.noBias(fc.nat(kinds.length - 1)),
      n: fc.constantFrom(1, 60, 3000, 12000, 12000, 60000),
      via: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.constant(1) }, { weight: 1, arbitrary: fc.integer({ min: 2, max: 13 }) }),
      asks: fc.array(ask38, { minLength: 1, maxLength: 4 }),
    }),
    judgeCost,
  ),
);
