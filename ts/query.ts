// C20 (where-queries) and C22 (text search): the real client against an index built by
// the real indexer, compared with a scan of the rows.
import fc from "fast-check";
import { BPTree, ReferencedValue } from "@repo/bptree/bptree";
import { BPTreeNode } from "@repo/bptree/node";
import { ReadMultiBPTree } from "@repo/file/multi";
import { init } from "@repo/index";
import { NgramTokenizer } from "@repo/ngram/tokenizer";
import { cache } from "@repo/resolver/cache";
import { PriorityTable } from "@repo/ngram/table";
import { Bytes, Ctx, Far, Go, ab, HarnessError, b64, fail, finding, memResolver, prng, register, sub, unb64, withServer } from "./core";
import { DataCase, Scalar, bytesOf, columnsArb, compareScalar, cutsOf, dataArb, linesOf, occurrences, textArb, typeOf } from "./data";

export async function buildIndex(data: Uint8Array, search: string[], cuts: number[]): Promise<any> {
  const r = await Go.ask({ op: "index", data: b64(data), search, cuts });
  if (r.err) fail("the indexer failed: " + r.err);
  return r;
}

// leaps as in the other half: around and beyond what 31 and 32 bits hold
const leaps = [2 ** 31 - 8 * 4096, 2 ** 31, 2 ** 32 - 8 * 4096, 2 ** 32 - 2 * 4096, 2 ** 32, 2 ** 33 + 4096, 2 ** 35];
export type FarSpec = { at: number; data: number; file: number } | null;
export const farArb: fc.Arbitrary<FarSpec> = fc.oneof(
  { weight: 4, arbitrary: fc.constant(null) },
  { weight: 1, arbitrary: fc.record({ at: fc.nat(1000), data: fc.nat(leaps.length - 1), file: fc.nat(leaps.length - 1) }) },
);

// buildFiles is what a server would have: the data and its index; with far, billions of
// bytes without fields, and of pages, come after the first rows.
export async function buildFiles(data: Uint8Array, search: string[], cuts: number[], far?: FarSpec): Promise<{ data: Bytes; index: Bytes }> {
  if (!far) return { data, index: unb64((await buildIndex(data, search, cuts)).index) };
  const cut = Buffer.from(data.buffer, data.byteOffset, data.length).lastIndexOf(10, Math.floor((far.at * data.length) / 1000)) + 1;
  const gap = leaps[far.data] + 17;
  const r = await Go.ask({ op: "index", data: b64(data), search, far: { cut, data: gap, file: leaps[far.file] } });
  if (r.err) fail("the indexer failed: " + r.err);
  if (r.holeat < 0) return buildFiles(data, search, cuts); // no address space for it
  return { data: new Far(data, cut, gap), index: new Far(unb64(r.index), r.holeat, leaps[far.file]) };
}

export async function collect<T>(it: AsyncIterable<T>): Promise<T[]> {
  const out: T[] = [];
  for await (const x of it) {
    out.push(x);
    if (out.length > 200000) fail("a query yields without end");
  }
  return out;
}

// a row as comparable text; a prototype other than a plain object's shows up
export function canon(x: any): string {
  if (x === null || typeof x !== "object" || Array.isArray(x)) return "not a row: " + String(x);
  const proto = Object.getPrototypeOf(x) === Object.prototype ? "" : "!proto ";
  return proto + "{" + Object.keys(x).sort().map((k) => JSON.stringify(k) + ":" + (typeof x[k] === "function" ? "function" : JSON.stringify(x[k]))).join() + "}";
}

export const ops = ["<", "<=", "==", ">=", ">"] as const;
type Op = (typeof ops)[number];

function holds(op: Op, c: number): boolean {
  return op === "<" ? c < 0 : op === "<=" ? c <= 0 : op === "==" ? c === 0 : op === ">=" ? c >= 0 : c > 0;
}

export type QuerySpec = {
  field: number;
  op: number;
  val: { k: "stored"; i: number; d: number } | { k: "str"; s: string } | { k: "num"; n: number } | { k: "bool"; b: boolean } | { k: "null" };
  dir: "" | "ASC" | "DESC";
  limit: number | null;
  select: number[];
  viaQuery: boolean;
};

export const queryArb: fc.Arbitrary<QuerySpec> = fc.record({
  field: fc.nat(20),
  op: fc.nat(4),
  val: fc.oneof(
    { weight: 6, arbitrary: fc.record({ k: fc.constant("stored" as const), i: fc.nat(100000), d: fc.integer({ min: -2, max: 2 }) }) },
    { weight: 1, arbitrary: textArb.map((s) => ({ k: "str" as const, s })) },
    { weight: 1, arbitrary: fc.oneof(fc.nat(100), fc.double({ min: 0, noNaN: true })).map((n) => ({ k: "num" as const, n: n === null || !Number.isFinite(n) ? 1 : n })) },
    { weight: 1, arbitrary: fc.boolean().map((b) => ({ k: "bool" as const, b })) },
    { weight: 1, arbitrary: fc.constant({ k: "null" as const }) },
  ),
  dir: fc.constantFrom("", "ASC", "DESC"),
  limit: fc.option(fc.oneof(fc.nat(4), fc.nat(200)), { freq: 2 }),
  select: fc.oneof({ weight: 2, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.array(fc.nat(20), { minLength: 1, maxLength: 4 }) }),
  viaQuery: fc.boolean(),
});

// a value near a stored one: itself, or just below or above it
export function near(v: Scalar, d: number): Scalar {
  if (typeof v === "number") {
    if (d === 0) return v;
    const step = Math.abs(d) === 1 ? Math.max(1, Math.abs(v)) * 2 ** -52 : 0.5;
    const w = d < 0 ? v - step : v + step;
    return v >= 0 && w < 0 ? 0 : Number.isFinite(w) ? w : v;
  }
  if (typeof v === "string") return d === 0 ? v : d > 0 ? v + (d === 1 ? "\u0000" : "a") : d === -1 ? v.slice(0, -1).toWellFormed() : v.slice(0, 1).toWellFormed();
  return v;
}

// via: how the client reads the files: from memory, through the cache, or over HTTP
type C20 = { data: DataCase; queries: QuerySpec[]; via: number; far?: FarSpec };

async function openDb(via: number, data: Bytes, index: Bytes): Promise<any> {
  const config = [undefined, {}, { useMultipartByteRanges: true }, { useMultipartByteRanges: false }][via % 4];
  if (via < 4) return init(memResolver(data), memResolver(index), config);
  if (via < 6) return init(cache(memResolver(data) as any), cache(memResolver(index) as any), config);
  return init("http://host/data", "http://host/index", config);
}

async function judgeQueries(c: C20, ctx: Ctx) {
  const lines = linesOf(c.data);
  const flat = bytesOf(c.data, lines);
  const { data, index } = await buildFiles(flat, [], cutsOf(c.data, flat.length), c.far);
  ctx.label("far", !!c.far);
  const rows = lines.map((l) => JSON.parse(l));
  const fields = new Map<string, { v: Scalar; row: number }[]>();
  rows.forEach((r, i) => {
    for (const [p, v] of occurrences(r)) {
      if (!fields.has(p)) fields.set(p, []);
      fields.get(p)!.push({ v, row: i });
    }
  });
  const paths = [...fields.keys()];
  ctx.label(c.via < 4 ? "via-memory" : c.via < 6 ? "via-cache" : "via-http");
  ctx.label("several-pages", !c.far && index.length > 12 * 4096);
  if (paths.length === 0) return ctx.label("no-fields");
  for (const q of c.queries) {
    const path = paths[q.field % paths.length];
    const occ = fields.get(path)!;
    let value: Scalar =
      q.val.k === "stored" ? near(occ[q.val.i % occ.length].v, q.val.d) : q.val.k === "str" ? q.val.s : q.val.k === "num" ? q.val.n : q.val.k === "bool" ? q.val.b : null;
    let op = ops[q.op];
    const same = occ.filter((o) => typeOf(o.v) === typeOf(value));
    if (typeof value === "number") {
      // a known finding: negative numbers are only found by equality
      if (value < 0 || Object.is(value, -0) || same.some((o) => (o.v as number) < 0)) op = "==";
    }
    const want = same.filter((o) => holds(op, compareScalar(o.v, value))).sort((a, b) => compareScalar(a.v, b.v));
    if (q.dir === "DESC") want.reverse();
    const select = q.select.map((i) => ([...c.data.names, ...paths, "absent"] as string[])[i % (c.data.names.length + paths.length + 1)]);
    const project = (r: any) => {
      if (select.length === 0) return canon(r);
      const o = {};
      for (const s of select) if (Object.prototype.hasOwnProperty.call(r, s)) Object.defineProperty(o, s, { value: r[s], enumerable: true, configurable: true, writable: true });
      return canon(o);
    };
    const db: any = await openDb(c.via, data, index);
    const run = (limit: number | null): Promise<any[]> => (c.via < 6 ? runOn(limit) : withServer({ "http://host/data": data, "http://host/index": index }, c.via, () => runOn(limit)));
    const runOn = async (limit: number | null): Promise<any[]> => {
      if (q.viaQuery) {
        const query: any = { where: [{ key: path, operation: op, value }] };
        if (q.dir) query.orderBy = [{ key: path, direction: q.dir }];
        if (select.length) query.select = select;
        if (limit !== null) query.limit = limit;
        return collect(db.query(query));
      }
      let b: any = db.where(path, op, value);
      if (q.dir) b = b.orderBy(path, q.dir);
      if (select.length) b = b.select(select);
      if (limit !== null) b = b.limit(limit);
      return collect(b.get());
    };
    const what = `${JSON.stringify(path)} ${op} ${JSON.stringify(value)} ${q.dir}`;
    if (same.length === 0) {
      // no value of this type: nothing may be found; an error is as good
      ctx.label("type-absent");
      let got: any[] = [];
      try {
        got = await run(null);
      } catch {}
      if (got.length) fail(`${what}: ${got.length} rows although the field never has that type`);
      continue;
    }
    const got = (await run(null)).map(canon);
    ctx.label("result:" + (want.length === 0 ? "none" : want.length === same.length ? "all" : "some"));
    ctx.label(op + q.dir);
    ctx.nt(want.length > 0 && want.length < same.length && same.length >= 4);
    if (got.length !== want.length) fail(`${what}: ${got.length} rows, want ${want.length} of ${same.length}`);
    // rows with equal values may come in any order
    for (let i = 0; i < want.length; ) {
      let j = i;
      while (j < want.length && compareScalar(want[j].v, want[i].v) === 0) j++;
      const w = want.slice(i, j).map((o) => project(rows[o.row])).sort();
      const g = got.slice(i, j).sort();
      w.forEach((x, k) => {
        if (x !== g[k]) fail(`${what}: among results ${i}..${j - 1} (field value ${JSON.stringify(want[i].v)}) is ${g[k]}, want ${x}`);
      });
      i = j;
    }
    if (q.limit !== null) {
      ctx.label("limit");
      const again = (await run(null)).map(canon);
      const lim = (await run(q.limit)).map(canon);
      if (JSON.stringify(lim) !== JSON.stringify(again.slice(0, q.limit))) {
        fail(`${what} limit ${q.limit}: ${lim.length} rows ${lim.slice(0, 3)}, want the first ${q.limit} of ${again.length}: ${again.slice(0, 3)}`);
      }
    }
  }
}

// mostly from memory, which is fastest
const viaArb = fc.oneof({ weight: 3, arbitrary: fc.nat(3) }, { weight: 1, arbitrary: fc.integer({ min: 4, max: 5 }) }, { weight: 1, arbitrary: fc.integer({ min: 6, max: 17 }) });

function c20(neg: boolean, bulk: number, rows: number): fc.Arbitrary<C20> {
  return fc.record({ data: dataArb(neg, bulk, rows), queries: fc.array(queryArb, { minLength: 1, maxLength: 6 }), via: viaArb, far: farArb });
}

// a data set whose index trees have three levels, built once
export type Deep = { rows: any[]; data: Uint8Array; index: Uint8Array; sorted: { v: Scalar; row: number }[]; keys: { v: number; o: bigint; l: number; ro: bigint; rl: number }[]; height: number };
const deepSets = new Map<number, Promise<Deep>>();

export function deepSet(set: number, n: number): Promise<Deep> {
  const key = set * 1e6 + n;
  if (!deepSets.has(key)) {
    deepSets.set(
      key,
      (async () => {
        const r = prng(set * 7919 + n);
        const rows: any[] = [];
        for (let i = 0; i < n; i++) {
          const x = set === 0 ? i * 2 : set === 1 ? r(n) : set === 2 ? (n - i) * 2 : r(12);
          rows.push({ a: x });
        }
        const lines = rows.map((x) => JSON.stringify(x));
        const data = bytesOf({ tail: "" }, lines);
        const index = unb64((await buildIndex(data, [], [])).index);
        const sorted = rows.map((x, row) => ({ v: x.a, row })).sort((p, q) => compareScalar(p.v, q.v));
        const slot: any = await ReadMultiBPTree(memResolver(index), 0).next();
        let height = 1;
        for (let at = await slot.root(); ; height++) {
          const { node } = await BPTreeNode.fromMemoryPointer(at, memResolver(index), memResolver(data), 0 as any, 3 as any, 9);
          if (node.leaf()) break;
          at = node.pointer(0);
        }
        let pos = 0;
        const keys = lines.map((l, i) => {
          const k = { v: rows[i].a as number, o: BigInt(pos + 5), l: l.length - 6, ro: BigInt(pos), rl: l.length };
          pos += l.length + 1;
          return k;
        });
        keys.sort((p, q) => p.v - q.v || (p.o < q.o ? -1 : 1));
        return { rows, data, index, sorted, keys, height };
      })(),
    );
  }
  return deepSets.get(key)!;
}

type DeepCase = { set: number; n: number; op: number; desc: boolean; at: number; d: number; limit: number };

// Reads a window of the results of one query over the large set: what lies around the
// place where the scan starts, up to a limit, and now and then all of it.
async function judgeDeep(c: DeepCase, ctx: Ctx) {
  const s = await deepSet(c.set, c.n);
  const vals = s.sorted;
  ctx.label("height:" + s.height);
  const value = (vals[c.at % vals.length].v as number) + c.d;
  if (value < 0) return;
  const op = ops[c.op];
  let want = vals.filter((o) => holds(op, compareScalar(o.v, value)));
  if (c.desc) want.reverse();
  const db: any = await init(memResolver(s.data), memResolver(s.index));
  const q: any = { where: [{ key: "a", operation: op, value }], orderBy: [{ key: "a", direction: c.desc ? "DESC" : "ASC" }], limit: c.limit };
  const got = await collect<any>(db.query(q));
  ctx.nt(got.length > 200);
  ctx.label(op + (c.desc ? "DESC" : "ASC"));
  ctx.label("complete", want.length <= c.limit);
  const n = Math.min(want.length, c.limit);
  const what = `a ${op} ${value} ${c.desc ? "DESC" : "ASC"} limit ${c.limit} over ${c.n} rows`;
  if (got.length !== n) fail(`${what}: ${got.length} rows, want ${n}`);
  got.forEach((g, i) => {
    if (g.a !== want[i].v) fail(`${what}: result ${i} has ${g.a}, want ${want[i].v}`);
  });
}

type WalkCase = { set: number; n: number; at: number; ptr: number; d: number; steps: number[] };

// The client's tree walked directly, from probes with any data pointer.
async function judgeWalk(c: WalkCase, ctx: Ctx) {
  const s = await deepSet(c.set, c.n);
  const keys = s.keys;
  const i = c.at % keys.length;
  const v = keys[i].v + c.d;
  if (v < 0) return;
  const off = [keys[i].o, keys[i].o - 1n, keys[i].o + 1n, 0n, 2n ** 64n - 1n][c.ptr];
  const slot: any = await ReadMultiBPTree(memResolver(s.index), 0).next();
  const tree = new BPTree(memResolver(s.index), slot, memResolver(s.data), 0 as any, 3 as any, 9, keys.length);
  const value = (x: number) => {
    const b = Buffer.alloc(8);
    b.writeDoubleBE(x);
    return ab(b);
  };
  const len = c.ptr === 0 ? keys[i].l : 0;
  const before = (k: { v: number; o: bigint; l: number }) => k.v < v || (k.v === v && (k.o < off || (k.o === off && k.l < len)));
  // the first entry at or after the probe, by halving
  let [a, b] = [0, keys.length];
  while (a < b) {
    const m = (a + b) >> 1;
    if (before(keys[m])) a = m + 1;
    else b = m;
  }
  const show = (k: any) => (k ? `${k.v}@${k.o}+${k.l}` : "none");
  const same = (what: string, key: any, ptr: any, want: any) => {
    const g = { v: new DataView(key.value).getFloat64(0), o: key.dataPointer.offset, l: key.dataPointer.length };
    if (show(g) !== show(want) || ptr.offset !== want.ro || ptr.length !== want.rl) fail(`${what} is ${show(g)} in row ${ptr.offset}+${ptr.length}, want ${show(want)} in ${want.ro}+${want.rl}`);
  };
  const probe = new ReferencedValue({ offset: off, length: len }, value(v));
  const what = `probe ${v}@${off}+${len} of ${c.n} rows (set ${c.set})`;
  ctx.label("height:" + s.height);
  ctx.label("exact", c.ptr === 0 && c.d === 0);
  ctx.label("past-end", a === keys.length);
  ctx.nt(keys.length > 200 && a > 0 && a < keys.length);
  const [k, p] = await tree.find(probe);
  if (a === keys.length) {
    if (p.length !== 0) fail(`${what}: find gives an entry, want none`);
  } else same(`${what}: found entry`, k, p, keys[a]);
  if (c.at % 5 === 0) {
    const f: any = await tree.first();
    const l: any = await tree.last();
    if (f.dataPointer.offset !== keys[0].o || l.dataPointer.offset !== keys[keys.length - 1].o) fail(`first and last keys are at ${f.dataPointer.offset} and ${l.dataPointer.offset}, want ${keys[0].o} and ${keys[keys.length - 1].o}`);
  }
  // a walk that starts in either direction; it stays in the tree
  const it = tree.iter(probe);
  let at = a;
  let first = true;
  for (const st of c.steps) {
    for (let n = Math.abs(st); n > 0; n--) {
      const fwd = st > 0;
      const to = fwd ? (first ? a : at + 1) : (first ? a : at) - 1;
      const ok = await (fwd ? it.next() : it.prev());
      if (ok !== (to >= 0 && to < keys.length)) fail(`${what}: step ${fwd ? "next" : "prev"} to entry ${to} gives ${ok}`);
      if (!ok) return;
      first = false;
      at = to;
      same(`${what}: entry ${at}`, it.getKey(), it.getPointer(), keys[at]);
    }
  }
}

async function queryRows(lines: string[], q: any): Promise<any[]> {
  const data = new Uint8Array(Buffer.from(lines.map((l) => l + "\n").join("")));
  const idx = await buildIndex(data, [], []);
  const db: any = await init(memResolver(data), memResolver(unb64(idx.index)));
  return collect(db.query(q));
}

register(
  "C20",
  "some query matches at least one but not all of the (at least 4) values of its type",
  sub("rows", 2400, 60000, c20(false, 0, 12), judgeQueries),
  sub("columns", 6000, 120000, fc.record({ data: columnsArb(), queries: fc.array(queryArb, { minLength: 1, maxLength: 6 }), via: viaArb, far: farArb }), judgeQueries),
  sub("pages", 800, 16000, c20(false, 700, 4), judgeQueries),
  sub("negative", 400, 8000, c20(true, 0, 10), judgeQueries),
  sub(
    "deep",
    240,
    6000,
    fc.record({
      set: fc.nat(3),
      n: fc.constantFrom(60000, 60000, 60000, 25000),
      op: fc.nat(4),
      desc: fc.boolean(),
      at: fc.nat(1 << 20),
      d: fc.constantFrom(0, 0, 1, -1),
      limit: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 600 }) }, { weight: 2, arbitrary: fc.integer({ min: 600, max: 3000 }) }, { weight: 1, arbitrary: fc.constant(100000) }),
    }),
    judgeDeep,
  ),
  sub(
    "walk",
    6000,
    120000,
    fc.record({
      set: fc.nat(3),
      n: fc.constantFrom(1, 2, 40, 400, 3000, 60000, 60000),
      at: fc.noBias(fc.nat(1 << 20)),
      ptr: fc.nat(4),
      d: fc.constantFrom(0, 0, 0, 1, -1),
      steps: fc.array(fc.oneof(fc.integer({ min: -5, max: 5 }), fc.integer({ min: -300, max: 300 })), { maxLength: 4 }),
    }),
    judgeWalk,
  ),
  finding("negative-numbers", async () => {
    const got = await queryRows(['{"a":-3}', '{"a":2}', '{"a":7}'], { where: [{ key: "a", operation: "<", value: 5 }] });
    if (got.length !== 2) fail(`a < 5 over -3, 2, 7 gives ${JSON.stringify(got)}`);
  }),
  finding("several-conditions", async () => {
    const where = [
      { key: "a", operation: ">", value: 1 },
      { key: "a", operation: "<", value: 7 },
    ];
    const got = await queryRows(['{"a":1}', '{"a":2}', '{"a":7}'], { where });
    if (got.length !== 1) fail(`a > 1 and a < 7 over 1, 2, 7 gives ${JSON.stringify(got)}`);
  }),
);

// ---- C22 ----

type C22 = {
  texts: (string | null)[];
  bulk: { n: number; seed: number; words: number } | null;
  phrase: string;
  from: number;
  min: number;
  max: number;
  dflt: boolean;
  cuts: number[];
  nested: boolean;
  via: number;
  far?: FarSpec;
};

const wordArb = fc.oneof(
  { weight: 4, arbitrary: fc.string({ unit: fc.constantFrom("a", "b", "c"), minLength: 1, maxLength: 5 }) },
  { weight: 2, arbitrary: fc.constantFrom("Hello", "world", "don't", "e-mail", "x1", "2024", "ABC", "aé", "naïve", "日本", "😀", "a😀b", "...", "foo_bar", "The", "the", "the") },
  { weight: 1, arbitrary: fc.string({ unit: "grapheme-ascii", maxLength: 8 }) },
);
const phraseWord = wordArb.filter((w) => !/[é\u0300-\u036fï]/.test(w));
const sep = fc.constantFrom(" ", " ", "  ", "\t", "\n", " , ");
const phraseOf = (w: fc.Arbitrary<string>) =>
  fc.array(fc.tuple(w, sep), { maxLength: 6 }).map((a) => a.map(([x, s]) => x + s).join(""));

// the n-grams of a text: windows of the letters and digits of each word, lower-cased
export function gramsOf(s: string, min: number, max: number): Set<string> {
  return new Set(gramsInOrder(s, min, max));
}

export function gramsInOrder(s: string, min: number, max: number): string[] {
  const out: string[] = [];
  for (const w of s.split(/\s+/)) {
    const k = [...w].filter((c) => /^[A-Za-z0-9]$/.test(c)).map((c) => c.toLowerCase());
    for (let n = min; n <= max; n++) for (let i = 0; i + n <= k.length; i++) out.push(k.slice(i, i + n).join(""));
  }
  return out;
}

// the indexer first decomposes: accents are dropped
function indexedGrams(s: string, min: number, max: number): Set<string> {
  return gramsOf(s.normalize("NFKD"), min, max);
}

// the rows of a case, indexed by the real indexer, and what the client's search returns for it
async function runSearch(c: C22) {
  const texts: (string | null)[] = [...c.texts];
  if (c.bulk) {
    const r = prng(c.bulk.seed);
    for (let i = 0; i < c.bulk.n; i++) {
      const ws: string[] = [];
      for (let k = 0, n = r(7); k < n; k++) {
        let w = "";
        for (let j = 0, m = 1 + r(6); j < m; j++) w += "abcdefghijklmnop"[r(c.bulk.words)];
        ws.push(w);
      }
      texts.push(ws.join(" "));
    }
  }
  const key = c.nested ? "t.x" : "t";
  const lines = texts.map((t, i) => {
    const v = t === null ? (i % 2 ? "{}" : `{"n":${i}}`) : c.nested ? JSON.stringify({ n: i, t: { x: t } }) : JSON.stringify({ n: i, t });
    return v;
  });
  const flat = bytesOf({ tail: "" }, lines);
  const { data, index } = await buildFiles(flat, [key], cutsOf(c, flat.length), c.far);
  const db: any = await openDb(c.via, data, index);
  const stored = texts.filter((t) => t !== null && t !== "") as string[];
  const phrase = c.from % 3 === 0 && stored.length ? stored[c.from % stored.length].replace(/[é\u0300-\u036fï]/g, "") : c.phrase;
  const [min, max] = c.dflt ? [1, 2] : [Math.min(c.min, c.max), Math.max(c.min, c.max)];
  const complete = texts.some((t) => t !== null && indexedGrams(t, 3, 3).size > 0);
  let got: any[] | null = null;
  try {
    const run = (): Promise<any[]> => collect(db.search(key, phrase, c.dflt ? undefined : { minGram: min, maxGram: max }));
    got = c.via < 6 ? await run() : await withServer({ "http://host/data": data, "http://host/index": index }, c.via, run);
  } catch (e) {
    // the client asks for all three gram indexes; they exist once a word has three letters
    if (complete) throw e;
  }
  return { texts, lines, phrase, min, max, got };
}

async function judgeSearch(c: C22, ctx: Ctx) {
  const { texts, lines, phrase, min, max, got } = await runSearch(c);
  if (!got) return ctx.label("gram-index-absent");
  const want = gramsOf(phrase, min, max);
  const hits = texts.map((t) => t !== null && [...indexedGrams(t, min, max)].some((g) => want.has(g)));
  const n = hits.filter(Boolean).length;
  ctx.label("hits:" + (n === 0 ? "none" : n === texts.length ? "all" : "some"));
  ctx.label("no-grams", want.size === 0);
  ctx.label("bulk", !!c.bulk && c.bulk.n > 100);
  ctx.nt(n > 0 && n < texts.length && want.size >= 2);
  const seen = new Map<string, number>();
  let last = Infinity;
  got.forEach((g, i) => {
    if (typeof g?.data !== "string" || typeof g?.score !== "number") fail(`result ${i} is ${JSON.stringify(g)}`);
    if (!(g.score <= last)) fail(`result ${i} has score ${g.score} after ${last}`);
    last = g.score;
    seen.set(g.data, (seen.get(g.data) ?? 0) + 1);
  });
  const expect = new Map<string, number>();
  lines.forEach((l, i) => hits[i] && expect.set(l, (expect.get(l) ?? 0) + 1));
  for (const [l, k] of expect) if (seen.get(l) !== k) fail(`search ${JSON.stringify(phrase)} (${min}..${max}): row ${l} is returned ${seen.get(l) ?? 0} times, want ${k}`);
  for (const [l] of seen) if (!expect.has(l)) fail(`search ${JSON.stringify(phrase)} (${min}..${max}): row ${l} is returned but shares no n-gram`);
}

// how often each n-gram occurs in a text
function gramCounts(s: string, min: number, max: number): Map<string, number> {
  const out = new Map<string, number>();
  for (const w of s.split(/\s+/)) {
    const k = [...w].filter((c) => /^[A-Za-z0-9]$/.test(c)).map((c) => c.toLowerCase());
    for (let n = min; n <= max; n++)
      for (let i = 0; i + n <= k.length; i++) {
        const g = k.slice(i, i + n).join("");
        out.set(g, (out.get(g) ?? 0) + 1);
      }
  }
  return out;
}

// C35: the score of a row is the sum, over the n-grams of the phrase, of inverse document
// frequency times saturated term frequency
async function judgeScores(c: C22, ctx: Ctx) {
  const { texts, lines, phrase, min, max, got } = await runSearch(c);
  if (!got) return ctx.label("gram-index-absent");
  const want = gramCounts(phrase, min, max);
  const rows = texts.map((t) => (t === null ? new Map<string, number>() : gramCounts(t.normalize("NFKD"), min, max)));
  const N = texts.length;
  const sum = new Map<string, [number, number]>();
  let tfs = 0;
  for (const [g, times] of want) {
    const n = rows.filter((r) => r.has(g)).length;
    const idf = Math.log((N - n + 0.5) / (n + 0.5));
    rows.forEach((r, i) => {
      const tf = r.get(g);
      if (!tf) return;
      if (tf > 1) tfs++;
      const s = (times * idf * tf * 2.2) / (tf + 1.2);
      const [x, y] = sum.get(lines[i]) ?? [0, 0];
      sum.set(lines[i], [x + s, y + Math.abs(s)]);
    });
  }
  ctx.label("repeated-term", tfs > 0);
  ctx.label("term-over-255", rows.some((r) => [...r.values()].some((x) => x > 255)));
  ctx.label("repeated-in-phrase", [...want.values()].some((x) => x > 1));
  ctx.label("bulk", !!c.bulk && c.bulk.n > 100);
  ctx.nt(sum.size >= 2 && want.size >= 2 && new Set([...sum.values()].map((x) => x[0].toFixed(6))).size >= 2);
  for (const { data, score } of got) {
    const w = sum.get(data);
    if (!w) continue; // C22 says which rows are returned
    if (!(Math.abs(score - w[0]) <= 1e-9 * (1 + w[1]))) fail(`search ${JSON.stringify(phrase)} (${min}..${max}): row ${data} has score ${score}, want ${w[0]}`);
  }
}

// a text in which the same words come many times
const oftenArb = fc
  .tuple(phraseOf(wordArb), fc.oneof(fc.constantFrom("a", "ab", "zq7", "b a"), wordArb), fc.oneof(fc.integer({ min: 2, max: 80 }), fc.integer({ min: 200, max: 700 })), fc.boolean())
  .map(([a, w, n, sp]) => a + " " + (sp ? w + " " : w).repeat(n));

const searchArb = (bulk: number): fc.Arbitrary<C22> =>
  fc.record({
    texts: fc.array(fc.option(fc.oneof({ weight: 24, arbitrary: phraseOf(wordArb) }, { weight: 1, arbitrary: oftenArb }), { freq: 8 }), { minLength: 1, maxLength: 10 }),
    bulk: bulk === 0 ? fc.constant(null) : fc.record({ n: fc.noBias(fc.nat(bulk)), seed: fc.nat(1 << 30), words: fc.integer({ min: 2, max: 16 }) }),
    phrase: fc.oneof(
      { weight: 12, arbitrary: phraseOf(phraseWord) },
      // a phrase of many n-grams, mostly the same
      {
        weight: 1,
        arbitrary: fc.tuple(phraseOf(phraseWord), fc.constantFrom("a", "ab", "zq7"), fc.integer({ min: 20, max: 150 }), phraseOf(phraseWord)).map(([a, w, n, b]) => a + " " + w.repeat(n) + " " + b),
      },
    ),
    from: fc.nat(1000),
    min: fc.integer({ min: 1, max: 3 }),
    max: fc.integer({ min: 1, max: 3 }),
    dflt: fc.boolean(),
    cuts: fc.array(fc.nat(1000), { maxLength: 2 }),
    nested: fc.boolean(),
    via: viaArb,
    far: farArb,
  });

type C22tok = { text: string; min: number; max: number };

async function judgeTokens(c: C22tok, ctx: Ctx) {
  const [min, max] = [Math.min(c.min, c.max), Math.max(c.min, c.max)];
  const got: any[] = new NgramTokenizer(min, max).tokens(c.text);
  const types = [0, 10, 9, 8]; // unigram, bigram, trigram
  for (let n = min; n <= max; n++) {
    const mine = got.filter((t) => t.type === types[n]);
    mine.forEach((t) => {
      if (Buffer.from(t.valueBuf).toString() !== t.value) fail(`token ${JSON.stringify(t.value)} carries bytes ${Buffer.from(t.valueBuf)}`);
    });
    const r = await Go.ask({ op: "tokens", text: c.text, n });
    if (r.err) fail("indexer tokenizer: " + r.err);
    const go: string[] = r.tokens ?? [];
    const ts = mine.map((t) => t.value);
    ctx.nt(go.length >= 2);
    if (JSON.stringify(go) !== JSON.stringify(ts)) fail(`n-grams of length ${n} of ${JSON.stringify(c.text)}: the indexer has ${JSON.stringify(go)}, the client ${JSON.stringify(ts)}`);
  }
  if (got.some((t) => !types.slice(min, max + 1).includes(t.type))) fail("a token of a length not asked for");
  const key = (t: any) => t.type + "/" + t.value;
  const a = got.map(key).sort().join();
  const sh = NgramTokenizer.shuffle(got);
  if (sh.map(key).sort().join() !== a) fail(`shuffling ${got.length} tokens gives other tokens`);
}

type C22tab = { ins: [number, number][]; clear: number };

async function judgeTable(c: C22tab, ctx: Ctx) {
  const t = new PriorityTable<number>();
  let m = new Map<number, number>();
  c.ins.forEach(([k, s], i) => {
    t.insert(k, s);
    m.set(k, (m.get(k) ?? 0) + s);
    if (i === c.clear) {
      t.clear();
      m = new Map();
    }
    if (t.size !== m.size) fail(`table has size ${t.size}, want ${m.size}`);
  });
  ctx.nt(m.size >= 2 && c.ins.length > m.size);
  const top = t.top();
  if (top.length !== m.size) fail(`table lists ${top.length} of ${m.size}`);
  let last = Infinity;
  for (const e of top) {
    if (!m.has(e.key) || e.score !== m.get(e.key)) fail(`key ${e.key} has score ${e.score}, want ${m.get(e.key)}`);
    m.delete(e.key);
    if (e.score > last) fail("scores are not in order");
    last = e.score;
  }
}

register(
  "C22",
  "some but not all rows share an n-gram with a phrase of at least 2 n-grams (search), at least 2 tokens (tokens), 2 keys with repeats (table)",
  sub("search", 2400, 60000, searchArb(0), judgeSearch),
  sub("bulk", 160, 4000, searchArb(400), judgeSearch),
  sub(
    "tokens",
    6000,
    100000,
    fc.record({
      text: fc.oneof(phraseOf(wordArb.filter((w) => /^[\x00-\x7f]*$/.test(w))), fc.string({ unit: "binary-ascii", maxLength: 20 })),
      min: fc.integer({ min: 1, max: 3 }),
      max: fc.integer({ min: 1, max: 3 }),
    }),
    judgeTokens,
  ),
  sub("table", 8000, 100000, fc.record({ ins: fc.array(fc.tuple(fc.nat(5), fc.integer({ min: -64, max: 64 })), { maxLength: 20 }), clear: fc.integer({ min: -30, max: 20 }) }), judgeTable),
);

register(
  "C35",
  "at least 2 rows with different scores share n-grams with a phrase of at least 2 n-grams",
  sub("scores", 2400, 60000, searchArb(0), judgeScores),
  sub("bulk", 160, 4000, searchArb(400), judgeScores),
);
