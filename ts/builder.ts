// C26: query builder, validation and projection.
import fc from "fast-check";
import { QueryBuilder } from "@repo/db/query-builder";
import { handleSelect, processWhere } from "@repo/db/query-lang";
import { validateQuery } from "@repo/db/query-validation";
import { init } from "@repo/index";
import { Ctx, fail, memResolver, register, sub } from "./core";
import { textArb, typeOf } from "./data";
import { canon } from "./query";

const keys = ["a", "b", "id", "näme", "toString", "", "a.b"];
const opsAll = ["<", "<=", "==", ">=", ">"];
const scalar = fc.oneof(fc.nat(9), fc.double({ noNaN: true, noDefaultInfinity: true }).map((x) => x + 0), textArb, fc.boolean(), fc.constant(null));

type Step =
  | { c: "where"; at: number; key: number; op: number; v: any }
  | { c: "orderBy"; at: number; key: number; desc: boolean }
  | { c: "select"; at: number; keys: number[] }
  | { c: "limit"; at: number; n: number };

const stepArb: fc.Arbitrary<Step> = fc.oneof(
  fc.record({ c: fc.constant("where" as const), at: fc.nat(20), key: fc.nat(6), op: fc.nat(4), v: scalar }),
  fc.record({ c: fc.constant("orderBy" as const), at: fc.nat(20), key: fc.nat(6), desc: fc.boolean() }),
  fc.record({ c: fc.constant("select" as const), at: fc.nat(20), keys: fc.array(fc.nat(6), { maxLength: 3 }) }),
  fc.record({ c: fc.constant("limit" as const), at: fc.nat(20), n: fc.nat(100) }),
);

async function judgeBuilder(c: { steps: Step[]; viaDb: boolean }, ctx: Ctx) {
  const seen: any[] = [];
  const dbi: any = { query: (q: any) => (seen.push(q), "result") };
  let first: any = new QueryBuilder(dbi);
  type M = { where: any[]; orderBy?: any[]; select?: any[]; limit?: number };
  const bs: { b: any; m: M }[] = [{ b: first, m: { where: [] } }];
  if (c.viaDb) {
    const db: any = await init(memResolver(new Uint8Array(1)), memResolver(new Uint8Array(1)));
    db.query = dbi.query;
    bs.push({ b: db.where("a", "==", 1), m: { where: [{ key: "a", operation: "==", value: 1 }] } });
  }
  const show = (q: any) => JSON.stringify({ where: q.where, orderBy: q.orderBy ?? null, select: q.select ?? null, limit: q.limit ?? null });
  // one clause reads the same whatever the order of its members
  const norm = (q: any): M => ({
    where: (q.where ?? []).map((w: any) => ({ key: w.key, operation: w.operation, value: w.value })),
    orderBy: q.orderBy?.map((o: any) => ({ key: o.key, direction: o.direction })),
    select: q.select && [...q.select],
    limit: q.limit,
  });
  for (const s of c.steps) {
    const from = bs[s.at % bs.length];
    const m: M = { ...from.m, where: [...from.m.where] };
    let b: any;
    if (s.c === "where") {
      b = from.b.where(keys[s.key], opsAll[s.op], s.v);
      m.where.push({ key: keys[s.key], operation: opsAll[s.op], value: s.v });
    } else if (s.c === "orderBy") {
      b = from.b.orderBy(keys[s.key], s.desc ? "DESC" : "ASC");
      m.orderBy = [...(m.orderBy ?? []), { key: keys[s.key], direction: s.desc ? "DESC" : "ASC" }];
    } else if (s.c === "select") {
      b = from.b.select(s.keys.map((k) => keys[k]));
      m.select = s.keys.map((k) => keys[k]);
    } else {
      b = from.b.limit(s.n);
      m.limit = s.n;
    }
    if (b === from.b) fail(`${s.c} returns the same builder`);
    bs.push({ b, m });
    // every builder so far still has its own query
    for (let i = 0; i < bs.length; i++) {
      const got = show(norm(bs[i].b.toQuery()));
      if (got !== show(bs[i].m)) fail(`after ${bs.length - 1} calls builder ${i} has query ${got}, want ${show(bs[i].m)}`);
    }
  }
  ctx.nt(c.steps.length >= 3);
  for (const x of bs) {
    const r = x.b.get();
    if (r !== "result") fail("get does not return the query's result");
    const got = show(norm(seen[seen.length - 1]));
    if (got !== show(x.m)) fail(`get runs query ${got}, want ${show(x.m)}`);
  }
}

// ---- validation ----

type Valid = {
  headers: { name: number; types: number[] }[];
  where: null | { key: number; op: number; v: any; kind: number }[];
  order: null | { key: number; dir: number }[];
  select: null | number[];
  search: null | { key: number; min: number; max: number; cfg: boolean };
};

// names that are easily taken for one another come in groups
const vkeys = ["a", "a.b", "c", "toString", "c.d.e", "A", "a\u0000", "a ", "é", "e\u0301", "É", "0", "00", "0.0", "__proto__"];
const vnames = vkeys.length - 1;
const siblings = [[0, 5, 6, 7, 1], [8, 9, 10], [11, 12, 13], [2, 4]];
const notText = 100; // a key that is a number; above it, none
const vops = ["<", "<=", "==", ">=", ">", "=", "!=", "", "==="];
const vdirs = ["ASC", "DESC", "ASC", "DESC", "asc", "", "DOWN"];

function specValid(c: Valid, q: any): boolean {
  const types = new Map<string, Set<number>>();
  for (const h of c.headers) if (!types.has(vkeys[h.name])) types.set(vkeys[h.name], new Set(h.types));
  if (q.search) {
    const t = types.get(q.search.key);
    if (!t || ![8, 9, 10].every((x) => t.has(x))) return false;
    if (c.search!.cfg) {
      const { min, max } = c.search!;
      if (min < 1 || max < 1 || min > 3 || max > 3 || min > max) return false;
    }
  }
  if (q.where) {
    if (q.where.length === 0) return false;
    for (const w of q.where) {
      if (!["<", "<=", "==", ">=", ">"].includes(w.operation)) return false;
      if (typeof w.key !== "string") return false;
      const t = types.get(w.key);
      if (!t) return false;
      const ok =
        w.value === null
          ? t.has(7)
          : typeof w.value === "number" || typeof w.value === "bigint"
            ? t.has(1) || t.has(2) || t.has(3)
            : typeof w.value === "string"
              ? t.has(0)
              : typeof w.value === "boolean"
                ? t.has(6)
                : false;
      if (!ok) return false;
    }
    if (q.orderBy) {
      if (q.orderBy.length === 0) return false;
      if (!["ASC", "DESC"].includes(q.orderBy[0].direction)) return false;
      if (q.orderBy[0].key !== q.where[0].key) return false;
    }
    if (q.select) {
      if (q.select.length === 0) return false;
      if (!q.select.every((s: string) => types.has(s))) return false;
    }
  }
  return true;
}

async function judgeValid(c: Valid, ctx: Ctx) {
  // one header per field
  const names = new Set<number>();
  c.headers = c.headers.filter((h) => !names.has(h.name) && names.add(h.name));
  const headers = c.headers.map((h) => ({ fieldName: vkeys[h.name], fieldTypes: h.types }));
  const q: any = {};
  if (c.where) {
    q.where = c.where.map((w) => ({
      key: w.key < notText ? vkeys[w.key] : w.key === notText ? 7 : undefined,
      operation: vops[w.op],
      value: w.kind === 0 ? undefined : w.kind === 1 ? { x: 1 } : w.kind === 2 ? 5n : w.kind === 3 ? Symbol("s") : w.kind === 4 ? () => 1 : w.v,
    }));
    if (c.order) q.orderBy = c.order.map((o) => ({ key: vkeys[o.key], direction: vdirs[o.dir] }));
    if (c.select) q.select = c.select.map((s) => vkeys[s]);
  }
  if (c.search) {
    q.search = { key: vkeys[c.search.key], like: "abc" };
    if (c.search.cfg) q.search.config = { minGram: c.search.min, maxGram: c.search.max };
  }
  const want = specValid(c, q);
  let err: any = null;
  try {
    validateQuery(q, headers);
  } catch (e) {
    err = e;
  }
  ctx.label(want ? "valid" : "invalid");
  ctx.label("where", !!c.where);
  ctx.label("search", !!c.search);
  ctx.nt(want ? !!c.where && c.where.length > 0 : true);
  const text = JSON.stringify(q, (_k, v) => (typeof v === "bigint" ? v + "n" : typeof v === "symbol" || typeof v === "function" ? String(v) : v)) + " over " + JSON.stringify(headers);
  if (want && err) fail(`a consistent query is refused (${err.message}): ${text}`);
  if (!want && !err) fail(`an inconsistent query is accepted: ${text}`);
}

const nameArb = fc.oneof({ weight: 2, arbitrary: fc.nat(4) }, { weight: 1, arbitrary: fc.nat(vnames) });

// mostly consistent queries: one thing is off in some
const validArb: fc.Arbitrary<Valid> = fc
  .record({
    headers: fc.array(fc.record({ name: nameArb, types: fc.oneof(fc.constant([0, 3, 6, 7, 8, 9, 10]), fc.uniqueArray(fc.nat(10), { maxLength: 6 })) }), { minLength: 1, maxLength: 5 }),
    where: fc.option(
      fc.array(
        fc.record({
          key: fc.oneof({ weight: 8, arbitrary: nameArb }, { weight: 1, arbitrary: fc.constantFrom(notText, notText + 1) }),
          op: fc.oneof({ weight: 8, arbitrary: fc.nat(4) }, { weight: 1, arbitrary: fc.nat(8) }),
          v: scalar,
          kind: fc.oneof({ weight: 9, arbitrary: fc.constant(9) }, { weight: 2, arbitrary: fc.nat(4) }),
        }),
        { maxLength: 3 },
      ),
      { freq: 5 },
    ),
    order: fc.option(fc.array(fc.record({ key: nameArb, dir: fc.nat(6) }), { maxLength: 2 })),
    select: fc.option(fc.array(nameArb, { maxLength: 3 })),
    search: fc.option(fc.record({ key: nameArb, min: fc.integer({ min: -1, max: 4 }), max: fc.integer({ min: -1, max: 4 }), cfg: fc.boolean() }), { freq: 2 }),
    steer: fc.nat(5),
    // one of the names used is replaced by one much like it
    twist: fc.option(fc.record({ part: fc.nat(3), at: fc.nat(4) }), { freq: 3 }),
  })
  .map((c) => {
    const { steer, twist, ...v } = c;
    if (steer > 0) {
      // steer towards consistency: keys that exist, order by the first key
      const names = c.headers.map((h) => h.name);
      v.where?.forEach((w, i) => {
        if (w.key < notText) w.key = names[(w.key + i) % names.length];
      });
      if (v.where?.length && v.order?.length && steer > 1 && v.where[0].key < notText) v.order[0].key = v.where[0].key;
      v.select = v.select && v.select.map((s) => names[s % names.length]);
      if (v.search) v.search.key = names[v.search.key % names.length];
    }
    const near = (k: number) => {
      const g = siblings.find((g) => g.includes(k));
      return g && twist ? g[(g.indexOf(k) + 1 + (twist.at % (g.length - 1))) % g.length] : k;
    };
    if (twist) {
      const n = twist.at;
      if (twist.part === 0 && v.where?.length) v.where[n % v.where.length].key = near(v.where[n % v.where.length].key);
      if (twist.part === 1 && v.order?.length) v.order[0].key = near(v.order[0].key);
      if (twist.part === 2 && v.select?.length) v.select[n % v.select.length] = near(v.select[n % v.select.length]);
      if (twist.part === 3 && v.search) v.search.key = near(v.search.key);
    }
    return v;
  });

// ---- projection and comparison values ----

const skeys = ["a", "b", "id", "näme", "toString", "constructor", "__proto__", "", "0"];

async function judgeSelect(c: { row: [number, any][]; select: number[] | null }, ctx: Ctx) {
  const seen = new Set<number>();
  const text = "{" + c.row.filter(([k]) => !seen.has(k) && seen.add(k)).map(([k, v]) => JSON.stringify(skeys[k]) + ":" + JSON.stringify(v)).join(",") + "}";
  const row = JSON.parse(text);
  const sel = c.select?.map((k) => skeys[k]);
  const want: any = {};
  const list = sel && sel.length ? sel : Object.keys(row);
  for (const k of list) if (Object.prototype.hasOwnProperty.call(row, k)) Object.defineProperty(want, k, { value: row[k], enumerable: true, configurable: true, writable: true });
  const got = handleSelect(text, sel as any);
  ctx.nt(!!sel && sel.length > 0 && Object.keys(want).length > 0);
  if (canon(got) !== canon(want)) fail(`selecting ${JSON.stringify(sel)} of ${text} gives ${canon(got)}, want ${canon(want)}`);
}

async function judgeWhere(c: { v: any; big: string | null }, ctx: Ctx) {
  const v = c.big !== null ? BigInt(c.big) : c.v;
  const got: any = processWhere(v as never);
  let type: number, buf: Buffer;
  switch (typeOf(v)) {
    case "null":
      type = 7;
      buf = Buffer.alloc(0);
      break;
    case "boolean":
      type = 6;
      buf = Buffer.from([v ? 1 : 0]);
      break;
    case "string":
      type = 0;
      buf = Buffer.from(v as string);
      break;
    default:
      type = 3;
      buf = Buffer.alloc(8);
      buf.writeDoubleBE(Number(v));
  }
  ctx.nt(buf.length > 0);
  if (!got || got.fieldType !== type || Buffer.compare(Buffer.from(got.valueBuf), buf) !== 0) fail(`${String(v)} becomes ${JSON.stringify(got && { t: got.fieldType, b: Buffer.from(got.valueBuf).toString("hex") })}, want type ${type} and ${buf.toString("hex")}`);
}

register(
  "C26",
  "at least 3 calls (builder); an inconsistent query or one with conditions (validate); something is selected (select)",
  sub("builder", 6000, 120000, fc.record({ steps: fc.array(stepArb, { maxLength: 10 }), viaDb: fc.boolean() }), judgeBuilder),
  sub("chains", 960, 10000, fc.record({ steps: fc.array(stepArb, { minLength: 15, maxLength: 60, size: "max" }), viaDb: fc.boolean() }), judgeBuilder),
  sub("validate", 16000, 400000, validArb, judgeValid),
  sub("select", 8000, 120000, fc.record({ row: fc.array(fc.tuple(fc.nat(8), fc.oneof(scalar, fc.constant({ a: 1 }), fc.constant([1]))), { maxLength: 6 }), select: fc.option(fc.array(fc.nat(8), { maxLength: 4 }), { freq: 8 }) }), judgeSelect),
  sub("where", 4000, 60000, fc.record({ v: scalar, big: fc.option(fc.bigInt({ min: -(2n ** 70n), max: 2n ** 70n }).map(String), { freq: 5 }) }), judgeWhere),
);
