// C21: file and index metadata as the client sees them.
import fc from "fast-check";
import { init } from "@repo/index";
import { IndexFile } from "@repo/file/index-file";
import { collectIndexMetas, readFileMeta, readIndexMeta } from "@repo/file/meta";
import { ReadMultiBPTree } from "@repo/file/multi";
import { Ctx, Go, b64, fail, memResolver, register, sub, unb64, ab } from "./core";
import { DataCase, bytesOf, cutsOf, dataArb, linesOf } from "./data";
import { buildIndex } from "./query";

type C21 = { data: DataCase; extra: number; search: boolean; csv: boolean; long: string };

function eq(what: string, got: any, want: any) {
  const s = (x: any) => JSON.stringify(x, (_k, v) => (typeof v === "bigint" ? v.toString() + "n" : v));
  if (s(got) !== s(want)) fail(`${what} is ${s(got)}, want ${s(want)}`);
}

async function judgeFile(c: C21, ctx: Ctx) {
  let lines = linesOf(c.data);
  if (c.extra) {
    const o: string[] = [];
    for (let i = 0; i < c.extra; i++) o.push(`"f${i}":${["1", '"x"', "true", "null", '{"y":1}', "[1]"][i % 6]}`);
    if (c.long) o.push(JSON.stringify(c.long) + ":1");
    lines.push("{" + o.join(",") + "}", "{" + o.slice(0, 3).join(",") + "}");
  }
  let data = bytesOf(c.data, lines);
  let r: any;
  if (c.csv) {
    const cols = Math.max(1, c.extra);
    const row = (f: (i: number) => string) => Array.from({ length: cols }, (_, i) => f(i)).join(",") + "\n";
    data = new Uint8Array(Buffer.from(row((i) => "c" + i) + row((i) => ["1", "x", "true", "2.5"][i % 4]) + row((i) => ["y", "3", "4", "z"][i % 4])));
    r = await Go.ask({ op: "index", data: b64(data), csv: true, cuts: [] });
    if (r.err) fail("the indexer failed: " + r.err);
  } else {
    r = await buildIndex(data, c.search ? [c.data.names[0]] : [], cutsOf(c.data, data.length));
  }
  const index = unb64(r.index);
  const slots: any[] = r.slots ?? [];
  const name = (s: any) => Buffer.from(s.name, "base64").toString();
  ctx.label("slot-pages:" + Math.floor((slots.length + 14) / 15));
  ctx.label(c.csv ? "csv" : "jsonl");
  ctx.nt(slots.length >= 3);

  const file = await IndexFile.forResolver(memResolver(index));
  const m = await file.metadata();
  eq("version", m.version, r.version);
  eq("format", m.format, r.format);
  eq("position", String(m.readOffset), r.read);
  eq("entries", String(m.entries), r.entries);

  const want = new Map<string, number[]>();
  for (const s of slots) want.set(name(s), [...(want.get(name(s)) ?? []), s.type]);
  const headers = [...want].map(([fieldName, fieldTypes]) => ({ fieldName, fieldTypes }));
  eq("index headers", (await file.indexHeaders()).map((h) => ({ fieldName: h.fieldName, fieldTypes: h.fieldTypes })), headers);
  eq("index headers when asked again", (await file.indexHeaders()).length, headers.length);
  const both = await IndexFile.forResolver(memResolver(index));
  for (const hs of await Promise.all([both.indexHeaders(), both.indexHeaders()])) eq("index headers asked for twice at once", hs.map((h) => ({ fieldName: h.fieldName, fieldTypes: h.fieldTypes })), headers);
  const db: any = await init(memResolver(data), memResolver(index));
  eq("fields", (await db.fields()).map((h: any) => ({ fieldName: h.fieldName, fieldTypes: h.fieldTypes })), headers);

  // slot by slot
  let p: any = await ReadMultiBPTree(memResolver(index), 0).next();
  for (let i = 0; i < slots.length; i++) {
    const s = slots[i];
    if (!p) fail(`the client sees ${i} of ${slots.length} slots`);
    const im = readIndexMeta(await p.metadata());
    eq(`slot ${i}`, [im.fieldName, im.fieldType, im.width, String(im.totalFieldValueLength)], [name(s), s.type, s.width, s.total]);
    const root = await p.root();
    eq(`root of slot ${i}`, [String(root.offset), root.length], [s.root, s.rootl]);
    p = await p.next();
  }
  if (p) fail(`the client sees more than ${slots.length} slots`);

  // seek finds exactly the slots of a field and type
  for (const s of slots.filter((_x, i) => i % 7 === 0)) {
    const found = await file.seek(name(s), s.type);
    eq(`slots for ${name(s)}/${s.type}`, await Promise.all(found.map(async (f: any) => String((await f.root()).offset))), slots.filter((x) => name(x) === name(s) && x.type === s.type).map((x) => x.root));
  }
}

type Meta = { name: string; type: number; width: number; total: string; version: number; format: number; read: string; entries: string };

async function judgeMeta(c: Meta, ctx: Ctx) {
  const raw = Buffer.from(c.name);
  let r = await Go.ask({ op: "indexmeta", data: b64(raw), n: c.type, width: c.width, keys: [{ o: c.total, l: 0 }] });
  if (r.err) fail(r.err);
  const im = readIndexMeta(ab(unb64(r.bufs[0])));
  eq("index metadata", [im.fieldName, im.fieldType, im.width, String(im.totalFieldValueLength)], [c.name, c.type, c.width, c.total]);
  ctx.nt(raw.length > 3 && BigInt(c.total) > 127n);
  ctx.label("total>2^31", BigInt(c.total) >= 2n ** 31n);
  ctx.label("entries>2^31", BigInt(c.entries) >= 2n ** 31n);
  r = await Go.ask({ op: "filemeta", n: c.version, width: c.format, keys: [{ o: c.read, l: 0 }], ptrs: [{ o: c.entries, l: 0 }] });
  if (r.err) fail(r.err);
  const fm = await readFileMeta(ab(unb64(r.bufs[0])));
  eq("file metadata", [fm.version, fm.format, String(fm.readOffset), String(fm.entries)], [c.version, c.format, c.read, c.entries]);
  // bytes that cannot be metadata are refused
  for (const [what, f] of [
    ["file", () => readFileMeta(ab(unb64(r.bufs[0]).subarray(0, 9)))],
    ["format", () => readFileMeta(ab(Uint8Array.from([...unb64(r.bufs[0])].map((b, i) => (i === 1 ? 7 : b)))))],
  ] as const) {
    let ok = false;
    try {
      await f();
      ok = true;
    } catch {}
    if (ok) fail(`invalid ${what} metadata is accepted`);
  }
}

type Linked = { slots: { name: number; type: number; width: number; total: string; root: string; rootl: number }[]; cuts: number[]; offs: string[] };

// The linked pages of an index of any size: written here byte by byte, the page and root
// offsets far beyond what a test file reaches.
async function judgeLinked(c: Linked, ctx: Ctx) {
  const per: Linked["slots"][] = [];
  let left = [...c.slots];
  for (let i = 0; left.length; i++) per.push(left.splice(0, 1 + (c.cuts.length ? c.cuts[i % c.cuts.length] % 15 : 14)));
  const pages = new Map<number, Uint8Array>();
  const offs: bigint[] = [];
  for (const o of c.offs) {
    const v = (BigInt(o) / 4096n) * 4096n;
    if (v >= 8192n && !offs.includes(v)) offs.push(v);
  }
  for (let k = offs.length; offs.length < per.length; k++) {
    const v = 8192n + 4096n * BigInt(3 * k) + (k % 2 ? 2n ** 44n : 0n);
    if (!offs.includes(v)) offs.push(v);
  }
  const names = ["a", "b", "näme", "x y", "", "日本", "n".repeat(200)];
  const write = (at: bigint, next: bigint, slots: { root: bigint; rootl: number; meta: Uint8Array }[]) => {
    const b = Buffer.alloc(4096);
    b.writeBigUInt64LE(next, 0);
    b[8] = slots.length;
    slots.forEach((s, i) => {
      const o = 9 + i * 265;
      b.writeBigUInt64LE(s.root, o);
      b.writeUInt32LE(s.rootl, o + 8);
      b[o + 12] = s.meta.length;
      b.set(s.meta, o + 13);
    });
    pages.set(Number(at), new Uint8Array(b));
  };
  const fm = await Go.ask({ op: "filemeta", n: 1, width: 0, keys: [{ o: "77", l: 0 }], ptrs: [{ o: "5", l: 0 }] });
  write(4096n, per.length ? offs[0] : 2n ** 64n - 1n, [{ root: 0n, rootl: 0, meta: unb64(fm.bufs[0]) }]);
  for (let i = 0; i < per.length; i++) {
    const slots: any[] = [];
    for (const s of per[i]) {
      const r = await Go.ask({ op: "indexmeta", data: b64(Buffer.from(names[s.name])), n: s.type, width: s.width, keys: [{ o: s.total, l: 0 }] });
      if (r.err) fail(r.err);
      slots.push({ root: BigInt(s.root), rootl: s.rootl, meta: unb64(r.bufs[0]) });
    }
    write(offs[i], i + 1 < per.length ? offs[i + 1] : 2n ** 64n - 1n, slots);
  }
  const resolver: any = async (rs: any[]) =>
    rs.map(({ start, end }) => {
      const at = Math.floor(start / 4096) * 4096;
      const p = pages.get(at);
      if (!p) throw new Error(`there is no page at ${start}`);
      return { data: ab(p.subarray(start - at, end - at + 1)), totalLength: 2 ** 53 };
    });
  ctx.nt(per.length >= 2);
  ctx.label("pages:" + Math.min(per.length, 4));
  ctx.label("page>2^32", offs.slice(0, per.length).some((o) => o >= 2n ** 32n));
  ctx.label("root>2^32", c.slots.some((s) => BigInt(s.root) >= 2n ** 32n));
  const file = await IndexFile.forResolver(resolver);
  const flat = per.flat();
  let p: any = await ReadMultiBPTree(resolver, 0).next();
  for (let i = 0; i < flat.length; i++) {
    const s = flat[i];
    if (!p) fail(`the client sees ${i} of ${flat.length} slots`);
    const im = readIndexMeta(await p.metadata());
    eq(`slot ${i}`, [im.fieldName, im.fieldType, im.width, String(im.totalFieldValueLength)], [names[s.name], s.type, s.width, s.total]);
    const root = await p.root();
    eq(`root of slot ${i}`, [String(root.offset), root.length], [s.root, s.rootl]);
    p = await p.next();
  }
  if (p) fail(`the client sees more than ${flat.length} slots`);
  const want = new Map<string, number[]>();
  for (const s of flat) want.set(names[s.name], [...(want.get(names[s.name]) ?? []), s.type]);
  eq("index headers", (await file.indexHeaders()).map((h) => ({ fieldName: h.fieldName, fieldTypes: h.fieldTypes })), [...want].map(([fieldName, fieldTypes]) => ({ fieldName, fieldTypes })));
  for (const s of flat.slice(0, 2)) {
    const same = flat.filter((x) => x.name === s.name && (s.type === 3 ? [1, 2, 3].includes(x.type) : x.type === s.type));
    const found = await file.seek(names[s.name], s.type);
    eq(`slots for ${names[s.name]}/${s.type}`, await Promise.all(found.map(async (f: any) => String((await f.root()).offset))), same.map((x) => x.root));
  }
}

export const count = fc.oneof(
  fc.nat(300).map(BigInt),
  fc.tuple(fc.integer({ min: 0, max: 52 }), fc.integer({ min: -2, max: 2 })).map(([e, d]) => {
    const v = 2n ** BigInt(e) + BigInt(d);
    return v < 0n ? 0n : v;
  }),
  fc.bigInt({ min: 0n, max: 2n ** 53n - 1n }),
  fc.bigInt({ min: 2n ** 31n - 5n, max: 2n ** 35n }),
);

register(
  "C21",
  "at least 3 slots (files); a name of more than 3 bytes and a total over 127 (meta)",
  sub(
    "files",
    1600,
    40000,
    fc.record({
      data: dataArb(true, 30, 6),
      extra: fc.oneof(fc.constant(0), fc.nat(4), fc.nat(60)),
      search: fc.boolean(),
      csv: fc.nat(7).map((x) => x === 0),
      long: fc.oneof(fc.constant(""), fc.nat(236).map((n) => "q".repeat(n)), fc.string({ unit: "grapheme", maxLength: 20 }).filter((s) => !s.startsWith("f") && Buffer.byteLength(s) <= 236)),
    }),
    judgeFile,
  ),
  sub(
    "linked",
    3000,
    60000,
    fc.record({
      slots: fc.array(
        fc.record({
          name: fc.nat(6),
          type: fc.nat(10),
          width: fc.nat(65535),
          total: count.map(String),
          root: fc.oneof(count, fc.bigInt({ min: 0n, max: 2n ** 64n - 1n })).map(String),
          rootl: fc.oneof(fc.nat(4096), fc.integer({ min: 0, max: 2 ** 32 - 1 })),
        }),
        { maxLength: 40 },
      ),
      cuts: fc.array(fc.nat(14), { maxLength: 4 }),
      offs: fc.array(count.map(String), { maxLength: 6 }),
    }),
    judgeLinked,
  ),
  sub(
    "meta",
    8000,
    120000,
    fc.record({
      name: fc.oneof(fc.string({ unit: "grapheme", maxLength: 30 }), fc.nat(230).map((n) => "n".repeat(n)), fc.constantFrom("", "\ufeffa", "日本", "a.b")).filter((s) => s.isWellFormed()),
      type: fc.nat(11),
      width: fc.oneof(fc.nat(10), fc.nat(65535)),
      total: count.map(String),
      version: fc.nat(255),
      format: fc.nat(1),
      read: fc.oneof(count, fc.bigInt({ min: 0n, max: 2n ** 64n - 1n })).map(String),
      entries: count.map(String),
    }),
    judgeMeta,
  ),
);
void collectIndexMetas;
