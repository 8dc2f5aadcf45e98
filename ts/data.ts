// Generated data sets and the reference reader of rows.
import fc from "fast-check";
import { prng } from "./core";

export type Val =
  | { s: string }
  | { n: string }
  | { b: boolean }
  | { z: 1 }
  | { o: [number, Val][] }
  | { a: Val[] };

export type Bulk = { n: number; seed: number; style: number };
export type DataCase = {
  names: string[];
  rows: [number, Val][][];
  bulk: Bulk | null;
  tail: string;
  cuts: number[];
};

const pool = ["a", "b", "id", "name", "näme", "x y", "toString", "constructor", "__proto__", "length", "0", "valueOf", "日本", "k_1", "", "A", "hasOwnProperty"];

// well-formed strings (no lone surrogates), some awkward
export const textArb = fc.oneof(
  { weight: 4, arbitrary: fc.constantFrom("", "a", "b", "ab", "abc", "b\u0000", "é", "e\u0301", "日本語", "😀", "\ufeff", "\uffff", "zz", "10", "9", "null", "true", " ", '"', "\\", "\n") },
  { weight: 3, arbitrary: fc.string({ unit: "grapheme", maxLength: 12 }) },
  { weight: 1, arbitrary: fc.string({ unit: "binary", maxLength: 6 }).filter((s) => s.isWellFormed()) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom("a", "xy", "é"), fc.oneof({ weight: 4, arbitrary: fc.nat(400) }, { weight: 1, arbitrary: fc.constantFrom(2048, 4080, 4096, 33000, 65536) })).map(([s, n]) => s.repeat(n)) },
);

const posNum = fc.oneof(
  { weight: 4, arbitrary: fc.nat(12).map(String) },
  { weight: 2, arbitrary: fc.maxSafeNat().map(String) },
  { weight: 2, arbitrary: fc.double({ min: 0, noNaN: true, noDefaultInfinity: true }).filter((x) => !Object.is(x, -0)).map((x) => String(x)) },
  { weight: 1, arbitrary: fc.constantFrom("0", "0.0", "1.0", "1e0", "0.1", "1E3", "1e-7", "5e-324", "1.7976931348623157e308", "9007199254740993", "18446744073709551616", "2147483648", "4294967296", "0.30000000000000004", "1e21", "123456789.125") },
);
const negNum = posNum.map((s) => (Number(s) === 0 ? "-1" : "-" + s));

export function valArb(neg: boolean, depth = 2): fc.Arbitrary<Val> {
  const leaf: fc.Arbitrary<Val> = fc.oneof(
    { weight: 4, arbitrary: textArb.map((s) => ({ s })) },
    { weight: 5, arbitrary: (neg ? fc.oneof(posNum, negNum) : posNum).map((n) => ({ n })) },
    { weight: 2, arbitrary: fc.boolean().map((b) => ({ b })) },
    { weight: 1, arbitrary: fc.constant({ z: 1 as const }) },
  );
  if (depth === 0) return leaf;
  return fc.oneof(
    { weight: 8, arbitrary: leaf },
    { weight: 1, arbitrary: fc.array(fc.tuple(fc.nat(5), valArb(neg, depth - 1)), { maxLength: 3 }).map((o) => ({ o })) },
    { weight: 1, arbitrary: fc.array(valArb(neg, depth - 1), { maxLength: 3 }).map((a) => ({ a })) },
  );
}

export function dataArb(neg: boolean, maxBulk: number, maxRows = 12): fc.Arbitrary<DataCase> {
  return fc.record({
    names: fc.uniqueArray(fc.constantFrom(...pool), { minLength: 1, maxLength: 5 }),
    rows: fc.array(fc.array(fc.tuple(fc.nat(5), valArb(neg)), { maxLength: 5 }), { maxLength: maxRows }),
    bulk:
      maxBulk === 0
        ? fc.constant(null)
        : fc.option(fc.record({ n: fc.oneof(fc.nat(40), fc.noBias(fc.nat(maxBulk)), fc.noBias(fc.nat(maxBulk))), seed: fc.nat(1 << 30), style: fc.nat(5) }), { freq: 6 }),
    tail: fc.constantFrom("", "", "", "{", '{"a":1}'),
    cuts: fc.array(fc.nat(1000), { maxLength: 3 }),
  });
}

// columns of one type each, so that queries have something to choose from
export function columnsArb(): fc.Arbitrary<DataCase> {
  const num = fc.oneof(
    fc.array(fc.nat(9).map(String), { minLength: 4, maxLength: 40 }),
    fc.array(posNum, { minLength: 4, maxLength: 24 }),
    fc.tuple(fc.constantFrom(1, 1000, 2 ** 31, 2 ** 33, 2 ** 52), fc.array(fc.nat(30), { minLength: 4, maxLength: 40 })).map(([b, xs]) => xs.map((x) => String(b + x / 2))),
  );
  const str = fc.oneof(
    fc.array(textArb, { minLength: 4, maxLength: 24 }),
    fc.array(fc.string({ unit: fc.constantFrom("a", "b", "é", "😀"), maxLength: 4 }), { minLength: 4, maxLength: 40 }),
  );
  const col: fc.Arbitrary<Val[]> = fc.oneof(
    { weight: 3, arbitrary: num.map((xs) => xs.map((n) => ({ n }))) },
    { weight: 3, arbitrary: str.map((xs) => xs.map((s) => ({ s }))) },
    { weight: 1, arbitrary: fc.array(fc.boolean(), { minLength: 4, maxLength: 24 }).map((xs) => xs.map((b) => ({ b }))) },
  );
  return fc
    .record({
      names: fc.uniqueArray(fc.constantFrom(...pool), { minLength: 3, maxLength: 3 }),
      cols: fc.array(col, { minLength: 1, maxLength: 3 }),
      nest: fc.nat(3),
      tail: fc.constantFrom("", "", "{"),
      cuts: fc.array(fc.nat(1000), { maxLength: 3 }),
    })
    .map(({ names, cols, nest, tail, cuts }) => {
      const rows: [number, Val][][] = [];
      const n = Math.max(...cols.map((c) => c.length));
      for (let i = 0; i < n; i++) {
        const r: [number, Val][] = [];
        cols.forEach((c, k) => {
          if (i < c.length) r.push([k, c[i]]);
        });
        // one level down, next to a field of the same name
        rows.push(nest === 0 && r.length > 1 ? [r[0], [1, { o: r }]] : r);
      }
      return { names, rows, bulk: null, tail, cuts };
    });
}

function render(v: Val, names: string[]): string {
  if ("s" in v) return JSON.stringify(v.s);
  if ("n" in v) return v.n;
  if ("b" in v) return String(v.b);
  if ("z" in v) return "null";
  if ("a" in v) return "[" + v.a.map((x) => render(x, names)).join(",") + "]";
  return obj(v.o, names);
}

function obj(o: [number, Val][], names: string[]): string {
  const seen = new Set<number>();
  const parts: string[] = [];
  for (const [k, v] of o) {
    const i = k % names.length;
    if (seen.has(i)) continue;
    seen.add(i);
    parts.push(JSON.stringify(names[i]) + ":" + render(v, names));
  }
  return "{" + parts.join(",") + "}";
}

function bulkRow(r: (n: number) => number, i: number, style: number, names: string[]): string {
  const word = () => {
    let s = "";
    for (let k = 0, n = 1 + r(8); k < n; k++) s += "abcdefghij"[r(10)];
    return s;
  };
  const vals: Val[] = [];
  switch (style) {
    case 0: // distinct increasing numbers and strings
      vals.push({ n: String(i) }, { s: "k" + String(i).padStart(5, "0") });
      break;
    case 1: // few distinct values
      vals.push({ n: String(r(4)) }, { s: "ab"[r(2)] }, { b: r(2) === 0 });
      break;
    case 2: // random
      vals.push({ n: String(r(1 << 30) / 8) }, { s: word() }, { b: r(3) === 0 });
      break;
    case 3: // mixed types under each name
      for (let k = 0; k < 3; k++) vals.push([{ n: String(r(50)) }, { s: word() }, { b: true }, { z: 1 as const }][r(4)]);
      break;
    case 4: // decreasing
      vals.push({ n: String(100000 - i) }, { s: "z" + String(99999 - i).padStart(5, "0") });
      break;
    default: // long strings
      vals.push({ s: word().repeat(1 + r(30)) }, { n: String(r(1000)) });
  }
  const o: [number, Val][] = vals.map((v, k) => [k, v]);
  if (r(10) === 0) o.shift();
  return obj(o, names);
}

export function linesOf(c: DataCase): string[] {
  const lines = c.rows.map((r) => obj(r, c.names));
  if (c.bulk) {
    const r = prng(c.bulk.seed);
    const more: string[] = [];
    for (let i = 0; i < c.bulk.n; i++) more.push(bulkRow(r, i, c.bulk.style, c.names));
    // some explicit rows come before, some after
    lines.splice(Math.floor(lines.length / 2), 0, ...more);
  }
  return lines;
}

export function bytesOf(c: { tail: string }, lines: string[]): Uint8Array {
  return new Uint8Array(Buffer.from(lines.map((l) => l + "\n").join("") + c.tail));
}

// cutsOf turns relative cuts into an increasing list of byte positions
export function cutsOf(c: { cuts: number[] }, len: number): number[] {
  return c.cuts.map((x) => Math.floor((x * len) / 1000)).sort((a, b) => a - b);
}

export type Scalar = string | number | boolean | null;

// occurrences lists the scalar fields of a row by dotted path
export function occurrences(row: any, path: string[] = []): [string, Scalar][] {
  const out: [string, Scalar][] = [];
  for (const k of Object.keys(row)) {
    const v = row[k];
    const p = [...path, k];
    if (v !== null && typeof v === "object") {
      if (!Array.isArray(v)) out.push(...occurrences(v, p));
    } else out.push([p.join("."), v]);
  }
  return out;
}

export function typeOf(v: any): string {
  return v === null ? "null" : typeof v === "bigint" ? "number" : typeof v;
}

export function compareScalar(a: Scalar, b: Scalar): number {
  if (a === null) return 0;
  if (typeof a === "string") return Buffer.compare(Buffer.from(a), Buffer.from(b as string));
  return Number(a) < Number(b) ? -1 : Number(a) > Number(b) ? 1 : 0;
}
