// C23 (integers and tree pages), C24 (HTTP range responses), C25 (caching resolver).
import fc from "fast-check";
import { BPTreeNode } from "@repo/bptree/node";
import { cache } from "@repo/resolver/cache";
import { LengthIntegrityError } from "@repo/resolver/resolver";
import { requestRanges } from "@repo/resolver/range-request";
import { decodeUvarint, encodeUvarint } from "@repo/util/uvarint";
import { Ctx, Go, ab, b64, fail, prng, register, sub, unb64 } from "./core";
import { count } from "./metadata";
import { textArb } from "./data";

// ---- C23 ----

async function judgeInts(c: { ints: string[]; tail: number[] }, ctx: Ctx) {
  const r = await Go.ask({ op: "uvarint", ints: c.ints });
  if (r.err) fail(r.err);
  c.ints.forEach((s, i) => {
    const raw = unb64(r.bufs[i]);
    const v = Number(s);
    const d = decodeUvarint(ab(Uint8Array.from([...raw, ...c.tail])));
    if (d.value !== v || d.bytesRead !== raw.length) fail(`${s} written as ${[...raw]} decodes to ${d.value} (${d.bytesRead} bytes)`);
    const e = new Uint8Array(encodeUvarint(v));
    if (Buffer.compare(Buffer.from(e), Buffer.from(raw)) !== 0) fail(`${s} encodes to ${[...e]}, the indexer writes ${[...raw]}`);
    // an integer cut short is not decoded as a value
    for (let k = 0; k < raw.length; k++) {
      const t = decodeUvarint(ab(raw.subarray(0, k)));
      if (t.bytesRead > 0) fail(`the first ${k} of ${raw.length} bytes of ${s} decode to ${t.value}`);
    }
    ctx.nt(v >= 128);
    ctx.label("over-2^31", v >= 2 ** 31);
    ctx.label("over-2^35", v >= 2 ** 35);
  });
}

type PageCase = { leaf: boolean; width: number; n: number; keys: { o: string; l: number; b: number[] }[]; strs: string[]; last: string; at: number };

async function judgePage(c: PageCase, ctx: Ctx) {
  const width = c.width;
  const csvType = 0;
  // width 0: keys are strings resolved from the data file
  let data = "";
  const keys: any[] = [];
  const ptrs: any[] = [];
  const values: Buffer[] = [];
  let size = 4;
  const vlen = (x: bigint) => {
    let n = 1;
    for (; x >= 128n; x >>= 7n) n++;
    return n;
  };
  for (let i = 0; i < c.n && c.keys.length; i++) {
    const k = c.keys[i % c.keys.length];
    let v: Buffer, o: string, l: number;
    if (width === 0) {
      const str = c.strs.length ? c.strs[i % c.strs.length] : "x";
      o = String(Buffer.byteLength(data));
      const text = JSON.stringify(str);
      l = Buffer.byteLength(text);
      data += text + ",";
      v = Buffer.from(str);
    } else {
      o = k.o;
      l = k.l;
      v = Buffer.alloc(width - 1);
      for (let j = 0; j < v.length; j++) v[j] = k.b[(i + j) % k.b.length];
    }
    const p = c.keys[(i * 7 + 1) % c.keys.length];
    const add = vlen(BigInt(o)) + vlen(BigInt(l)) + (width ? v.length : 0) + vlen(BigInt(p.o)) + (c.leaf ? vlen(BigInt(p.l)) : 0);
    if (size + add + 10 > 4096) break;
    size += add;
    keys.push({ o, l, v: b64(v) });
    values.push(v);
    ptrs.push({ o: p.o, l: c.leaf ? p.l : 0 });
  }
  if (keys.length === 0) return;
  if (!c.leaf) ptrs.push({ o: c.last, l: 0 });
  const r = await Go.ask({ op: "page", width, leaf: c.leaf, keys, ptrs });
  if (r.err) fail(r.err);
  const page = unb64(r.bufs[0]);
  const at = c.at * 4096;
  const file = new Uint8Array(at + 4096 + 50).fill(0xa5);
  file.set(page, at);
  const dataBytes = new Uint8Array(Buffer.from(data));
  const resolver = (buf: Uint8Array) => async (rs: any[]) => rs.map(({ start, end }) => ({ data: ab(buf.subarray(start, end + 1)), totalLength: buf.length }));
  const { node } = await BPTreeNode.fromMemoryPointer({ offset: BigInt(at), length: 4096 }, resolver(file) as any, resolver(dataBytes) as any, 0 as any, csvType as any, width);
  ctx.nt(keys.length >= 2);
  ctx.label(c.leaf ? "leaf" : "internal");
  ctx.label("width:" + (width === 0 ? "0" : width < 10 ? "1-9" : "10+"));
  ctx.label("full-page", size > 3900);
  if (node.leaf() !== c.leaf) fail(`a ${c.leaf ? "leaf" : "internal"} page decodes as the other kind`);
  if (node.keys.length !== keys.length || node.numPointers() !== ptrs.length) fail(`page decodes to ${node.keys.length} keys and ${node.numPointers()} pointers, want ${keys.length} and ${ptrs.length}`);
  keys.forEach((k, i) => {
    const got = node.keys[i];
    if (String(got.dataPointer.offset) !== k.o || got.dataPointer.length !== k.l) fail(`key ${i} points to ${got.dataPointer.offset}+${got.dataPointer.length}, want ${k.o}+${k.l}`);
    if (Buffer.compare(Buffer.from(got.value), values[i]) !== 0) fail(`key ${i} has value ${Buffer.from(got.value).toString("hex")}, want ${values[i].toString("hex")}`);
  });
  ptrs.forEach((p, i) => {
    const got = node.pointer(i);
    if (String(got.offset) !== p.o || got.length !== p.l) fail(`pointer ${i} is ${got.offset}+${got.length}, want ${p.o}+${p.l}`);
  });
}

const num = count.map(String);

register(
  "C23",
  "an integer of at least two bytes (integers); a page of at least 2 keys (pages)",
  sub("integers", 16000, 400000, fc.record({ ints: fc.array(num, { minLength: 1, maxLength: 6 }), tail: fc.array(fc.nat(255), { maxLength: 3 }) }), judgeInts),
  sub(
    "pages",
    6000,
    120000,
    fc.record({
      leaf: fc.boolean(),
      width: fc.oneof(fc.constantFrom(0, 0, 1, 2, 3, 4, 9), fc.nat(40)),
      n: fc.oneof(fc.nat(8), fc.nat(1500)),
      keys: fc.array(fc.record({ o: num, l: fc.oneof(fc.nat(300), fc.nat(2 ** 31 - 1), fc.integer({ min: 2 ** 31 - 2, max: 2 ** 32 - 1 })), b: fc.array(fc.nat(255), { minLength: 1, maxLength: 9 }) }), { minLength: 1, maxLength: 6 }),
      strs: fc.array(textArb, { maxLength: 5 }),
      last: num,
      at: fc.nat(3),
    }),
    judgePage,
  ),
);

// ---- C24 ----

type Http = {
  len: number;
  far: number; // the bytes above are the end of a resource that has so many bytes before them
  seed: number;
  inject: number[]; // places where boundary-like text is put into the resource
  ranges: [number, number][];
  boundary: string;
  quoted: boolean;
  style: number; // header spelling and order
  lead: number; // CRLFs before the first boundary
  epilogue: string;
  chunks: number[];
  mode: "multi" | "multi" | "plain" | "noconfig" | "ignore" | "one" | "status" | "416" | "truncated" | "missing" | "swapped" | "badrange";
  status: number;
  cut: number;
  expect?: number[]; // C34: how far the expected length of each range is off, 9 for none expected
};

// a response body delivered in the given chunk sizes; reading on and on after the end
// is an error of the reader
function streamOf(body: Uint8Array, chunks: number[]): ReadableStream {
  let pos = 0;
  let k = 0;
  const s = new ReadableStream({
    pull(ctl) {
      if (pos >= body.length) return ctl.close();
      let n = chunks.length ? chunks[k++ % chunks.length] : body.length;
      // an all-zero list of sizes would never end
      if (n === 0 && k > 2 * chunks.length && !chunks.some((x) => x > 0)) n = 1;
      ctl.enqueue(body.slice(pos, pos + n));
      pos += n;
    },
  });
  const get = s.getReader.bind(s) as any;
  (s as any).getReader = (...a: any[]) => {
    const r = get(...a);
    const read = r.read.bind(r);
    let after = 0;
    r.read = async (...b: any[]) => {
      const x = await read(...b);
      if (x.done && ++after > 100) throw new Error("NEVER-ENDS: the body is read again and again after its end");
      return x;
    };
    return r;
  };
  return s;
}

async function judgeHttp(c: Http, ctx: Ctx) {
  const rnd = prng(c.seed);
  const res = new Uint8Array(c.len);
  for (let i = 0; i < c.len; i++) res[i] = c.seed % 3 === 0 ? rnd(256) : "\r\n-ab"[rnd(5)].charCodeAt(0);
  const marks = ["\r\n--" + c.boundary, "\r\n--" + c.boundary + "--\r\n", "--" + c.boundary + "\r\nContent-Range: bytes 0-1/2\r\n\r\n", "\r\n\r\n", c.boundary];
  for (const at of c.inject) {
    const b = Buffer.from(marks[at % marks.length]);
    const pos = at % c.len;
    res.set(b.subarray(0, Math.min(b.length, c.len - pos)), pos);
  }
  let ranges = c.ranges.map(([a, n]) => {
    const start = a % (c.len - 1);
    return { start, end: start + 1 + n };
  });
  if (c.mode === "badrange") ranges[c.cut % ranges.length] = { start: ranges[0].start + 5, end: ranges[0].start + 4 - (c.cut % 3) };
  const one = ranges.length === 1;
  const far = c.mode === "ignore" ? 0 : c.far ?? 0;
  const total = far + c.len;
  const expected = (i: number): number | undefined => {
    const d = c.expect?.length ? c.expect[i % c.expect.length] : 9;
    return d === 9 || total + d <= 0 ? undefined : total + d;
  };
  const changed = ranges.some((_r, i) => expected(i) !== undefined && expected(i) !== total);
  const clip = (r: { start: number; end: number }) => res.subarray(r.start, r.end + 1);
  const crange = (r: { start: number; end: number }) => `bytes ${far + r.start}-${far + Math.min(r.end, c.len - 1)}/${total}`;

  const multipart = (rs: { start: number; end: number }[]) => {
    const bufs: Buffer[] = [];
    const crName = ["Content-Range", "Content-range", "content-range", "CONTENT-RANGE"][c.style % 4];
    rs.forEach((r, i) => {
      const h = [`${crName}: ${crange(r)}`, ["Content-Type: text/plain", "Content-type: application/octet-stream; charset=utf-8", "X-Time: 10:11:12"][(c.style >> 2) % 3]];
      if ((c.style >> 5) % 3 === 0) h.pop();
      if ((c.style >> 4) % 2) h.reverse();
      bufs.push(Buffer.from((i === 0 ? "\r\n".repeat(c.lead) : "\r\n") + "--" + c.boundary + "\r\n" + h.join("\r\n") + "\r\n\r\n"), Buffer.from(clip(r)));
    });
    bufs.push(Buffer.from("\r\n--" + c.boundary + "--" + c.epilogue));
    return new Uint8Array(Buffer.concat(bufs));
  };
  const ctype = `multipart/byteranges; boundary=${c.quoted || /[^-A-Za-z0-9_.]/.test(c.boundary) ? `"${c.boundary}"` : c.boundary}`;
  const reply = (status: number, headers: Record<string, string>, body: Uint8Array) => {
    const r: any = new Response([204, 304].includes(status) ? null : streamOf(body, c.chunks), { status, headers });
    return r as Response;
  };
  const requests: string[] = [];
  const parse = (h: string) => h.replace("bytes=", "").split(",").map((s) => ({ start: Number(s.split("-")[0]) - far, end: Number(s.split("-")[1]) - far }));
  const truncated = { full: false };
  const fetcher = async (_url: any, opts: any): Promise<Response> => {
    const h = new Headers(opts?.headers);
    const want = h.get("Range");
    requests.push(String(want));
    const rs = parse(String(want));
    const single = () => reply(206, { "Content-Range": crange(rs[0]), "Content-Type": "application/octet-stream" }, clip(rs[0]).slice());
    const errorBody = new Uint8Array(Buffer.from("<html>error</html>".repeat(3)));
    switch (c.mode) {
      case "noconfig":
        return single();
      case "status":
        return reply(c.status, c.cut % 2 ? { "Content-Type": "text/html" } : { "Content-Type": "text/html", "Content-Range": `bytes */${total}` }, errorBody);
      case "416":
        return reply(416, { "Content-Range": `bytes */${total}` }, errorBody);
      case "ignore": // no ranges in one response; ranges asked for singly are served
        return requests.length === 1 ? reply(200, { "Content-Type": "text/plain" }, res.slice()) : single();
      case "one": // the server serves only the first of several ranges
        return single();
      case "plain":
        return rs.length === 1 ? single() : reply(206, { "Content-Type": ctype }, multipart(rs));
      case "truncated": {
        if (rs.length === 1 && c.cut % 2 === 0) {
          const b = clip(rs[0]).slice();
          return reply(206, { "Content-Range": crange(rs[0]), "Content-Type": "text/plain" }, b.subarray(0, c.cut % b.length));
        }
        const b = multipart(rs);
        // whether all data is there in spite of the cut
        const cut = c.cut % b.length;
        truncated.full = cut >= b.length - ("\r\n--" + c.boundary + "--" + c.epilogue).length;
        return reply(206, { "Content-Type": ctype }, b.subarray(0, cut));
      }
      case "missing": // a part is left out
        return reply(206, { "Content-Type": ctype }, multipart(rs.filter((_, i) => i !== c.cut % rs.length)));
      case "swapped":
        return reply(206, { "Content-Type": ctype }, multipart([...rs].reverse()));
      default:
        return reply(206, { "Content-Type": ctype }, multipart(rs));
    }
  };
  const old = globalThis.fetch;
  globalThis.fetch = fetcher as any;
  let got: { data: ArrayBuffer; totalLength: number }[] | null = null;
  let err: any = null;
  try {
    const asked = ranges.map((r) => ({ start: far + r.start, end: far + r.end }));
    got = await requestRanges("http://test/x", c.expect ? asked.map((r, i) => ({ ...r, expectedLength: expected(i) })) : asked, c.mode === "noconfig" || (c.mode === "status" && c.seed % 2 === 0) ? { useMultipartByteRanges: false } : c.seed % 5 === 0 ? {} : { useMultipartByteRanges: true });
  } catch (e) {
    err = e;
  } finally {
    globalThis.fetch = old;
  }
  ctx.label("mode:" + c.mode);
  ctx.label("far", far > 0);
  ctx.label("ranges:" + Math.min(ranges.length, 3));
  if (c.expect) ctx.nt(changed);
  else ctx.nt(ranges.length >= 2 || c.chunks.length > 1 || ["status", "416", "truncated"].includes(c.mode));
  if (err && String(err.message ?? err).startsWith("NEVER-ENDS")) fail("parsing does not terminate: " + err.message);
  const exact = () => {
    if (!got) fail(`failed with ${err?.stack ?? err}`);
    if (got!.length !== ranges.length) fail(`${got!.length} results for ${ranges.length} ranges`);
    ranges.forEach((r, i) => {
      const w = Buffer.from(clip(r));
      const g = Buffer.from(got![i].data);
      if (Buffer.compare(w, g) !== 0) fail(`range ${far + r.start}-${far + r.end}: got ${g.length} bytes ${JSON.stringify(g.subarray(0, 60).toString("latin1"))}, want ${w.length} bytes ${JSON.stringify(w.subarray(0, 60).toString("latin1"))}`);
      if (got![i].totalLength !== total) fail(`range ${i}: total length ${got![i].totalLength}, want ${total}`);
    });
  };
  if (changed) {
    if (got) fail(`a resource of length ${total} is returned as data although the ranges expect lengths ${ranges.map((_r, i) => expected(i))}`);
    if (!(err instanceof LengthIntegrityError)) fail(`a resource of another length than expected fails with ${err?.stack ?? err}`);
    return;
  }
  switch (c.mode) {
    case "status":
    case "416":
    case "badrange":
      if (got) fail(`${c.mode} ${c.mode === "status" ? c.status : ""} is returned as data: ${got.map((g) => Buffer.from(g.data).toString("latin1").slice(0, 40))}`);
      return;
    case "truncated":
    case "missing":
    case "swapped":
      // an error, or the right bytes
      if (!got && !(c.mode === "truncated" && truncated.full) && !(c.mode === "swapped" && one)) return;
      if (!got && c.mode === "truncated") return; // all parts complete, final delimiter cut
      return exact();
    case "one":
      if (!got && !one) return;
      return exact();
    default:
      return exact();
  }
}

const farPart: fc.Arbitrary<number> = fc.oneof(
  { weight: 5, arbitrary: fc.constant(0) },
  // ranges on both sides of 2^31 and 2^32, or far beyond
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom(2 ** 31, 2 ** 32), fc.nat(400)).map(([b, d]) => b - d) },
  { weight: 1, arbitrary: fc.oneof(fc.nat(2 ** 32), fc.integer({ min: 2 ** 32, max: 2 ** 52 })) },
);

const bchars = "abcXYZ0189'()+_,-./:=?";
const httpArb = (modes: Http["mode"][], big = false): fc.Arbitrary<Http> =>
  fc.record({
    len: big ? fc.oneof(fc.integer({ min: 60000, max: 70000 }), fc.integer({ min: 20000, max: 400000 })) : fc.oneof(fc.integer({ min: 2, max: 200 }), fc.integer({ min: 2, max: 20000 })),
    far: farPart,
    seed: fc.nat(1 << 30),
    inject: fc.array(fc.nat(100000), { maxLength: 4 }),
    ranges: big
      ? fc.array(fc.tuple(fc.nat(400000), fc.oneof(fc.nat(20), fc.nat(9000), fc.constantFrom(4095, 65535, 65536, 200000))), { minLength: 1, maxLength: 40, size: "max" })
      : fc.array(fc.tuple(fc.nat(30000), fc.oneof(fc.nat(20), fc.nat(9000))), { minLength: 1, maxLength: 5 }),
    boundary: fc.oneof(fc.constantFrom("3d6b6a416f9b5", "00000000000000000001", "-", "--", "a", "THIS_STRING_SEPARATES"), fc.string({ unit: fc.constantFrom(...bchars), minLength: 1, maxLength: 70 })),
    quoted: fc.boolean(),
    style: fc.nat(400),
    lead: fc.nat(2),
    epilogue: fc.constantFrom("", "\r\n", "\r\n", "\r\nthe end\r\n"),
    chunks: big ? fc.array(fc.oneof(fc.constantFrom(1024, 4096, 8192, 16384, 65536), fc.integer({ min: 100, max: 30000 })), { maxLength: 6 }) : fc.oneof(
      fc.constant([]),
      fc.constant([1]),
      fc.array(fc.oneof(fc.nat(3), fc.nat(100), fc.constantFrom(4095, 4096, 4097, 10000)), { minLength: 1, maxLength: 6 }),
    ),
    mode: fc.constantFrom(...modes),
    status: fc.constantFrom(400, 401, 403, 404, 410, 429, 500, 502, 503, 304),
    cut: fc.nat(1 << 20),
  });

// ---- C25 ----

type CacheCase = {
  len: number;
  far: number; // so many bytes come before those
  events: ({ e: "ask"; r: [number, number][]; x: number } | { e: "reply"; i: number; ok: boolean } | { e: "settle" })[];
};

async function tick() {
  for (let i = 0; i < 4; i++) await new Promise((r) => setImmediate(r));
}

async function judgeCache(c: CacheCase, ctx: Ctx) {
  const buf = new Uint8Array(c.len);
  const far = c.far ?? 0;
  const total = far + c.len;
  const rnd = prng(c.len * 7 + 1);
  for (let i = 0; i < c.len; i++) buf[i] = rnd(256);
  type Pending = { ranges: { start: number; end: number; expectedLength?: number }[]; ok: (x: any) => void; no: (e: any) => void };
  let pending: Pending[] = [];
  let calls = 0;
  let failures = 0;
  const under = (ranges: any[]) => {
    calls++;
    return new Promise<any>((ok, no) => pending.push({ ranges: ranges.map((r) => ({ ...r })), ok, no }));
  };
  const serve = (p: Pending, good: boolean) => {
    if (!good) {
      failures++;
      return p.no(new Error("the underlying resolver failed"));
    }
    if (p.ranges.some((r) => r.expectedLength && r.expectedLength !== total)) return p.no(new Error("length integrity error"));
    p.ok(p.ranges.map((r) => ({ data: ab(buf.subarray(r.start - far, r.end - far + 1)), totalLength: total })));
  };
  const resolver = cache(under as any);
  type Ask = { ranges: { start: number; end: number; expectedLength?: number }[]; bad: boolean; failuresBefore: number; clean: boolean; res: any; err: any; done: boolean };
  const asks: Ask[] = [];
  // ranges whose bytes have been asked for, and not lost to a failure
  let asked: [number, number][] = [];
  let sinceFailure = true;
  const lenOf = (r: { start: number; end: number }) => r.end - r.start + 1;
  const ask = async (ranges: { start: number; end: number; expectedLength?: number }[], bad: boolean) => {
    const a: Ask = { ranges, bad, failuresBefore: failures, clean: pending.length === 0, res: null, err: null, done: false };
    asks.push(a);
    const before = calls;
    const contained = !bad && sinceFailure && ranges.every((r) => asked.some(([s, e]) => s <= r.start && r.end <= e));
    let p: Promise<any>;
    try {
      p = Promise.resolve(resolver(ranges.map((r) => ({ ...r }))));
    } catch (e) {
      p = Promise.reject(e);
    }
    p.then(
      (x) => ((a.res = x), (a.done = true)),
      (e) => ((a.err = e), (a.done = true)),
    );
    await tick();
    if (contained && calls !== before) fail(`range ${JSON.stringify(ranges)} lies within ranges already asked for, but is asked for again`);
    ctx.label("contained", contained);
    if (!bad) asked.push(...ranges.map((r) => [r.start, r.end] as [number, number]));
  };
  for (const ev of c.events) {
    if (ev.e === "ask") {
      const ranges = ev.r.map(([a, n]) => {
        const start = a % c.len;
        return { start: far + start, end: far + (ev.x === 3 ? start + n : Math.min(start + n, c.len - 1)), ...(ev.x === 1 ? { expectedLength: total } : ev.x === 2 ? { expectedLength: total + 1 } : {}) };
      });
      await ask(ranges, ev.x === 2);
    } else if (ev.e === "reply") {
      if (pending.length) {
        const [p] = pending.splice(ev.i % pending.length, 1);
        if (!ev.ok) {
          sinceFailure = false;
          asked = [];
        }
        serve(p, ev.ok);
        await tick();
      }
    } else {
      while (pending.length) {
        serve(pending.shift()!, true);
        await tick();
      }
      // everything has settled: what is asked for from here on counts again
      asked = [];
      sinceFailure = true;
    }
  }
  while (pending.length) {
    serve(pending.shift()!, true);
    await tick();
  }
  const hadFailures = failures;
  // with a working resolver every earlier request can now be made and succeeds
  for (const a of [...asks].filter((x) => !x.bad)) {
    const b = asks.length;
    await ask(a.ranges, false);
    while (pending.length) {
      serve(pending.shift()!, true);
      await tick();
    }
    if (asks[b].err) fail(`after all failures are over, ${JSON.stringify(a.ranges)} still fails: ${asks[b].err}`);
  }
  ctx.nt(asks.length >= 6);
  ctx.label("failures", hadFailures > 0);
  ctx.label("far", far > 0);
  ctx.label("past-end", asks.some((a) => a.ranges.some((r) => r.end >= total)));
  ctx.label("multi", asks.some((a) => a.ranges.length > 1));
  asks.forEach((a, i) => {
    if (!a.done) fail(`request ${i} never settles`);
    if (a.bad) {
      if (a.res) fail(`request ${i} expects a length of ${total + 1} and gets data of ${total} bytes`);
      return;
    }
    if (a.err) {
      if (hadFailures > a.failuresBefore) return;
      // no failure since the request was made, and none pending at that time
      fail(`request ${i} fails with ${a.err} although the underlying resolver does not`);
    }
    if (!Array.isArray(a.res) || a.res.length !== a.ranges.length) fail(`request ${i}: ${a.res?.length} results for ${a.ranges.length} ranges`);
    a.ranges.forEach((r, k) => {
      const g = Buffer.from(a.res[k].data);
      const w = Buffer.from(buf.subarray(r.start - far, r.end - far + 1));
      if (Buffer.compare(g, w) !== 0) fail(`request ${i}: range ${r.start}-${r.end} (${lenOf(r)} bytes) gives ${g.length} bytes ${g.toString("hex").slice(0, 40)}, want ${w.toString("hex").slice(0, 40)}`);
      if (a.res[k].totalLength !== total) fail(`request ${i}: total length ${a.res[k].totalLength}`);
    });
  });
}

// long histories: hundreds of ranges of one resource, answered in any order
const longCacheArb: fc.Arbitrary<CacheCase> = fc.record({ len: fc.integer({ min: 100, max: 6000 }), n: fc.integer({ min: 20, max: 400 }), seed: fc.nat(1 << 30), style: fc.nat(3) }).map(({ len, n, seed, style }) => {
  const rnd = prng(seed);
  const events: CacheCase["events"] = [];
  if (style === 3) {
    // very many ranges apart from each other, of which early ones are asked for again
    const many = n * 5;
    for (let i = 0; i < many; i++) {
      const again = i > 0 && rnd(5) === 0;
      const at = again ? rnd(i) : i;
      events.push({ e: "ask", r: [[at * 16 + (again ? rnd(4) : 0), again ? rnd(4) : 8]], x: 0 });
      events.push({ e: "reply", i: 0, ok: true });
    }
    return { len: many * 16, far: 0, events };
  }
  for (let i = 0; i < n; i++) {
    const k = rnd(20);
    if (k === 0) events.push({ e: "settle" });
    else if (k < 6) events.push({ e: "reply", i: rnd(100), ok: style !== 1 || rnd(12) > 0 });
    else {
      // often within, next to or across what was asked for before
      const r: [number, number][] = [];
      for (let j = rnd(style === 2 ? 12 : 3); j >= 0; j--) r.push([rnd(3) ? rnd(len) : (i * 17) % len, rnd(4) ? rnd(12) : rnd(300)]);
      events.push({ e: "ask", r, x: rnd(30) === 0 ? 2 : [0, 1, 0, 1, 3][rnd(5)] });
    }
  }
  return { len, far: [0, 0, 2 ** 31 - 60, 2 ** 32 - 60][rnd(4)], events };
});

const rangeArb = fc.tuple(fc.nat(300), fc.oneof(fc.nat(8), fc.nat(200)));

register(
  "C24",
  "several ranges or chunks, or an error response",
  sub("exact", 6000, 150000, httpArb(["multi", "plain", "noconfig", "ignore"]), judgeHttp),
  sub("faulty", 4000, 100000, httpArb(["status", "416", "truncated", "truncated", "missing", "swapped", "one", "badrange"]), judgeHttp),
  sub("large", 960, 12000, httpArb(["multi", "multi", "plain", "noconfig", "ignore", "truncated", "missing", "swapped"], true), judgeHttp),
);

register(
  "C34",
  "some range expects another length than the resource has",
  sub("lengths", 8000, 160000, fc.tuple(httpArb(["multi", "multi", "plain", "noconfig", "ignore"]), fc.array(fc.constantFrom(0, 0, 0, 9, 1, -1, 37, -100, 4096, 2 ** 32), { minLength: 1, maxLength: 3 })).map(([h, expect]) => ({ ...h, expect })), judgeHttp),
);

register(
  "C25",
  "at least 6 requests",
  sub(
    "histories",
    12000,
    200000,
    fc.record({
      len: fc.integer({ min: 1, max: 300 }),
      far: farPart,
      events: fc.array(
        fc.oneof(
          { weight: 5, arbitrary: fc.record({ e: fc.constant("ask" as const), r: fc.array(rangeArb, { minLength: 1, maxLength: 3 }), x: fc.constantFrom(0, 0, 0, 3, 1, 2) }) },
          { weight: 4, arbitrary: fc.record({ e: fc.constant("reply" as const), i: fc.nat(5), ok: fc.nat(5).map((x) => x > 0) }) },
          { weight: 1, arbitrary: fc.record({ e: fc.constant("settle" as const) }) },
        ),
        { maxLength: 16 },
      ),
    }),
    judgeCache,
  ),
  sub("long", 800, 8000, longCacheArb, judgeCache),
);
