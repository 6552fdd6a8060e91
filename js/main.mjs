import { Ctx } from "./lib/mon.mjs";
const x = new Ctx(process.argv.slice(2));
const where = { C01: "crypto", C02: "crypto", C03: "crypto", C04: "crypto", C06: "crypto", C15: "sym", C16: "sym", C17: "sym", C18: "sym", C21: "witness", C22: "witness", C23: "combined", C24: "combined", C25: "combined", C26: "combined", C27: "combined", C42: "combined", C45: "life", C46: "cost", C47: "world", C48: "own", C50: "page" };
const m = await import(`./m_${where[x.prop] ?? "cross"}.mjs`);
await m[x.prop](x);
await x.finish();
