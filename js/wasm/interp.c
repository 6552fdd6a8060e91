// Circom witness-calculator interface over a circuit described by data: used to make circuits at run time.
// Config (u32 words): n32, nWires, nInputs (values), nSignals, nOps, prime[n32], r2[n32], n0inv,
//   signals: {hashMSB, hashLSB, firstWire, size} * nSignals,
//   ops: {kind, wire, nA, nB, nC, then nA+nB+nC terms {wire, coeff[n32]}}: kind 0: wire = A*B + C ; kind 1: assert A*B == C (with a message) ;
//   kind 2: assert without a message ; kind 3: nA wires from `wire` on, each the square of the one before plus the one before that.
// Like a compiled circuit, it relies on exceptionHandler to stop the calculation: it goes on where that returns.
// Built with: clang --target=wasm32 -O2 -fno-builtin -nostdlib -Wl,--no-entry -o interp.wasm interp.c
typedef unsigned int u32; typedef unsigned long long u64;
#define MAXL 16
#define CFGW (1u << 17)
#define IMP(n) __attribute__((import_module("runtime"), import_name(#n)))
#define EXP(n) __attribute__((export_name(#n)))
IMP(exceptionHandler) void exceptionHandler(int);
IMP(printErrorMessage) void printErrorMessage(void);
IMP(writeBufferMessage) void writeBufferMessage(void);
IMP(showSharedRWMemory) void showSharedRWMemory(void);
static u32 cfg[CFGW];
static u32 shared[MAXL], *wires;
static unsigned char *set;
extern unsigned char __heap_base;
static u32 left, started, msgAt;
#define N cfg[0]
static u32 *P(void) { return cfg + 5; }
static u32 *R2(void) { return cfg + 5 + N; }
static u32 N0(void) { return cfg[5 + 2 * N]; }
static u32 *SIG(void) { return cfg + 6 + 2 * N; }
static int geq(const u32 *a, const u32 *b) { for (int i = (int)N - 1; i >= 0; i--) { if (a[i] > b[i]) return 1; if (a[i] < b[i]) return 0; } return 1; }
static u32 sub(u32 *a, const u32 *b) { u64 br = 0; for (u32 i = 0; i < N; i++) { u64 t = (u64)a[i] - b[i] - br; a[i] = (u32)t; br = (t >> 32) & 1; } return (u32)br; }
static void add(u32 *a, const u32 *b) { u64 c = 0; for (u32 i = 0; i < N; i++) { u64 t = (u64)a[i] + b[i] + c; a[i] = (u32)t; c = t >> 32; } if (c || geq(a, P())) sub(a, P()); }
static void mont(u32 *o, const u32 *a, const u32 *b) {
  u32 t[MAXL + 2]; for (u32 i = 0; i < N + 2; i++) t[i] = 0;
  for (u32 i = 0; i < N; i++) {
    u64 c = 0; for (u32 j = 0; j < N; j++) { u64 x = (u64)a[j] * b[i] + t[j] + c; t[j] = (u32)x; c = x >> 32; }
    u64 x = (u64)t[N] + c; t[N] = (u32)x; t[N + 1] = (u32)(x >> 32);
    u32 m = t[0] * N0(); c = ((u64)m * P()[0] + t[0]) >> 32;
    for (u32 j = 1; j < N; j++) { u64 y = (u64)m * P()[j] + t[j] + c; t[j - 1] = (u32)y; c = y >> 32; }
    x = (u64)t[N] + c; t[N - 1] = (u32)x; t[N] = t[N + 1] + (u32)(x >> 32);
  }
  if (t[N] || geq(t, P())) sub(t, P());
  for (u32 i = 0; i < N; i++) o[i] = t[i];
}
static void mul(u32 *o, const u32 *a, const u32 *b) { u32 t[MAXL]; mont(t, a, b); mont(o, t, R2()); }
static u32 *lc(u32 *o, u32 *at, u32 n) {
  u32 t[MAXL]; for (u32 i = 0; i < N; i++) o[i] = 0;
  for (u32 k = 0; k < n; k++, at += 1 + N) { mul(t, at + 1, wires + at[0] * N); add(o, t); }
  return at;
}
static int run(void) {
  u32 *at = SIG() + 4 * cfg[3];
  for (u32 k = 0; k < cfg[4]; k++) {
    u32 kind = at[0], w = at[1], nA = at[2], nB = at[3], nC = at[4]; u32 a[MAXL], b[MAXL], c[MAXL];
    if (kind == 3) {
      for (u32 i = w; i < w + nA; i++) { mul(a, wires + (i - 1) * N, wires + (i - 1) * N); add(a, wires + (i - 2) * N); for (u32 j = 0; j < N; j++) wires[i * N + j] = a[j]; }
      at += 5; continue;
    }
    at = lc(a, at + 5, nA); at = lc(b, at, nB); at = lc(c, at, nC); mul(a, a, b);
    if (kind == 0) { add(a, c); for (u32 i = 0; i < N; i++) wires[w * N + i] = a[i]; }
    else { int same = 1; for (u32 i = 0; i < N; i++) if (a[i] != c[i]) same = 0; if (!same) { if (kind == 1) { msgAt = 0; printErrorMessage(); } return 4; } }
  }
  return 0;
}
static u32 *find(u32 m, u32 l) { u32 *s = SIG(); for (u32 i = 0; i < cfg[3]; i++, s += 4) if (s[0] == m && s[1] == l) return s; return 0; }
EXP(configAddr) u32 configAddr(void) { return (u32)(unsigned long)cfg; }
EXP(getVersion) int getVersion(void) { return 2; }
EXP(getMinorVersion) int getMinorVersion(void) { return 2; }
EXP(getPatchVersion) int getPatchVersion(void) { return 2; }
EXP(getFieldNumLen32) u32 getFieldNumLen32(void) { return N; }
EXP(getSharedRWMemoryStart) u32 getSharedRWMemoryStart(void) { return (u32)(unsigned long)shared; }
EXP(readSharedRWMemory) u32 readSharedRWMemory(u32 i) { return shared[i]; }
EXP(writeSharedRWMemory) void writeSharedRWMemory(u32 i, u32 v) { shared[i] = v; }
EXP(getRawPrime) void getRawPrime(void) { for (u32 i = 0; i < N; i++) shared[i] = P()[i]; }
EXP(getWitnessSize) u32 getWitnessSize(void) { return cfg[1]; }
EXP(getInputSize) u32 getInputSize(void) { return cfg[2]; }
EXP(getWitness) void getWitness(u32 i) { for (u32 k = 0; k < N; k++) shared[k] = wires[i * N + k]; }
EXP(getMessageChar) u32 getMessageChar(void) { static const char m[] = "Error in template Generated\n"; u32 c = (u32)(unsigned char)m[msgAt]; if (c) msgAt++; else msgAt = 0; return c; }
EXP(getInputSignalSize) int getInputSignalSize(u32 m, u32 l) { u32 *s = find(m, l); return s ? (int)s[3] : -1; }
EXP(init) void init(int sanity) { (void)sanity; if (!wires) { u32 base = ((u32)(unsigned long)&__heap_base + 15) & ~15u, end = base + cfg[1] * (4 * N + 1), have = __builtin_wasm_memory_size(0) << 16; if (end > have) __builtin_wasm_memory_grow(0, (end - have + 65535) >> 16); wires = (u32 *)(unsigned long)base; set = (unsigned char *)(wires + cfg[1] * N); } for (u32 i = 0; i < cfg[1] * N; i++) wires[i] = 0; for (u32 i = 0; i < cfg[1]; i++) set[i] = 0; wires[0] = 1; left = cfg[2]; started = 1; if (!left) { int e = run(); if (e) exceptionHandler(e); } }
EXP(setInputSignal) void setInputSignal(u32 m, u32 l, u32 pos) {
  u32 *s = find(m, l);
  if (left == 0) { exceptionHandler(2); return; }
  if (!s) { exceptionHandler(1); return; }
  if (pos >= s[3]) { exceptionHandler(6); return; }
  u32 w = s[2] + pos;
  if (set[w]) { exceptionHandler(3); return; }
  set[w] = 1; for (u32 i = 0; i < N; i++) wires[w * N + i] = shared[i];
  if (--left == 0) { int e = run(); if (e) exceptionHandler(e); }
}
