// A universal circom-style witness program.  What circuit it is, is read from a table at CFG which
// lib/wasmgen.py writes into the data section of the compiled template.
typedef unsigned int u32; typedef unsigned long long u64;
#define IMP(n) __attribute__((import_module("runtime"), import_name(#n)))
#define EXP(n) __attribute__((export_name(#n)))
IMP(exceptionHandler) void exceptionHandler(u32 code);
IMP(printErrorMessage) void printErrorMessage(void);
IMP(writeBufferMessage) void writeBufferMessage(void);
IMP(showSharedRWMemory) void showSharedRWMemory(void);
#define ML 16
struct sig { u32 msb, lsb, size, pos; };              // pos: first entry in inw
struct op { u32 kind, dst, a, b; };                    // 1 dst=a+b 2 dst=a*b 3 dst=const k[a] 4 assert a=b 5 dst=a 6 log a 7 dst=a-b
struct cfg { u32 n32, version, nwit, ninputs, nsig, nops, nconst, pad; u32 prime[ML]; };
#define C ((struct cfg *)0x40000)
#define SIG ((struct sig *)0x41000)
#define INW ((u32 *)0x48000)                           // wire of each input element
#define OPS ((struct op *)0x60000)
#define KON ((u32 *)0x80000)
#define W ((u32 *)0x100000)                            // wires, n32 limbs each
#define SET ((unsigned char *)0x90000)
static u32 rw[ML]; static u32 left; static u32 msg[16]; static u32 mpos;
static u32 *w(u32 i) { return W + (u64)i * C->n32; }
static int geq(const u32 *a, const u32 *b, u32 n) { for (u32 i = n; i-- > 0;) if (a[i] != b[i]) return a[i] > b[i]; return 1; }
static void subn(u32 *a, const u32 *b, u32 n) { u64 br = 0; for (u32 i = 0; i < n; i++) { u64 t = (u64)a[i] - b[i] - br; a[i] = (u32)t; br = (t >> 32) & 1; } }
static void addm(u32 *d, const u32 *a, const u32 *b) {
  u32 n = C->n32, t[ML + 1]; u64 c = 0;
  for (u32 i = 0; i < n; i++) { c += (u64)a[i] + b[i]; t[i] = (u32)c; c >>= 32; }
  if (c || geq(t, C->prime, n)) subn(t, C->prime, n);
  for (u32 i = 0; i < n; i++) d[i] = t[i];
}
static void negm(u32 *d, const u32 *a) {
  u32 n = C->n32, z = 0, t[ML]; for (u32 i = 0; i < n; i++) { z |= a[i]; t[i] = C->prime[i]; }
  subn(t, a, n); for (u32 i = 0; i < n; i++) d[i] = z ? t[i] : 0;
}
static void mulm(u32 *d, const u32 *a, const u32 *b) {
  u32 n = C->n32, acc[ML]; for (u32 i = 0; i < n; i++) acc[i] = 0;
  for (u32 i = n * 32; i-- > 0;) { addm(acc, acc, acc); if (b[i / 32] >> (i % 32) & 1) addm(acc, acc, a); }
  for (u32 i = 0; i < n; i++) d[i] = acc[i];
}
static void run(void) {
  u32 n = C->n32, t[ML];
  for (u32 i = 0; i < C->nops; i++) {
    struct op *o = OPS + i;
    switch (o->kind) {
      case 1: addm(w(o->dst), w(o->a), w(o->b)); break;
      case 2: mulm(t, w(o->a), w(o->b)); for (u32 j = 0; j < n; j++) w(o->dst)[j] = t[j]; break;
      case 3: for (u32 j = 0; j < n; j++) w(o->dst)[j] = KON[o->a * n + j]; break;
      case 4: for (u32 j = 0; j < n; j++) if (w(o->a)[j] != w(o->b)[j]) { msg[0] = 'N'; msg[1] = 'o'; msg[2] = 0; mpos = 0; printErrorMessage(); exceptionHandler(4); } break;
      case 5: for (u32 j = 0; j < n; j++) w(o->dst)[j] = w(o->a)[j]; break;
      case 6: for (u32 j = 0; j < n; j++) rw[j] = w(o->a)[j]; showSharedRWMemory(); msg[0] = '\n'; msg[1] = 0; mpos = 0; writeBufferMessage(); break;
      case 7: negm(t, w(o->b)); addm(w(o->dst), w(o->a), t); break;
    }
  }
}
EXP(getVersion) u32 getVersion(void) { return C->version; }
EXP(getMinorVersion) u32 getMinorVersion(void) { return 1; }
EXP(getPatchVersion) u32 getPatchVersion(void) { return 0; }
EXP(getFieldNumLen32) u32 getFieldNumLen32(void) { return C->n32; }
EXP(getRawPrime) void getRawPrime(void) { for (u32 j = 0; j < C->n32; j++) rw[j] = C->prime[j]; }
EXP(readSharedRWMemory) u32 readSharedRWMemory(u32 i) { return rw[i & (ML - 1)]; }
EXP(writeSharedRWMemory) void writeSharedRWMemory(u32 i, u32 v) { rw[i & (ML - 1)] = v; }
EXP(init) void init(u32 sanity) {
  (void)sanity; u32 n = C->n32;
  for (u32 i = 0; i < C->nwit; i++) for (u32 j = 0; j < n; j++) w(i)[j] = 0;
  w(0)[0] = 1; for (u32 i = 0; i < C->ninputs; i++) SET[i] = 0;
  left = C->ninputs; if (!left) run();
}
static struct sig *find(u32 m, u32 l) { for (u32 i = 0; i < C->nsig; i++) if (SIG[i].msb == m && SIG[i].lsb == l) return SIG + i; return 0; }
EXP(getInputSize) u32 getInputSize(void) { return C->ninputs; }
EXP(getInputSignalSize) int getInputSignalSize(u32 m, u32 l) { struct sig *s = find(m, l); return s ? (int)s->size : -1; }
EXP(setInputSignal) void setInputSignal(u32 m, u32 l, u32 i) {
  struct sig *s = find(m, l);
  if (!s) { exceptionHandler(1); return; }
  if (!left) { exceptionHandler(2); return; }
  if (i >= s->size) { exceptionHandler(6); return; }
  if (SET[s->pos + i]) { exceptionHandler(3); return; }
  SET[s->pos + i] = 1;
  u32 *d = w(INW[s->pos + i]); for (u32 j = 0; j < C->n32; j++) d[j] = rw[j];
  if (!--left) run();
}
EXP(getWitnessSize) u32 getWitnessSize(void) { return C->nwit; }
EXP(getWitness) void getWitness(u32 i) { for (u32 j = 0; j < C->n32; j++) rw[j] = w(i)[j]; }
EXP(getMessageChar) u32 getMessageChar(void) { u32 c = msg[mpos]; if (c) mpos++; return c; }
