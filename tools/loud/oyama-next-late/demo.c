#include <oyama.h>
static OyamaStruct l; static OyamaThreadState ts[3];
#define NT 3
#define OPS 3
#define SECS 30
#define SETUP() OyamaInit(&l, NT)
#define TSETUP(i) OyamaThreadStateInit(&ts[i])
static RetVal op_f(void *, ArgVal, int);
static RetVal op_g(ArgVal a, int p) { return op_f(0, a, p); }
#define APPLY(i, a) OyamaApplyOp(&l, &ts[i], op_g, a, i)
#include "op.h"
