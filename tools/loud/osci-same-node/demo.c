#include <osci.h>
static OsciStruct l; static OsciThreadState ts[3];
#define NT 3
#define OPS 3
#define SECS 40
#define SETUP() OsciInit(&l, NT, 1)
#define TSETUP(i) OsciThreadStateInit(&ts[i], &l, i)
#define APPLY(i, a) OsciApplyOp(&l, &ts[i], op_f, 0, a, i)
static RetVal op_f(void *, ArgVal, int);
#include "op.h"
