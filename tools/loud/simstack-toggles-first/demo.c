#include <simstack.h>
#define NT 3
static SimStackStruct q; static SimStackThreadState ts[NT];
#define KIND 'S'
#define OPS 3
#define SECS 60
#define EMPTYV EMPTY_STACK
#define SETUP() SimStackStructInit(&q, NT, 0)
#define TSETUP(i) SimStackThreadStateInit(&ts[i], NT, i)
#define PUT(i, v) SimStackPush(&q, &ts[i], v, i)
#define GET(i) SimStackPop(&q, &ts[i], i)
#include "qs.h"
