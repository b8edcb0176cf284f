#include <simstack.h>
#define NT 3
#define OPS 5
#define SECS 90
#define KIND 'S'
#define EMPTYV EMPTY_STACK
static SimStackStruct q; static SimStackThreadState ts[NT];
#define SETUP() SimStackStructInit(&q, NT, 0)
#define TSETUP(i) SimStackThreadStateInit(&ts[i], NT, i)
#define PUT(i, v) SimStackPush(&q, &ts[i], v, i)
#define GET(i) SimStackPop(&q, &ts[i], i)
#include "qs.h"
