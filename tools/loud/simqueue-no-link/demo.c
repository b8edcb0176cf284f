#include <simqueue.h>
#define NT 3
static SimQueueStruct q; static SimQueueThreadState ts[NT];
#define KIND 'Q'
#define OPS 3
#define SECS 90
#define EMPTYV EMPTY_QUEUE
#define SETUP() SimQueueStructInit(&q, NT, 0)
#define TSETUP(i) SimQueueThreadStateInit(&q, &ts[i], i)
#define PUT(i, v) SimQueueEnqueue(&q, &ts[i], v, i)
#define GET(i) SimQueueDequeue(&q, &ts[i], i)
#include "qs.h"
