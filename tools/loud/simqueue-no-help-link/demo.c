#include <simqueue.h>
#define NT 3
#define OPS 4
#define SECS 60
#define KIND 'Q'
#define EMPTYV EMPTY_QUEUE
static SimQueueStruct q; static SimQueueThreadState ts[NT];
#define SETUP() SimQueueStructInit(&q, NT, 0)
#define TSETUP(i) SimQueueThreadStateInit(&q, &ts[i], i)
#define PUT(i, v) SimQueueEnqueue(&q, &ts[i], v, i)
#define GET(i) SimQueueDequeue(&q, &ts[i], i)
#include "qs.h"
