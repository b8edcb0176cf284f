#include <hqueue.h>
#define NT 4
static HQueueStruct q; static HQueueThreadState ts[NT];
#define KIND 'Q'
#define OPS 4
#define SECS 60
#define EMPTYV EMPTY_QUEUE
#define SETUP() HQueueInit(&q, NT, 1)
#define TSETUP(i) HQueueThreadStateInit(&q, &ts[i], i)
#define PUT(i, v) HQueueApplyEnqueue(&q, &ts[i], v, i)
#define GET(i) HQueueApplyDequeue(&q, &ts[i], i)
#include "qs.h"
