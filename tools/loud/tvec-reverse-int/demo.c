#include <tvec.h>
#include "demosched.h"
int main() { ToggleVector v; int b; for (b = 0; b < 130; b++) { TVEC_INIT(&v, 130); TVEC_REVERSE_BIT(&v, b); if (TVEC_COUNT_BITS(&v) != 1 || !TVEC_IS_SET(&v, b)) DEMO_FAIL("bit %d", b); } return 0; }
