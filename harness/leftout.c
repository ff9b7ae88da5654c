/* What is left out of this build (sources that need GoTools): calling it aborts. */
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C"
#endif
void ifem_left_out_called(void)
{
  fputs("*** called code that is left out of this build (needs GoTools)\n", stderr);
  abort();
}
