// Force-included into the "32-bit tick" builds: unsigned long becomes 32 bits wide, as on the targets the
// libraries are written for, so that a millisecond tick wraps after 2^32.  System headers come first.
#include <assert.h>
#include <limits.h>
#include <math.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <ctype.h>
#include <float.h>
#include <inttypes.h>
#include <string.h>
#include <strings.h>
#include <sys/types.h>
#include <sys/time.h>
#include <stdarg.h>
#include <stdatomic.h>
#define long int
