#define SECOND
#include "dbug.c"
