/* C14: see lib/nodeapi.py, which generates spec.h */
#include "spec.h"
