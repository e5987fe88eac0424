#define V6 1
#include "udp_any.h"
