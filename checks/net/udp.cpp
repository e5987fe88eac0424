#define V6 0
#include "udp_any.h"
