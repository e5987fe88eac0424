// Properties of single classes of the gateway (event queues, topic matching, ...), checked on the
// compiled classes themselves.
#include "MQTTSNGateway.h"
#include "MQTTSNGWTopic.h"
#include "MQTTSNGWLogmonitor.h"
#undef CONNECT
#include "drive.h"
#include "schedule.h"
#include <algorithm>
std::string gw::scratch;
gwd::World gwd::W;
using gwd::Scn;
typedef std::vector<Scn> Scns;
#include "u_queue.h"
#include "u_topics.h"
#include "u_config.h"
#include "u_log.h"

static const struct
{
	const char* id;
	Scns (*make)();
} CHECKS[] = {
	{ "T01", t01 },
	{ "T04", t04 },
	{ "D01", d01 },
	{ "D02", d02 },
};
static const std::vector<std::string> ASSUMPTIONS = {
	"the compiled classes of the gateway are run, with threads, locks, semaphores and time provided by lib/vos.cpp; a schedule switches threads only at those calls" };
#include "main.h"
