// Properties of the gateway as a whole (G..): every packet sequence of an alphabet, up to a depth, is
// given to the real gateway and to the reference model, and what they send is compared.
#include "drive.h"
#include <algorithm>
std::string gw::scratch;
gwd::World gwd::W;
using namespace gwd;
typedef std::vector<Scn> Scns;
#include "g_basic.h"
#include "g_pubsub.h"
#include "g_adapters.h"
#include "g_robust.h"
#include "g_races.h"
#include "g_stop.h"
#include "g_discovery.h"
#include "g_config.h"
#include "g_params.h"
#include "g_faults.h"
#include "g_aggregate.h"

static const struct
{
	const char* id;
	Scns (*make)();
} CHECKS[] = {
	{ "G01", g01 },
	{ "G02", g02 },
	{ "G03", g03 },
	{ "G04", g04 },
	{ "G05", g05 },
	{ "G06", g06 },
	{ "G07", g07 },
	{ "G08", g08 },
	{ "G09", g09 },
	{ "G10", g10 },
	{ "G11", g11 },
	{ "G12", g12all },
	{ "G13", g13all },
	{ "G14", g14 },
	{ "G15", g15 },
	{ "G16", g16 },
	{ "G17", g17 },
	{ "T02", t02 },
	{ "T03", t03 },
};

static const std::vector<std::string> ASSUMPTIONS = {
	"every transition executes the real gateway program on the virtual operating system of lib/vos.cpp and is compared with the reference model of checks/gw/model.h",
	"steps are given one after another: the gateway comes to rest before the next one (T02 explores the schedules in between)" };
#include "main.h"
