#include "explore.h"
namespace ex
{
Shared* S;
double deadline = 1e18;
int workers = 8;
std::vector<int> trace, preset;
std::vector<std::string> traceText;
std::string scenario;
bool replaying = false;
int kids = 0;
}
