#pragma once
// The headers are written for a precompiled header that opens these namespaces as it goes.
using namespace std;
#include <basiclog.h>
#include <basicsys.h>
using namespace basicsys;
