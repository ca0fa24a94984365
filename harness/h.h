#pragma once
#include "sym.h"
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Polygon.h>
#include <lanelet2_core/utility/Utilities.h>
#include <string>
#include <vector>
#include <set>
#include <map>
using namespace lanelet;
#define CHECK(c, m) sym_check((c), m)
#define REACH(m) sym_reach(m)
#define ASSUME(c) sym_assume(c)
#define PARAM(n, d) ((int)sym_param(n, d))
