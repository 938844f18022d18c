// The system under test: modular sources or the amalgamated distribution.
#pragma once
// STL first: embedDB.h defines min/max macros
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <math.h>
#include <stdlib.h>
#ifdef SUT_DIST
#include "embedDB.h"
#else
#include "embedDB/embedDB.h"
#include "query-interface/advancedQueries.h"
#include "query-interface/schema.h"
#include "embedDBUtility.h"
#endif
#undef min
#undef max
