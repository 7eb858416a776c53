// one interface of the pair, compiled against the stand-in for the MEX API
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <typeinfo>
#include <qpOASES.hpp>
#include "mex.h"
#include "matrix.h"
