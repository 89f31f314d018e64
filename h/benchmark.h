// The examples find benchmark.h through -Iexamples.
#include "examples/benchmark.h"
