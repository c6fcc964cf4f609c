#include <dynamic-graph/all-signals.h>
