#include <dynamic-graph/exception-abstract.h>
