#include <dynamic-graph/command.h>
