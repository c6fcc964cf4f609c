#include <dynamic-graph/signal-caster.h>
