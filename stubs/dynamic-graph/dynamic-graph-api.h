#include <dynamic-graph/config.hh>
