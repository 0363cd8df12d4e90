#include "ad_gas.hpp"
static const bool done = (md::reg_gas_all<2>(), true);
